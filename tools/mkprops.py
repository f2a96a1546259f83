#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ING = "internal/ingest/ingest.go"; LS = "internal/ingest/linksystem.go"; REG = "internal/registry/registry.go"

p("P01", "The index converges to what each advertisement chain says",
  "Once network faults stop and a publisher's current head has been announced, polled or explicitly synced, looking up any multihash returns exactly what replaying that publisher's advertisement chain from oldest to newest gives: every advertised multihash is found under its context with the latest metadata for that context, and multihashes whose context was removed (and not re-advertised later) are not found. This holds for chunked and for HAMT entries, for every batch size, segment size and worker count, for chains with advertisements for one provider or several, for publishers reached over HTTP, and however announcements, syncs and polls interleave.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every advertisement chain (adds, metadata updates, removals, re-adds; chunked or HAMT entries; current and deprecated signature format), every interleaving of announces/syncs/polls and workers, every finite sequence of transient network faults, every tuning configuration",
  "Unit tests ingest a handful of fixed chains on a healthy network with one interleaving; nothing compares the final index with a sequential replay under loss, retries, overlapping syncs and odd batch sizes.",
  [ING, LS], [("oldest-to-newest worker over the staged chain, skipping contexts removed later", ING + ": ingestWorkerLogic"), ("entries sync, batching and indexing", LS + ": ingestAd, ingestEntryChunk, indexAdMultihashes"), ("staging per provider", ING + ": runIngestStep")],
  ["lookup of every multihash of the universe in the index after quiescence", "find responses"])

p("P02", "A crash at any point loses no advertised content and resurrects none",
  "If the indexer process dies at any instant and restarts on whatever its datastore and value store had made durable, then after the publisher's head is synced again the index is exactly what the chain says. In particular, an advertisement is never treated as done after restart while part of its content is missing from the index, and content removed by the chain does not come back.",
  ["crash_points", "schedules", "histories"],
  "every crash instant (before, inside and after every datastore write, value-store write and network exchange), any number of crashes, every durable prefix the stores may keep",
  "No test kills the indexer; the ordering between value-store durability, processed markers and the latest-sync record is never exercised.",
  [ING, LS], [("index first, make durable, then record the advertisement as processed", ING + ": ingestWorkerLogic, markAdProcessed"), ("latest-sync record stops the next traversal", ING + ": GetLatestSync")],
  ["index contents after restart and re-sync", "durable datastore contents"],
  [("processed marker and latest-sync record", "what the indexer believes is already ingested", ING + ": markAdProcessed")])

p("P03", "A failing store never makes the indexer drop an advertisement",
  "If the value store or the datastore returns errors for a while (I/O error, disk full), no advertisement is reported as processed while any of its content has not been stored. Once the errors stop, syncing the same head again brings the index to exactly what the chain says, without operator intervention beyond that sync.",
  ["fault_sequences", "schedules"],
  "every sequence of transient value-store and datastore errors at every call of every ingestion",
  "Tests use in-memory stores that never fail, so the error classification (permanent versus retryable) is untested for storage errors.",
  [ING, LS], [("error classification: permanent errors are skipped, others stop the chain and are retried", ING + ": ingestWorkerLogic"), ("store errors surfaced from batches", LS + ": indexAdMultihashes, storeBatch, ingestAd")],
  ["index contents after the errors stop and the head is synced again", "latest processed advertisement reported while errors occur"])

p("P04", "Only authentic, authorised content is ever indexed",
  "Whatever bytes a publisher or the network delivers, the index only ever contains content from advertisements whose signature verifies under the named provider, or under a publisher that policy allows to publish for that provider, and whose advertisement and entry blocks are exactly the bytes their content identifiers commit to. Tampered, substituted, unsigned or wrongly-signed data never changes any lookup result, and does not prevent later genuine data from being ingested.",
  ["inputs", "fault_sequences", "schedules"],
  "every byzantine or corrupting behaviour of publishers and network on every fetched block, at every position in the chain, under every policy",
  "Tests feed a few locally built bad signatures through a well-behaved transport; corrupted, swapped or replayed blocks on the wire are not sampled.",
  [LS, "api/v0/ingest/schema/envelope.go", "internal/registry/policy/policy.go"], [("verification when a block is stored", LS + ": mkLinkSystem, verifyAdvertisement"), ("signature covers the advertisement", "api/v0/ingest/schema/envelope.go: VerifySignature")],
  ["index contents compared with the genuine chain", "every value-store write"])

p("P05", "Advertisements take effect in chain order; reported progress never lies",
  "For each publisher the content of an advertisement starts entering the index only after every older advertisement of that chain has been dealt with, even when announcements, explicit syncs and polls for the same publisher overlap. The last-processed advertisement the indexer reports for a publisher only ever moves forward along the chain (unless a re-sync is requested or the provider is removed), and when it names an advertisement, everything up to that advertisement is already findable.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent syncs, announces and polls of one or more publishers with any number of workers, with and without transient faults",
  "Existing tests look at the end state of one sync; intermediate states, overlapping syncs and worker interleavings are not observed.",
  [ING, LS], [("one worker per provider at a time", ING + ": ingestWorker (providersBeingProcessed)"), ("reverse-order processing and bail-out on error", ING + ": ingestWorkerLogic"), ("record written after indexing", ING + ": markAdProcessed")],
  ["order of value-store writes", "latest sync reported at arbitrary moments together with index contents"])

p("P06", "Ingestion never wedges: requested syncs always finish",
  "Every explicitly requested sync finishes: it reports the head it brought the index up to, or ends without one when the publisher cannot be reached, is cancelled or fails, within a bounded time after the faults it met have stopped. A slow, stalled, failing or cancelled sync of one publisher never permanently stops ingestion for that publisher or any other.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of concurrent, cancelled and failing syncs over several publishers and any worker count, with stalls and network failures",
  "Tests run one sync at a time to success; cancellation in the middle, several waiters on one publisher and a saturated worker pool are schedule dependent.",
  [ING], [("distribution of processed events to waiting syncs", ING + ": distributeEvents, onAdProcessed, Sync"), ("staging queue to the worker pool", ING + ": runIngestStep, ingestWorker")],
  ["completion of the sync result channel", "progress of later syncs of every publisher"])

p("P07", "No accepted announcement is lost",
  "If the indexer accepts an announcement of a new head (over HTTP, libp2p or gossip, or by being told while it is busy with the same provider), then, and the publisher stays reachable and the indexer stays up, that head or a newer one gets ingested without any further message from the publisher. Repeated or concurrent announcements never leave the index behind the most recently accepted head.",
  ["schedules", "histories"],
  "every timing of announcements relative to running syncs and workers, and every order and multiplicity of announcements",
  "The deferred-announcement hand-off is a race between the announcer and a finishing worker; one test checks one timing.",
  [ING, "server/ingest/handler/ingest_handler.go"], [("deferral of announcements while a provider is being processed", ING + ": Announce, handlePendingAnnounce")],
  ["index contents after the last announcement settles"])

p("P08", "Shutting down is always clean and bounded",
  "Closing the ingester and registry, or stopping the whole daemon, at any moment and with any work in flight, returns in bounded time and never panics, and operations in flight or arriving during shutdown end with a result or an error rather than hanging. After shutdown completes nothing touches the stores any more, and a new instance on the same stores continues from a consistent state.",
  ["schedules", "crash_points"],
  "every moment of shutdown relative to syncs, announcements, polls, registrations, removals, queries and configuration reloads",
  "Tests close an idle instance; close racing with in-flight operations is purely schedule dependent.",
  [ING, REG, "command/daemon.go"], [("close sequence", ING + ": Close; " + REG + ": Close, runPollCheck"), ("daemon main loop and shutdown", "command/daemon.go: daemonCommand")],
  ["return of the close calls", "stores after close", "process survival"])

p("P09", "Hostile or malformed input never takes the indexer down",
  "No advertisement, entry block, announcement or API request, however malformed, makes the indexer process crash, hang or stop serving others. Ingestion from and queries about other providers proceed unaffected, and after an advertisement that can be fetched and decoded but is permanently unusable (bad fields, bad metadata, malformed entries), the publisher's later valid advertisements are ingested.",
  ["inputs", "schedules", "fault_sequences"],
  "every malformed or hostile message, signed or not, at every external interface, interleaved with well-behaved traffic",
  "Tests send a few hand-written bad requests to an idle server and never mix hostile chains with concurrent good ones.",
  [ING, LS, REG, "server/ingest/http/handler.go", "server/finder/http/handler.go", "internal/libp2pserver/server.go", "command/daemon.go"], [("permanent errors are skipped", ING + ": ingestWorkerLogic"), ("address parsing", REG + ": RegisterOrUpdate"), ("request decoding", "server/*/http, server/*/libp2p")],
  ["process survival", "index contents of well-behaved providers", "responses to well-formed requests"])

p("P10", "Acknowledged registrations survive restarts; memory and disk agree",
  "A provider registration, update or removal that was acknowledged is exactly what the registry reports until the next change and after any crash and restart; one that was not acknowledged leaves either the old or the new information, never a mixture. A registration replaces everything known about the provider; concurrent partial updates for a provider never silently undo one another's unrelated information.",
  ["crash_points", "schedules", "fault_sequences"],
  "every crash instant, storage error and interleaving of registrations, updates, removals and queries",
  "Tests restart a registry cleanly once; crashes between memory and disk updates and failing writes are not sampled.",
  [REG], [("single goroutine applies changes and persists each before acknowledging", REG + ": syncRegister, syncPersistProvider, syncRemoveProvider"), ("load at start", REG + ": loadPersistedProviders")],
  ["registry queries before and after restart compared with acknowledged operations"])

p("P11", "Policy decides who may register, announce and publish, at once",
  "A peer that policy does not allow can neither register, be registered through its advertisements or discovery, announce, nor have new advertisements ingested, and a publisher may publish for another provider only where policy says so, from the moment a policy change is acknowledged. Allowing a peer again restores service, and a policy change never affects other peers.",
  ["schedules", "inputs", "histories"],
  "every policy, every sequence of allow/block/replace operations, every interleaving with registrations, announcements, syncs and restarts",
  "Tests check static policies against single calls; changes racing with ingestion and restarts are not covered.",
  ["internal/registry/policy/policy.go", "peerutil/policy.go", REG, ING], [("policy evaluation", "internal/registry/policy/policy.go"), ("checks at registration, announcement and sync", REG + ": Register, Discover; " + LS + ": verifyAdvertisement")],
  ["registry contents, index contents and answers to announcements after an acknowledged policy change"])

p("P12", "Polling keeps live publishers and drops only truly dead ones",
  "A publisher that has been silent longer than its poll interval is polled, so that new advertisements it did not announce get ingested; one that answers is never marked inactive nor removed. One that stays unreachable becomes inactive only after its own retry period and is removed only after its own stop period, using its own overridden settings where configured, and an inactive one that comes back is served again with all its data.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "every history of contact, silence, outage and recovery of several providers over long simulated time, every polling configuration and override",
  "Polling periods are hours; tests call the poll function with millisecond settings on a single provider.",
  [REG, ING], [("poll check", REG + ": runPollCheck, pollProviders"), ("auto sync", ING + ": autoSync")],
  ["registry and find answers at arbitrary simulated times", "requests arriving at publishers"])

p("P13", "Find returns complete, current answers for registered active providers only",
  "At every moment a lookup names only providers that are currently registered and active, with their current addresses, and includes every stored value of every such provider for the multihashes asked, with the stored context and metadata. Looking something up never destroys content of a registered provider, even while providers become inactive, return, are removed or register again concurrently.",
  ["schedules", "histories"],
  "every interleaving of lookups with registration, removal, inactivity, return and ingestion",
  "Lookups delete data of unknown providers in the background; tests never race this with registration changes.",
  ["server/finder/handler/finder_handler.go", REG], [("join of value store with registry, lazy deletion", "server/finder/handler/finder_handler.go: Find")],
  ["find responses compared with value-store and registry contents over the history"])

p("P14", "HTTP, libp2p and reframe answer every query correctly and alike",
  "For any set of multihashes the HTTP, libp2p and delegated-routing interfaces return the same information, each request gets the answer to that request and to no other, and a multihash with no provider is reported as not found. This stays true with many concurrent clients, cancelled and timed-out requests, slow or broken connections and reconnects.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of concurrent requests, cancellations, timeouts and connection failures on every interface",
  "Tests issue one request at a time on a healthy connection, so a late answer matched to a later request cannot show.",
  ["server/finder/http/handler.go", "server/finder/libp2p/handler.go", "server/reframe/reframe.go", "api/v0/libp2pclient/client.go", "api/v0/finder/client"], [("request and response matching on a stream", "api/v0/libp2pclient/client.go"), ("response building", "server/finder/*")],
  ["responses received by clients compared with the index"])

p("P15", "Signed requests are honoured only from their owner and only once",
  "A register, direct-index or discovery request takes effect only if it is signed by the key of the provider it speaks for and the provider is allowed; a request altered in any way or signed by someone else is refused and changes nothing. Within one run of the server no signed request takes effect twice, in whatever order and however often requests are delivered, duplicated or delayed.",
  ["inputs", "schedules", "fault_sequences"],
  "every forged, altered, replayed, reordered and delayed delivery of signed requests over HTTP and libp2p, concurrently",
  "Tests send one valid and a few invalid requests in order; duplication, reordering and concurrent delivery are not sampled.",
  ["server/ingest/handler/ingest_handler.go", "internal/registry/sequences.go", "api/v0/ingest/model"], [("envelope verification", "api/v0/ingest/model"), ("sequence check", "internal/registry/sequences.go")],
  ["registry and index contents after each delivery compared with accepted requests"])

p("P16", "Discovery runs once at a time, paced, bounded and under policy",
  "For one discovery address at most one lookup runs at a time and a new one starts no sooner than the configured wait after the previous ended; every discovery request ends with success or a definite error within the configured timeout however slow or broken the discovery backend is. A successful discovery registers exactly the discovered information for an allowed provider, a failed one changes nothing.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of discovery requests, backend delays, errors and hangs, and registry maintenance",
  "Tests use an instantaneous mock discoverer and one request.",
  [REG], [("in-progress marker and completion time per address", REG + ": syncStartDiscover, syncNeedDiscover, cleanup")],
  ["calls arriving at the discovery backend", "results of discovery requests", "registry contents"])

p("P17", "Bulk imports index every valid entry and report failures",
  "Importing a list of identifiers indexes exactly the valid multihashes in it under the given provider, context and metadata, whatever the line lengths, line endings, batch boundaries or read chunking. If reading or storing fails part-way the import reports failure, and an import reported as successful left nothing out.",
  ["inputs", "fault_sequences", "schedules"],
  "every list content and chunking, every read or store error position, concurrent imports",
  "Tests import one small well-formed file from a reliable reader.",
  ["internal/importer/cidlist.go", "internal/importer/manifest.go", "server/admin/http/handler.go"], [("line reader", "internal/importer"), ("batching to the indexer", "server/admin/http/handler.go")],
  ["index contents and reported result after import"])

p("P18", "Rate limits bound how fast each limited publisher is fetched from",
  "Where a rate limit applies to a publisher, the number of blocks fetched from it in any window during one sync never exceeds the burst plus rate times the window; publishers the limit does not apply to are not slowed down. Changing the limit at run time affects every later sync and never breaks or blocks one that is running.",
  ["schedules", "configurations", "histories"],
  "every rate limit setting and change, chain shape and sync interleaving, measured on the simulated clock",
  "Rates need time to observe; no test measures them.",
  [ING], [("limiter choice per publisher", ING + ": getRateLimiter, SetRateLimit, configRateLimit")],
  ["timestamps of block requests arriving at publishers"])

p("P19", "Reconfiguring a running indexer loses and duplicates nothing",
  "Changing worker count, store batch size, rate limit or policy while ingestion is in progress, directly or by reloading the daemon's configuration file, takes effect without stopping, restarting or corrupting ingestion: all chains still converge to the correct index, each provider is still processed by one worker at a time, and no more advertisements are processed in parallel than there are workers.",
  ["schedules", "configurations", "histories"],
  "every sequence of reconfigurations at every moment of concurrent ingestion of several publishers",
  "Tests change settings on an idle indexer.",
  [ING, "command/daemon.go", "server/admin/http/handler.go"], [("worker pool resizing", ING + ": RunWorkers"), ("batch size", ING + ": SetBatchSize"), ("reload of the configuration file", "command/daemon.go: reloadConfig")],
  ["index contents", "number of providers whose content is being written at once", "completion of reconfiguration calls"])

p("P20", "Re-sync repairs the index from the publisher's chain",
  "Requesting a re-sync of a publisher, to a given depth or without limit, while no other sync of that publisher is in progress, ingests again every advertisement in that range even though it was processed before, so that content lost from or changed in the value store for those advertisements is restored to what the chain says; a depth-limited sync covers exactly the newest that many advertisements, and a re-sync is reported as complete only when this is done. An interrupted or failed re-sync can be repeated and never leaves the index permanently worse than before.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every chain, depth, loss of index content, and interruption by faults or crashes",
  "Tests resync one chain on a healthy network once.",
  [ING], [("marking advertisements unprocessed while traversing", ING + ": Sync, markAdUnprocessed, makeLimitedDepthSelector")],
  ["index contents after re-sync"])

p("P21", "Ingestion leaves no temporary data behind",
  "After an advertisement chain has been processed and ingestion is idle, the datastore holds no fetched entry block of the advertisements that were ingested, nor those advertisements themselves (save ones that an overlapping sync fetched again), whatever transient faults, retries, duplicate announcements or entry formats were involved; it grows only by a bounded amount per advertisement and provider.",
  ["histories", "fault_sequences", "inputs"],
  "every chain and every finite sequence of transient faults and retries",
  "Leftover blocks are invisible to functional tests.",
  [ING, LS], [("deletion after processing", LS + ": ingestEntryChunk, ingestAd; " + ING + ": markAdProcessed")],
  ["datastore contents after quiescence"])

p("P22", "The node's configuration and identity survive init, upgrade and interruption",
  "Loading a configuration file gives exactly what the file says, with the documented defaults for what it leaves out, or an error; the node never runs under another identity than the one its configuration holds. Initialising never changes an existing configuration, and writes the settings it was given. However an upgrade of the configuration ends, by success, an error or being killed at any moment, the previous configuration with the node's identity is still there in full, in place or as its backup; a successful upgrade changes no setting, and a daemon that reads the file meanwhile gets the old settings, the new ones or an error. None of this touches other files of the operator.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "every configuration file, every sequence of init, edit and upgrade, every failing or interrupted file operation, and every moment at which a daemon reads the file",
  "Tests write and load one default configuration on a healthy disk.",
  ["config/config.go", "config/init.go", "config/identity.go", "config/ingest.go", "config/discovery.go", "config/indexer.go", "command/init.go", "command/fsutil.go"],
  [("load and defaults", "config/config.go: Load, populateUnset"), ("upgrade and save", "config/config.go: UpgradeConfig, Save"), ("identity", "config/identity.go: Decode"), ("init command", "command/init.go: initCommand; command/fsutil.go: checkWritable")],
  ["contents of the configuration directory", "result of the init command", "loaded configuration and identity"])

p("P23", "Operator commands do what they report, with exactly the arguments given",
  "For each command that talks to an indexer (allow, block, reload-config, sync, import, import-providers, register, find, providers), with the indexer named by flag, environment or configuration file and reached over IPv4 or IPv6: if the command reports success it had its effect at that indexer with exactly the arguments given, and what find and providers print is what the indexer holds; if it cannot work it reports an error and changes nothing; it ends in bounded time. Importing providers from another indexer registers and syncs every provider in the list that policy allows and that is not registered yet, whatever else the list contains, and changes no provider that is registered, even one that registers meanwhile.",
  ["inputs", "fault_sequences", "histories", "schedules"],
  "every sequence of commands and arguments, every network fault between command and indexer and every list that the other indexer serves",
  "Almost no command has a test; none is run against a running daemon.",
  ["command/admin.go", "command/import.go", "command/register.go", "command/find.go", "command/providers.go", "command/flags.go", "api/v0/admin/client/http/client.go", "server/admin/http/handler.go", REG],
  [("commands", "command/*.go"), ("admin client and server", "api/v0/admin/client/http/client.go; server/admin/http/handler.go"), ("importing providers", REG + ": ImportProviders")],
  ["exit of the command", "output of the command", "answers of the daemon's HTTP interfaces", "requests publishers receive", "index contents"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
