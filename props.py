"""Per-property budgets and descriptions used by check.py."""

REAL = [
    'internal/ingest, internal/registry, internal/registry/policy, peerutil (repository code, statement-level preemption points inserted at build time)',
    'finder, ingest, admin and reframe servers, HTTP and libp2p, and their clients; discovery against a lotus gateway; importers (scenarios that use them)',
    'command/daemon.go: configuration, start, reload, main loop, shutdown (daemon scenario)',
    'go-legs subscriber, HTTP sync client, go-retryablehttp, net/http client and server, gossipsub and libp2p hosts on mocknet',
    'go-indexer-core engine, result cache and in-memory value store',
    'go-ipld-prime codecs, signature verification (libp2p crypto)',
    'Go runtime scheduler data structures, channels, mutexes, timers (choices taken over by the simulator)',
]
STUB = [
    'disk: in-memory datastore with crash, error, stall and full-disk faults (instead of leveldb; the daemon scenario runs leveldb on in-memory storage)',
    'value store durability: change log with flush/crash semantics around the real in-memory store (instead of storethehash/pogreb)',
    'network: in-memory connections with delay, loss, breaks and stalls, and simulated HTTP publishers (instead of TCP); data-transfer publishers are not simulated',
    'clock: simulated; randomness: seeded',
]
ASSUME = [
    'a single operating-system thread runs all goroutines; preemption happens at synchronisation operations, at every statement of repository code, and at seam calls, so weak-memory effects are not explored',
    'datastore writes are durable when they return (process-crash model); value-store writes are durable once flushed, and a crash keeps some prefix of the unflushed ones',
    'value-store operations are atomic and linearizable',
    'sampling: a clean batch of runs is evidence, not proof',
]

PROPS = {
    'P01': dict(quick=650, thorough=40000),
    'P02': dict(quick=650, thorough=40000),
    'P03': dict(quick=900, thorough=40000),
    'P04': dict(quick=650, thorough=40000),
    'P05': dict(quick=650, thorough=40000),
    'P06': dict(quick=650, thorough=40000),
    'P07': dict(quick=650, thorough=40000),
    'P08': dict(quick=850, thorough=40000),
    'P09': dict(quick=850, thorough=40000),
    'P10': dict(quick=650, thorough=40000),
    'P11': dict(quick=650, thorough=40000),
    'P12': dict(quick=650, thorough=40000),
    'P13': dict(quick=650, thorough=40000),
    'P14': dict(quick=650, thorough=40000),
    'P15': dict(quick=650, thorough=40000),
    'P16': dict(quick=650, thorough=40000),
    'P17': dict(quick=650, thorough=40000),
    'P18': dict(quick=650, thorough=40000),
    'P19': dict(quick=850, thorough=40000),
    'P20': dict(quick=650, thorough=40000),
    'P21': dict(quick=650, thorough=40000),
    'P22': dict(quick=650, thorough=40000),
    'P23': dict(quick=650, thorough=40000),
}
NA = {}
