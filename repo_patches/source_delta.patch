From 51e51e52bfe55fc9fb549f8dd72bafb048e3bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:52 +0000
Subject: [PATCH 01/43] fix: verify that fetched blocks match their CID

Blocks fetched over HTTP are not verified by the transport, so a corrupted
or substituted block was stored and ingested under the wrong CID.
---
 internal/ingest/linksystem.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..8d5fd06 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -62,6 +62,18 @@ func mkLinkSystem(ds datastore.Batching, reg *registry.Registry) ipld.LinkSystem
 
 			log := log.With("cid", c)
 
+			// Check that the data is what the CID commits to. Data fetched over
+			// HTTP has not been verified before it gets here.
+			sum, err := c.Prefix().Sum(origBuf)
+			if err != nil {
+				log.Errorw("Cannot compute hash of received data", "err", err)
+				return errors.New("bad ipld data")
+			}
+			if !sum.Equals(c) {
+				log.Errorw("Received data does not match its CID", "computed", sum)
+				return errors.New("data does not match cid")
+			}
+
 			// Decode the node to check its type.
 			n, err := decodeIPLDNode(codec, buf, basicnode.Prototype.Any)
 			if err != nil {
-- 
2.43.0


From 0d9a71bd50d2dca26e47b044d79d9bca3c492fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 02/43] fix: do not block ingestion on readers of ad processed
 events

distributeEvents blocked, holding outEventsMutex, when a waiting Sync was not
reading its channel. With the workers blocked sending events and the Sync
waiting for the workers to take its result, ingestion stopped for good.
---
 internal/ingest/ingest.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..159779b 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -535,9 +535,14 @@ func (ing *Ingester) distributeEvents() {
 // the list of channels to be notified on changes, and closes the channel to
 // allow any reading goroutines to stop waiting on the channel.
 func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, context.CancelFunc) {
-	// Channel is buffered to prevent distribute() from blocking if a reader is
-	// not reading the channel immediately.
+	// Events are queued so that distributeEvents never blocks on a reader that
+	// is not reading its channel. A reader that is waiting for a sync does not
+	// read until the sync is done, and the sync may itself be waiting for the
+	// ingestion that is sending the events.
 	ch := make(chan adProcessedEvent, 1)
+	out := make(chan adProcessedEvent, 1)
+	go queueEvents(ch, out)
+
 	ing.outEventsMutex.Lock()
 	defer ing.outEventsMutex.Unlock()
 
@@ -569,14 +574,39 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
+				close(ch)
 				break
 			}
 		}
 	}
-	return ch, cncl
+	return out, cncl
+}
+
+// queueEvents delivers the events read from in to out, queuing those that the
+// reader of out is not ready for. When in is closed, undelivered events are
+// discarded and out is closed.
+func queueEvents(in <-chan adProcessedEvent, out chan<- adProcessedEvent) {
+	defer close(out)
+	var queue []adProcessedEvent
+	for {
+		var send chan<- adProcessedEvent
+		var next adProcessedEvent
+		if len(queue) != 0 {
+			send = out
+			next = queue[0]
+		}
+		select {
+		case event, ok := <-in:
+			if !ok {
+				return
+			}
+			queue = append(queue, event)
+		case send <- next:
+			queue = queue[1:]
+		}
+	}
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From cda70641f37c83282081cd7bcfe5694c3564fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:48 +0000
Subject: [PATCH 03/43] fix: do not reorder ads when an ad is processed while
 its sync is staged

If a worker finished processing an ad between the check of its processed
state and loading it, then the ad was skipped but older ads, marked
unprocessed by a resync, were ingested again on top of it.
---
 internal/ingest/ingest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 159779b..b8b7244 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -770,6 +770,11 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 
 		ad, err := ing.loadAd(c)
 		if err != nil {
+			if ing.adAlreadyProcessed(c) {
+				// A worker finished processing this ad, and removed it, since
+				// checking above. All earlier ads are also processed.
+				break
+			}
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
 			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
 			continue
-- 
2.43.0


From be3407d5b009e34f0cc86d55904627c33f2e9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:01 +0000
Subject: [PATCH 04/43] fix: retry advertisements whose entries could not be
 stored

---
 internal/ingest/linksystem.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 8d5fd06..79cb7f8 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -37,6 +37,8 @@ import (
 var (
 	errBadAdvert              = errors.New("bad advertisement")
 	errInvalidAdvertSignature = errors.New("invalid advertisement signature")
+	errLoadNode               = errors.New("cannot fetch the node from datastore")
+	errStoreBatch             = errors.New("cannot store multihashes in indexer")
 )
 
 // mkLinkSystem makes the indexer linkSystem which checks advertisement
@@ -369,6 +371,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	ing.signalMetricsUpdate()
 
 	if len(errsIngestingEntryChunks) > 0 {
+		for _, err := range errsIngestingEntryChunks {
+			// Not a problem with the entries, so processing them must be
+			// tried again later.
+			if errors.Is(err, errLoadNode) || errors.Is(err, errStoreBatch) {
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
+			}
+		}
 		return adIngestError{adIngestEntryChunkErr, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
 	}
 	return nil
@@ -492,11 +501,11 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 func (ing *Ingester) storeBatch(value indexer.Value, batch []multihash.Multihash, isRm bool) error {
 	if isRm {
 		if err := ing.indexer.Remove(value, batch...); err != nil {
-			return fmt.Errorf("cannot remove multihashes from indexer: %w", err)
+			return fmt.Errorf("%w: %s", errStoreBatch, err)
 		}
 	} else {
 		if err := ing.indexer.Put(value, batch...); err != nil {
-			return fmt.Errorf("cannot put multihashes into indexer: %w", err)
+			return fmt.Errorf("%w: %s", errStoreBatch, err)
 		}
 	}
 	return nil
@@ -542,7 +551,7 @@ func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Nod
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
 	if err != nil {
-		return nil, fmt.Errorf("cannot fetch the node from datastore: %w", err)
+		return nil, fmt.Errorf("%w: %s", errLoadNode, err)
 	}
 	return decodeIPLDNode(c.Prefix().Codec, bytes.NewBuffer(val), prototype)
 }
-- 
2.43.0


From 57e29f43229c8582506449b74610df5b5e2780ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 05/43] fix: do not skip advertisements that cannot be read
 from the datastore

---
 internal/ingest/ingest.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index b8b7244..725e69a 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -776,7 +776,19 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 				break
 			}
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
-			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
+			if errors.Is(err, errLoadNode) {
+				// Newer ads cannot be processed before this one, and older
+				// ads may not be processed if this one already was.
+				log.Errorw("Failed to load advertisement, not ingesting this chain", "cid", c, "err", err)
+				ing.inEvents <- adProcessedEvent{
+					publisher: syncFinishedEvent.PeerID,
+					headAdCid: syncFinishedEvent.Cid,
+					adCid:     c,
+					err:       err,
+				}
+				return
+			}
+			log.Errorw("Failed to decode advertisement CID, skipping", "cid", c, "err", err)
 			continue
 		}
 		providerID, err := peer.Decode(ad.Provider)
-- 
2.43.0


From 076750dad7c63d171ae6631e69315a21aaa3f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 06/43] fix: skip advertisements without metadata instead of
 retrying them forever

---
 internal/ingest/linksystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 79cb7f8..dcb7582 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -191,6 +191,11 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		return nil
 	}
 
+	// The value store does not accept values without metadata.
+	if len(ad.Metadata) == 0 {
+		return adIngestError{adIngestMalformedErr, errors.New("advertisement missing metadata")}
+	}
+
 	// If advertisement has no entries, then this is for updating metadata only.
 	if ad.Entries == schema.NoEntries {
 		// If this is a metadata update only, then ad will not have entries.
-- 
2.43.0


From ae3da7dce3eb576c6f7bdb2bf21f5a187c18b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 07/43] fix: flush the value store before marking an
 advertisement as processed

---
 internal/ingest/ingest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 725e69a..8b6e7c0 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -936,6 +936,13 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 			"progress", fmt.Sprintf("%d of %d", count, splitAtIndex))
 
 		err := ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
+		if err == nil {
+			// The content of the ad must be in permanent storage before the ad
+			// is marked as processed.
+			if err = ing.indexer.Flush(); err != nil {
+				err = adIngestError{adIngestIndexerErr, fmt.Errorf("failed to flush indexer: %w", err)}
+			}
+		}
 		if err == nil {
 			// No error at all, this ad was processed successfully.
 			stats.Record(context.Background(), metrics.AdIngestSuccessCount.M(1))
-- 
2.43.0


From bb19f7a4f0a586aca5a2ba09b6f7e01310ea5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 08/43] fix: mark advertisements as processed atomically with
 the latest sync

---
 internal/ingest/ingest.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 8b6e7c0..af774e5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -495,17 +495,27 @@ func (ing *Ingester) adAlreadyProcessed(adCid cid.Cid) bool {
 
 func (ing *Ingester) markAdProcessed(publisher peer.ID, adCid cid.Cid) error {
 	log.Debugw("Persisted latest sync", "peer", publisher, "cid", adCid)
-	err := ing.ds.Put(context.Background(), datastore.NewKey(adProcessedPrefix+adCid.String()), []byte{1})
+	// Do everything in one batch, so that a crash cannot leave an ad that is
+	// marked processed and that the latest sync does not include.
+	ctx := context.Background()
+	batch, err := ing.ds.Batch(ctx)
+	if err != nil {
+		return err
+	}
+	err = batch.Put(ctx, datastore.NewKey(adProcessedPrefix+adCid.String()), []byte{1})
 	if err != nil {
 		return err
 	}
 	// This ad is processed, so remove it from the datastore.
-	err = ing.ds.Delete(context.Background(), datastore.NewKey(adCid.String()))
+	err = batch.Delete(ctx, datastore.NewKey(adCid.String()))
 	if err != nil {
-		// Log the error, but do not return. Continue on to save the procesed ad.
-		log.Errorw("Cound not remove advertisement from datastore", "err", err)
+		return err
+	}
+	err = batch.Put(ctx, datastore.NewKey(syncPrefix+publisher.String()), adCid.Bytes())
+	if err != nil {
+		return err
 	}
-	return ing.ds.Put(context.Background(), datastore.NewKey(syncPrefix+publisher.String()), adCid.Bytes())
+	return batch.Commit(ctx)
 }
 
 // distributeEvents reads a adProcessedEvent, sent by a peer handler, and
-- 
2.43.0


From 18437128001be57686e376aecb79adc5b5dbcbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:29 +0000
Subject: [PATCH 09/43] fix: do not process later ads when an ad cannot be
 marked as processed

---
 internal/ingest/ingest.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index af774e5..f3867d6 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -929,7 +929,14 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 				"progress", fmt.Sprintf("%d of %d", count, splitAtIndex))
 
 			if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
-				log.Errorw("Failed to mark ad as processed", "err", markErr)
+				log.Errorw("Failed to mark ad as processed. Bailing early, not ingesting later ads.", "adCid", ai.cid, "err", markErr)
+				ing.inEvents <- adProcessedEvent{
+					publisher: assignment.publisher,
+					headAdCid: assignment.adInfos[0].cid,
+					adCid:     ai.cid,
+					err:       markErr,
+				}
+				return
 			}
 			// Distribute the atProcessedEvent notices to waiting Sync calls.
 			ing.inEvents <- adProcessedEvent{
@@ -992,7 +999,16 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 		}
 
 		if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
-			log.Errorw("Failed to mark ad as processed", "err", markErr)
+			// If later ads were processed, then this ad could be processed
+			// again after them.
+			log.Errorw("Failed to mark ad as processed. Bailing early, not ingesting later ads.", "adCid", ai.cid, "err", markErr)
+			ing.inEvents <- adProcessedEvent{
+				publisher: assignment.publisher,
+				headAdCid: assignment.adInfos[0].cid,
+				adCid:     ai.cid,
+				err:       markErr,
+			}
+			return
 		}
 		// Distribute the atProcessedEvent notices to waiting Sync calls.
 		ing.inEvents <- adProcessedEvent{
-- 
2.43.0


From d612209957d08efe73df14d89a09eb5d2c35c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 10/43] fix: skip malformed HAMT entries instead of crashing or
 retrying forever

Iterating a malformed HAMT could panic, and other errors in malformed entries
were treated as indexer errors, so that an advertisement chain containing such
an advertisement was never ingested past it.
---
 internal/ingest/linksystem.go | 52 +++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index dcb7582..c689278 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -239,7 +239,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 
 	node, err := ing.loadNode(syncedFirstEntryCid, basicnode.Prototype.Any)
 	if err != nil {
-		return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load first entry after sync: %w", err)}
+		return adIngestError{entriesErrState(err), fmt.Errorf("failed to load first entry after sync: %w", err)}
 	}
 
 	var errsIngestingEntryChunks []error
@@ -264,7 +264,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// Load the CID as HAMT root node.
 		hn, err := ing.loadHamt(syncedFirstEntryCid)
 		if err != nil {
-			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
+			return adIngestError{entriesErrState(err), fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 		}
 
 		// Sync all the links in the hamt, since so far we have only synced the root.
@@ -289,11 +289,14 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		//
 		// Group the mutlihashes in StoreBatchSize batches and process as usual.
 		var mhs []multihash.Multihash
-		mi := hn.MapIterator()
+		mi, err := hamtIterator(hn)
+		if err != nil {
+			return adIngestError{entriesErrState(err), fmt.Errorf("faild to iterate through HAMT: %w", err)}
+		}
 		for !mi.Done() {
-			k, _, err := mi.Next()
+			k, err := hamtNext(mi)
 			if err != nil {
-				return adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+				return adIngestError{entriesErrState(err), fmt.Errorf("faild to iterate through HAMT: %w", err)}
 			}
 			ks, err := k.AsString()
 			if err != nil {
@@ -546,12 +549,49 @@ func (ing *Ingester) loadHamt(c cid.Cid) (*hamt.Node, error) {
 	if root == nil {
 		return nil, errors.New("cannot unwrap node as hamt.HashMapRoot")
 	}
+	lsys := ing.lsys
+	lsys.StorageReadOpener = func(lctx ipld.LinkContext, lnk ipld.Link) (io.Reader, error) {
+		r, err := ing.lsys.StorageReadOpener(lctx, lnk)
+		if err != nil {
+			return nil, fmt.Errorf("%w: %s", errLoadNode, err)
+		}
+		return r, nil
+	}
 	hn := hamt.Node{
 		HashMapRoot: *root,
-	}.WithLinking(ing.lsys, schema.Linkproto)
+	}.WithLinking(lsys, schema.Linkproto)
 	return hn, nil
 }
 
+// entriesErrState returns the ingestion error state for an error reading the
+// entries of an advertisement. If the entries could be read from the datastore,
+// then the entries themselves are malformed, which is a permanent error.
+func entriesErrState(err error) adIngestState {
+	if errors.Is(err, errLoadNode) {
+		return adIngestIndexerErr
+	}
+	return adIngestMalformedErr
+}
+
+// hamtIterator and hamtNext iterate a HAMT received from a publisher. The HAMT
+// implementation panics if some parts of the HAMT are malformed.
+func hamtIterator(hn *hamt.Node) (mi ipld.MapIterator, err error) {
+	defer recoverMalformedHamt(&err)
+	return hn.MapIterator(), nil
+}
+
+func hamtNext(mi ipld.MapIterator) (k ipld.Node, err error) {
+	defer recoverMalformedHamt(&err)
+	k, _, err = mi.Next()
+	return k, err
+}
+
+func recoverMalformedHamt(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("malformed HAMT: %v", r)
+	}
+}
+
 func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Node, error) {
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
-- 
2.43.0


From 0841d1a0ca5ffddfb4e7efdf92abfbfce2fa87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 11/43] fix: do not panic on unparseable provider addresses

An advertisement or direct index request with an address that cannot be parsed
crashed the indexer. Return an error, and skip advertisements with such
addresses, since they cannot ever be ingested. Also do not panic when the
addresses of a changed publisher are not known.
---
 internal/ingest/linksystem.go | 3 +++
 internal/registry/errors.go   | 1 +
 internal/registry/registry.go | 9 ++++++---
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index c689278..d9a0745 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -176,6 +176,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	err = ing.reg.RegisterOrUpdate(context.Background(), providerID, ad.Addresses, adCid, pubInfo)
 	if err != nil {
+		if errors.Is(err, registry.ErrBadAddress) {
+			return adIngestError{adIngestMalformedErr, fmt.Errorf("could not register/update provider info: %w", err)}
+		}
 		return adIngestError{adIngestRegisterProviderErr, fmt.Errorf("could not register/update provider info: %w", err)}
 	}
 
diff --git a/internal/registry/errors.go b/internal/registry/errors.go
index a44ec09..6966d78 100644
--- a/internal/registry/errors.go
+++ b/internal/registry/errors.go
@@ -3,6 +3,7 @@ package registry
 import "errors"
 
 var (
+	ErrBadAddress          = errors.New("bad address")
 	ErrInProgress          = errors.New("discovery already in progress")
 	ErrCannotPublish       = errors.New("publisher not allowed to publish to other provider")
 	ErrNotAllowed          = errors.New("provider not allowed by policy")
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..735ee7f 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -418,7 +418,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -452,7 +455,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return v0.NewError(fmt.Errorf("%w: %s", ErrBadAddress, err), http.StatusBadRequest)
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
@@ -890,7 +893,7 @@ func stringsToMultiaddrs(addrs []string) ([]multiaddr.Multiaddr, error) {
 		var err error
 		maddrs[i], err = multiaddr.NewMultiaddr(m)
 		if err != nil {
-			return nil, fmt.Errorf("bad address: %s", err)
+			return nil, err
 		}
 	}
 	return maddrs, nil
-- 
2.43.0


From b1646c39accfed4fe3444f47def3d9a9bb1be857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 12/43] fix: skip malformed entry chunks when syncing entries
 in segments

A chunk that cannot be ingested fails a segmented sync, and the error of the
sync was treated as temporary, so the advertisement chain was never ingested
past an advertisement with a malformed entry chunk.
---
 internal/ingest/linksystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index d9a0745..0895013 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -366,7 +366,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					actions.SetNextSyncCid(cid.Undef)
 				}
 			}))
-			if err != nil {
+			// If the sync failed because of an error ingesting an entry chunk,
+			// then that error, and not that of the sync, is handled below.
+			if err != nil && len(errsIngestingEntryChunks) == 0 {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
 					return adIngestError{adIngestContentNotFound, fmt.Errorf("failed to sync entries: %w", err)}
 				}
-- 
2.43.0


From 7594f0863adc2c2e16d44768d2ea10a42c1bbeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:13 +0000
Subject: [PATCH 13/43] fix: do not lose announces deferred while a provider is
 being released

An announce that is deferred after the pending announce is handled, or while
another announce is being handled, was not handled until some later time that
advertisements of that provider were processed.
---
 internal/ingest/ingest.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f3867d6..512a64a 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -432,7 +432,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
-		<-pc
+		ing.releaseProvider(provider, pc)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -442,6 +442,13 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		// If the provider was released in the meantime, then there may be
+		// nobody to handle the deferred announce.
+		select {
+		case pc <- struct{}{}:
+			ing.releaseProvider(provider, pc)
+		default:
+		}
 		return nil
 	}
 }
@@ -856,8 +863,7 @@ func (ing *Ingester) ingestWorker() {
 			ing.providersBeingProcessedMu.Unlock()
 			pc <- struct{}{}
 			ing.ingestWorkerLogic(pid)
-			ing.handlePendingAnnounce(pid)
-			<-pc
+			ing.releaseProvider(pid, pc)
 		}
 	}
 }
@@ -1019,6 +1025,26 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 }
 
+// releaseProvider handles any pending announce for a provider, and ends the
+// processing of the provider. Announces that are deferred before the processing
+// has ended are also handled.
+func (ing *Ingester) releaseProvider(pid peer.ID, pc chan struct{}) {
+	for {
+		ing.handlePendingAnnounce(pid)
+		<-pc
+		if _, found := ing.providersPendingAnnounce.Load(pid); !found {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+		default:
+			// The provider is being processed again, and the pending announce
+			// is handled when that is done.
+			return
+		}
+	}
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0


From 697ffc9e10572b95b1822c42d535e637bc481847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:12 +0000
Subject: [PATCH 14/43] fix: do not fail a sync when an ad in it is processed
 meanwhile

A worker may process, and remove, an advertisement between the time a concurrent
sync of the same chain traverses that advertisement and the time the block hook
is called for it. The sync then failed and newer advertisements were not
ingested.
---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 512a64a..9c9e587 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -229,6 +229,12 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 	// Therefore, we only attempt to load advertisements here and signal failure if the
 	// load fails.
 	if ad, err := ing.loadAd(c); err != nil {
+		if ing.adAlreadyProcessed(c) {
+			// The ad was processed, and removed, during the sync. All earlier
+			// ads are also processed.
+			actions.SetNextSyncCid(cid.Undef)
+			return
+		}
 		actions.FailSync(err)
 	} else if ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
-- 
2.43.0


From 0460b8d77ec3ff97c9a9a2e497a995592d5098b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:20 +0000
Subject: [PATCH 15/43] fix: do not drop newer staged ads when an older sync
 finishes later

---
 internal/ingest/ingest.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 9c9e587..d335546 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -839,11 +839,19 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		}
 		ing.providersBeingProcessedMu.Unlock()
 
-		oldAssignment := wa.Swap(workerAssignment{
+		assignment := workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
-		})
+		}
+		oldAssignment := wa.Swap(assignment)
+
+		if newer := newerAds(oldAssignment, assignment); len(newer) != 0 {
+			// The replaced assignment, which is not processed yet, has ads that
+			// are newer than those of this sync. Keep these.
+			assignment.adInfos = append(newer, adInfos...)
+			oldAssignment = wa.Swap(assignment)
+		}
 
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
@@ -853,6 +861,21 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
+// newerAds returns the ads in oldAssignment that are newer than all the ads in
+// assignment, if both are parts of the same chain.
+func newerAds(oldAssignment interface{}, assignment workerAssignment) []adInfo {
+	old, ok := oldAssignment.(workerAssignment)
+	if !ok || old.none || old.publisher != assignment.publisher {
+		return nil
+	}
+	for i, ai := range old.adInfos {
+		if ai.cid == assignment.adInfos[0].cid {
+			return old.adInfos[:i:i]
+		}
+	}
+	return nil
+}
+
 func (ing *Ingester) ingestWorker() {
 	log.Debug("started ingest worker")
 	defer ing.waitForWorkers.Done()
-- 
2.43.0


From 6720b4369b76bf11a06ed8e3feea0f40e8eeb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:08 +0000
Subject: [PATCH 16/43] fix: stop syncs before closing what they use when
 closing the ingester

---
 internal/ingest/ingest.go     | 143 +++++++++++++++++++++++++++-------
 internal/ingest/linksystem.go |   2 +-
 2 files changed, 114 insertions(+), 31 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index d335546..b941db6 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -35,6 +35,12 @@ import (
 
 var log = logging.Logger("indexer/ingest")
 
+// closeTimeout is how long to wait, when closing the ingester, for syncs in
+// progress to stop.
+const closeTimeout = 10 * time.Second
+
+var errClosed = errors.New("ingester closed")
+
 // prefix used to track latest sync in datastore.
 const (
 	// syncPrefix identifies the latest sync for each provider.
@@ -103,8 +109,16 @@ type Ingester struct {
 	outEventsChans map[peer.ID][]chan adProcessedEvent
 	outEventsMutex sync.Mutex
 
+	// ctx is canceled when the ingester is closing.
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	// closed is true when the ingester is closing, and no more operations may
+	// start. An operation is started by adding to waitForPendingSyncs.
+	closed              bool
+	closeMutex          sync.Mutex
 	waitForPendingSyncs sync.WaitGroup
-	closePendingSyncs   chan struct{}
+	waitForLoops        sync.WaitGroup
 
 	cancelOnSyncFinished context.CancelFunc
 
@@ -152,14 +166,14 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		cfg:         cfg,
 		inEvents:    make(chan adProcessedEvent, 1),
 
-		closePendingSyncs: make(chan struct{}),
-
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
 		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
 		toWorkers:               make(chan providerID),
 		closeWorkers:            make(chan struct{}),
 	}
 
+	ing.ctx, ing.cancel = context.WithCancel(context.Background())
+
 	var err error
 	ing.rateApply, ing.rateBurst, ing.rateLimit, err = configRateLimit(cfg.RateLimit)
 	if err != nil {
@@ -203,6 +217,8 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		return nil, errors.New("ingester worker count must be > 0")
 	}
 	ing.RunWorkers(cfg.IngestWorkerCount)
+
+	ing.waitForLoops.Add(3)
 	go ing.runIngesterLoop()
 
 	// Start distributor to send SyncFinished messages to interested parties.
@@ -257,35 +273,62 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
-	// Close leg transport.
-	err := ing.sub.Close()
+	var err error
+	ing.closeOnce.Do(func() {
+		// Do not start any more operations, and stop those in progress. This
+		// must be done before closing the subscriber, since an operation that
+		// is using the subscriber would panic.
+		ing.closeMutex.Lock()
+		ing.closed = true
+		ing.closeMutex.Unlock()
+		ing.cancel()
+		close(ing.closeWorkers)
 
-	// Dismiss any event readers.
-	ing.outEventsMutex.Lock()
-	for _, chans := range ing.outEventsChans {
-		for _, ch := range chans {
-			close(ch)
+		done := make(chan struct{})
+		go func() {
+			ing.waitForPendingSyncs.Wait()
+			ing.waitForWorkers.Wait()
+			close(done)
+		}()
+		timer := time.NewTimer(closeTimeout)
+		select {
+		case <-done:
+		case <-timer.C:
+			// Closing the subscriber ends data-transfer syncs that do not
+			// respond to being canceled.
+			log.Warn("Closing with syncs in progress")
 		}
-	}
-	ing.outEventsChans = nil
-	ing.outEventsMutex.Unlock()
+		timer.Stop()
 
-	ing.closeOnce.Do(func() {
+		// Close leg transport.
+		err = ing.sub.Close()
 		ing.cancelOnSyncFinished()
-		close(ing.closeWorkers)
-		ing.waitForWorkers.Wait()
-		close(ing.closePendingSyncs)
-		ing.waitForPendingSyncs.Wait()
+		<-done
+
+		// Stop the metrics goroutine.
+		close(ing.sigUpdate)
+		ing.waitForLoops.Wait()
 
 		// Stop the distribution goroutine.
 		close(ing.inEvents)
-
-		close(ing.sigUpdate)
 	})
 
 	return err
 }
 
+// startPending starts an operation that Close waits for. Returns false if the
+// ingester is closed. If true, then waitForPendingSyncs.Done must be called
+// when the operation has ended.
+func (ing *Ingester) startPending() bool {
+	ing.closeMutex.Lock()
+	defer ing.closeMutex.Unlock()
+	if ing.closed {
+		return false
+	}
+	ing.waitForPendingSyncs.Add(1)
+	return true
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -323,11 +366,24 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 
 	out := make(chan cid.Cid, 1)
 
-	ing.waitForPendingSyncs.Add(1)
+	if !ing.startPending() {
+		return nil, errClosed
+	}
 	go func() {
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		// Cancel the sync if the ingester is closed.
+		ctx, cancelSync := context.WithCancel(ctx)
+		defer cancelSync()
+		go func() {
+			select {
+			case <-ing.ctx.Done():
+				cancelSync()
+			case <-ctx.Done():
+			}
+		}()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -411,9 +467,6 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			case <-ctx.Done():
 				log.Warnw("Sync cancelled", "err", ctx.Err())
 				return
-			case <-ing.closePendingSyncs:
-				log.Warnw("Sync cancelled because of close")
-				return
 			}
 		}
 	}()
@@ -426,6 +479,11 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	provider := addrInfo.ID
 	log := log.With("provider", provider, "cid", nextCid, "addrs", addrInfo.Addrs)
 
+	if !ing.startPending() {
+		return errClosed
+	}
+	defer ing.waitForPendingSyncs.Done()
+
 	ing.providersBeingProcessedMu.Lock()
 	pc, ok := ing.providersBeingProcessed[provider]
 	if !ok {
@@ -644,6 +702,7 @@ func (ing *Ingester) signalMetricsUpdate() {
 // metricsUpdate periodically updates metrics. This goroutine exits when the
 // sigUpdate channel is closed, when Close is called.
 func (ing *Ingester) metricsUpdater() {
+	defer ing.waitForLoops.Done()
 	hasUpdate := true
 	t := time.NewTimer(time.Minute)
 
@@ -686,10 +745,21 @@ func (ing *Ingester) removePublisher(ctx context.Context, publisherID peer.ID) e
 }
 
 func (ing *Ingester) autoSync() {
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
+	defer ing.waitForLoops.Done()
+
+	ctx := ing.ctx
+	for {
+		var provInfo *registry.ProviderInfo
+		var ok bool
+		select {
+		case provInfo, ok = <-ing.reg.SyncChan():
+			if !ok {
+				return
+			}
+		case <-ctx.Done():
+			return
+		}
 
-	for provInfo := range ing.reg.SyncChan() {
 		if provInfo.Deleted() {
 			if err := ing.removePublisher(ctx, provInfo.Publisher); err != nil {
 				log.Errorw("Error removing provider", "err", err, "provider", provInfo.AddrInfo.ID)
@@ -703,7 +773,9 @@ func (ing *Ingester) autoSync() {
 
 		// If a separate goroutine, attempt to sync the provider at its last
 		// know publisher.
-		ing.waitForPendingSyncs.Add(1)
+		if !ing.startPending() {
+			return
+		}
 		go func(pubID peer.ID, pubAddr multiaddr.Multiaddr, provID peer.ID) {
 			defer ing.waitForPendingSyncs.Done()
 
@@ -771,6 +843,7 @@ func (ing *Ingester) RunWorkers(n int) {
 }
 
 func (ing *Ingester) runIngesterLoop() {
+	defer ing.waitForLoops.Done()
 	for syncFinishedEvent := range ing.toStaging {
 		ing.runIngestStep(syncFinishedEvent)
 	}
@@ -856,7 +929,12 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
-			ing.toWorkers <- providerID(p)
+			select {
+			case ing.toWorkers <- providerID(p):
+			case <-ing.ctx.Done():
+				// The ingester is closing.
+				return
+			}
 		}
 	}
 }
@@ -1084,13 +1162,18 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	if !found {
 		return
 	}
+	if !ing.startPending() {
+		// The ingester is closing.
+		return
+	}
+	defer ing.waitForPendingSyncs.Done()
 	pa, ok := v.(pendingAnnounce)
 	if !ok {
 		log.Errorw("Cannot handle pending announce; unexpected type", "got", v)
 		return
 	}
 	log = log.With("cid", pa.nextCid, "addrinfo", pa.addrInfo)
-	err := ing.sub.Announce(context.Background(), pa.nextCid, pa.addrInfo.ID, pa.addrInfo.Addrs)
+	err := ing.sub.Announce(ing.ctx, pa.nextCid, pa.addrInfo.ID, pa.addrInfo.Addrs)
 	if err != nil {
 		log.Errorw("Failed to handle pending announce", "err", err)
 		return
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 0895013..0cbf992 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -222,7 +222,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	log = log.With("entriesCid", entriesCid)
 
-	ctx := context.Background()
+	ctx := ing.ctx
 	if ing.syncTimeout != 0 {
 		var cancel context.CancelFunc
 		ctx, cancel = context.WithTimeout(ctx, ing.syncTimeout)
-- 
2.43.0


From 6cdaf2f4d1514765e1a4250a5e433a293ff7f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:39 +0000
Subject: [PATCH 17/43] fix: do not wait forever for a sync whose head is
 already processed

---
 internal/ingest/ingest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index b941db6..2246fa1 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -439,12 +439,16 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			log.Errorw("Failed to sync with provider", "err", err)
 			return
 		}
+		if c == cid.Undef {
+			// The publisher does not have any advertisements.
+			return
+		}
 		// Do not persist the latest sync here, because that is done after
 		// processing the ad.
 
 		// If latest head had already finished syncing, then do not wait for
 		// syncDone since it will never happen.
-		if latest == c && !resync {
+		if !resync && (latest == c || ing.adAlreadyProcessed(c)) {
 			log.Infow("Latest advertisement already processed", "adCid", c)
 			out <- c
 			return
-- 
2.43.0


From a8211a7f75a8ae5caffc0ed2ef4741c3f39ef28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:39 +0000
Subject: [PATCH 18/43] fix: persist provider changes before applying them in
 memory

---
 internal/registry/registry.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 735ee7f..ebd801d 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -684,12 +684,14 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 }
 
 func (r *Registry) syncRegister(ctx context.Context, info *ProviderInfo) error {
-	r.providers[info.AddrInfo.ID] = info
+	// Persist first, so that what is in memory is also what is in the
+	// datastore if this fails.
 	err := r.syncPersistProvider(ctx, info)
 	if err != nil {
 		err = fmt.Errorf("could not persist provider: %s", err)
 		return v0.NewError(err, http.StatusInternalServerError)
 	}
+	r.providers[info.AddrInfo.ID] = info
 	return nil
 }
 
@@ -864,21 +866,19 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 }
 
 func (r *Registry) syncRemoveProvider(ctx context.Context, providerID peer.ID) error {
-	// Remove the provider from the registry.
-	delete(r.providers, providerID)
-
-	if r.dstore == nil {
-		return nil
+	if r.dstore != nil {
+		dsKey := peerIDToDsKey(providerID)
+		err := r.dstore.Delete(ctx, dsKey)
+		if err != nil {
+			return err
+		}
+		if err = r.dstore.Sync(ctx, dsKey); err != nil {
+			return err
+		}
 	}
 
-	dsKey := peerIDToDsKey(providerID)
-	err := r.dstore.Delete(ctx, dsKey)
-	if err != nil {
-		return err
-	}
-	if err = r.dstore.Sync(ctx, dsKey); err != nil {
-		return err
-	}
+	// Remove the provider from the registry.
+	delete(r.providers, providerID)
 	return nil
 }
 
-- 
2.43.0


From 375342f30387bed7919918f0eb80775fef77a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:59 +0000
Subject: [PATCH 19/43] fix: update registered providers atomically

---
 internal/registry/registry.go | 72 +++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index ebd801d..b099826 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -315,6 +315,30 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
+	err := r.checkRegister(info)
+	if err != nil {
+		return err
+	}
+
+	// If provider is allowed and publisher is allowed to publish for the
+	// provider, then register.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegister(ctx, info)
+	}
+
+	err = <-errCh
+	if err != nil {
+		return err
+	}
+
+	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	return nil
+}
+
+// checkRegister checks that the provider information is valid, and that policy
+// allows the provider to register.
+func (r *Registry) checkRegister(info *ProviderInfo) error {
 	if len(info.AddrInfo.Addrs) == 0 {
 		return errors.New("missing provider address")
 	}
@@ -340,20 +364,6 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
-
-	// If provider is allowed and publisher is allowed to publish for the
-	// provider, then register.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-
-	err = <-errCh
-	if err != nil {
-		return err
-	}
-
-	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
 	return nil
 }
 
@@ -398,9 +408,22 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // If publisher has a valid ID, then the data in publisher replaces the
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
+	maddrs, err := stringsToMultiaddrs(addrs)
+	if err != nil {
+		return v0.NewError(fmt.Errorf("%w: %s", ErrBadAddress, err), http.StatusBadRequest)
+	}
+
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegisterOrUpdate(ctx, providerID, maddrs, adID, publisher)
+	}
+	return <-errCh
+}
+
+func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID, maddrs []multiaddr.Multiaddr, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
 	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
+	info := r.providers[providerID]
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
@@ -452,11 +475,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 		}
 	}
 
-	if len(addrs) != 0 {
-		maddrs, err := stringsToMultiaddrs(addrs)
-		if err != nil {
-			return v0.NewError(fmt.Errorf("%w: %s", ErrBadAddress, err), http.StatusBadRequest)
-		}
+	if len(maddrs) != 0 {
 		info.AddrInfo.Addrs = maddrs
 	}
 
@@ -471,16 +490,13 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	// If there is a new providerID or publisherID then do a full Register that
 	// checks the allow policy.
 	if fullRegister {
-		return r.Register(ctx, info)
+		if err := r.checkRegister(info); err != nil {
+			return err
+		}
 	}
 
-	// If laready registered and no new IDs, register without verification.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-	err := <-errCh
-	if err != nil {
+	// If already registered and no new IDs, register without verification.
+	if err := r.syncRegister(ctx, info); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 2e5550b0b10af9a1356f70713857fa68a2795223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:53 +0000
Subject: [PATCH 20/43] fix: do not panic or hang when the registry is used
 while closing

---
 internal/registry/errors.go   |   1 +
 internal/registry/registry.go | 115 +++++++++++++++++++++++++++++-----
 2 files changed, 99 insertions(+), 17 deletions(-)

diff --git a/internal/registry/errors.go b/internal/registry/errors.go
index 6966d78..325e0ff 100644
--- a/internal/registry/errors.go
+++ b/internal/registry/errors.go
@@ -4,6 +4,7 @@ import "errors"
 
 var (
 	ErrBadAddress          = errors.New("bad address")
+	ErrClosed              = errors.New("registry closed")
 	ErrInProgress          = errors.New("discovery already in progress")
 	ErrCannotPublish       = errors.New("publisher not allowed to publish to other provider")
 	ErrNotAllowed          = errors.New("provider not allowed by policy")
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index b099826..eb9f8df 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -39,6 +39,7 @@ type Registry struct {
 	closed    chan struct{}
 	closeOnce sync.Once
 	closing   chan struct{}
+	stop      chan struct{}
 	dstore    datastore.Datastore
 	providers map[peer.ID]*ProviderInfo
 	sequences *sequences
@@ -52,6 +53,9 @@ type Registry struct {
 	rediscoverWait   time.Duration
 
 	syncChan chan *ProviderInfo
+	// syncChanLock is held for reading while sending to syncChan outside of
+	// the run goroutine, and for writing while closing it.
+	syncChanLock sync.RWMutex
 }
 
 // ProviderInfo is an immutable data structure that holds information about a
@@ -160,6 +164,7 @@ func NewRegistry(ctx context.Context, cfg config.Discovery, dstore datastore.Dat
 		actions:   make(chan func()),
 		closed:    make(chan struct{}),
 		closing:   make(chan struct{}),
+		stop:      make(chan struct{}),
 		policy:    regPolicy,
 		providers: map[peer.ID]*ProviderInfo{},
 		sequences: newSequences(0),
@@ -244,8 +249,24 @@ func (r *Registry) SyncChan() <-chan *ProviderInfo {
 func (r *Registry) run() {
 	defer close(r.closed)
 
-	for action := range r.actions {
-		action()
+	for {
+		select {
+		case action := <-r.actions:
+			action()
+		case <-r.stop:
+			return
+		}
+	}
+}
+
+// do tells the run goroutine to run an action. Returns false, without running
+// the action, if the registry is closed.
+func (r *Registry) do(action func()) bool {
+	select {
+	case r.actions <- action:
+		return true
+	case <-r.closed:
+		return false
 	}
 }
 
@@ -279,12 +300,14 @@ running:
 		close(done)
 	}
 	<-done
+	r.syncChanLock.Lock()
 	close(r.syncChan)
+	r.syncChanLock.Unlock()
 
 	// Wait for any pending discoveries to complete, then stop the main run
 	// goroutine.
 	r.discoverWait.Wait()
-	close(r.actions)
+	close(r.stop)
 }
 
 // Discover begins the process of discovering and verifying a provider.  The
@@ -303,8 +326,11 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 	// the provider's address.
 
 	errCh := make(chan error, 1)
-	r.actions <- func() {
+	ok := r.do(func() {
 		r.syncStartDiscover(peerID, discoveryAddr, errCh)
+	})
+	if !ok {
+		return ErrClosed
 	}
 	if sync {
 		return <-errCh
@@ -323,8 +349,11 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 	// If provider is allowed and publisher is allowed to publish for the
 	// provider, then register.
 	errCh := make(chan error, 1)
-	r.actions <- func() {
+	ok := r.do(func() {
 		errCh <- r.syncRegister(ctx, info)
+	})
+	if !ok {
+		return ErrClosed
 	}
 
 	err = <-errCh
@@ -414,8 +443,11 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	}
 
 	errCh := make(chan error, 1)
-	r.actions <- func() {
+	ok := r.do(func() {
 		errCh <- r.syncRegisterOrUpdate(ctx, providerID, maddrs, adID, publisher)
+	})
+	if !ok {
+		return ErrClosed
 	}
 	return <-errCh
 }
@@ -508,9 +540,12 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 func (r *Registry) IsRegistered(providerID peer.ID) bool {
 	done := make(chan struct{})
 	var found bool
-	r.actions <- func() {
+	ok := r.do(func() {
 		_, found = r.providers[providerID]
 		close(done)
+	})
+	if !ok {
+		return false
 	}
 	<-done
 	return found
@@ -519,13 +554,16 @@ func (r *Registry) IsRegistered(providerID peer.ID) bool {
 // ProviderInfo returns information for a registered provider
 func (r *Registry) ProviderInfo(providerID peer.ID) *ProviderInfo {
 	infoChan := make(chan *ProviderInfo)
-	r.actions <- func() {
+	ok := r.do(func() {
 		stats.Record(context.Background(), metrics.ProviderCount.M(int64(len(r.providers))))
 		info, ok := r.providers[providerID]
 		if ok && !info.Inactive() {
 			infoChan <- info
 		}
 		close(infoChan)
+	})
+	if !ok {
+		return nil
 	}
 
 	return <-infoChan
@@ -534,13 +572,16 @@ func (r *Registry) ProviderInfo(providerID peer.ID) *ProviderInfo {
 // providerInfoAlways returns information for a registered provider even if inactive.
 func (r *Registry) providerInfoAlways(providerID peer.ID) *ProviderInfo {
 	infoChan := make(chan *ProviderInfo)
-	r.actions <- func() {
+	ok := r.do(func() {
 		stats.Record(context.Background(), metrics.ProviderCount.M(int64(len(r.providers))))
 		info, ok := r.providers[providerID]
 		if ok {
 			infoChan <- info
 		}
 		close(infoChan)
+	})
+	if !ok {
+		return nil
 	}
 
 	return <-infoChan
@@ -550,7 +591,7 @@ func (r *Registry) providerInfoAlways(providerID peer.ID) *ProviderInfo {
 func (r *Registry) AllProviderInfo() []*ProviderInfo {
 	var infos []*ProviderInfo
 	done := make(chan struct{})
-	r.actions <- func() {
+	ok := r.do(func() {
 		infos = make([]*ProviderInfo, 0, len(r.providers))
 		for _, info := range r.providers {
 			if !info.Inactive() {
@@ -558,6 +599,9 @@ func (r *Registry) AllProviderInfo() []*ProviderInfo {
 			}
 		}
 		close(done)
+	})
+	if !ok {
+		return nil
 	}
 	<-done
 	return infos
@@ -617,9 +661,7 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 	// Start gorouting to sync with all the new providers.
 	go func() {
 		for _, pinfo := range newProvs {
-			select {
-			case r.syncChan <- pinfo:
-			case <-r.closing:
+			if !r.sendSync(pinfo) {
 				return
 			}
 		}
@@ -631,10 +673,13 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error {
 	var pinfo *ProviderInfo
 	errChan := make(chan error)
-	r.actions <- func() {
+	ok := r.do(func() {
 		pinfo = r.providers[providerID]
 		// Remove provider from datastore and memory.
 		errChan <- r.syncRemoveProvider(ctx, providerID)
+	})
+	if !ok {
+		return ErrClosed
 	}
 	err := <-errChan
 	if err != nil {
@@ -643,16 +688,43 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	if pinfo != nil {
 		// Tell ingester to delete its provider data.
 		pinfo.deleted = true
-		r.syncChan <- pinfo
+		r.sendSync(pinfo)
 	}
 	return nil
 }
 
+// sendSync sends provider information to the reader of the sync channel.
+// Returns false if not sent because the registry is closing.
+func (r *Registry) sendSync(info *ProviderInfo) bool {
+	r.syncChanLock.RLock()
+	defer r.syncChanLock.RUnlock()
+
+	select {
+	case <-r.closing:
+		return false
+	default:
+	}
+	select {
+	case r.syncChan <- info:
+		return true
+	case <-r.closing:
+		return false
+	}
+}
+
 func (r *Registry) CheckSequence(peerID peer.ID, seq uint64) error {
 	return r.sequences.check(peerID, seq)
 }
 
 func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- error) {
+	select {
+	case <-r.closing:
+		// Do not start discovery that Close does not wait for.
+		errCh <- ErrClosed
+		return
+	default:
+	}
+
 	err := r.syncNeedDiscover(spID)
 	if err != nil {
 		errCh <- err
@@ -675,10 +747,13 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 			defer cancel()
 		}
 
+		defer r.discoverWait.Done()
+
 		discoverData, discoverErr := r.discover(ctx, peerID, spID)
-		r.actions <- func() {
+		done := make(chan struct{})
+		ok := r.do(func() {
+			defer close(done)
 			defer close(errCh)
-			defer r.discoverWait.Done()
 
 			// Update discovery completion time.
 			r.discoverTimes[spID] = time.Now()
@@ -695,7 +770,13 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 				errCh <- err
 				return
 			}
+		})
+		if !ok {
+			errCh <- ErrClosed
+			close(errCh)
+			return
 		}
+		<-done
 	}()
 }
 
-- 
2.43.0


From e11b2db3fdd5b68378e52f50863a235cd1b70d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:24 +0000
Subject: [PATCH 21/43] fix: check policy when updating an already registered
 provider

A provider, or its publisher, that policy stopped allowing after the
provider was registered could still update its registration and have new
advertisements ingested.
---
 internal/registry/registry.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index eb9f8df..662959c 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -377,19 +377,25 @@ func (r *Registry) checkRegister(info *ProviderInfo) error {
 		return err
 	}
 
+	return r.checkPolicy(info.AddrInfo.ID, info.Publisher)
+}
+
+// checkPolicy checks that policy allows the provider, and allows the
+// publisher, if there is one, to publish on behalf of the provider.
+func (r *Registry) checkPolicy(providerID, publisherID peer.ID) error {
 	// If provider is not allowed, then ignore request.
-	if !r.policy.Allowed(info.AddrInfo.ID) {
+	if !r.policy.Allowed(providerID) {
 		return v0.NewError(ErrNotAllowed, http.StatusForbidden)
 	}
 
 	// If publisher is valid and different than the provider, check if the
 	// publisher is allowed, and is also allowed to publish on behalf of the
 	// provider.
-	if info.Publisher.Validate() == nil && info.Publisher != info.AddrInfo.ID {
-		if !r.policy.Allowed(info.Publisher) {
+	if publisherID.Validate() == nil && publisherID != providerID {
+		if !r.policy.Allowed(publisherID) {
 			return v0.NewError(ErrPublisherNotAllowed, http.StatusForbidden)
 		}
-		if !r.policy.PublishAllowed(info.Publisher, info.AddrInfo.ID) {
+		if !r.policy.PublishAllowed(publisherID, providerID) {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
@@ -520,14 +526,19 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 	info.lastContactTime = now
 
 	// If there is a new providerID or publisherID then do a full Register that
-	// checks the allow policy.
+	// validates the provider information and checks the allow policy. Otherwise,
+	// only check the policy, since it may have changed since the provider was
+	// registered.
+	var err error
 	if fullRegister {
-		if err := r.checkRegister(info); err != nil {
-			return err
-		}
+		err = r.checkRegister(info)
+	} else {
+		err = r.checkPolicy(providerID, publisher.ID)
+	}
+	if err != nil {
+		return err
 	}
 
-	// If already registered and no new IDs, register without verification.
 	if err := r.syncRegister(ctx, info); err != nil {
 		return err
 	}
-- 
2.43.0


From 718d91ddaedfcfb2e199198bd1c1c95005cf7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:27 +0000
Subject: [PATCH 22/43] fix: do not apply poll overrides to other providers

The overriding settings of one provider were used for all providers that
were checked after it.
---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 662959c..e9e699b 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -931,6 +931,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From c241cc9d72645c0da36f860c71537640a95547ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:42 +0000
Subject: [PATCH 23/43] fix: poll all providers that are due

Only one or two of the providers that were due were handed to the ingester
at a time, because the sync channel has room for one. The others were not
polled, yet marked inactive and removed as if they had not responded, and
the ingester was not always told about removed providers.
---
 internal/registry/registry.go | 56 ++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index e9e699b..74f26c0 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -56,6 +56,11 @@ type Registry struct {
 	// syncChanLock is held for reading while sending to syncChan outside of
 	// the run goroutine, and for writing while closing it.
 	syncChanLock sync.RWMutex
+	// syncQueue has the providers to send to syncChan, in order, and
+	// syncQueued the latest information to send for each of them.
+	syncQueue     []peer.ID
+	syncQueued    map[peer.ID]*ProviderInfo
+	syncQueueLock sync.Mutex
 }
 
 // ProviderInfo is an immutable data structure that holds information about a
@@ -174,8 +179,9 @@ func NewRegistry(ctx context.Context, cfg config.Discovery, dstore datastore.Dat
 
 		discoverer: discoverer,
 
-		dstore:   dstore,
-		syncChan: make(chan *ProviderInfo, 1),
+		dstore:     dstore,
+		syncChan:   make(chan *ProviderInfo),
+		syncQueued: map[peer.ID]*ProviderInfo{},
 	}
 
 	count, err := r.loadPersistedProviders(ctx)
@@ -699,11 +705,48 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	if pinfo != nil {
 		// Tell ingester to delete its provider data.
 		pinfo.deleted = true
-		r.sendSync(pinfo)
+		r.queueSync(pinfo)
 	}
 	return nil
 }
 
+// queueSync queues provider information to be sent to the reader of the sync
+// channel, without waiting for the reader. This replaces information about the
+// same provider that is not sent yet.
+func (r *Registry) queueSync(info *ProviderInfo) {
+	r.syncQueueLock.Lock()
+	defer r.syncQueueLock.Unlock()
+
+	if _, ok := r.syncQueued[info.AddrInfo.ID]; !ok {
+		r.syncQueue = append(r.syncQueue, info.AddrInfo.ID)
+		if len(r.syncQueue) == 1 {
+			go r.sendQueued()
+		}
+	}
+	r.syncQueued[info.AddrInfo.ID] = info
+}
+
+// sendQueued sends queued provider information until the queue is empty.
+func (r *Registry) sendQueued() {
+	r.syncQueueLock.Lock()
+	defer r.syncQueueLock.Unlock()
+
+	for len(r.syncQueue) != 0 {
+		id := r.syncQueue[0]
+		info := r.syncQueued[id]
+		r.syncQueueLock.Unlock()
+		ok := r.sendSync(info)
+		r.syncQueueLock.Lock()
+		if !ok {
+			return
+		}
+		if r.syncQueued[id] == info {
+			r.syncQueue = r.syncQueue[1:]
+			delete(r.syncQueued, id)
+		}
+	}
+}
+
 // sendSync sends provider information to the reader of the sync channel.
 // Returns false if not sent because the registry is closing.
 func (r *Registry) sendSync(info *ProviderInfo) bool {
@@ -957,6 +1000,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
+					continue
 				}
 				// Tell the ingester to remove data for the provider.
 				info.deleted = true
@@ -965,11 +1009,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// This will exclude the provider from find responses.
 				info.inactive = true
 			}
-			select {
-			case r.syncChan <- info:
-			default:
-				log.Debugw("Sync channel blocked, skipping auto-sync", "publisher", info.Publisher)
-			}
+			r.queueSync(info)
 		}
 	}
 }
-- 
2.43.0


From 588a3b4f1c9ee3c569718a50c07a7ea2acbaf4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:42 +0000
Subject: [PATCH 24/43] fix: do not drop providers that respond to polling with
 nothing new

Only ingesting a new advertisement counted as contact with a provider, so a
provider without new advertisements was marked inactive and then removed
although it responded to each poll.
---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 2246fa1..3fd7f61 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -791,6 +791,12 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher responded, even if there is nothing new. Update the
+			// time of last contact.
+			err = ing.reg.RegisterOrUpdate(ctx, provID, nil, cid.Undef, peer.AddrInfo{})
+			if err != nil {
+				log.Errorw("Failed to update contact with provider", "err", err)
+			}
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
-- 
2.43.0


From 86663df9e028eb71dc36e7d4a6f14ac0d4a06e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:36 +0000
Subject: [PATCH 25/43] fix: end a sync that was combined with a later one that
 fails

---
 internal/ingest/ingest.go | 56 +++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 3fd7f61..7237d8d 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -57,6 +57,24 @@ type adProcessedEvent struct {
 	adCid cid.Cid
 	// A non-nil value indicates failure to process the ad for adCid.
 	err error
+	// Ads of the chain that are not processed because of the failure. The
+	// syncs of different heads may have been combined, so the sync of any of
+	// these has ended.
+	notDone []adInfo
+}
+
+// ended returns true if the event means that the sync with the head c has
+// ended.
+func (e *adProcessedEvent) ended(c cid.Cid) bool {
+	if e.adCid == c || e.err != nil && e.headAdCid == c {
+		return true
+	}
+	for _, ai := range e.notDone {
+		if ai.cid == c {
+			return true
+		}
+	}
+	return false
 }
 
 type providerID peer.ID
@@ -459,11 +477,12 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			select {
 			case adProcessedEvent := <-syncDone:
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
-				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
+				if adProcessedEvent.ended(c) {
 					// If an error occurred then the adProcessedEvent.adCid
 					// will be the cid that caused the error, and there will
 					// not be any future adProcessedEvents. Therefore check the
-					// headAdCid to see if this was the sync that was started.
+					// headAdCid, and the ads that are not processed, to see if
+					// this was the sync that was started.
 					out <- c
 					ing.signalMetricsUpdate()
 					return
@@ -1053,12 +1072,7 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 
 			if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
 				log.Errorw("Failed to mark ad as processed. Bailing early, not ingesting later ads.", "adCid", ai.cid, "err", markErr)
-				ing.inEvents <- adProcessedEvent{
-					publisher: assignment.publisher,
-					headAdCid: assignment.adInfos[0].cid,
-					adCid:     ai.cid,
-					err:       markErr,
-				}
+				ing.sendIngestError(assignment, i, markErr)
 				return
 			}
 			// Distribute the atProcessedEvent notices to waiting Sync calls.
@@ -1112,12 +1126,7 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 
 			// Tell anyone waiting that the sync finished for this head because
 			// of error.  TODO(mm) would be better to propagate the error.
-			ing.inEvents <- adProcessedEvent{
-				publisher: assignment.publisher,
-				headAdCid: assignment.adInfos[0].cid,
-				adCid:     ai.cid,
-				err:       err,
-			}
+			ing.sendIngestError(assignment, i, err)
 			return
 		}
 
@@ -1125,12 +1134,7 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 			// If later ads were processed, then this ad could be processed
 			// again after them.
 			log.Errorw("Failed to mark ad as processed. Bailing early, not ingesting later ads.", "adCid", ai.cid, "err", markErr)
-			ing.inEvents <- adProcessedEvent{
-				publisher: assignment.publisher,
-				headAdCid: assignment.adInfos[0].cid,
-				adCid:     ai.cid,
-				err:       markErr,
-			}
+			ing.sendIngestError(assignment, i, markErr)
 			return
 		}
 		// Distribute the atProcessedEvent notices to waiting Sync calls.
@@ -1142,6 +1146,18 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 }
 
+// sendIngestError tells anyone waiting for any of the ads that are not ingested,
+// because of an error with the ad at failedIndex, that their sync is finished.
+func (ing *Ingester) sendIngestError(assignment workerAssignment, failedIndex int, err error) {
+	ing.inEvents <- adProcessedEvent{
+		publisher: assignment.publisher,
+		headAdCid: assignment.adInfos[0].cid,
+		adCid:     assignment.adInfos[failedIndex].cid,
+		notDone:   assignment.adInfos[:failedIndex+1],
+		err:       err,
+	}
+}
+
 // releaseProvider handles any pending announce for a provider, and ends the
 // processing of the provider. Announces that are deferred before the processing
 // has ended are also handled.
-- 
2.43.0


From 83f707ce2e8fc67b82a96a7d437d338fd036507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 26/43] fix: do not delete the content of a registered provider
 when looking it up

Find deleted the content of providers that are inactive, since they have no
provider info, and of all providers when the registry was closed. It also
deleted the content of a provider that was removed and registered again
before the deletion took place.
---
 internal/registry/registry.go           | 15 +++++++++++++++
 server/finder/handler/finder_handler.go | 13 +++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 74f26c0..51dfaad 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -568,6 +568,21 @@ func (r *Registry) IsRegistered(providerID peer.ID) bool {
 	return found
 }
 
+// IfNotRegistered calls f if the provider is not in the registry, and does not
+// let the provider be registered until f has returned. Returns false, without
+// calling f, if the provider is in the registry or if the registry is closed.
+func (r *Registry) IfNotRegistered(providerID peer.ID, f func()) bool {
+	done := make(chan bool, 1)
+	ok := r.do(func() {
+		_, found := r.providers[providerID]
+		if !found {
+			f()
+		}
+		done <- !found
+	})
+	return ok && <-done
+}
+
 // ProviderInfo returns information for a registered provider
 func (r *Registry) ProviderInfo(providerID peer.ID) *ProviderInfo {
 	infoChan := make(chan *ProviderInfo)
diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..dfdabc9 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -65,11 +65,16 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 					// deleted provider. Delete the contextID from the core,
 					// because there is no way to delete all records for the
 					// provider without a scan of the entire core valuestore.
+					// No info is also returned if the provider is inactive, or if
+					// the registry is closed, and a deleted provider may return at
+					// any time. So make sure that it is not registered.
 					go func(value indexer.Value) {
-						err := h.indexer.RemoveProviderContext(value.ProviderID, value.ContextID)
-						if err != nil {
-							log.Errorw("Error removing provider context", "err", err)
-						}
+						h.registry.IfNotRegistered(value.ProviderID, func() {
+							err := h.indexer.RemoveProviderContext(value.ProviderID, value.ContextID)
+							if err != nil {
+								log.Errorw("Error removing provider context", "err", err)
+							}
+						})
 					}(values[j])
 					// If provider not in registry, do not return in result.
 					continue
-- 
2.43.0


From 61111031387eb143b9358646ce70e1260e67b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:19 +0000
Subject: [PATCH 27/43] fix: only accept requests that are signed by the
 provider they are for

Consuming an envelope verifies that it was signed with the public key that it
contains. Nothing compared that key with the provider named in the request, so
anyone could register, index and start discovery in the name of any provider.
---
 api/v0/ingest/model/discover_request.go |  5 ++++-
 api/v0/ingest/model/ingest_request.go   |  5 ++++-
 api/v0/ingest/model/model.go            | 15 +++++++++++++++
 api/v0/ingest/model/register_request.go |  5 ++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..3e747b4 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..718c039 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/model.go b/api/v0/ingest/model/model.go
index 0266293..54d06d2 100644
--- a/api/v0/ingest/model/model.go
+++ b/api/v0/ingest/model/model.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
+	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/libp2p/go-libp2p-core/record"
 )
 
@@ -20,3 +21,17 @@ func makeRequestEnvelop(rec record.Record, privateKey crypto.PrivKey) ([]byte, e
 
 	return data, nil
 }
+
+// checkSigner checks that the envelope of a request was signed by the provider
+// that the request is about. Consuming an envelope only verifies that it was
+// signed with the key that it contains.
+func checkSigner(envelope *record.Envelope, providerID peer.ID) error {
+	signerID, err := peer.IDFromPublicKey(envelope.PublicKey)
+	if err != nil {
+		return fmt.Errorf("cannot get ID of request signer: %s", err)
+	}
+	if signerID != providerID {
+		return fmt.Errorf("request for provider %s is signed by %s", providerID, signerID)
+	}
+	return nil
+}
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..8b692f0 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if err = checkSigner(envelope, rec.PeerID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
-- 
2.43.0


From a85949e7af04a5a6cc02389d1ac76e486fc16491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:19 +0000
Subject: [PATCH 28/43] fix: stop lotus discovery when its context is done

The JSON-RPC client has no timeout and does not use the context, so a gateway
that does not answer kept the discovery, and closing the registry, waiting
forever.
---
 internal/lotus/discovery.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/lotus/discovery.go b/internal/lotus/discovery.go
index fe08c10..25cbb82 100644
--- a/internal/lotus/discovery.go
+++ b/internal/lotus/discovery.go
@@ -66,7 +66,13 @@ func (d *Discoverer) Discover(ctx context.Context, peerID peer.ID, minerAddr str
 		return nil, fmt.Errorf("invalid provider filecoin address: %s", err)
 	}
 
-	jrpcClient := jrpc.NewClient(d.gatewayURL)
+	// The JSON-RPC client does not take a context, so have the requests that
+	// it makes use the one that limits this discovery.
+	jrpcClient := jrpc.NewClientWithOpts(d.gatewayURL, &jrpc.RPCClientOpts{
+		HTTPClient: &http.Client{
+			Transport: contextTransport{ctx},
+		},
+	})
 
 	var ets ExpTipSet
 	err = jrpcClient.CallFor(&ets, "Filecoin.ChainHead")
@@ -99,6 +105,15 @@ func (d *Discoverer) Discover(ctx context.Context, peerID peer.ID, minerAddr str
 	}, nil
 }
 
+// contextTransport is an http.RoundTripper that does requests with a context.
+type contextTransport struct {
+	ctx context.Context
+}
+
+func (t contextTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	return http.DefaultTransport.RoundTrip(req.WithContext(t.ctx))
+}
+
 func (d *Discoverer) getMinerPeerAddr(minerInfo MinerInfo) (peer.AddrInfo, error) {
 	multiaddrs := make([]multiaddr.Multiaddr, 0, len(minerInfo.Multiaddrs))
 	for _, a := range minerInfo.Multiaddrs {
-- 
2.43.0


From 2f727a11402cd5ea38e11a08b9831406960ba98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:19 +0000
Subject: [PATCH 29/43] fix: check policy when discovery completes

A provider that was blocked while it was being discovered was registered
nevertheless.
---
 internal/registry/registry.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 51dfaad..a36be27 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -835,6 +835,13 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 				AddrInfo:      discoverData.AddrInfo,
 				DiscoveryAddr: spID,
 			}
+			// Check what was discovered the same as anything else that is
+			// registered, since the policy may have changed since discovery
+			// started.
+			if err := r.checkRegister(info); err != nil {
+				errCh <- err
+				return
+			}
 			if err := r.syncRegister(ctx, info); err != nil {
 				errCh <- err
 				return
-- 
2.43.0


From 8f1c7ce91d96381bc635539d2cfbc0ff9f881e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:07 +0000
Subject: [PATCH 30/43] fix: import every valid CID of a list, whatever its
 encoding and last line

---
 internal/importer/cidlist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..aaa7c9b 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -23,14 +24,19 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 
 	var badEntryCount, entryCount int
 	r := bufio.NewReader(in)
-	for {
+	for eof := false; !eof; {
 		line, err := r.ReadString('\n')
 		if err != nil {
 			if err != io.EOF {
 				done <- err
 				return
 			}
-			break
+			// The last line may not be terminated.
+			eof = true
+		}
+		line = strings.TrimSpace(line)
+		if line == "" {
+			continue
 		}
 		c, err := cid.Decode(line)
 		if err != nil || !c.Defined() {
-- 
2.43.0


From de41535770362414bb24c8cb548dda30236478de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:19 +0000
Subject: [PATCH 31/43] fix: import manifests whose lines are longer than 64 KB

---
 internal/importer/manifest.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/importer/manifest.go b/internal/importer/manifest.go
index 3cad696..ded07b4 100644
--- a/internal/importer/manifest.go
+++ b/internal/importer/manifest.go
@@ -18,15 +18,23 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 	defer close(errOut)
 
 	var badEntryCount, entryCount int
-	scanner := bufio.NewScanner(in)
-	for scanner.Scan() {
+	r := bufio.NewReader(in)
+	var readErr error
+	for readErr == nil {
+		// Lines have no maximum length, since an entry holds the position of
+		// the DAG in the aggregate. The last line may not be terminated.
+		var line []byte
+		line, readErr = r.ReadBytes('\n')
+		if readErr != nil && (readErr != io.EOF || len(line) == 0) {
+			break
+		}
 		e := agg.ManifestDagEntry{}
 		// In its current implementation, there is no performance benefit
 		// from using json.Unmarshal v.s. json.Decode, as Decode uses a
 		// buffer to unmarshal, so they have similar performance.
 		// This will change in future versions of Go, evaluate then
 		// if it makes sense to change the implementation.
-		err := json.Unmarshal(scanner.Bytes(), &e)
+		err := json.Unmarshal(line, &e)
 		if err != nil {
 			badEntryCount++
 			continue
@@ -69,8 +77,9 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 	// range loop exit and then read errOut
 	close(out)
 
-	if err := scanner.Err(); err != nil {
-		errOut <- err
+	if readErr != io.EOF {
+		errOut <- readErr
+		return
 	}
 	if badEntryCount != 0 {
 		log.Errorf("Skipped %d bad manifest entries", badEntryCount)
-- 
2.43.0


From e48dcd2552c383a682ea2232b9560c8f92598634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:11 +0000
Subject: [PATCH 32/43] fix: keep the previous configuration when reloading
 fails

A configuration file that cannot be loaded left the daemon without any
configuration: the next reload, a reload that was not requested through the
admin API, and shutting down then dereferenced a nil pointer and took the
process down.
---
 command/daemon.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..db34ae4 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -338,14 +338,16 @@ func daemonCommand(cctx *cli.Context) error {
 				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
+			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
 				if errChan != nil {
 					errChan <- errors.New("could not reload configuration")
-					continue
 				}
+				// Keep using the previous configuration.
+				continue
 			}
+			cfg = newCfg
 
 			if p2pHost != nil {
 				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-- 
2.43.0


From fd7385d220c7a0c47dd3ad321f117f705297cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:22 +0000
Subject: [PATCH 33/43] fix: do not hand the registry a nil lotus discoverer

With the lotus gateway set to none the registry got a non-nil interface holding
a nil discoverer, so that a discover request from anybody crashed the process.
---
 command/daemon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index db34ae4..3cf0662 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,7 +120,7 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var lotusDiscoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-- 
2.43.0


From 6db46fd217dc694b49ba3b4623d45010d415b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:00 +0000
Subject: [PATCH 34/43] fix: answer reload requests during shutdown

A reload requested through the admin API while the daemon shuts down waited for
an answer forever, so that shutting down timed out and ended with exit status
-1 before the ingester and the value store were closed.
---
 command/daemon.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/command/daemon.go b/command/daemon.go
index 3cf0662..7eeed3c 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -389,6 +389,21 @@ func daemonCommand(cctx *cli.Context) error {
 	ctx, cancel = context.WithTimeout(context.Background(), time.Duration(cfg.Indexer.ShutdownTimeout))
 	defer cancel()
 
+	go func() {
+		// Answer reload requests that nothing handles any more, so that they
+		// do not hold up the shutdown of the admin server.
+		for {
+			select {
+			case errChan := <-reloadErrsChan:
+				if errChan != nil {
+					errChan <- errors.New("shutting down")
+				}
+			case <-ctx.Done():
+				return
+			}
+		}
+	}()
+
 	go func() {
 		// Wait for context to be canceled.  If timeout, then exit with error.
 		<-ctx.Done()
-- 
2.43.0


From 2bc9f9682d9acdbfdde9f822c843e401d286ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 35/43] fix: never block the daemon's main loop on its own
 reload queue

A SIGHUP or a changed configuration file that is handled while a reload
requested through the admin API is queued made the loop wait for itself: no
reload was ever handled again and the daemon could not be stopped.
---
 command/daemon.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 7eeed3c..f10598e 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -332,7 +332,7 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			requestReload(reloadErrsChan)
 		case errChan := <-reloadErrsChan:
 			prevCfgChk := cfg.Indexer.ConfigCheckInterval
 			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
@@ -376,7 +376,7 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				requestReload(reloadErrsChan)
 			}
 		}
 	}
@@ -462,6 +462,15 @@ func daemonCommand(cctx *cli.Context) error {
 	return finalErr
 }
 
+// requestReload queues a configuration reload, unless one is queued already. It
+// never blocks, because it is called by the only reader of the channel.
+func requestReload(reloadErrsChan chan<- chan error) {
+	select {
+	case reloadErrsChan <- nil:
+	default:
+	}
+}
+
 func fileChanged(filePath string, modTime time.Time) (time.Time, bool, error) {
 	fi, err := os.Stat(filePath)
 	if err != nil {
-- 
2.43.0


From 4080c2f1db4f2d1592cd57508794c6c1ce939f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:55 +0000
Subject: [PATCH 36/43] fix: do not remove a publisher's sync handler while
 syncs use it

---
 internal/ingest/ingest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 7237d8d..ea69f4e 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -759,7 +759,10 @@ func (ing *Ingester) removePublisher(ctx context.Context, publisherID peer.ID) e
 		// Invalid publisher ID, registered provider never got a published ad.
 		return nil
 	}
-	ing.sub.RemoveHandler(publisherID)
+	// Do not remove the publisher's handler from the subscriber, which does that
+	// itself when the handler is idle. Without the handler that a running sync
+	// uses, another sync with the publisher would not wait for it, and each
+	// would be given blocks of the other.
 	err := ing.ds.Delete(ctx, datastore.NewKey(syncPrefix+publisherID.String()))
 	if err != nil {
 		return fmt.Errorf("could not remove latest sync for publisher %s: %w", publisherID, err)
-- 
2.43.0


From f062d978796c713c9144db23b5528566b7c425fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 37/43] fix: init saves a cache size of -1, which disables the
 cache

---
 command/init.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/command/init.go b/command/init.go
index ef61e61..faf1139 100644
--- a/command/init.go
+++ b/command/init.go
@@ -58,9 +58,8 @@ func initCommand(cctx *cli.Context) error {
 	}
 
 	// Use values from flags to override defaults
-	cacheSize := int(cctx.Int64("cachesize"))
-	if cacheSize >= 0 {
-		cfg.Indexer.CacheSize = cacheSize
+	if cctx.IsSet("cachesize") {
+		cfg.Indexer.CacheSize = int(cctx.Int64("cachesize"))
 	}
 
 	storeType := cctx.String("store")
-- 
2.43.0


From bea7f7bf3dd18f27f29c08af63d667149e8f1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:22 +0000
Subject: [PATCH 38/43] fix: checking that a directory is writable does not
 destroy a file named test in it

---
 command/fsutil.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/command/fsutil.go b/command/fsutil.go
index efe10d5..9230d60 100644
--- a/command/fsutil.go
+++ b/command/fsutil.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"os"
-	"path/filepath"
 
 	"github.com/mitchellh/go-homedir"
 )
@@ -25,8 +24,7 @@ func checkWritable(dir string) error {
 	_, err = os.Stat(dir)
 	if err == nil {
 		// dir exists, make sure we can write to it
-		testfile := filepath.Join(dir, "test")
-		fi, err := os.Create(testfile)
+		fi, err := os.CreateTemp(dir, "test")
 		if err != nil {
 			if os.IsPermission(err) {
 				return fmt.Errorf("%s is not writeable by the current user", dir)
@@ -34,7 +32,7 @@ func checkWritable(dir string) error {
 			return fmt.Errorf("unexpected error while checking writeablility of repo root: %s", err)
 		}
 		fi.Close()
-		return os.Remove(testfile)
+		return os.Remove(fi.Name())
 	}
 
 	if os.IsNotExist(err) {
-- 
2.43.0


From ccf742d98b21893e9b00b1c19f2e9073fda0d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:22 +0000
Subject: [PATCH 39/43] fix: register sends the provider addresses given, to
 the ingest address

---
 command/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/register.go b/command/register.go
index 3862c98..dab0084 100644
--- a/command/register.go
+++ b/command/register.go
@@ -30,13 +30,13 @@ func registerCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	indexerHost := cliIndexer(cctx, "admin")
+	indexerHost := cliIndexer(cctx, "ingest")
 	client, err := v0client.New(indexerHost)
 	if err != nil {
 		return err
 	}
 
-	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("addr"))
+	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("provider-addr"))
 	if err != nil {
 		return fmt.Errorf("failed to register providers: %s", err)
 	}
-- 
2.43.0


From ee21a93fdad57ff6b7f7acbf4eda5eb56562ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:22 +0000
Subject: [PATCH 40/43] fix: find over libp2p reads the indexerid flag and uses
 the p2p address

---
 command/find.go  | 4 ++--
 command/flags.go | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/command/find.go b/command/find.go
index 505e8d5..de672a1 100644
--- a/command/find.go
+++ b/command/find.go
@@ -51,7 +51,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 	case "libp2p":
-		peerID, err := peer.Decode(cctx.String("peerid"))
+		peerID, err := peer.Decode(cctx.String("indexerid"))
 		if err != nil {
 			return err
 		}
@@ -61,7 +61,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 
-		err = c.Connect(cctx.Context, cliIndexer(cctx, "finder"))
+		err = c.Connect(cctx.Context, cliIndexer(cctx, "p2p"))
 		if err != nil {
 			return err
 		}
diff --git a/command/flags.go b/command/flags.go
index fd6a429..a1b6697 100644
--- a/command/flags.go
+++ b/command/flags.go
@@ -299,6 +299,8 @@ func indexerHost(addrType string) string {
 		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 	case "ingest":
 		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.Ingest)
+	case "p2p":
+		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.P2PAddr)
 	default:
 		return ""
 	}
-- 
2.43.0


From ca6e1ac4a8fb9b018259f835c876f06346f0d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:22 +0000
Subject: [PATCH 41/43] fix: commands and libp2p clients work with IPv6 indexer
 addresses

---
 api/v0/libp2pclient/client.go | 12 +++++++-----
 command/flags.go              |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/api/v0/libp2pclient/client.go b/api/v0/libp2pclient/client.go
index aa1c388..2888ed3 100644
--- a/api/v0/libp2pclient/client.go
+++ b/api/v0/libp2pclient/client.go
@@ -82,11 +82,13 @@ func (c *Client) Connect(ctx context.Context, hostname string) error {
 		hostname = "127.0.0.1"
 		netProto = "ip4"
 	} else {
-		hostport := strings.SplitN(hostname, ":", 2)
-		if len(hostport) > 1 {
-			hostname = hostport[0]
-			var err error
-			port, err = strconv.Atoi(hostport[1])
+		if net.ParseIP(hostname) == nil && strings.Contains(hostname, ":") {
+			h, p, err := net.SplitHostPort(hostname)
+			if err != nil {
+				return err
+			}
+			hostname = h
+			port, err = strconv.Atoi(p)
 			if err != nil {
 				return err
 			}
diff --git a/command/flags.go b/command/flags.go
index a1b6697..12b9417 100644
--- a/command/flags.go
+++ b/command/flags.go
@@ -1,7 +1,7 @@
 package command
 
 import (
-	"fmt"
+	"net"
 
 	"github.com/filecoin-project/storetheindex/config"
 	"github.com/multiformats/go-multiaddr"
@@ -316,7 +316,7 @@ func multiaddrHost(maddr multiaddr.Multiaddr) string {
 		if err == nil {
 			port, err := maddr.ValueForProtocol(multiaddr.P_TCP)
 			if err == nil {
-				addr = fmt.Sprint(addr, ":", port)
+				addr = net.JoinHostPort(addr, port)
 			}
 			return addr
 		}
-- 
2.43.0


From b10930f4fc6571af0ff3c805449fa626fa29f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:22 +0000
Subject: [PATCH 42/43] fix: importing providers skips entries without
 information instead of panicking

---
 internal/registry/registry.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index a36be27..1992d71 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -654,6 +654,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 
 	var newProvs []*ProviderInfo
 	for _, pInfo := range provs {
+		if pInfo == nil {
+			continue
+		}
 		if r.IsRegistered(pInfo.AddrInfo.ID) {
 			continue
 		}
@@ -672,6 +675,10 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 		if pubErr != nil {
 			// If publisher does not have a valid ID and addresses, then use
 			// provider ad publisher.
+			if len(regInfo.AddrInfo.Addrs) == 0 {
+				log.Infow("Cannot register provider", "provider", pInfo.AddrInfo.ID, "err", "no addresses")
+				continue
+			}
 			log.Infow("Provider does not have valid publisher, assuming same as provider", "reason", pubErr, "provider", regInfo.AddrInfo.ID)
 			regInfo.Publisher = regInfo.AddrInfo.ID
 			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
-- 
2.43.0


From 85a3a9391e5c3b4efd7bd22c4c182b1676a403df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:22 +0000
Subject: [PATCH 43/43] fix: importing providers does not overwrite a
 concurrent registration

---
 internal/registry/registry.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 1992d71..aba395a 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -639,6 +639,31 @@ func (r *Registry) AllProviderInfo() []*ProviderInfo {
 	return infos
 }
 
+// registerNew registers a provider only if the provider is not already
+// registered.  Returns true if the provider was registered.
+func (r *Registry) registerNew(ctx context.Context, info *ProviderInfo) (bool, error) {
+	err := r.checkRegister(info)
+	if err != nil {
+		return false, err
+	}
+
+	var added bool
+	errCh := make(chan error, 1)
+	ok := r.do(func() {
+		if _, found := r.providers[info.AddrInfo.ID]; found {
+			errCh <- nil
+			return
+		}
+		added = true
+		errCh <- r.syncRegister(ctx, info)
+	})
+	if !ok {
+		return false, ErrClosed
+	}
+	err = <-errCh
+	return added && err == nil, err
+}
+
 // ImportProviders reads providers from another indexer and registers any that
 // are not already registered. Returns the count of newly registered providers.
 func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int, error) {
@@ -687,11 +712,14 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
 		}
 
-		err = r.Register(ctx, regInfo)
+		added, err := r.registerNew(ctx, regInfo)
 		if err != nil {
 			log.Infow("Cannot register provider", "provider", pInfo.AddrInfo.ID, "err", err)
 			continue
 		}
+		if !added {
+			continue
+		}
 
 		newProvs = append(newProvs, regInfo)
 	}
-- 
2.43.0

