package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	ingesthandler "github.com/filecoin-project/storetheindex/server/ingest/handler"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// IngWorld is the simulated deployment used by the ingestion scenarios: one
// indexer node and a number of publishers on the simulated network and disk.
type IngWorld struct {
	alien map[peer.ID]bool // others, who may index what they like for themselves
	*World
	net  *Net
	pubs []*Publisher
	node *Node

	ignore    func(e entry) bool // entries not compared with the model
	universe  map[string]multihash.Multihash
	byMd      map[string]*Ad // advertisement by its (unique) metadata
	pubOf     map[*Ad]*Publisher
	putIdx    map[*Publisher]int
	reset     map[*Publisher]bool
	restarts  int
	noRestart bool
	workersHi int64
	batchNow  int64
	// announcements in progress, triggered by the indexer's progress
	trigActive int
	inflight   map[peer.ID]int
	blackout   bool // node down, clients wait

	settleSkip  *Publisher         // stays broken for ever
	acceptedAnn map[*Publisher]int // ads announced and accepted (P07)
	onRestart   func()
	closing     bool
	removed     map[*Publisher]bool // an operator removed the provider
}

func ingestConfig(w *World) config.Ingest {
	c := config.NewIngest()
	c.HttpSyncRetryMax = int(w.knob("retries", 1))
	c.HttpSyncRetryWaitMin = config.Duration(100 * time.Millisecond)
	c.HttpSyncRetryWaitMax = config.Duration(time.Second)
	c.HttpSyncTimeout = config.Duration(10 * time.Second)
	c.IngestWorkerCount = int(w.knob("workers", 4))
	c.PubSubTopic = "/indexer/ingest/sim"
	c.StoreBatchSize = int(w.knob("batch", 16))
	c.SyncSegmentDepthLimit = int(w.knob("seg", 2))
	c.SyncTimeout = config.Duration(time.Duration(w.knob("syncTimeout", 7200)) * time.Second)
	c.AdvertisementDepthLimit = int(w.knob("adDepth", 33554432))
	c.ResendDirectAnnounce = w.knob("resend", 0) == 1
	if bps := w.knob("rate", 0); bps > 0 {
		c.RateLimit = config.RateLimit{Apply: w.knob("rateApply", 1) == 1, BlocksPerSecond: int(bps), BurstSize: int(w.knob("burst", 5))}
	} else {
		c.RateLimit = config.RateLimit{}
	}
	return c
}

func discoveryConfig(w *World) config.Discovery {
	d := config.NewDiscovery()
	d.LotusGateway = ""
	d.Policy = config.Policy{Allow: true, Publish: true}
	d.Timeout = config.Duration(time.Duration(w.knob("discTimeout", 120)) * time.Second)
	d.RediscoverWait = config.Duration(time.Duration(w.knob("rediscWait", 300)) * time.Second)
	d.PollInterval = config.Duration(time.Duration(w.knob("pollInterval", 86400)) * time.Second)
	d.PollRetryAfter = config.Duration(time.Duration(w.knob("pollRetry", 18000)) * time.Second)
	d.PollStopAfter = config.Duration(time.Duration(w.knob("pollStop", 604800)) * time.Second)
	return d
}

func newIngWorld(w *World) *IngWorld {
	iw := &IngWorld{World: w, universe: map[string]multihash.Multihash{}, byMd: map[string]*Ad{}, pubOf: map[*Ad]*Publisher{},
		putIdx: map[*Publisher]int{}, reset: map[*Publisher]bool{}, inflight: map[peer.ID]int{}, removed: map[*Publisher]bool{}}
	iw.net = newNet(w)
	// No peers gossip here; its every-second timer only costs time.
	pubsub.GossipSubHeartbeatInterval = 10 * time.Minute
	for i := 0; i < int(w.knob("pubs", 1)); i++ {
		p := newPublisher(w, i)
		if w.knob("provDelta", 0)&(1<<uint(i)) != 0 {
			p.provK = keyFor("prov", i)
			p.prov = idFor("prov", i)
		}
		iw.pubs = append(iw.pubs, p)
		iw.net.add(p)
	}
	iw.node = newNode(w)
	iw.node.icfg = ingestConfig(w)
	iw.node.dcfg = discoveryConfig(w)
	for _, p := range iw.pubs {
		p.oldSig = w.knob("oldSig", 0)
		p.ctx0 = w.knob("ctx0", 0) == 1
	}
	iw.workersHi = w.knob("workers", 4)
	iw.batchNow = w.knob("batch", 16)
	return iw
}

func (iw *IngWorld) must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func (iw *IngWorld) publish(op *Op) *Ad {
	p := iw.pubs[op.P%len(iw.pubs)]
	atomically(func() { iw.unforge(p) })
	a := p.publish(op)
	iw.note(p, a)
	return a
}

func (iw *IngWorld) note(p *Publisher, a *Ad) {
	atomically(func() {
		iw.byMd[a.md] = a
		iw.pubOf[a] = p
		for _, m := range a.mhs {
			iw.universe[string(m)] = m
		}
	})
}

// model replays the chains.
func (iw *IngWorld) model(upto func(p *Publisher) int) *Model {
	m := newModel()
	for _, p := range iw.pubs {
		n := len(p.ads)
		if upto != nil {
			n = upto(p)
		}
		for _, a := range p.ads[:n] {
			m.apply(a)
		}
	}
	return m
}

func (iw *IngWorld) sortedUniverse() []multihash.Multihash {
	var ks []string
	for k := range iw.universe {
		ks = append(ks, k)
	}
	sortStrings(ks)
	out := make([]multihash.Multihash, len(ks))
	for i, k := range ks {
		out[i] = iw.universe[k]
	}
	return out
}

// diff compares the index with the model; "" if equal.
func (iw *IngWorld) diff(m *Model) string {
	res := ""
	atomically(func() {
		for _, mh := range iw.sortedUniverse() {
			got, want := iw.defined(iw.node.lookup(mh)), m.lookup(mh)
			if iw.ignore != nil {
				got, want = dropEntries(got, iw.ignore), dropEntries(want, iw.ignore)
			}
			if !entriesEqual(got, want) {
				res = fmt.Sprintf("multihash %s: index has %s, the chains say %s", mh.B58String(), fmtEntries(got), fmtEntries(want))
				return
			}
		}
		// and nothing else is in the index
		it, err := iw.node.store.mem.Iter()
		if err != nil {
			return
		}
		for {
			mh, vals, err := it.Next()
			if err != nil {
				break
			}
			if _, ok := iw.universe[string(mh)]; !ok && len(iw.defined(valuesToEntries(vals))) != 0 {
				res = fmt.Sprintf("index has multihash %x that no advertisement contains: %s", []byte(mh), fmtEntries(valuesToEntries(vals)))
				return
			}
		}
	})
	return res
}

// defined drops entries that come from malformed advertisements, whose effect
// is not defined.
func (iw *IngWorld) defined(es []entry) []entry {
	var out []entry
	for _, e := range es {
		if a := iw.byMd[e.Md]; a != nil && a.opaque && !a.forged || iw.alien[e.Prov] {
			continue
		}
		out = append(out, e)
	}
	return out
}

func dropEntries(es []entry, ignore func(e entry) bool) []entry {
	var out []entry
	for _, e := range es {
		if !ignore(e) {
			out = append(out, e)
		}
	}
	return out
}

// latestIdx is how many advertisements of p the indexer reports as processed.
func (iw *IngWorld) latestIdx(p *Publisher) int {
	c, err := iw.node.ing.GetLatestSync(p.id)
	if err != nil || c == cid.Undef {
		return 0
	}
	a := p.byCid[c]
	if a == nil {
		return -1
	}
	return a.idx + 1
}

func (iw *IngWorld) announce(p *Publisher, c cid.Cid) error {
	return iw.node.ing.Announce(context.Background(), c, peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{p.addr}})
}

// announceHead announces p's newest advertisement the way publishers do, one
// announcement at a time, and notes that it was accepted.
func (iw *IngWorld) announceHead(p *Publisher) {
	p.annSem <- struct{}{}
	defer func() { <-p.annSem }()
	var c cid.Cid
	n := 0
	atomically(func() {
		if n = len(p.ads); n > 0 {
			c = p.ads[n-1].cid
		}
	})
	if n == 0 {
		return
	}
	var err error
	if iw.knob("annVia", 0) == 1 {
		err = iw.postAnnounce(p, c)
	} else {
		err = iw.announce(p, c)
	}
	if err == nil {
		atomically(func() { iw.acceptedAnn[p] = n })
	}
}

// postAnnounce has the server's handler for announce messages handle one.
func (iw *IngWorld) postAnnounce(p *Publisher, c cid.Cid) error {
	msg := dtsync.Message{Cid: c}
	msg.SetAddrs([]multiaddr.Multiaddr{p.addr.Encapsulate(mustAddr("/p2p/" + p.id.String()))})
	var buf bytes.Buffer
	iw.must(msg.MarshalCBOR(&buf))
	return ingesthandler.NewIngestHandler(iw.node.store, iw.node.ing, iw.node.reg).Announce(&buf)
}

// announceOnProgress has publishers publish and announce something new at the
// very moment the indexer finishes an advertisement of theirs.
func (iw *IngWorld) announceOnProgress() {
	byKey := map[string]*Publisher{}
	for _, p := range iw.pubs {
		byKey["/sync/"+p.id.String()] = p
	}
	iw.node.disk.onOp = func(h *DiskHandle, op, key string, val []byte) {
		p := byKey[key]
		if p == nil || op != "put" {
			return
		}
		if f := iw.fault("sched.announce", p.i); f != nil {
			seq := iw.fire[fmt.Sprintf("sched.announce/%d", p.i)]
			iw.trigActive++
			go func() {
				defer atomically(func() { iw.trigActive-- })
				if f.A > 0 {
					time.Sleep(time.Duration(f.A) * time.Microsecond)
				}
				iw.publish(&Op{K: "pub", P: p.i, A: 1 + f.A%3, B: 2, X: adChunks, Y: f.A % 3, Z: int64(1+p.i)*100000 + 500 + 10*int64(seq)})
				iw.announceHead(p)
			}()
		}
	}
}

// syncWait runs an explicit sync and waits for its end. It returns the head
// reported (Undef if none), and whether it ended within the bound.
func (iw *IngWorld) syncWait(p *Publisher, depth int, resync bool, cancelAfter, bound time.Duration) (cid.Cid, bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelAfter > 0 {
		ctx, cancel = context.WithTimeout(ctx, cancelAfter)
		defer cancel()
	}
	ing, inc := iw.node.ing, iw.node.inc
	ch, err := ing.Sync(ctx, p.id, p.addr, depth, resync)
	if err != nil {
		return cid.Undef, true
	}
	t := time.NewTimer(bound)
	defer t.Stop()
	select {
	case c := <-ch:
		iw.event("sync pub%d done %s", p.i, c)
		return c, true
	case <-inc.died:
		return cid.Undef, true
	case <-t.C:
		return cid.Undef, false
	}
}

// preRegister registers every provider with its publisher, as an operator or
// an import from another indexer would.
func (iw *IngWorld) preRegister() {
	for _, p := range iw.pubs {
		iw.must(iw.node.reg.Register(context.Background(), &registry.ProviderInfo{
			AddrInfo:      peer.AddrInfo{ID: p.prov, Addrs: []multiaddr.Multiaddr{mustAddr(p.addrs[0])}},
			Publisher:     p.id,
			PublisherAddr: p.addr,
		}))
	}
}

// keepAlive restarts the node when it crashes.
func (iw *IngWorld) keepAlive() {
	go func() {
		for {
			inc := iw.node.inc
			<-inc.died
			if iw.done {
				return
			}
			iw.blackout = true
			time.Sleep(time.Duration(iw.knob("downtime", 1000)) * time.Microsecond)
			for iw.node.reborn() != nil {
				// Storage still failing during start-up: the process exits and
				// is started again later, like under a service manager.
				iw.hit("restart.failed")
				iw.node.inc.kill("failed start")
				time.Sleep(500 * time.Millisecond)
			}
			iw.restarts++
			iw.hit("restart")
			if iw.onRestart != nil {
				atomically(iw.onRestart)
			}
			iw.blackout = false
		}
	}()
}

func (iw *IngWorld) up() {
	iw.waitUntil(time.Hour, func() bool { return !iw.blackout && !iw.node.inc.dead })
}

// exec runs one workload step.
func (iw *IngWorld) exec(op *Op) {
	iw.up()
	p := iw.pubs[op.P%len(iw.pubs)]
	switch op.K {
	case "pub":
		iw.publish(op)
	case "ann":
		var c cid.Cid
		atomically(func() {
			if n := len(p.ads); n > 0 {
				k := n - 1 - int(op.A)
				if k < 0 {
					k = 0
				}
				c = p.ads[k].cid
			}
		})
		if c != cid.Undef {
			_ = iw.announce(p, c)
		}
	case "sync":
		_, ok := iw.syncWait(p, int(op.A), op.B == 1, time.Duration(op.X)*time.Microsecond, 6*time.Hour)
		if !ok {
			iw.failP("P06", "sync-hangs", "explicit sync of publisher %d never finished", p.i)
		}
	case "crash":
		iw.node.crashNow("planned")
		iw.up()
	case "batch":
		iw.node.ing.SetBatchSize(int(op.A))
		atomically(func() { iw.batchNow = op.A })
	case "workers":
		atomically(func() {
			if op.A > iw.workersHi {
				iw.workersHi = op.A
			}
		})
		iw.node.ing.RunWorkers(int(op.A))
		atomically(func() { iw.workersHi = op.A })
	case "policy":
		pol := config.Policy{Allow: true, Publish: true}
		for k := int64(0); k < op.A; k++ {
			pol.Except = append(pol.Except, idFor("stranger", int(k)).String())
		}
		iw.must(iw.node.reg.SetPolicy(pol))
	case "rmprov":
		atomically(func() { iw.removed[p] = true })
		_ = iw.node.reg.RemoveProvider(context.Background(), p.prov)
	case "forge":
		iw.forge(op)
	case "evil":
		iw.evil(op)
	case "hann":
		iw.announceHead(p)
	case "rate":
		_ = iw.node.ing.SetRateLimit(config.RateLimit{Apply: op.B == 1, BlocksPerSecond: int(op.A), BurstSize: int(op.X)})
	case "find":
		_, _, _ = iw.node.store.Get(mhFor(op.A))
	case "down":
		p.down = true
	case "upp":
		p.down = false
	case "latest":
		_, _ = iw.node.ing.GetLatestSync(p.id)
	}
}

// failP records a violation if it belongs to the property under check.
func (w *World) failP(prop, class, format string, args ...interface{}) {
	if w.plan.Property == prop {
		w.fail(class, format, args...)
	} else {
		w.hit("other:" + prop + ":" + class)
	}
}

// settle stops the faults, brings every publisher's head in by the given way
// and waits until the indexer is idle.
func (iw *IngWorld) settle(prop string) bool {
	iw.faultOn = false
	for _, p := range iw.pubs {
		if p != iw.settleSkip {
			p.down = false
		}
	}
	iw.up()
	// Let outages' consequences (timeouts, retries) run out.
	time.Sleep(2 * time.Minute)
	iw.up()
	ok := true
	for _, p := range iw.pubs {
		if len(p.ads) == 0 || p == iw.settleSkip {
			continue
		}
		want := len(p.ads)
		got := false
		last := ""
		switch iw.knob("final", 0) {
		case 1: // announce once
			if err := iw.announce(p, p.head()); err != nil {
				last = err.Error()
			}
			got = iw.waitLatest(p, want, 3*time.Hour)
			last = "announced"
		case 2: // poll: nothing to do but wait
			got = iw.waitLatest(p, want, 24*time.Hour)
			last = "polled"
		default:
			for try := 0; try < 4 && !got; try++ {
				c, done := iw.syncWait(p, 0, false, 0, 6*time.Hour)
				if !done {
					iw.failP(prop, "sync-hangs", "after faults stopped, sync of publisher %d never finished", p.i)
					return false
				}
				last = fmt.Sprintf("sync %d returned %s", try, c)
				got = iw.latestIdx(p) == want
			}
		}
		if !got {
			ok = false
			iw.failP(prop, "not-converged", "publisher %d: head (ad %d) %s but the indexer reports ad %d as latest", p.i, want, last, iw.latestIdx(p))
			return false
		}
	}
	time.Sleep(30 * time.Second)
	return ok
}

func (iw *IngWorld) waitLatest(p *Publisher, want int, d time.Duration) bool {
	deadline := time.Now().Add(d)
	step := 10 * time.Millisecond
	for {
		iw.up()
		if iw.latestIdx(p) == want {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(step)
		if step < 20*time.Second {
			step = step * 3 / 2
		}
	}
}

func (iw *IngWorld) checkConverged(prop string) {
	if iw.failed() {
		return
	}
	if d := iw.diff(iw.model(nil)); d != "" {
		iw.failP(prop, "index-differs", "%s", d)
	}
}

// stateProbe records abstract states for coverage reporting.
func (iw *IngWorld) stateProbe() {
	s := ""
	for _, p := range iw.pubs {
		s += fmt.Sprintf("%d/%d;", iw.putIdx[p], len(p.ads))
	}
	iw.state("%s|%d|%d", s, iw.restarts, len(iw.vsPending()))
}

func (iw *IngWorld) vsPending() []vop { return iw.node.vs.pending }

func (iw *IngWorld) hookStore() {
	iw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		a := iw.byMd[string(v.MetadataBytes)]
		if a == nil {
			return
		}
		p := iw.pubOf[a]
		if a.idx+1 > iw.putIdx[p] {
			iw.putIdx[p] = a.idx + 1
		}
		iw.stateProbe()
	}
}

var _ = registry.ErrInProgress
var _ = rand.Int
