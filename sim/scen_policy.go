package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	ingesthandler "github.com/filecoin-project/storetheindex/server/ingest/handler"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// polModel is the reference policy.
type polModel struct {
	allow, publish bool
	ex, pex        map[peer.ID]bool
}

func (m *polModel) allowed(id peer.ID) bool { return m.ex[id] != m.allow }
func (m *polModel) pubAllowed(pub, prov peer.ID) bool {
	return pub == prov || m.pex[pub] != m.publish
}

func (m *polModel) clone() *polModel {
	n := &polModel{m.allow, m.publish, map[peer.ID]bool{}, map[peer.ID]bool{}}
	for k := range m.ex {
		n.ex[k] = true
	}
	for k := range m.pex {
		n.pex[k] = true
	}
	return n
}

func (m *polModel) set(id peer.ID, v bool) {
	if v == m.allow {
		delete(m.ex, id)
	} else {
		m.ex[id] = true
	}
}

func (m *polModel) config() config.Policy {
	c := config.Policy{Allow: m.allow, Publish: m.publish}
	for _, id := range sortedIDs(m.ex) {
		c.Except = append(c.Except, id.String())
	}
	for _, id := range sortedIDs(m.pex) {
		c.PublishExcept = append(c.PublishExcept, id.String())
	}
	return c
}

func sortedIDs(m map[peer.ID]bool) []peer.ID {
	var ks []string
	for k := range m {
		ks = append(ks, string(k))
	}
	sortStrings(ks)
	out := make([]peer.ID, len(ks))
	for i := range ks {
		out[i] = peer.ID(ks[i])
	}
	return out
}

// polEpoch is one policy in effect from some point between t0 and t1 on.
type polEpoch struct {
	m      *polModel
	t0, t1 int64 // t1 is 0 until the change is acknowledged
}

type polPred func(m *polModel) bool

type PolWorld struct {
	*IngWorld
	tick   int64
	epochs []*polEpoch
	peers  []peer.ID
	pubAt  map[*Ad]int64 // when it was published
	grace  map[string]*Ad
	reqs   map[*Publisher]int
}

func (pw *PolWorld) next() int64 { pw.tick++; return pw.tick }

// always reports whether pred had the value v throughout [t0, now].
func (pw *PolWorld) always(pred polPred, v bool, t0 int64) bool {
	for i, e := range pw.epochs {
		// in effect at some time in [t0, now] unless replaced before t0
		if i+1 < len(pw.epochs) && pw.epochs[i+1].t1 != 0 && pw.epochs[i+1].t1 <= t0 {
			continue
		}
		if pred(e.m) != v {
			return false
		}
	}
	return true
}

// blockedSince is the point from which pred has been false, 0 if it may hold.
func (pw *PolWorld) blockedSince(pred polPred) int64 {
	t := int64(0)
	for i := len(pw.epochs) - 1; i >= 0; i-- {
		e := pw.epochs[i]
		if pred(e.m) {
			return t
		}
		if e.t1 != 0 {
			t = e.t1
		}
	}
	return t
}

func (pw *PolWorld) change(m *polModel, apply func()) {
	e := &polEpoch{m: m}
	atomically(func() { e.t0 = pw.next(); pw.epochs = append(pw.epochs, e) })
	apply()
	atomically(func() { e.t1 = pw.next() })
	pw.event("policy is now %+v", m.config())
	pw.hit("policy.change")
}

func (pw *PolWorld) cur() *polModel { return pw.epochs[len(pw.epochs)-1].m }

// mayPublish: the policy lets p publish for its provider.
func mayPublish(p *Publisher) polPred {
	return func(m *polModel) bool {
		return m.allowed(p.prov) && (p.id == p.prov || m.allowed(p.id) && m.pubAllowed(p.id, p.prov))
	}
}

func (pw *PolWorld) handler() *ingesthandler.IngestHandler {
	n := pw.node
	return ingesthandler.NewIngestHandler(n.store, n.ing, n.reg)
}

// announceMsg announces c for p as it arrives over HTTP or libp2p.
func announceMsg(p *Publisher, c cid.Cid) []byte {
	msg := dtsync.Message{Cid: c}
	msg.SetAddrs([]multiaddr.Multiaddr{p.addr.Encapsulate(mustAddr("/p2p/" + p.id.String()))})
	var buf bytes.Buffer
	if err := msg.MarshalCBOR(&buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// call runs one call and checks its outcome against the policy.
func (pw *PolWorld) call(what string, pred polPred, f func() error) {
	var t0 int64
	var err error
	atomically(func() { t0 = pw.next() })
	ok, hung := pw.node.onNode(6*time.Hour, func() { err = f() })
	if hung {
		pw.failP("P11", "call-hangs", "%s never returned", what)
	}
	if !ok {
		return
	}
	atomically(func() {
		pw.next()
		pw.event("%s -> %v", what, err)
		if pw.always(pred, false, t0) {
			pw.hit("refused")
			if err == nil {
				pw.failP("P11", "not-refused", "%s succeeded although policy does not allow it", what)
			}
		} else if pw.always(pred, true, t0) && err != nil {
			pw.failP("P11", "refused", "%s failed although policy allows it: %v", what, err)
		}
	})
}

func (pw *PolWorld) exec(op *Op) {
	pw.up()
	p := pw.pubs[op.P%len(pw.pubs)]
	n := pw.node
	ctx := context.Background()
	switch op.K {
	case "polset":
		m := &polModel{allow: op.A&1 != 0, publish: op.A&2 != 0, ex: map[peer.ID]bool{}, pex: map[peer.ID]bool{}}
		for i, id := range pw.peers {
			if op.X&(1<<uint(i)) != 0 {
				m.ex[id] = true
			}
			if op.Y&(1<<uint(i)) != 0 {
				m.pex[id] = true
			}
		}
		pw.change(m, func() { pw.must(n.reg.SetPolicy(m.config())) })
	case "polallow", "polblock":
		id := pw.peers[int(op.A)%len(pw.peers)]
		m := pw.cur().clone()
		m.set(id, op.K == "polallow")
		pw.change(m, func() {
			if op.K == "polallow" {
				n.reg.AllowPeer(id)
			} else {
				n.reg.BlockPeer(id)
			}
		})
	case "polbad":
		// A policy that cannot be decoded changes nothing.
		m := pw.cur()
		pw.change(m, func() {
			c := config.Policy{Allow: !m.allow, Publish: !m.publish}
			if op.A == 0 {
				c.Except = []string{"nonsense"}
			} else {
				c.PublishExcept = []string{"nonsense"}
			}
			if n.reg.SetPolicy(c) == nil {
				pw.failP("P11", "bad-policy", "a policy naming an invalid peer was accepted")
			}
		})
	case "preg":
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.prov, Addrs: []multiaddr.Multiaddr{mustAddr(p.addrs[0])}}}
		pred := func(m *polModel) bool { return m.allowed(p.prov) }
		if op.A == 1 {
			info.Publisher, info.PublisherAddr = p.id, p.addr
			pred = mayPublish(p)
		}
		pw.call(fmt.Sprintf("register of provider %d (publisher %v)", p.i, op.A == 1), pred, func() error { return n.reg.Register(ctx, info) })
	case "pupd":
		pub := peer.AddrInfo{}
		pred := func(m *polModel) bool { return m.allowed(p.prov) }
		if op.A == 1 {
			pub = peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{p.addr}}
			pred = mayPublish(p)
		}
		pw.call(fmt.Sprintf("update of provider %d (publisher %v)", p.i, op.A == 1), pred, func() error {
			return n.reg.RegisterOrUpdate(ctx, p.prov, p.addrs, cid.Undef, pub)
		})
	case "pdisc":
		q := fmt.Sprintf("t0%d", op.B)
		pw.call(fmt.Sprintf("discovery of provider %d", p.i), func(m *polModel) bool { return m.allowed(p.prov) }, func() error {
			err := n.reg.Discover(p.prov, q, true)
			if err == registry.ErrInProgress || err == registry.ErrTooSoon {
				err = nil
			}
			return err
		})
	case "pann":
		c := p.head()
		if c == cid.Undef {
			return
		}
		pw.call(fmt.Sprintf("announcement by publisher %d", p.i), func(m *polModel) bool { return m.allowed(p.id) }, func() error {
			return pw.handler().Announce(bytes.NewReader(announceMsg(p, c)))
		})
	case "query":
		id, id2 := pw.peers[int(op.A)%len(pw.peers)], pw.peers[int(op.B)%len(pw.peers)]
		pw.query("Allowed", func(m *polModel) bool { return m.allowed(id) }, func() bool { return n.reg.Allowed(id) })
		pw.query("PublishAllowed", func(m *polModel) bool { return m.pubAllowed(id, id2) }, func() bool { return n.reg.PublishAllowed(id, id2) })
	default:
		pw.IngWorld.exec(op)
	}
}

func (pw *PolWorld) query(what string, pred polPred, f func() bool) {
	var t0 int64
	atomically(func() { t0 = pw.next() })
	var got bool
	if ok, _ := pw.node.onNode(6*time.Hour, func() { got = f() }); !ok {
		return
	}
	atomically(func() {
		pw.next()
		if pw.always(pred, !got, t0) {
			pw.failP("P11", "wrong-answer", "%s answers %v, the policy says %v", what, got, !got)
		}
	})
}

// wrote is called when content of an advertisement changes the index.
func (pw *PolWorld) wrote(a *Ad) {
	p := pw.pubOf[a]
	t := pw.blockedSince(mayPublish(p))
	if t == 0 {
		return
	}
	if pw.pubAt[a] > t {
		pw.failP("P11", "ingested-blocked", "publisher %d: advertisement %d was published and ingested while policy did not allow it", p.i, a.idx)
		return
	}
	// The advertisement being ingested when the policy changed may finish.
	k := fmt.Sprintf("%d@%d", p.i, t)
	if g := pw.grace[k]; g == nil {
		pw.grace[k] = a
	} else if g != a {
		pw.failP("P11", "ingested-blocked", "publisher %d: advertisements %d and %d were both ingested after policy stopped allowing it", p.i, g.idx, a.idx)
	}
}

func runPolicy(w *World) {
	iw := newIngWorld(w)
	pw := &PolWorld{IngWorld: iw, pubAt: map[*Ad]int64{}, grace: map[string]*Ad{}, reqs: map[*Publisher]int{}}
	seen := map[peer.ID]bool{}
	for _, p := range iw.pubs {
		if w.knob("signProv", 0)&(1<<uint(p.i)) != 0 {
			p.signProv = true
		}
		for _, id := range []peer.ID{p.id, p.prov} {
			if !seen[id] {
				seen[id] = true
				pw.peers = append(pw.peers, id)
			}
		}
	}
	pw.peers = append(pw.peers, idFor("stranger", 0))
	m0 := &polModel{allow: w.knob("allow0", 1) == 1, publish: w.knob("publish0", 1) == 1, ex: map[peer.ID]bool{}, pex: map[peer.ID]bool{}}
	for i, id := range pw.peers {
		if w.knob("ex0", 0)&(1<<uint(i)) != 0 {
			m0.ex[id] = true
		}
		if w.knob("pex0", 0)&(1<<uint(i)) != 0 {
			m0.pex[id] = true
		}
	}
	iw.node.dcfg.Policy = m0.config()
	iw.node.disc = &simDiscoverer{w: w}
	pw.epochs = []*polEpoch{{m: m0, t0: pw.next(), t1: pw.next()}}
	iw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		if a := iw.byMd[string(v.MetadataBytes)]; a != nil {
			pw.wrote(a)
		}
	}
	iw.net.onReq = func(p *Publisher, ask string) { pw.reqs[p]++ }
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	// After a restart the policy is that of the configuration.
	iw.onRestart = func() {
		pw.epochs = append(pw.epochs, &polEpoch{m: m0, t0: pw.next(), t1: pw.next()})
		pw.checkLoaded(m0)
	}
	iw.keepAlive()
	wait := w.runClients(func(op *Op) {
		if op.K == "pub" {
			a := iw.publish(op)
			atomically(func() { pw.pubAt[a] = pw.next() })
			return
		}
		pw.exec(op)
	})
	if !wait(24 * time.Hour) {
		pw.failP("P11", "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	// Everything stops. Then everyone announces something new.
	w.faultOn = false
	iw.up()
	time.Sleep(20 * time.Minute)
	iw.up()
	m := pw.cur()
	before := map[*Publisher]int{}
	regBefore := map[*Publisher]bool{}
	for i, p := range iw.pubs {
		regBefore[p] = iw.node.reg.IsRegistered(p.prov)
		a := iw.publish(&Op{P: p.i, X: pick(w.rng, adChunks, adHamt), Y: 5, A: 3, B: 2, Z: int64(5000 + 100*i)})
		pw.pubAt[a] = pw.next()
		before[p] = pw.reqs[p]
		_ = pw.handler().Announce(bytes.NewReader(announceMsg(p, p.head())))
		_ = iw.announce(p, p.head())
	}
	time.Sleep(20 * time.Minute)
	for _, p := range iw.pubs {
		if !m.allowed(p.id) && pw.reqs[p] != before[p] {
			pw.failP("P11", "announce-blocked", "publisher %d: its announcement was acted upon although it is not allowed", p.i)
		}
		// an explicitly requested sync does not get around the policy
		if _, ok := iw.syncWait(p, 0, false, 0, 6*time.Hour); !ok {
			pw.failP("P11", "sync-hangs", "explicit sync of publisher %d never finished", p.i)
			return
		}
	}
	time.Sleep(time.Minute)
	for _, p := range iw.pubs {
		if !mayPublish(p)(m) {
			if iw.latestIdx(p) == len(p.ads) {
				pw.failP("P11", "ingested-blocked", "publisher %d: its newest advertisement is reported processed although policy does not allow it", p.i)
			}
			if !regBefore[p] && iw.node.reg.IsRegistered(p.prov) {
				pw.failP("P11", "registered-blocked", "provider %d became registered although policy does not allow it", p.i)
			}
			pw.hit("final.blocked")
		} else {
			pw.hit("final.allowed")
			if n := iw.latestIdx(p); n != len(p.ads) {
				pw.failP("P11", "allowed-starved", "publisher %d is allowed but only %d of its %d advertisements are ingested", p.i, n, len(p.ads))
			}
		}
	}
	if w.failed() {
		return
	}
	// What is in the index for a provider that is not allowed is left open:
	// ingestion may have stopped anywhere.
	iw.ignore = func(e entry) bool {
		for _, p := range iw.pubs {
			if p.prov == e.Prov {
				return !mayPublish(p)(m)
			}
		}
		return false
	}
	d := iw.diff(iw.model(nil))
	iw.ignore = nil
	if d != "" {
		pw.failP("P11", "index-differs", "with the policy in place: %s", d)
		return
	}
	// Allowed again, everything is ingested.
	open := &polModel{allow: true, publish: true, ex: map[peer.ID]bool{}, pex: map[peer.ID]bool{}}
	if w.knob("reopen", 0) == 1 && m.publish && len(m.pex) == 0 {
		for _, id := range pw.peers {
			mm := pw.cur().clone()
			mm.set(id, true)
			pw.change(mm, func() { iw.node.reg.AllowPeer(id) })
		}
	} else {
		pw.change(open, func() { iw.must(iw.node.reg.SetPolicy(open.config())) })
	}
	iw.settle("P11")
	iw.checkConverged("P11")
}

// checkLoaded: after a restart nobody the policy forbids is registered.
func (pw *PolWorld) checkLoaded(m *polModel) {
	reg := pw.node.reg
	go func() {
		for _, info := range reg.AllProviderInfo() {
			if !m.allowed(info.AddrInfo.ID) && pw.node.reg == reg && pw.blockedSince(func(m *polModel) bool { return m.allowed(info.AddrInfo.ID) }) != 0 {
				pw.failP("P11", "loaded-blocked", "after a restart provider %s is registered although policy does not allow it", info.AddrInfo.ID)
			}
		}
	}()
}

func genPolicy(r *rand.Rand, p *Plan, tier string) {
	o := genOpts{maxPubs: 3, maxAds: 4, syncs: 3, noAnn: true}
	np := genBase(r, p, o)
	k := p.Knobs
	k["final"] = 0
	k["cache"] = 0
	k["provDelta"] = r.Int63n(1 << uint(np))
	k["signProv"] = r.Int63n(1 << uint(np))
	k["rediscWait"] = pick(r, 0, 1, 300)
	genSyncs(r, p, np, o)
	mask := int64(1) << uint(2*np+1)
	if chance(r, 60) {
		k["allow0"], k["publish0"] = r.Int63n(2), r.Int63n(2)
		k["ex0"], k["pex0"] = r.Int63n(mask), r.Int63n(mask)
	}
	k["reopen"] = r.Int63n(2)
	for i := 0; i < 1+r.Intn(6); i++ {
		op := Op{C: 300, D: r.Int63n(pick(r, 100, 20000, 200000)), A: r.Int63n(8)}
		switch r.Intn(7) {
		case 0, 1:
			op.K, op.A, op.X, op.Y = "polset", r.Int63n(4), r.Int63n(mask), r.Int63n(mask)
		case 2, 3:
			op.K = "polallow"
		case 4, 5:
			op.K = "polblock"
		case 6:
			op.K, op.A = "polbad", r.Int63n(2)
		}
		p.Ops = append(p.Ops, op)
	}
	for c := 0; c < 1+r.Intn(3); c++ {
		for i := 0; i < 1+r.Intn(6); i++ {
			op := Op{C: 310 + c, D: r.Int63n(pick(r, 100, 20000, 100000)), P: r.Intn(np), A: r.Int63n(2), B: r.Int63n(7)}
			op.K = []string{"preg", "pupd", "pdisc", "pann", "pann", "query", "query", "ann"}[r.Intn(8)]
			if op.K == "query" {
				op.A = r.Int63n(7)
			}
			if op.K == "ann" {
				op.A = 0
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 30) {
		p.Ops = append(p.Ops, Op{C: 300, D: r.Int63n(100000), K: "crash"})
	}
}

func init() {
	register("policy", &Scenario{run: runPolicy, gen: genPolicy}, "P11")
}
