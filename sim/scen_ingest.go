package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// chain hook on what enters the value store
func (iw *IngWorld) addOnPut(f func(v indexer.Value, mhs []multihash.Multihash)) {
	prev := iw.node.vs.onPut
	iw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		if prev != nil {
			prev(h, v, mhs)
		}
		f(v, mhs)
	}
}

// ---- P04 --------------------------------------------------------------------

const (
	fgWrongSigner  = iota // names a victim provider, signed by a publisher that may not publish for it
	fgBadSig              // signature bytes damaged
	fgNoSig               // empty signature
	fgStolenSig           // signature copied from a genuine advertisement
	fgAltered             // altered after signing
	fgProviderSwap        // provider renamed to the victim after signing
	fgKeySwap             // signed by the forger, whose key in the envelope is replaced by the provider's
	fgKinds
)

// forge puts a forged advertisement on top of p's chain; on top of that,
// optionally, a genuine one without any effect.
func (iw *IngWorld) forge(op *Op) {
	p := iw.pubs[op.P%len(iw.pubs)]
	victim := iw.pubs[(op.P+1)%len(iw.pubs)]
	atomically(func() {
		iw.unforge(p)
		a := &Ad{kind: adChunks, prov: victim.prov, forged: true, opaque: true}
		a.md = fmt.Sprintf("forged-%d-%d", p.i, len(iw.byMd))
		a.ctx = victim.ctxFor(op.Y)
		ad := schema.Advertisement{
			Provider:  victim.prov.String(),
			Addresses: p.addrs,
			ContextID: []byte(a.ctx),
			Metadata:  []byte(a.md),
			Entries:   schema.NoEntries,
		}
		for k := int64(0); k < 1+op.A%5; k++ {
			a.mhs = append(a.mhs, mhFor(op.Z+k))
		}
		if op.B%4 == 0 {
			ad.IsRm = true
			a.kind = adRm
		} else {
			ad.Entries, a.blocks = p.chunks(a.mhs, 2)
		}
		if len(p.ads) > 0 && !strings.Contains(op.S, "orphan") {
			ad.PreviousID = cidlink.Link{Cid: p.ads[len(p.ads)-1].cid}
		}
		sign := func(x *schema.Advertisement, k crypto.PrivKey) error { return x.Sign(k) }
		if strings.Contains(op.S, "old") {
			sign = signOld
		}
		switch op.X % fgKinds {
		case fgWrongSigner:
			iw.must(sign(&ad, p.key))
		case fgBadSig:
			iw.must(sign(&ad, victim.provK))
			s := append([]byte{}, ad.Signature...)
			s[int(op.A+op.Z)%len(s)] ^= 1 << uint(op.B%8)
			ad.Signature = s
		case fgNoSig:
			ad.Signature = []byte{}
		case fgStolenSig:
			if len(victim.ads) > 0 {
				ad.Signature = victim.ads[len(victim.ads)-1].ad.Signature
			} else {
				ad.Signature = []byte("nonsense")
			}
		case fgAltered:
			orig := ad
			switch (op.A + op.B/4) % 6 {
			case 0:
				orig.Metadata = []byte("innocent")
			case 1:
				orig.Entries, _ = p.chunks([]multihash.Multihash{mhFor(999999)}, 1)
			case 2:
				orig.IsRm = !ad.IsRm
			case 3:
				orig.Addresses = victim.addrs
			case 4:
				l, _ := p.chunks([]multihash.Multihash{mhFor(999998)}, 1)
				orig.PreviousID = l
			case 5:
				orig.Provider = p.prov.String()
			}
			iw.must(sign(&orig, victim.provK))
			ad.Signature = orig.Signature
		case fgProviderSwap:
			orig := ad
			orig.Provider = p.prov.String()
			iw.must(sign(&orig, p.key))
			ad.Signature = orig.Signature
		case fgKeySwap:
			iw.must(sign(&ad, p.key))
			env, err := record.UnmarshalEnvelope(ad.Signature)
			iw.must(err)
			env.PublicKey = victim.provK.GetPublic()
			ad.Signature, err = env.Marshal()
			iw.must(err)
		}
		n, err := ad.ToNode()
		iw.must(err)
		a.ad = ad
		a.cid = p.store(n)
		p.push(a)
		iw.byMd[a.md] = a
		iw.pubOf[a] = p
		iw.count["forged"]++
		if strings.Contains(op.S, "top") {
			t := &Ad{kind: adMeta, prov: p.prov, forgedTop: true, opaque: true}
			t.md = fmt.Sprintf("top-%d-%d", p.i, len(iw.byMd))
			t.ctx = "no-such-context"
			p.link(t, schema.Advertisement{Provider: p.prov.String(), Addresses: p.addrs, ContextID: []byte(t.ctx), Metadata: []byte(t.md), Entries: schema.NoEntries})
			iw.byMd[t.md] = t
			iw.pubOf[t] = p
		}
	})
	iw.event("forged ad on pub%d kind %d", p.i, op.X%fgKinds)
}

// unforge rewinds the chain to before the first forged advertisement.
func (iw *IngWorld) unforge(p *Publisher) {
	for i, a := range p.ads {
		if a.forged || a.stuck {
			p.ads = p.ads[:i]
			return
		}
	}
}

// authOracle checks everything that enters the index against what genuine
// advertisements contain.
func (iw *IngWorld) authOracle(prop string) {
	iw.addOnPut(func(v indexer.Value, mhs []multihash.Multihash) {
		a := iw.byMd[string(v.MetadataBytes)]
		if a == nil {
			iw.failP(prop, "alien-content", "index received metadata %q that no advertisement contains", v.MetadataBytes)
			return
		}
		if a.forged {
			iw.failP(prop, "forged-content", "content of a forged advertisement (%s) entered the index", a.md)
			return
		}
		if a.prov != v.ProviderID || a.ctx != string(v.ContextID) {
			iw.failP(prop, "alien-content", "metadata %q entered the index under provider %s context %q, advertised under %s %q", a.md, short(v.ProviderID), v.ContextID, short(a.prov), a.ctx)
			return
		}
		if a.opaque {
			return
		}
		set := a.mhSet()
		for _, m := range mhs {
			if !set[string(m)] {
				iw.failP(prop, "alien-multihash", "multihash %x entered the index for advertisement %s, which does not contain it", []byte(m), a.md)
				return
			}
		}
	})
	iw.node.vs.onRm = func(h *VHandle, id peer.ID, ctxID []byte) {
		for _, p := range iw.pubs {
			for _, a := range p.all {
				if !a.forged && (a.kind == adRm || a.kind == adRmWithEntries) && a.prov == id && a.ctx == string(ctxID) {
					return
				}
			}
		}
		iw.failP(prop, "alien-removal", "context %q of provider %s removed from the index without any genuine removal advertisement", ctxID, short(id))
	}
}

func (a *Ad) mhSet() map[string]bool {
	if a.set == nil {
		a.set = map[string]bool{}
		for _, m := range a.mhs {
			a.set[string(m)] = true
		}
	}
	return a.set
}

func runAuth(w *World) {
	iw := newIngWorld(w)
	// Policy: who may publish for others.
	evil := iw.pubs[0]
	pol := config.Policy{Allow: true}
	switch w.knob("pubPolicy", 0) {
	case 0: // nobody
	case 1: // everybody except the forger
		pol.Publish = true
		for _, p := range iw.pubs {
			if p == evil || p.prov == p.id {
				pol.PublishExcept = append(pol.PublishExcept, p.id.String())
			}
		}
	case 2: // only those that need it
	}
	if w.knob("pubPolicy", 0) != 1 {
		for _, p := range iw.pubs {
			if p.prov != p.id {
				pol.PublishExcept = append(pol.PublishExcept, p.id.String())
			}
		}
	}
	iw.node.dcfg.Policy = pol
	iw.hookStore()
	iw.authOracle("P04")
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	wait := w.runClients(iw.exec)
	if !wait(24 * time.Hour) {
		return
	}
	for _, p := range iw.pubs {
		atomically(func() { iw.unforge(p) })
	}
	if w.failed() || !iw.settle("P04") {
		return
	}
	iw.checkConverged("P04")
}

func genAuth(r *rand.Rand, p *Plan, tier string) {
	o := genOpts{maxPubs: 2, maxAds: 4, syncs: 4, finals: []int64{0}, oldAnn: false}
	np := genBase(r, p, o)
	if np < 2 {
		np = 2
		p.Knobs["pubs"] = 2
		for j := 0; j < 2; j++ {
			p.Ops = append(p.Ops, genPub(r, 1, j, o))
		}
	}
	p.Knobs["provDelta"] = p.Knobs["provDelta"] &^ 1 // the forger publishes for itself
	p.Knobs["pubPolicy"] = r.Int63n(3)
	genSyncs(r, p, np, o)
	// forgeries, interleaved with the forger's own publishing
	for i := 0; i < 1+r.Intn(3); i++ {
		op := Op{C: 0, D: r.Int63n(20000), K: "forge", P: 0, X: r.Int63n(fgKinds), Y: r.Int63n(3), A: r.Int63n(9), B: r.Int63n(8), Z: pick(r, 0, 1000, 1003, 5000)}
		if chance(r, 50) {
			op.S = "top"
		}
		if chance(r, 30) {
			op.S += "orphan"
		}
		if chance(r, 30) {
			op.S += "old"
		}
		p.Ops = append(p.Ops, op)
		if chance(r, 70) {
			p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(2000), K: "ann", P: 0})
		}
		if chance(r, 50) {
			p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(2000), K: "sync", P: 0})
		}
		if chance(r, 40) {
			q := genPub(r, 0, 1, o)
			p.Ops = append(p.Ops, q)
		}
	}
	for i := 0; i < r.Intn(6); i++ {
		f := Fault{K: []string{"net.corrupt", "net.swap", "net.swap", "net.trunc"}[r.Intn(4)], T: r.Intn(np), N: r.Int63n(40), M: 1 + r.Int63n(3), A: r.Int63n(1 << 30)}
		if f.K == "net.swap" && chance(r, 40) {
			f.S = "other"
		}
		if f.K == "net.trunc" {
			f.S = "eof"
		}
		p.Faults = append(p.Faults, f)
	}
}

// ---- P05 --------------------------------------------------------------------

// dealtWith reports what is wrong with the effect of p's first n
// advertisements on the index ("" if nothing). Content that a later (already
// published) removal takes away may be absent.
func (iw *IngWorld) dealtWith(p *Publisher, n int) string {
	removedLater := func(ctx string, after int) bool {
		for _, b := range p.ads[after+1:] {
			if (b.kind == adRm || b.kind == adRmWithEntries) && b.ctx == ctx {
				return true
			}
		}
		return false
	}
	for j := 0; j < n; j++ {
		a := p.ads[j]
		if a.opaque {
			continue
		}
		switch a.kind {
		case adMeta:
		case adRm, adRmWithEntries:
			// everything older under that context, not advertised again since,
			// is gone
			if removedLater(a.ctx, j) {
				continue
			}
			again := map[string]bool{}
			for _, b := range p.ads[j+1:] {
				if b.ctx == a.ctx {
					for _, m := range b.mhs {
						again[string(m)] = true
					}
				}
			}
			for _, b := range p.ads[:j] {
				if b.ctx != a.ctx {
					continue
				}
				for _, m := range b.mhs {
					if again[string(m)] {
						continue
					}
					for _, e := range iw.node.lookup(m) {
						if e.Prov == a.prov && e.Ctx == a.ctx {
							return fmt.Sprintf("context %q removed by ad %d still maps multihash of ad %d", a.ctx, j, b.idx)
						}
					}
				}
			}
		default:
			if removedLater(a.ctx, j) {
				continue
			}
			for _, m := range a.mhs {
				ok := false
				for _, e := range iw.node.lookup(m) {
					if e.Prov == a.prov && e.Ctx == a.ctx {
						ok = true
						// the metadata is that of this or a newer advertisement
						if b := iw.byMd[e.Md]; b != nil && iw.pubOf[b] == p && b.idx < j {
							return fmt.Sprintf("ad %d of context %q is in, but the metadata is still that of ad %d", j, a.ctx, b.idx)
						}
					}
				}
				if !ok {
					return fmt.Sprintf("multihash %s of ad %d is not findable", m.B58String(), j)
				}
			}
		}
	}
	return ""
}

// orderOracle checks order of effects and truth of reported progress.
func (iw *IngWorld) orderOracle(prop string) {
	cur := map[*Publisher]int{}
	latest := map[*Publisher]int{}
	inc := 0
	iw.addOnPut(func(v indexer.Value, mhs []multihash.Multihash) {
		a := iw.byMd[string(v.MetadataBytes)]
		if a == nil {
			return
		}
		p := iw.pubOf[a]
		if iw.node.n != inc {
			// After a crash ingestion resumes after the last durable progress.
			inc = iw.node.n
			cur = map[*Publisher]int{}
			for q, l := range latest {
				cur[q] = l
			}
		}
		k := a.idx + 1
		if k < cur[p] {
			iw.failP(prop, "out-of-order", "publisher %d: content of ad %d entered the index after that of ad %d", p.i, a.idx, cur[p]-1)
			return
		}
		if k > cur[p] {
			cur[p] = k
			if d := iw.dealtWith(p, a.idx); d != "" {
				iw.failP(prop, "order", "publisher %d: ad %d starts entering the index too early: %s", p.i, a.idx, d)
			}
		}
	})
	iw.node.disk.onOp = func(h *DiskHandle, op, key string, val []byte) {
		if !strings.HasPrefix(key, "/sync/") {
			return
		}
		for _, p := range iw.pubs {
			if key != "/sync/"+p.id.String() {
				continue
			}
			if op == "del" {
				iw.failP(prop, "progress-lost", "publisher %d: latest sync deleted", p.i)
				return
			}
			_, c, err := cid.CidFromBytes(val)
			if err != nil {
				iw.failP(prop, "progress-garbage", "publisher %d: latest sync is not a CID", p.i)
				return
			}
			a := p.byCid[c]
			if a == nil {
				iw.failP(prop, "progress-garbage", "publisher %d: latest sync %s is not an advertisement of its chain", p.i, c)
				return
			}
			if a.idx+1 < latest[p] {
				iw.failP(prop, "progress-back", "publisher %d: reported progress went back from ad %d to ad %d", p.i, latest[p]-1, a.idx)
				return
			}
			latest[p] = a.idx + 1
			if d := iw.dealtWith(p, a.idx+1); d != "" {
				iw.failP(prop, "progress-lies", "publisher %d: progress reported up to ad %d, but %s", p.i, a.idx, d)
			}
		}
	}
	iw.onRestart = func() {
		for _, p := range iw.pubs {
			if l := latest[p]; l > 0 {
				if d := iw.dealtWith(p, l); d != "" {
					iw.failP(prop, "progress-lies", "publisher %d: after restart progress is ad %d, but %s", p.i, l-1, d)
				}
			}
		}
	}
}

func runOrder(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	iw.orderOracle("P05")
	w.faultOn = false
	iw.must(iw.node.start())
	if w.knob("final", 0) == 2 {
		iw.preRegister()
	}
	w.faultOn = true
	iw.keepAlive()
	wait := w.runClients(iw.exec)
	if !wait(24*time.Hour) || w.failed() {
		return
	}
	iw.settle("P05")
}

// ---- P06 --------------------------------------------------------------------

func runProgress(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	wait := w.runClients(iw.exec)
	if !wait(48 * time.Hour) {
		iw.failP("P06", "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	// A removed provider comes back with something new.
	for _, p := range iw.pubs {
		if iw.removed[p] {
			iw.publish(&Op{K: "pub", P: p.i, A: 5, B: 2, X: adChunks, Y: 1, Z: 7000})
		}
	}
	// One publisher may stay broken for ever; everybody else must get served.
	if b := w.knob("broken", -1); b >= 0 && len(iw.pubs) > 1 {
		iw.settleSkip = iw.pubs[int(b)%len(iw.pubs)]
		iw.settleSkip.blackhole = w.knob("brokenHow", 0) == 1
		iw.settleSkip.down = true
		// keep poking it
		go func() {
			for i := 0; i < 20 && !w.done; i++ {
				p := iw.settleSkip
				if i%2 == 0 {
					if len(p.ads) > 0 {
						_ = iw.announce(p, p.head())
					}
				} else {
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+i)*20*time.Second)
					ch, err := iw.node.ing.Sync(ctx, p.id, p.addr, 0, false)
					if err == nil {
						<-ch
					}
					cancel()
				}
				time.Sleep(10 * time.Second)
			}
		}()
	}
	iw.settle("P06")
}

// ---- P07 --------------------------------------------------------------------

func runAnnounce(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	iw.acceptedAnn = map[*Publisher]int{}
	iw.announceOnProgress()
	wait := w.runClients(iw.exec)
	if !wait(24*time.Hour) || w.failed() {
		return
	}
	for _, p := range iw.pubs {
		want := iw.acceptedAnn[p]
		if want == 0 {
			continue
		}
		ok := iw.waitCond(4*time.Hour, func() bool {
			want = iw.acceptedAnn[p]
			return iw.trigActive == 0 && iw.latestIdx(p) >= want
		})
		if !ok {
			// Ingestion deletes entry blocks when it is done with them, also
			// those another publisher's ad being ingested has in common.
			cls := "announce-lost"
			if iw.sharesEntries(p, want) {
				cls = "announce-lost-shared-entries"
			}
			iw.failP("P07", cls, "publisher %d: announcement of ad %d was accepted, but the indexer stays at ad %d", p.i, want-1, iw.latestIdx(p)-1)
			return
		}
	}
}

// sharesEntries reports whether entry blocks of p's first n advertisements are
// also part of another publisher's.
func (iw *IngWorld) sharesEntries(p *Publisher, n int) bool {
	mine := map[string]bool{}
	for _, a := range p.ads[:n] {
		for _, b := range a.blocks {
			mine[b] = true
		}
	}
	for _, q := range iw.pubs {
		if q == p {
			continue
		}
		for _, a := range q.ads {
			for _, b := range a.blocks {
				if mine[b] {
					return true
				}
			}
		}
	}
	return false
}

func (iw *IngWorld) waitCond(d time.Duration, f func() bool) bool {
	deadline := time.Now().Add(d)
	step := 10 * time.Millisecond
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(step)
		if step < 20*time.Second {
			step = step * 3 / 2
		}
	}
	return true
}

// ---- P08 --------------------------------------------------------------------

// waitToClose waits until it is time to close: at a given time, or at the n-th
// write to the datastore, write to the value store or request to a publisher
// from now on, or at the n-th request after polling has started.
func (iw *IngWorld) waitToClose(on, n int64) {
	if on == 0 {
		time.Sleep(time.Duration(n) * time.Microsecond)
		return
	}
	n = n % 60
	limit := time.Second
	if on >= 4 {
		n = n % 4
		limit = 10 * time.Minute
	}
	hit := make(chan struct{})
	left := n
	step := func() {
		if left >= 0 {
			if left--; left < 0 {
				iw.node.disk.closing = true
				close(hit)
			}
		}
	}
	switch on {
	case 1:
		iw.node.disk.onOp = func(h *DiskHandle, op, key string, val []byte) { step() }
	case 2:
		iw.node.vs.onRm = func(h *VHandle, id peer.ID, ctxID []byte) { step() }
		iw.node.vs.aroundPut = func(v indexer.Value, in bool) { atomically(step) }
	default:
		from := iw.now()
		for _, p := range iw.pubs {
			p.onServe = func(ask string) {
				if on == 3 || iw.now() > from+55000000 && (on == 4 || ask == "head") {
					step()
				}
			}
		}
	}
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-hit:
		iw.hit(fmt.Sprintf("close.on%d", on))
	case <-t.C:
	}
	iw.node.disk.onOp, iw.node.vs.onRm, iw.node.vs.aroundPut = nil, nil, nil
	for _, p := range iw.pubs {
		p.onServe = nil
	}
}

func runClose(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	if w.knob("final", 0) == 2 {
		iw.preRegister()
	}
	w.faultOn = true
	wait := w.runClients(iw.exec)
	rounds := int(w.knob("closes", 1))
	for i := 0; i < rounds; i++ {
		iw.waitToClose(w.knob(fmt.Sprintf("closeOn%d", i), 0), w.knob(fmt.Sprintf("closeAt%d", i), 20000))
		inc := iw.node.inc
		iw.event("closing")
		iw.closing = true
		inc.onLate = func(what string) {
			iw.failP("P08", "late-access", "%s after shutdown completed", what)
		}
		if !iw.node.close(5 * time.Hour) {
			iw.failP("P08", "close-hangs", "shutdown did not finish")
			return
		}
		iw.event("closed")
		w.hit("close")
		// closing again is harmless
		if !within(time.Hour, func() { _ = iw.node.ing.Close(); _ = iw.node.reg.Close() }) {
			iw.failP("P08", "close-hangs", "closing a second time did not finish")
			return
		}
		// operations on a closed instance end
		time.Sleep(time.Duration(w.knob("closeGap", 0)) * time.Microsecond)
		h := iw.node.host
		_ = within(time.Hour, func() { h.Close() })
		if w.failed() {
			return
		}
		iw.node.disk.closing = false
		w.faultOn = false // starting on failing stores is refused, by design
		iw.must(iw.node.start())
		w.faultOn = true
		iw.closing = false
		w.hit("restart")
	}
	if !wait(24 * time.Hour) {
		iw.failP("P08", "op-hangs", "an operation in flight or arriving during shutdown never ended")
		return
	}
	if w.failed() || !iw.settle("P08") {
		return
	}
	iw.checkConverged("P08")
}

// ---- P09: hostile advertisements ---------------------------------------------

func runHostile(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	wait := w.runClients(iw.exec)
	if !wait(24 * time.Hour) {
		iw.failP("P09", "client-hangs", "a workload step never finished")
		return
	}
	// The hostile publisher becomes well-behaved: a valid advertisement on top.
	evil := iw.pubs[0]
	atomically(func() { iw.unforge(evil) })
	iw.publish(&Op{K: "pub", P: 0, A: 5, B: 2, X: adChunks, Y: 1, Z: 7000})
	if w.failed() || !iw.settle("P09") {
		return
	}
	iw.checkConverged("P09")
}

// ---- P19 --------------------------------------------------------------------

func (iw *IngWorld) parallelOracle(prop string) {
	inPut := map[peer.ID]int{}
	active := map[string]int{}
	lim := func() int64 { return iw.workersHi }
	enter := func(who string) {
		active[who]++
		n := int64(0)
		for _, c := range active {
			if c > 0 {
				n++
			}
		}
		if n > lim() {
			iw.failP(prop, "too-parallel", "%d providers are being processed at once with %d workers", n, lim())
		}
		iw.state("par %d/%d", n, lim())
	}
	iw.node.vs.aroundPut = func(v indexer.Value, in bool) {
		atomically(func() {
			if in {
				inPut[v.ProviderID]++
				if inPut[v.ProviderID] > 1 {
					iw.failP(prop, "provider-twice", "two workers store content of provider %s at once", short(v.ProviderID))
				}
				enter(string(v.ProviderID))
			} else {
				inPut[v.ProviderID]--
				active[string(v.ProviderID)]--
			}
		})
	}
	entryOwner := func(p *Publisher, ask string) bool {
		for _, a := range p.ads {
			for _, b := range a.blocks {
				if b == ask {
					return true
				}
			}
		}
		return false
	}
	iw.net.around = func(p *Publisher, ask string, in bool) {
		atomically(func() {
			if !entryOwner(p, ask) {
				return
			}
			if in {
				enter(string(p.prov))
			} else {
				active[string(p.prov)]--
			}
		})
	}
}

// inForce checks that the settings acknowledged last are in force: as many
// providers as there are workers are processed at once, and content is stored
// in batches of the configured size. Nothing else may be going on.
func (iw *IngWorld) inForce(prop string, sync func(p *Publisher)) {
	workers, batch := iw.workersHi, iw.batchNow
	m := len(iw.pubs)
	if int64(m) > workers {
		m = int(workers)
	}
	held := map[int]bool{}
	open := false
	prev := iw.net.around
	mine := map[string]int{}
	iw.net.around = func(p *Publisher, ask string, in bool) {
		if in {
			atomically(func() {
				if i, ok := mine[ask]; ok {
					held[i] = true
				}
			})
			for _, ok := mine[ask]; ok && !open; {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if prev != nil {
			prev(p, ask, in)
		}
	}
	const n = 20
	most := map[peer.ID]int{}
	probing := true
	iw.addOnPut(func(v indexer.Value, mhs []multihash.Multihash) {
		if !probing {
			return
		}
		if len(mhs) > most[v.ProviderID] {
			most[v.ProviderID] = len(mhs)
		}
	})
	done := make(chan struct{}, m)
	for i := 0; i < m; i++ {
		p := iw.pubs[i]
		a := iw.publish(&Op{K: "pub", P: i, A: 2 * n, B: n, X: adChunks, Y: 9, Z: 9000 + 100*int64(i)})
		atomically(func() {
			for _, b := range a.blocks {
				mine[b] = i
			}
		})
		go func() { sync(p); done <- struct{}{} }()
	}
	all := iw.waitUntil(20*time.Second, func() bool { return len(held) == m })
	atomically(func() { open = true })
	if !all && !iw.failed() {
		iw.failP(prop, "workers-not-used", "%d providers have content to be ingested and there are %d workers, but only %d are being processed", m, workers, len(held))
		return
	}
	t := time.NewTimer(6 * time.Hour)
	defer t.Stop()
	for i := 0; i < m; i++ {
		select {
		case <-done:
		case <-t.C:
			iw.failP(prop, "not-converged", "ingestion does not finish")
			return
		}
	}
	time.Sleep(time.Minute)
	atomically(func() { probing = false })
	want := n
	if batch < n {
		want = int(batch)
	}
	for i := 0; i < m && !iw.failed(); i++ {
		if got := most[iw.pubs[i].prov]; got != want {
			iw.failP(prop, "batch-size", "chunks of %d multihashes are stored %d at a time with a batch size of %d", n, got, batch)
		}
	}
	iw.hit("settings.inforce")
}

func runReconf(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	iw.parallelOracle("P19")
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	wait := w.runClients(iw.exec)
	if !wait(24 * time.Hour) {
		iw.failP("P19", "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() || !iw.settle("P19") {
		return
	}
	iw.inForce("P19", func(p *Publisher) { iw.syncWait(p, 0, false, 0, 6*time.Hour) })
	iw.checkConverged("P19")
}

// ---- P20 --------------------------------------------------------------------

// damage changes the index behind the indexer's back and the model alike.
func (iw *IngWorld) damage(m *Model, op *Op) {
	atomically(func() {
		p := iw.pubs[op.P%len(iw.pubs)]
		pc := m.ctxs[p.prov]
		ctx := p.ctxFor(op.Y)
		c := pc[ctx]
		if c == nil {
			return
		}
		val := indexer.Value{ProviderID: p.prov, ContextID: []byte(ctx), MetadataBytes: []byte(c.md)}
		switch op.X % 3 {
		case 0: // context gone
			_ = iw.node.store.eng.RemoveProviderContext(p.prov, []byte(ctx))
			iw.node.store.record(vop{k: 'c', val: val})
			delete(pc, ctx)
		case 1: // some multihashes gone
			var ks []string
			for k := range c.mhs {
				ks = append(ks, k)
			}
			sortStrings(ks)
			var drop []multihash.Multihash
			for i, k := range ks {
				if (op.A>>uint(i%8))&1 == 1 {
					drop = append(drop, multihash.Multihash(k))
					delete(c.mhs, k)
				}
			}
			if len(drop) > 0 {
				_ = iw.node.store.eng.Remove(val, drop...)
				iw.node.store.record(vop{k: 'r', val: val, mhs: drop})
			}
		case 2: // metadata changed
			val.MetadataBytes = []byte("damaged")
			_ = iw.node.store.eng.Put(val)
			iw.node.store.record(vop{k: 'p', val: val})
			c.md = "damaged"
		}
		iw.count["damage"]++
		// The damage is permanent.
		iw.node.vs.durable = append(iw.node.vs.durable, iw.node.vs.pending...)
		iw.node.vs.pending = nil
	})
	iw.event("damage p=%d ctx=%d how=%d", op.P, op.Y, op.X%3)
}

func runResync(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	iw.keepAlive()
	var dmg, res []*Op
	ops := w.plan.Ops
	var pre []Op
	for i := range ops {
		switch ops[i].K {
		case "damage":
			dmg = append(dmg, &ops[i])
		case "resync":
			res = append(res, &ops[i])
		default:
			pre = append(pre, ops[i])
		}
	}
	w.plan.Ops = pre
	wait := w.runClients(iw.exec)
	w.plan.Ops = ops
	if !wait(24*time.Hour) || w.failed() {
		return
	}
	if !iw.settle("P20") {
		return
	}
	m := iw.model(nil)
	if d := iw.diff(m); d != "" {
		iw.hit("other:P01:index-differs")
		return
	}
	for _, op := range dmg {
		iw.damage(m, op)
	}
	if d := iw.diff(m); d != "" {
		panic("harness: damage model: " + d)
	}
	for ri, op := range res {
		p := iw.pubs[op.P%len(iw.pubs)]
		if len(p.ads) == 0 {
			continue
		}
		depth := int(op.A)
		lo := 0
		if depth > 0 && depth < len(p.ads) {
			lo = len(p.ads) - depth
		}
		touched := map[int]bool{}
		iw.addOnPut(func(v indexer.Value, mhs []multihash.Multihash) {
			if a := iw.byMd[string(v.MetadataBytes)]; a != nil && iw.pubOf[a] == p {
				touched[a.idx] = true
			}
		})
		ok := false
		w.faultOn = true
		// interrupted attempts first
		for k := int64(0); k < op.B; k++ {
			iw.up()
			_, done := iw.syncWait(p, depth, true, time.Duration(op.X)*time.Microsecond, 6*time.Hour)
			if !done {
				iw.failP("P20", "resync-hangs", "re-sync of publisher %d never finished", p.i)
				return
			}
			if op.Y == 1 {
				iw.node.crashNow("during re-sync")
				iw.up()
			}
			// Let what is still in progress finish.
			time.Sleep(10 * time.Minute)
			iw.up()
		}
		w.faultOn = false
		time.Sleep(3 * time.Hour)
		iw.up()
		for try := 0; try < 3 && !ok; try++ {
			c, done := iw.syncWait(p, depth, true, 0, 6*time.Hour)
			if !done {
				iw.failP("P20", "resync-hangs", "re-sync of publisher %d never finished", p.i)
				return
			}
			if ok = c == p.head(); !ok {
				time.Sleep(time.Minute)
			}
		}
		if !ok {
			iw.failP("P20", "resync-fails", "re-sync %d of publisher %d with no faults does not succeed", ri, p.i)
			return
		}
		for _, a := range p.ads[lo:] {
			m.apply(a)
		}
		for i := range touched {
			if i < lo {
				iw.failP("P20", "resync-too-deep", "re-sync of depth %d of publisher %d re-ingested ad %d of %d", depth, p.i, i, len(p.ads))
				return
			}
		}
		if d := iw.diff(m); d != "" {
			iw.failP("P20", "not-repaired", "after re-sync (depth %d) of publisher %d (%d ads): %s", depth, p.i, len(p.ads), d)
			return
		}
		time.Sleep(time.Minute)
		if got := iw.latestIdx(p); got != len(p.ads) {
			iw.failP("P20", "progress-wrong", "after re-sync of publisher %d progress is ad %d of %d", p.i, got, len(p.ads))
			return
		}
	}
	// life goes on
	for i, p := range iw.pubs {
		a := iw.publish(&Op{K: "pub", P: i, A: 3, B: 2, X: adChunks, Y: 0, Z: 9000 + int64(i)*10})
		m.apply(a)
		_ = p
	}
	if !iw.settle("P20") {
		return
	}
	if d := iw.diff(m); d != "" {
		iw.failP("P20", "not-repaired", "after publishing again: %s", d)
	}
}

func genResync(r *rand.Rand, p *Plan, tier string) {
	o := genOpts{maxPubs: 2, maxAds: 5, syncs: 2, finals: []int64{0}}
	np := genBase(r, p, o)
	genSyncs(r, p, np, o)
	for i := 0; i < 1+r.Intn(4); i++ {
		p.Ops = append(p.Ops, Op{C: 300, K: "damage", P: r.Intn(np), X: r.Int63n(3), Y: r.Int63n(3), A: 1 + r.Int63n(255)})
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		op := Op{C: 301, K: "resync", P: r.Intn(np), A: pick(r, 0, -1, 1, 2, 3, 4, 10)}
		op.B = pick(r, 0, 0, 1, 2)
		if op.B > 0 && chance(r, 50) {
			op.X = 1 + r.Int63n(pick(r, 1000, 20000, 200000))
		}
		if chance(r, 20) {
			op.Y = 1
		}
		p.Ops = append(p.Ops, op)
	}
	if chance(r, 60) {
		genNetFaults(r, p, np, 1+r.Intn(4))
	}
	if chance(r, 40) {
		genStoreFaults(r, p, 1+r.Intn(2), 0)
	}
	if chance(r, 20) {
		genCrashes(r, p, 1)
	}
}

func init() {
	register("auth", &Scenario{run: runAuth, gen: genAuth}, "P04")
	register("order", &Scenario{run: runOrder, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 2, maxAds: 6, syncs: 5, finals: []int64{0, 0, 1, 2}, cancel: 10, oldAnn: true}
		np := genBase(r, p, o)
		genSyncs(r, p, np, o)
		if chance(r, 50) {
			genNetFaults(r, p, np, 1+r.Intn(4))
		}
		if chance(r, 40) {
			genStoreFaults(r, p, 1+r.Intn(2), 0)
		}
		if chance(r, 25) {
			p.Knobs["final"] = pick(r, 0, 1)
			genCrashes(r, p, 1+r.Intn(2))
		}
	}}, "P05")
	register("progress", &Scenario{run: runProgress, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 4, maxAds: 4, syncs: 6, finals: []int64{0, 0, 1}, cancel: 35, oldAnn: true}
		np := genBase(r, p, o)
		genSyncs(r, p, np, o)
		if chance(r, 25) {
			p.Ops = append(p.Ops, Op{C: 500, D: r.Int63n(60000), K: "rmprov", P: r.Intn(np)})
			p.Ops = append(p.Ops, Op{C: 500, D: r.Int63n(60000), K: "sync", P: p.Ops[len(p.Ops)-1].P})
		}
		if chance(r, 35) {
			// syncs of one publisher, each for a newer head than the one before
			p.Knobs["workers"] = 1
			t := r.Intn(np)
			at := r.Int63n(20000)
			for k := 0; k < 3+r.Intn(4); k++ {
				op := genPub(r, t, k, o)
				op.C, op.D = 600+2*k, at
				p.Ops = append(p.Ops, op)
				p.Ops = append(p.Ops, Op{C: 600 + 2*k, D: r.Int63n(100), K: "sync", P: t})
				at += r.Int63n(pick(r, 1000, 8000, 30000))
			}
			n := r.Int63n(60)
			for k := 0; k < 1+r.Intn(3); k++ {
				p.Faults = append(p.Faults, Fault{K: "net.status", T: t, N: n, M: 1 + r.Int63n(4), A: pick(r, 404, 403, 500)})
				n += r.Int63n(12)
			}
		}
		genNetFaults(r, p, np, 1+r.Intn(8))
		if chance(r, 30) {
			genStoreFaults(r, p, 1+r.Intn(2), 0)
		}
		p.Knobs["broken"] = pick(r, -1, 0, 1)
		p.Knobs["brokenHow"] = r.Int63n(2)
	}}, "P06")
	register("announce", &Scenario{run: runAnnounce, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 3, maxAds: 7, syncs: 3, noAnn: true}
		np := genBase(r, p, o)
		if !chance(r, 30) {
			p.Knobs["provDelta"] = 0
		}
		shared := chance(r, 5)
		// every publisher announces its own chain, in order, sometimes twice
		var ops []Op
		for _, op := range p.Ops {
			if !shared {
				op.Z += int64(1+op.P) * 100000
			}
			op.D = r.Int63n(pick(r, 500, 5000, 30000))
			ops = append(ops, op)
			for k := int64(0); k < pick(r, 0, 1, 1, 1, 2); k++ {
				ops = append(ops, Op{C: op.C, D: r.Int63n(pick(r, 1, 1000, 8000)), K: "hann", P: op.P})
			}
		}
		for i := 0; i < np; i++ {
			ops = append(ops, Op{C: i, D: r.Int63n(8000), K: "hann", P: i})
		}
		p.Ops = ops
		if chance(r, 40) {
			genSyncs(r, p, np, o)
		}
		for i := 0; i < r.Intn(4); i++ {
			k := []string{"net.slow", "net.drip"}[r.Intn(2)]
			p.Faults = append(p.Faults, Fault{K: k, T: r.Intn(np), N: r.Int63n(40), M: 1 + r.Int63n(4), A: 1000 + r.Int63n(60000)})
		}
		p.Knobs["annVia"] = r.Int63n(2)
		for i := 0; i < np && chance(r, 80); i++ {
			for n := 0; n < 4; n++ {
				p.Faults = append(p.Faults, Fault{K: "sched.announce", T: i, N: r.Int63n(8), M: 1, A: pick(r, 0, 0, 0, 1, 50, 1000)})
			}
		}
	}}, "P07")
	register("close", &Scenario{run: runClose, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 3, maxAds: 4, syncs: 4, finals: []int64{0}, cancel: 15}
		np := genBase(r, p, o)
		p.Knobs["final"] = pick(r, 0, 0, 2)
		p.Knobs["pollInterval"] = 60
		p.Knobs["pollRetry"] = 60
		p.Knobs["pollStop"] = 864000
		genSyncs(r, p, np, o)
		n := 1 + r.Intn(2)
		p.Knobs["closes"] = int64(n)
		for i := 0; i < n; i++ {
			p.Knobs[fmt.Sprintf("closeAt%d", i)] = r.Int63n(pick(r, 10, 1000, 60000, 60000, 200000))
			p.Knobs[fmt.Sprintf("closeOn%d", i)] = pick(r, 0, 0, 1, 2, 3)
			if p.Knobs["final"] == 2 && chance(r, 60) {
				p.Knobs[fmt.Sprintf("closeOn%d", i)] = pick(r, 4, 5, 5)
			}
		}
		if chance(r, 40) {
			p.Faults = append(p.Faults, Fault{K: "disk.closestall", N: r.Int63n(3), M: 1 + r.Int63n(2), A: r.Int63n(2000000)})
		}
		if chance(r, 20) {
			p.Faults = append(p.Faults, Fault{K: "disk.closeeio", N: r.Int63n(4), M: 1 + r.Int63n(3)})
		}
		p.Knobs["closeGap"] = pick(r, 0, 1000, 100000000)
		if chance(r, 50) {
			genNetFaults(r, p, np, 1+r.Intn(4))
		}
		if chance(r, 20) {
			genStoreFaults(r, p, 1+r.Intn(2), r.Intn(2))
		}
		for i := range p.Faults {
			// The ingester waits 10 s for syncs in progress before it closes
			// their transport; longer storage stalls are not explored here.
			if f := &p.Faults[i]; f.K == "vs.stall" || f.K == "disk.stall" {
				f.M, f.A = 1, f.A%2000000
			}
		}
	}}, "P08")
	register("hostile", &Scenario{run: runHostile, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 3, maxAds: 3, syncs: 3, finals: []int64{0, 0, 1}}
		np := genBase(r, p, o)
		delete(p.Knobs, "ctx0") // hostile advertisements have one
		genSyncs(r, p, np, o)
		for i := 0; i < 1+r.Intn(4); i++ {
			p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(20000), K: "evil", P: 0, X: r.Int63n(evKinds), Y: r.Int63n(3), A: r.Int63n(20), B: r.Int63n(4096), Z: 20000 + int64(i)*100})
			if chance(r, 60) {
				p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(2000), K: "ann", P: 0})
			}
			if chance(r, 40) {
				p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(2000), K: "sync", P: 0})
			}
			if chance(r, 40) {
				p.Ops = append(p.Ops, genPub(r, 0, 1, o))
			}
		}
	}}, "P09")
	register("reconf", &Scenario{run: runReconf, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 5, maxAds: 4, syncs: 4, finals: []int64{0, 1}}
		np := genBase(r, p, o)
		if p.Knobs["vsLat"] < 300 {
			p.Knobs["vsLat"] = pick(r, 300, 3000)
		}
		genSyncs(r, p, np, o)
		for i := 0; i < 1+r.Intn(8); i++ {
			op := Op{C: 400, D: r.Int63n(15000)}
			switch r.Intn(5) {
			case 0, 1:
				op.K, op.A = "workers", pick(r, 1, 1, 2, 3, 5, 8)
			case 2:
				op.K, op.A = "batch", pick(r, 1, 2, 3, 7, 64, 4096)
			case 3:
				op.K, op.A, op.B, op.X = "rate", pick(r, 0, 20, 100, 1000), r.Int63n(2), pick(r, 1, 5, 50)
			case 4:
				op.K, op.A = "policy", r.Int63n(4)
			}
			p.Ops = append(p.Ops, op)
		}
		if chance(r, 30) {
			genNetFaults(r, p, np, 1+r.Intn(3))
		}
	}}, "P19")
	register("resync", &Scenario{run: runResync, gen: genResync}, "P20")
	register("leftovers", &Scenario{run: runConverge, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 2, maxAds: 5, syncs: 4, finals: []int64{0, 1}, cancel: 15, oldAnn: true}
		np := genBase(r, p, o)
		genSyncs(r, p, np, o)
		if chance(r, 70) {
			genNetFaults(r, p, np, 1+r.Intn(6))
		}
		if chance(r, 40) {
			genStoreFaults(r, p, 1+r.Intn(3), 0)
		}
	}}, "P21")
}

var _ = multiaddr.StringCast
