package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/server/finder/handler"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// P13: the finder over the real registry and value store, while providers
// register, change, fall silent, return and are removed.

const (
	fsAbsent   = iota // not registered
	fsActive          // registered and active
	fsInactive        // registered and inactive
	fsBusy            // an operation on the registration is in progress
)

// provEv is what is known about a provider from a point of the history on.
type provEv struct {
	tick  int64
	st    int
	reg   bool      // certainly registered
	until time.Time // active: cannot become inactive before
	gone  time.Time // active: must have become inactive or removed by then, if polled
	addrs []string  // possible addresses
}

type snapEv struct {
	tick int64
	es   []entry
}

type findProv struct {
	i     int
	id    peer.ID
	hist  []provEv
	gen   int // operations begun
	own   map[string]int
	reg   bool
	addrs string
	ver   int64
}

func (p *findProv) last() provEv { return p.hist[len(p.hist)-1] }

type FindWorld struct {
	*RegWorld
	fh       *handler.FinderHandler
	ps       []*findProv
	byID     map[peer.ID]*findProv
	mhs      []multihash.Multihash
	snaps    [][]snapEv
	closedAt int64
	quiet    time.Duration // an active provider stays active this long after contact
	quiet0   time.Duration // and this long after a registration that was no contact
	silent   time.Duration // nobody stays active this long without contact
	prop     string
	find     func(op *Op, mhs []multihash.Multihash) (*model.FindResponse, error)
	get      func(op *Op, id peer.ID) ([]byte, error)
	list     func(op *Op) ([]byte, error)
}

func newFindWorld(w *World) *FindWorld {
	fw := &FindWorld{RegWorld: newRegWorld(w), byID: map[peer.ID]*findProv{}}
	fw.prop, fw.hangProp = "P13", "P13"
	n := int(w.knob("mhs", 6))
	for i := 0; i < n; i++ {
		m, err := multihash.Sum([]byte(fmt.Sprintf("find-%d", i)), multihash.SHA2_256, -1)
		if err != nil {
			panic(err)
		}
		fw.mhs = append(fw.mhs, m)
		fw.snaps = append(fw.snaps, []snapEv{{}})
	}
	for i := 0; i < int(w.knob("provs", 2)); i++ {
		p := &findProv{i: i, id: idFor("provider", i), hist: []provEv{{st: fsAbsent}}, own: map[string]int{}}
		fw.ps = append(fw.ps, p)
		fw.byID[p.id] = p
	}
	d := &fw.node.dcfg
	fw.quiet = time.Duration(d.PollInterval) + 2*time.Duration(d.PollRetryAfter) - time.Second
	fw.quiet0 = 2*time.Duration(d.PollRetryAfter) - time.Second
	fw.silent = time.Duration(d.PollInterval) + 4*time.Duration(d.PollRetryAfter) + time.Minute
	return fw
}

func (fw *FindWorld) snapshot(*VHandle) {
	t := fw.next()
	for i, m := range fw.mhs {
		es := fw.node.lookup(m)
		s := fw.snaps[i]
		if fmt.Sprint(es) != fmt.Sprint(s[len(s)-1].es) {
			fw.snaps[i] = append(s, snapEv{t, es})
		}
	}
}

func (fw *FindWorld) boot() {
	vs := fw.node.vs
	vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) { fw.snapshot(h) }
	vs.onRm = func(h *VHandle, id peer.ID, ctxID []byte) {
		fw.snapshot(h)
		p := fw.byID[id]
		if p == nil || p.own[string(ctxID)] > 0 {
			return
		}
		fw.hit("find.deleted")
		if ev := p.last(); ev.reg {
			fw.failP(fw.prop, "destroyed", "looking up deleted the content of context %s of provider %d, which is registered", ctxID, p.i)
		}
	}
	fw.must(fw.startNode())
	fw.fh = handler.NewFinderHandler(fw.node.store, fw.node.reg)
	fw.find = func(_ *Op, mhs []multihash.Multihash) (*model.FindResponse, error) { return fw.fh.Find(mhs) }
	fw.get = func(_ *Op, id peer.ID) ([]byte, error) { return fw.fh.GetProvider(id) }
	fw.list = func(*Op) ([]byte, error) { return fw.fh.ListProviders() }
}

func (fw *FindWorld) must(err error) {
	if err != nil {
		panic(err)
	}
}

// change runs an operation on the registration of p.
func (fw *FindWorld) change(p *findProv, ev provEv, after func() provEv, f func() error) {
	atomically(func() {
		p.gen++
		ev.tick, ev.st = fw.next(), fsBusy
		p.hist = append(p.hist, ev)
	})
	var err error
	if !within(time.Hour, func() { err = f() }) {
		fw.failP(fw.hangProp, "registry-hangs", "the registry does not answer")
		return
	}
	atomically(func() {
		if err != nil {
			if fw.closedAt == 0 {
				fw.failP(fw.prop, "refused", "an operation on the registration of provider %d failed: %s", p.i, err)
			}
			return
		}
		a := after()
		a.tick = fw.next()
		p.hist = append(p.hist, a)
	})
}

func (fw *FindWorld) exec(op *Op) {
	ctx := context.Background()
	switch op.K {
	case "find", "findall":
		fw.doFind(op)
		return
	case "list":
		fw.doList(op)
		return
	case "get":
		fw.doGet(op, fw.ps[op.P%len(fw.ps)])
		return
	case "close":
		atomically(func() { fw.closedAt = fw.next() })
		reg := fw.node.reg
		if !within(time.Hour, func() { _ = reg.Close() }) {
			fw.failP(fw.hangProp, "close-hangs", "the registry does not close")
		}
		return
	}
	p := fw.ps[op.P%len(fw.ps)]
	reg := fw.node.reg
	switch op.K {
	case "reg", "upd":
		p.ver++
		old := p.addrs
		addr := fmt.Sprintf("/ip4/10.%d.%d.%d/tcp/4001", p.i, p.ver/250, p.ver%250+1)
		if op.K == "upd" && op.A == 0 && p.reg {
			addr = old // contact only
		}
		was := p.reg
		cand := []string{addr}
		if was {
			cand = append(cand, old)
		}
		q := fw.quiet
		fw.change(p, provEv{reg: was, addrs: cand}, func() provEv {
			p.reg, p.addrs = true, addr
			if op.K == "reg" {
				q = fw.quiet0
			}
			return provEv{st: fsActive, reg: true, until: time.Now().Add(q), gone: time.Now().Add(fw.silent), addrs: []string{addr}}
		}, func() error {
			a := mustAddr(addr)
			if op.K == "reg" {
				info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{a}}}
				if fw.knob("polled", 1) == 1 {
					info.Publisher, info.PublisherAddr = p.id, a
				}
				return reg.Register(ctx, info)
			}
			var pub peer.AddrInfo
			if fw.knob("polled", 1) == 1 {
				pub = peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{a}}
			}
			return reg.RegisterOrUpdate(ctx, p.id, []string{addr}, cid.Undef, pub)
		})
	case "rm":
		was := p.addrs
		fw.change(p, provEv{addrs: []string{was}}, func() provEv {
			p.reg = false
			return provEv{st: fsAbsent}
		}, func() error { return reg.RemoveProvider(ctx, p.id) })
	case "put":
		if !p.reg {
			fw.hit("put.unregistered")
			return
		}
		var mhs []multihash.Multihash
		for i, m := range fw.mhs {
			if op.B&(1<<uint(i)) != 0 {
				mhs = append(mhs, m)
			}
		}
		v := indexer.Value{ProviderID: p.id, ContextID: []byte(findCtx(op.X)), MetadataBytes: []byte(fmt.Sprintf("md-%d-%d", p.i, op.Y))}
		if op.S == "bitswap" {
			v.MetadataBytes = []byte(bitswapMd)
		}
		_ = fw.node.store.Put(v, mhs...)
	case "rmctx":
		c := findCtx(op.X)
		atomically(func() { p.own[c]++ })
		_ = fw.node.store.RemoveProviderContext(p.id, []byte(c))
		atomically(func() { p.own[c]-- })
	case "wait":
		// Observe whether it has become inactive.
		var gen int
		atomically(func() { gen = p.gen })
		a := reg.ProviderInfo(p.id)
		r := reg.IsRegistered(p.id)
		b := reg.ProviderInfo(p.id)
		atomically(func() {
			if gen == p.gen && p.reg && a == nil && r && b == nil && fw.closedAt == 0 {
				fw.hit("find.inactive")
				p.hist = append(p.hist, provEv{tick: fw.next(), st: fsInactive, reg: true, addrs: []string{p.addrs}})
			}
		})
	}
}

// during gives what is known about p in [t0, t1].
func (p *findProv) during(t0, t1 int64) []provEv {
	var out []provEv
	for i, e := range p.hist {
		if e.tick <= t1 && (i == len(p.hist)-1 || p.hist[i+1].tick > t0) {
			out = append(out, e)
		}
	}
	return out
}

// could tells what p may have been during [t0, t1], from start to end.
func (fw *FindWorld) could(p *findProv, t0, t1 int64, start, end time.Time) (served, unserved bool, addrs map[string]bool) {
	addrs = map[string]bool{}
	for _, e := range p.during(t0, t1) {
		for _, a := range e.addrs {
			addrs[a] = true
		}
		switch e.st {
		case fsAbsent, fsInactive:
			unserved = true
		case fsActive:
			if fw.knob("polled", 1) != 1 {
				served = true
				break
			}
			if fw.closedAt != 0 || !start.After(e.gone) {
				served = true
			} else {
				fw.hit("find.silent")
			}
			if end.After(e.until) {
				unserved = true
			}
		default:
			served, unserved = true, true
		}
	}
	if fw.closedAt != 0 && t1 >= fw.closedAt {
		unserved = true
	}
	return
}

func (fw *FindWorld) doFind(op *Op) {
	var ask []multihash.Multihash
	var idx []int
	l := op.L
	if op.K == "findall" {
		for i := range fw.mhs {
			l = append(l, i)
		}
	}
	for _, i := range l {
		i %= len(fw.mhs)
		idx = append(idx, i)
		ask = append(ask, append(multihash.Multihash(nil), fw.mhs[i]...))
	}
	var t0, t1, f0, f1 int64
	var end time.Time
	start := time.Now()
	atomically(func() { t0, f0 = fw.next(), fw.count["fault:vs.rdeio"] })
	var rsp *model.FindResponse
	var err error
	if !within(10*time.Hour, func() { rsp, err = fw.find(op, ask) }) {
		fw.failP(fw.hangProp, "find-hangs", "a lookup does not end")
		return
	}
	atomically(func() {
		t1, f1, end = fw.next(), fw.count["fault:vs.rdeio"], time.Now()
		fw.judgeFind(idx, rsp, err, t0, t1, start, end, f1 != f0)
	})
}

func (fw *FindWorld) judgeFind(idx []int, rsp *model.FindResponse, err error, t0, t1 int64, start, end time.Time, faulty bool) {
	if err == errGone {
		return
	}
	if err != nil {
		if !faulty {
			fw.failP(fw.prop, "find-error", "a lookup failed although the store works: %s", err)
		}
		fw.hit("find.error")
		return
	}
	// Results are in the order asked.
	res := map[int][]model.ProviderResult{} // by position asked
	pos := 0
	for _, r := range rsp.MultihashResults {
		for pos < len(idx) && !bytes.Equal(fw.mhs[idx[pos]], r.Multihash) {
			pos++
		}
		if pos == len(idx) {
			fw.failP(fw.prop, "strange-result", "a lookup returned a multihash it was not asked for, or out of order")
			return
		}
		if len(r.ProviderResults) == 0 {
			fw.failP(fw.prop, "strange-result", "a lookup returned a multihash without any provider")
			return
		}
		res[pos] = r.ProviderResults
		pos++
	}
	served := map[peer.ID]bool{}
	unserved := map[peer.ID]bool{}
	addrs := map[peer.ID]map[string]bool{}
	for _, p := range fw.ps {
		served[p.id], unserved[p.id], addrs[p.id] = fw.could(p, t0, t1, start, end)
	}
	for at, i := range idx {
		got := map[entry]int{}
		for _, r := range res[at] {
			e := entry{r.Provider.ID, string(r.ContextID), string(r.Metadata)}
			got[e]++
			if got[e] > 1 {
				fw.failP(fw.prop, "duplicate", "a lookup returned %s twice", e)
				return
			}
			if !served[e.Prov] {
				fw.failP(fw.prop, "not-serving", "a lookup named provider %s, which was not registered and active at any time during the lookup", short(e.Prov))
				return
			}
			if len(r.Provider.Addrs) != 1 || !addrs[e.Prov][r.Provider.Addrs[0].String()] {
				fw.failP(fw.prop, "stale-address", "a lookup gave provider %s the addresses %s, current were %v", short(e.Prov), r.Provider.Addrs, addrs[e.Prov])
				return
			}
		}
		ok := false
		why := ""
		s := fw.snaps[i]
		for k, e := range s {
			if e.tick > t1 || k < len(s)-1 && s[k+1].tick <= t0 {
				continue
			}
			if why = explains(e.es, got, unserved); why == "" {
				ok = true
				break
			}
		}
		if !ok {
			fw.failP(fw.prop, "wrong-result", "looking up multihash %d: %s", i, why)
			return
		}
		fw.hitN("find.values", int64(len(got)))
	}
	fw.hit("find.judged")
}

// explains tells why got cannot be the answer if es is what is stored.
func explains(es []entry, got map[entry]int, unserved map[peer.ID]bool) string {
	have := map[entry]bool{}
	for _, e := range es {
		have[e] = true
		if got[e] == 0 && !unserved[e.Prov] {
			return fmt.Sprintf("%s, which is stored and whose provider is registered and active, is missing", e)
		}
	}
	for e := range got {
		if !have[e] {
			return fmt.Sprintf("%s is not stored", e)
		}
	}
	return ""
}

// doList checks the list of providers.
func (fw *FindWorld) doList(op *Op) {
	var t0 int64
	start := time.Now()
	atomically(func() { t0 = fw.next() })
	b, err := fw.list(op)
	atomically(func() {
		t1, end := fw.next(), time.Now()
		if err == errGone {
			return
		}
		if err != nil {
			fw.failP(fw.prop, "list-error", "listing providers failed: %s", err)
			return
		}
		var infos []model.ProviderInfo
		if err := json.Unmarshal(b, &infos); err != nil {
			fw.failP(fw.prop, "list-error", "list of providers: %s", err)
			return
		}
		seen := map[peer.ID]bool{}
		for _, in := range infos {
			if !fw.judgeInfo("list", in, t0, t1, start, end) {
				return
			}
			if seen[in.AddrInfo.ID] {
				fw.failP(fw.prop, "list-wrong", "provider %s is listed twice", short(in.AddrInfo.ID))
				return
			}
			seen[in.AddrInfo.ID] = true
		}
		for _, p := range fw.ps {
			if _, un, _ := fw.could(p, t0, t1, start, end); !un && !seen[p.id] {
				fw.failP(fw.prop, "list-wrong", "provider %d is registered and active but not listed", p.i)
			}
		}
		fw.hit("list.judged")
	})
}

func (fw *FindWorld) judgeInfo(what string, in model.ProviderInfo, t0, t1 int64, start, end time.Time) bool {
	p := fw.byID[in.AddrInfo.ID]
	if p == nil {
		fw.failP(fw.prop, "list-wrong", "%s: unknown provider", what)
		return false
	}
	s, _, as := fw.could(p, t0, t1, start, end)
	if !s {
		fw.failP(fw.prop, "not-serving", "%s: provider %d was not registered and active at any time during the call", what, p.i)
		return false
	}
	if len(in.AddrInfo.Addrs) != 1 || !as[in.AddrInfo.Addrs[0].String()] {
		fw.failP(fw.prop, "stale-address", "%s: provider %d has addresses %s, current were %v", what, p.i, in.AddrInfo.Addrs, as)
		return false
	}
	return true
}

func (fw *FindWorld) doGet(op *Op, p *findProv) {
	var t0 int64
	start := time.Now()
	atomically(func() { t0 = fw.next() })
	b, err := fw.get(op, p.id)
	atomically(func() {
		t1, end := fw.next(), time.Now()
		if err == errGone {
			return
		}
		if err != nil {
			fw.failP(fw.prop, "get-error", "getting a provider failed: %s", err)
			return
		}
		if b == nil {
			if _, un, _ := fw.could(p, t0, t1, start, end); !un {
				fw.failP(fw.prop, "get-wrong", "provider %d is registered and active but not found", p.i)
			}
			return
		}
		var in model.ProviderInfo
		if err := json.Unmarshal(b, &in); err != nil {
			fw.failP(fw.prop, "get-error", "provider: %s", err)
			return
		}
		if in.AddrInfo.ID != p.id {
			fw.failP(fw.prop, "get-wrong", "asked for provider %d, got another one", p.i)
			return
		}
		fw.judgeInfo("get", in, t0, t1, start, end)
		fw.hit("get.judged")
	})
}

func runFind(w *World) {
	fw := newFindWorld(w)
	fw.boot()
	fw.closeOut(w.runClients(fw.exec))
}

func (fw *FindWorld) closeOut(wait func(time.Duration) bool) {
	w := fw.World
	if !wait(365 * 24 * time.Hour) {
		fw.failP(fw.prop, "hang", "the clients do not end")
		return
	}
	if w.failed() {
		return
	}
	w.faultOn = false
	time.Sleep(time.Minute)
	if fw.closedAt == 0 {
		// Everyone that is registered comes back, and has everything.
		for _, p := range fw.ps {
			if p.reg {
				fw.exec(&Op{K: "upd", P: p.i, A: 1})
			}
		}
		for i := 0; i < 2; i++ {
			fw.doFind(&Op{K: "findall"})
			fw.doList(&Op{K: "list"})
			time.Sleep(time.Second)
		}
	}
	time.Sleep(time.Minute)
}

func genFind(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	np := 1 + r.Intn(4)
	k["provs"] = int64(np)
	k["mhs"] = pick(r, 2, 4, 8)
	k["cache"] = pick(r, 0, 0, 100000)
	k["vsLat"] = pick(r, 0, 20, 3000, 200000)
	k["diskLat"] = pick(r, 0, 500, 20000)
	k["polled"] = pick(r, 1, 1, 1, 0)
	k["pollInterval"] = pick(r, 60, 120)
	k["pollRetry"] = 60
	k["pollStop"] = 1000000000
	gap := func() int64 {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return r.Int63n(2000)
		case 4, 5, 6:
			return r.Int63n(200000)
		case 7, 8:
			return r.Int63n(5000000)
		}
		return 0
	}
	n := 3 + r.Intn(12)
	md := int64(0)
	for i := 0; i < np; i++ {
		p.Ops = append(p.Ops, Op{C: i, P: i, K: pick2(r, "reg", "upd"), A: 1, D: gap()})
		md++
		p.Ops = append(p.Ops, Op{C: i, P: i, K: "put", B: r.Int63n(256), X: r.Int63n(2), Y: md})
		for j := 0; j < n; j++ {
			op := Op{C: i, P: i, D: gap()}
			switch c := r.Intn(100); {
			case c < 12:
				op.K = "reg"
			case c < 32:
				op.K, op.A = "upd", r.Int63n(2)
			case c < 47:
				op.K = "rm"
				if chance(r, 70) {
					// and returns soon
					p.Ops = append(p.Ops, op)
					op = Op{C: i, P: i, D: gap(), K: pick2(r, "reg", "upd"), A: 1}
				}
			case c < 72:
				md++
				op.K, op.B, op.X, op.Y = "put", r.Int63n(256), r.Int63n(3), md
			case c < 80:
				op.K, op.X = "rmctx", r.Int63n(3)
			case c < 90:
				op.K, op.D = "wait", (k["pollInterval"]+pick(r, 100, 130, 190, 250))*1000000+r.Int63n(1000000)
				p.Ops = append(p.Ops, op)
				op = Op{C: i, P: i, D: gap() + 200000, K: pick2(r, "wait", "upd"), A: r.Int63n(2)}
			case c < 94:
				// silent for so long that it is certainly no longer active
				op.K, op.D = pick2(r, "findall", "findall", "list", "get"), (k["pollInterval"]+310)*1000000
			default:
				op.K, op.D = "wait", r.Int63n(60000000)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	nf := 1 + r.Intn(4)
	for c := 0; c < nf; c++ {
		for j := 0; j < 5+r.Intn(25); j++ {
			op := Op{C: 100 + c, D: gap()}
			if chance(r, 25) {
				op.D = r.Int63n(120000000)
			}
			switch x := r.Intn(100); {
			case x < 55:
				op.K = "find"
				for q := 0; q < 1+r.Intn(6); q++ {
					op.L = append(op.L, r.Intn(8))
				}
			case x < 80:
				op.K = "findall"
			case x < 90:
				op.K = "list"
			default:
				op.K, op.P = "get", r.Intn(np)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 15) {
		p.Ops = append(p.Ops, Op{C: 300, K: "close", D: r.Int63n(60000000)})
	}
	if chance(r, 30) {
		p.Faults = append(p.Faults, Fault{K: "vs.rdeio", N: r.Int63n(30), M: 1 + r.Int63n(4)})
	}
	if chance(r, 30) {
		p.Faults = append(p.Faults, Fault{K: "vs.stall", N: r.Int63n(10), M: 1 + r.Int63n(3), A: r.Int63n(3000000)})
	}
}

func pick2(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func init() {
	register("find", &Scenario{run: runFind, gen: genFind}, "P13")
}

// findCtx names a context; one of them has the empty ID.
func findCtx(n int64) string {
	if n == 2 {
		return ""
	}
	return fmt.Sprintf("ctx%d", n)
}
