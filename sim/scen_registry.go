package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// RegWorld is the simulated deployment of the registry scenarios: the real
// registry on the simulated disk and clock, without an ingester.
type RegWorld struct {
	*World
	node  *Node
	hist  []*hop
	down  bool
	provs int
	tick  int64 // order of history points

	hangProp string
	closing  map[*registry.Registry]bool
}

func newRegWorld(w *World) *RegWorld {
	rw := &RegWorld{World: w, hangProp: "P10", closing: map[*registry.Registry]bool{}, provs: int(w.knob("provs", 2))}
	rw.node = newNode(w)
	rw.node.noIng = true
	rw.node.skipH = true
	rw.node.dcfg = discoveryConfig(w)
	return rw
}

// drain stands in for the ingester: it reads what the registry hands over.
func (rw *RegWorld) drain(reg *registry.Registry) {
	go func() {
		for range reg.SyncChan() {
		}
	}()
}

func (rw *RegWorld) startNode() error {
	err := rw.node.start()
	if err == nil {
		rw.drain(rw.node.reg)
	}
	return err
}

func (rw *RegWorld) keepAlive() {
	go func() {
		for {
			inc := rw.node.inc
			<-inc.died
			if rw.done {
				return
			}
			rw.down = true
			atomically(func() { rw.point(&hop{kind: "crash", prov: -1, t0: rw.next(), t1: rw.tick, inc: inc.n}) })
			time.Sleep(time.Duration(rw.knob("downtime", 1000)) * time.Microsecond)
			for {
				rw.node.vs.crashCut()
				rw.node.disk.powerCut()
				if rw.startNode() == nil {
					break
				}
				rw.hit("restart.failed")
				rw.node.inc.kill("failed start")
				time.Sleep(500 * time.Millisecond)
			}
			rw.hit("restart")
			rw.down = false
		}
	}()
}

func (rw *RegWorld) up() {
	rw.waitUntil(time.Hour, func() bool { return !rw.down && !rw.node.inc.dead })
}

// ---- history ----------------------------------------------------------------

// hop is one operation of the history. t0 and t1 are its invocation and return
// points in the global order of history points; t1 is 0 while unknown.
type hop struct {
	kind   string // reg, upd, rm, read, crash
	prov   int
	st     rstate // reg: what is registered; read: what was read
	addrs  string // upd
	ad     string
	pub    string
	pubA   string
	t0, t1 int64
	ok     bool // acknowledged
	inc    int  // incarnation it ran in
	dead   bool // the process died before it returned
	notes  string
}

// rstate is the abstract registration of one provider.
type rstate struct {
	Reg   bool
	Addrs string
	Disc  string
	Ad    string
	Pub   string
	PubA  string
}

func (s rstate) String() string {
	if !s.Reg {
		return "absent"
	}
	return fmt.Sprintf("{addrs=%s disc=%s ad=%s pub=%s@%s}", s.Addrs, s.Disc, s.Ad, s.Pub, s.PubA)
}

func (h *hop) String() string {
	r := "unacknowledged"
	if h.ok {
		r = "ok"
	}
	if h.dead {
		r = "died"
	}
	switch h.kind {
	case "read":
		return fmt.Sprintf("read=%s", h.st)
	case "reg":
		return fmt.Sprintf("register %s %s", h.st, r)
	case "upd":
		return fmt.Sprintf("update(addrs=%s ad=%s pub=%s@%s) %s", h.addrs, h.ad, h.pub, h.pubA, r)
	}
	return h.kind + " " + r
}

func (rw *RegWorld) next() int64 { rw.tick++; return rw.tick }

func (rw *RegWorld) point(h *hop) { rw.hist = append(rw.hist, h) }

// do runs one registry call and records it.
func (rw *RegWorld) do(h *hop, f func(reg *registry.Registry) error) {
	rw.up()
	inc, reg := rw.node.inc, rw.node.reg
	atomically(func() { h.t0, h.inc = rw.next(), inc.n; rw.point(h) })
	res := make(chan error, 1)
	go func() { res <- f(reg) }()
	t := time.NewTimer(6 * time.Hour)
	defer t.Stop()
	select {
	case err := <-res:
		if inc.dead {
			atomically(func() { h.dead = true })
			return
		}
		atomically(func() {
			h.t1, h.ok = rw.next(), err == nil
			if rw.closing[reg] && (h.kind == "read" || h.kind == "isreg" || h.kind == "list") {
				h.ok = false // a closed registry knows nothing
			}
		})
		rw.event("%s p%d -> %v", h.kind, h.prov, err)
	case <-inc.died:
		atomically(func() { h.dead = true })
	case <-t.C:
		rw.failP(rw.hangProp, "call-hangs", "registry call %s never returned", h.kind)
	}
}

func provID(i int) peer.ID { return idFor("prov", i) }

func regAddr(n int64) multiaddr.Multiaddr {
	return mustAddr(fmt.Sprintf("/ip4/10.2.%d.%d/tcp/%d", n/200%200, n%200+1, 2000+n%1000))
}

func adCid(n int64) cid.Cid {
	mh, err := multihash.Sum([]byte(fmt.Sprintf("ad-%d", n)), multihash.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	return cid.NewCidV1(cid.DagJSON, mh)
}

func stateOf(i *registry.ProviderInfo) rstate {
	if i == nil {
		return rstate{}
	}
	s := rstate{Reg: true, Disc: i.DiscoveryAddr, Addrs: fmtAddrs(i.AddrInfo.Addrs)}
	if i.LastAdvertisement != cid.Undef {
		s.Ad = i.LastAdvertisement.String()
	}
	if i.Publisher.Validate() == nil {
		s.Pub = i.Publisher.String()
	}
	if i.PublisherAddr != nil {
		s.PubA = i.PublisherAddr.String()
	}
	return s
}

// regPub is a publisher; one is the provider itself.
func regPub(prov peer.ID, x int64) peer.ID {
	if x == 1 {
		return prov
	}
	return idFor("pub", int(x))
}

func fmtAddrs(as []multiaddr.Multiaddr) string {
	var o []string
	for _, a := range as {
		o = append(o, a.String())
	}
	return strings.Join(o, ",")
}

func (rw *RegWorld) exec(op *Op) {
	i := op.P % rw.provs
	id := provID(i)
	switch op.K {
	case "reg":
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{regAddr(op.A)}}}
		if op.B > 0 {
			info.AddrInfo.Addrs = append(info.AddrInfo.Addrs, regAddr(op.A+500))
		}
		if op.X > 0 {
			info.Publisher = regPub(id, op.X)
			info.PublisherAddr = regAddr(op.A + 7000)
		}
		if op.Y > 0 {
			info.DiscoveryAddr = fmt.Sprintf("t0%d", op.Y)
		}
		if op.Z > 0 {
			info.LastAdvertisement = adCid(op.Z)
			info.LastAdvertisementTime = time.Now()
		}
		h := &hop{kind: "reg", prov: i, st: stateOf(info)}
		rw.do(h, func(reg *registry.Registry) error { return reg.Register(context.Background(), info) })
	case "upd":
		h := &hop{kind: "upd", prov: i}
		var addrs []string
		ad := cid.Undef
		var pub peer.AddrInfo
		if op.A > 0 {
			addrs = []string{regAddr(op.A).String()}
			h.addrs = addrs[0]
		}
		if op.Z > 0 {
			ad = adCid(op.Z)
			h.ad = ad.String()
		}
		if op.X > 0 {
			pub = peer.AddrInfo{ID: regPub(id, op.X), Addrs: []multiaddr.Multiaddr{regAddr(op.B + 9000)}}
			h.pub, h.pubA = pub.ID.String(), pub.Addrs[0].String()
		}
		rw.do(h, func(reg *registry.Registry) error {
			return reg.RegisterOrUpdate(context.Background(), id, addrs, ad, pub)
		})
	case "rm":
		rw.do(&hop{kind: "rm", prov: i}, func(reg *registry.Registry) error { return reg.RemoveProvider(context.Background(), id) })
	case "read":
		h := &hop{kind: "read", prov: i}
		rw.do(h, func(reg *registry.Registry) error {
			s := stateOf(reg.ProviderInfo(id))
			atomically(func() { h.st = s })
			return nil
		})
	case "readall":
		rw.readAll()
	case "isreg":
		h := &hop{kind: "isreg", prov: i}
		rw.do(h, func(reg *registry.Registry) error {
			b := reg.IsRegistered(id)
			atomically(func() { h.st.Reg = b })
			return nil
		})
	case "disc":
		// A provider of its own, so that the history of the others stays simple.
		h := &hop{kind: "disc", prov: -2}
		rw.do(h, func(reg *registry.Registry) error {
			return reg.Discover(provID(op.P), fmt.Sprintf("t0%d", op.A), op.B == 1)
		})
	case "crash":
		rw.node.crashNow("planned")
		rw.up()
	}
}

func (rw *RegWorld) readAll() {
	hs := make([]*hop, rw.provs)
	for i := range hs {
		hs[i] = &hop{kind: "read", prov: i}
	}
	first := &hop{kind: "list", prov: -1}
	rw.do(first, func(reg *registry.Registry) error {
		all := reg.AllProviderInfo()
		atomically(func() {
			for _, info := range all {
				known := false
				for i := range hs {
					if provID(i) == info.AddrInfo.ID {
						known = true
						hs[i].st = stateOf(info)
					}
				}
				if !known && rw.node.disc == nil {
					first.notes = info.AddrInfo.ID.String()
				}
			}
		})
		return nil
	})
	atomically(func() {
		if first.notes != "" {
			rw.failP(rw.hangProp, "unknown-provider", "the registry lists provider %s that nobody registered", first.notes)
		}
		if first.dead || !first.ok {
			return
		}
		for _, h := range hs {
			h.t0, h.t1, h.ok, h.inc = first.t0, first.t1, true, first.inc
			rw.point(h)
		}
	})
}

// ---- linearizability --------------------------------------------------------

// step applies h to s; false if an acknowledged h cannot have this effect.
func (h *hop) step(s rstate) (rstate, bool) {
	switch h.kind {
	case "read":
		return s, s == h.st
	case "isreg":
		return s, s.Reg == h.st.Reg
	case "reg":
		return h.st, true
	case "rm":
		return rstate{}, true
	case "upd":
		n := s
		if !s.Reg {
			if h.addrs == "" {
				return s, false
			}
			n = rstate{Reg: true}
		}
		if h.pub != "" {
			n.Pub, n.PubA = h.pub, h.pubA
		}
		if h.addrs != "" {
			n.Addrs = h.addrs
		}
		if h.ad != "" {
			n.Ad = h.ad
		}
		return n, true
	}
	return s, true
}

// checkLinear looks for an order of the operations on one provider, consistent
// with real time, that explains everything observed. Operations that were not
// acknowledged take effect at most once: before the crash if the process died,
// at any later time if an error was reported.
func (rw *RegWorld) checkLinear(prov int) {
	var ops []*hop
	crashAt := map[int]int64{}
	for _, h := range rw.hist {
		if h.kind == "crash" {
			crashAt[h.inc] = h.t0
		}
	}
	for _, h := range rw.hist {
		if h.prov == prov && (h.ok || (h.kind != "read" && h.kind != "isreg")) {
			ops = append(ops, h)
		}
	}
	if len(ops) == 0 {
		return
	}
	if len(ops) > 62 {
		panic("harness: history too long")
	}
	const inf = int64(1) << 60
	end := func(h *hop) int64 { // must have taken effect by
		if h.ok {
			return h.t1
		}
		if h.dead {
			if t, ok := crashAt[h.inc]; ok {
				return t
			}
		}
		return inf
	}
	// read-only operations may be applied as soon as they match
	type key struct {
		done uint64
		st   rstate
	}
	seen := map[key]bool{}
	full := uint64(0)
	for i, h := range ops {
		if h.ok {
			full |= 1 << uint(i)
		}
	}
	best := 0
	var bestState rstate
	var bestDone uint64
	var dfs func(done uint64, st rstate) bool
	dfs = func(done uint64, st rstate) bool {
		if done&full == full {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		n := 0
		for d := done & full; d != 0; d &= d - 1 {
			n++
		}
		if n >= best {
			best, bestState, bestDone = n, st, done
		}
		// earliest deadline among acknowledged operations still to place
		min := inf
		for i, h := range ops {
			if done&(1<<uint(i)) == 0 && h.ok && h.t1 < min {
				min = h.t1
			}
		}
		for i, h := range ops {
			b := uint64(1) << uint(i)
			if done&b != 0 || h.t0 > min {
				continue
			}
			if !h.ok {
				// skip forever if its time has passed: some placed operation
				// started after its end
				late := false
				for j, g := range ops {
					if done&(1<<uint(j)) != 0 && g.t0 > end(h) {
						late = true
						break
					}
				}
				if late {
					continue
				}
			}
			ns, ok := h.step(st)
			if !ok {
				continue
			}
			if dfs(done|b, ns) {
				return true
			}
		}
		return false
	}
	if !dfs(0, rstate{}) {
		var rest []string
		for i, h := range ops {
			if bestDone&(1<<uint(i)) == 0 {
				rest = append(rest, h.String())
			}
		}
		if len(rest) > 6 {
			rest = rest[:6]
		}
		rw.failP(rw.hangProp, "not-linearizable", "provider %d: no order of the acknowledged changes explains what was read; after %d operations the state is %s but then: %s", prov, best, bestState, strings.Join(rest, "; "))
	}
}

func runRegistry(w *World) {
	rw := newRegWorld(w)
	w.faultOn = false
	if err := rw.startNode(); err != nil {
		panic("harness: " + err.Error())
	}
	w.faultOn = true
	rw.keepAlive()
	wait := w.runClients(rw.exec)
	if !wait(48 * time.Hour) {
		rw.failP("P10", "call-hangs", "a registry call never returned")
		return
	}
	w.faultOn = false
	rw.up()
	time.Sleep(10 * time.Second)
	rw.up()
	rw.readAll()
	// and once more after a restart, clean or not
	for i := 0; i < 2 && !w.failed(); i++ {
		if w.rng.Intn(2) == 0 {
			rw.node.crashNow("final")
			time.Sleep(time.Duration(w.knob("downtime", 1000))*time.Microsecond + time.Second)
		} else {
			if !within(time.Hour, func() { _ = rw.node.reg.Close() }) {
				rw.failP("P10", "close-hangs", "closing the registry never returned")
				return
			}
			rw.node.inc.stopped = true
			if err := rw.startNode(); err != nil {
				panic("harness: " + err.Error())
			}
		}
		rw.up()
		rw.readAll()
	}
	for i := 0; i < rw.provs; i++ {
		rw.checkLinear(i)
	}
}

func genRegistry(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	np := 1 + r.Intn(3)
	k["provs"] = int64(np)
	k["diskLat"] = pick(r, 0, 10, 500, 20000)
	k["downtime"] = pick(r, 10, 1000)
	k["powerloss"] = r.Int63n(2)
	k["pollInterval"] = 31536000
	k["pollRetry"] = 31536000
	k["pollStop"] = 31536000
	nc := 1 + r.Intn(4)
	seq := int64(1)
	perProv := make([]int, np)
	for c := 0; c < nc; c++ {
		for i := 0; i < 2+r.Intn(6); i++ {
			seq += 1 + r.Int63n(3)
			op := Op{C: c, D: r.Int63n(pick(r, 2, 200, 20000)), P: r.Intn(np)}
			if perProv[op.P] > 14 {
				continue
			}
			perProv[op.P]++
			switch x := r.Intn(20); {
			case x < 4:
				op.K, op.A, op.B, op.X, op.Y, op.Z = "reg", seq, r.Int63n(2), r.Int63n(3), r.Int63n(2)*seq, r.Int63n(2)*seq
			case x < 10:
				op.K = "upd"
				if chance(r, 50) {
					op.A = seq
				}
				if chance(r, 50) {
					op.Z = seq
				}
				if chance(r, 40) {
					op.X, op.B = 1+r.Int63n(2), seq
				}
			case x < 12:
				op.K = "rm"
			case x < 17:
				op.K = "read"
			case x < 18:
				op.K = "isreg"
			case x < 19:
				op.K = "readall"
			default:
				op.K = "crash"
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 60) {
		for i := 0; i < 1+r.Intn(3); i++ {
			f := Fault{K: []string{"disk.eio", "disk.full", "disk.lostack", "disk.stall", "disk.synceio", "disk.eio"}[r.Intn(6)], N: r.Int63n(20), M: pick(r, 1, 1, 3)}
			if f.K == "disk.stall" {
				f.A = r.Int63n(3000000)
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if chance(r, 50) {
		for i := 0; i < 1+r.Intn(2); i++ {
			p.Faults = append(p.Faults, Fault{K: []string{"crash.disk", "crash.diskafter", "crash.sync"}[r.Intn(3)], N: r.Int63n(16), M: 1})
		}
	}
}

func init() {
	register("registry", &Scenario{run: runRegistry, gen: genRegistry}, "P10")
}
