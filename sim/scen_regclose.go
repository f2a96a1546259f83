package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"time"

	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// simDiscoverer is the discovery backend: planned answers, delays, errors and
// hangs. It honours its context (as the lotus gateway client does).
type simDiscoverer struct {
	w     *World
	n     int64
	calls []*discCall
	onIn  func(c *discCall)
	onOut func(c *discCall)
	quick bool // it works well now
}

type discCall struct {
	n      int64
	peer   peer.ID
	addr   string
	t0, t1 time.Time
	ok     bool
	addrs  string
	reg    peer.ID // provider the answer names
}

var errDisc = errors.New("sim: discovery failed")

func discKnob(n int64, what string) string { return fmt.Sprintf("disc%d%s", n, what) }

func (d *simDiscoverer) Discover(ctx context.Context, peerID peer.ID, addr string) (*discovery.Discovered, error) {
	c := &discCall{peer: peerID, addr: addr}
	atomically(func() {
		c.n = d.n
		d.n++
		c.t0 = time.Now()
		d.calls = append(d.calls, c)
		if d.onIn != nil {
			d.onIn(c)
		}
	})
	d.w.event("discover %s begins", addr)
	fin := func(ok bool) {
		atomically(func() {
			c.t1, c.ok = time.Now(), ok
			if d.onOut != nil {
				d.onOut(c)
			}
		})
		d.w.event("discover %s ends ok=%v", addr, ok)
	}
	lat := d.w.knob(discKnob(c.n, "lat"), 1000)
	if d.w.fault("disc.hang", 0) != nil {
		<-ctx.Done()
		fin(false)
		return nil, ctx.Err()
	}
	if d.w.fault("disc.slow", 0) != nil {
		lat += 3600 * 1000000
	}
	if d.quick {
		lat = 1000
	}
	if lat > 0 {
		t := time.NewTimer(time.Duration(lat) * time.Microsecond)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			fin(false)
			return nil, ctx.Err()
		}
	}
	if d.w.fault("disc.err", 0) != nil {
		fin(false)
		return nil, errDisc
	}
	a := []multiaddr.Multiaddr{regAddr(50000 + c.n)}
	c.addrs = fmtAddrs(a)
	c.reg = peerID
	fin(true)
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: peerID, Addrs: a}, Type: discovery.MinerType}, nil
}

// runRegClose closes the registry while calls of every kind are in flight.
func runRegClose(w *World) {
	rw := newRegWorld(w)
	rw.hangProp = "P08"
	rw.node.disc = &simDiscoverer{w: w}
	w.faultOn = false
	if err := rw.startNode(); err != nil {
		panic("harness: " + err.Error())
	}
	w.faultOn = true
	wait := w.runClients(rw.exec)
	for i := 0; i < int(w.knob("closes", 1)); i++ {
		time.Sleep(time.Duration(w.knob(fmt.Sprintf("closeAt%d", i), 1000)) * time.Microsecond)
		reg, inc := rw.node.reg, rw.node.inc
		inc.onLate = func(what string) {
			rw.failP("P08", "late-access", "%s after shutdown completed", what)
		}
		rw.closing[reg] = true
		n := 1 + int(w.knob("closers", 0))
		res := make(chan bool, n)
		for k := 0; k < n; k++ {
			go func() { res <- within(3*time.Hour, func() { _ = reg.Close() }) }()
		}
		for k := 0; k < n; k++ {
			if !<-res {
				rw.failP("P08", "close-hangs", "closing the registry never returned")
				return
			}
			inc.stopped = true
		}
		w.hit("close")
		time.Sleep(time.Duration(w.knob("closeGap", 0)) * time.Microsecond)
		w.faultOn = false
		if err := rw.startNode(); err != nil {
			panic("harness: " + err.Error())
		}
		w.faultOn = true
	}
	if !wait(48 * time.Hour) {
		rw.failP("P08", "op-hangs", "a registry call in flight or arriving during shutdown never ended")
		return
	}
	w.faultOn = false
	time.Sleep(3 * time.Hour)
	// the new instance is consistent with what was acknowledged
	rw.readAll()
	for i := 0; i < rw.provs; i++ {
		rw.checkLinear(i)
	}
}

func genRegClose(r *rand.Rand, p *Plan, tier string) {
	genRegistry(r, p, tier)
	ops := p.Ops[:0]
	for _, op := range p.Ops {
		if op.K != "crash" {
			ops = append(ops, op)
		}
	}
	p.Ops = ops
	for i := 0; i < r.Intn(5); i++ {
		p.Ops = append(p.Ops, Op{C: 20 + i, D: r.Int63n(pick(r, 2, 2000, 50000)), K: "disc", P: 10 + r.Intn(3), A: r.Int63n(2), B: r.Int63n(2)})
	}
	var fs []Fault
	for _, f := range p.Faults {
		if len(f.K) > 5 && f.K[:5] == "crash" {
			continue
		}
		fs = append(fs, f)
	}
	for i := 0; i < r.Intn(3); i++ {
		fs = append(fs, Fault{K: []string{"disc.hang", "disc.slow", "disc.err"}[r.Intn(3)], N: r.Int63n(4), M: 1})
	}
	p.Faults = fs
	k := p.Knobs
	k["powerloss"] = 0
	k["closes"] = 1 + r.Int63n(2)
	k["closers"] = r.Int63n(2)
	k["closeAt0"] = r.Int63n(pick(r, 10, 1000, 40000))
	k["closeAt1"] = r.Int63n(pick(r, 10, 1000, 40000))
	k["closeGap"] = pick(r, 0, 100, 100000)
	k["discTimeout"] = pick(r, 1, 60, 120)
	k["pollInterval"] = pick(r, 1, 60, 31536000)
}

func init() {
	register("regclose", &Scenario{run: runRegClose, gen: genRegClose}, "P08")
}

var _ = registry.ErrInProgress
