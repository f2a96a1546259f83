package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/filecoin-project/go-legs/httpsync"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
)

// P18: rate limits, measured on the simulated clock at the publishers.

// rcfg is a rate limit that was in effect: from is when the call that set it
// began, till when the call that replaced it had returned.
type rcfg struct {
	c          config.RateLimit
	from, till int64
}

type rsync struct {
	s     *httpsync.Syncer
	p     *Publisher
	at    []time.Time // block requests answered with a block
	last  time.Time   // end of the last answer
	idle  time.Duration
	slow  bool // something else slowed it down
	total int
}

type RateWorld struct {
	*IngWorld
	tick  int64
	cfgs  []*rcfg
	syncs map[*httpsync.Syncer]*rsync
	dir   string
}

func (c *rcfg) applies(p *Publisher) bool {
	if c.c.BlocksPerSecond == 0 {
		return false
	}
	in := false
	for _, e := range c.c.Except {
		if e == p.id.String() {
			in = true
		}
	}
	return in != c.c.Apply
}

func (c *rcfg) burst() float64 {
	if c.c.BurstSize == 0 {
		return 10 * float64(c.c.BlocksPerSecond) // as documented
	}
	return float64(c.c.BurstSize)
}

// candidates are the limits that the sync may have been given.
func (rw *RateWorld) candidates(s *rsync) []*rcfg {
	var res []*rcfg
	for _, c := range rw.cfgs {
		if c.from <= s.s.SimT1 && (c.till == 0 || c.till >= s.s.SimT0) {
			res = append(res, c)
		}
	}
	return res
}

// within the limit c?
func (s *rsync) obeys(c *rcfg) bool {
	if !c.applies(s.p) {
		return true
	}
	rate := float64(c.c.BlocksPerSecond)
	n := len(s.at)
	for i := n - 1; i >= 0; i-- {
		// The first one may have been allowed earlier than it was sent.
		w := s.at[n-1].Sub(s.at[i]).Seconds()
		if float64(n-i) > c.burst()+rate*w+1.001 {
			return false
		}
	}
	return true
}

func (rw *RateWorld) trace(ctx context.Context, p *Publisher, ask string) func(ok bool) {
	t0 := time.Now()
	sy, _ := ctx.Value(httpsync.SimKey{}).(*httpsync.Syncer)
	if sy == nil {
		panic("harness: a request that belongs to no sync")
	}
	var s *rsync
	atomically(func() {
		if s = rw.syncs[sy]; s == nil {
			s = &rsync{s: sy, p: p}
			rw.syncs[sy] = s
			rw.hit("rate.sync")
		}
		s.total++
		if !s.last.IsZero() {
			s.idle += t0.Sub(s.last)
			free := true
			for _, c := range rw.candidates(s) {
				if c.applies(p) {
					free = false
				}
			}
			if free && !s.slow && s.idle > 300*time.Millisecond+time.Duration(s.total)*20*time.Millisecond {
				rw.failP("P18", "slowed", "publisher %d is not rate limited, but %d fetches from it were delayed by %s", p.i, s.total, s.idle)
			}
		}
	})
	return func(ok bool) {
		atomically(func() {
			if ask != "head" {
				// After learning the head a sync waits for its turn.
				s.last = time.Now()
			}
			if !ok {
				s.slow = true // retries wait
				return
			}
			if ask == "head" {
				return
			}
			s.at = append(s.at, t0)
			limited, obeys := false, false
			for _, c := range rw.candidates(s) {
				limited = limited || c.applies(p)
				obeys = obeys || s.obeys(c)
			}
			if !obeys {
				c := rw.candidates(s)[0]
				rw.failP("P18", "exceeded", "%d blocks fetched from publisher %d in one sync within %s, the limit is %d/s after %d", len(s.at), p.i, s.at[len(s.at)-1].Sub(s.at[0]), c.c.BlocksPerSecond, c.c.BurstSize)
			}
			if limited {
				rw.hit("rate.limited")
				if float64(len(s.at)) > rw.candidates(s)[0].burst() {
					rw.hit("rate.beyond-burst")
				}
			}
		})
	}
}

// rateCfg makes the configuration an operation describes.
func (rw *RateWorld) rateCfg(op *Op) (config.RateLimit, bool) {
	c := config.RateLimit{Apply: op.B == 1, BlocksPerSecond: int(op.A), BurstSize: int(op.X)}
	ok := true
	for i, p := range rw.pubs {
		if op.Y&(1<<uint(i)) != 0 {
			c.Except = append(c.Except, p.id.String())
		}
	}
	for i := int64(0); i < op.Z%4; i++ {
		c.Except = append(c.Except, idFor("stranger", int(i)).String())
	}
	switch op.S {
	case "badpeer":
		c.Except = append(c.Except, "not a peer")
		ok = c.BlocksPerSecond == 0
	case "badrate":
		c.BlocksPerSecond = -1 - c.BlocksPerSecond
		ok = false
	case "badburst":
		c.BurstSize = -1 - c.BurstSize
		ok = c.BlocksPerSecond == 0
	}
	return c, ok
}

// load takes the configuration through a config file, as the daemon does.
func (rw *RateWorld) load(c config.RateLimit) config.RateLimit {
	f := filepath.Join(rw.dir, "config")
	b, err := json.Marshal(map[string]interface{}{"Ingest": map[string]interface{}{"RateLimit": c}})
	rw.must(err)
	rw.must(os.WriteFile(f, b, 0o600))
	cfg, err := config.Load(f)
	rw.must(err)
	return cfg.Ingest.RateLimit
}

func (rw *RateWorld) exec(op *Op) {
	switch op.K {
	case "rate":
		c, valid := rw.rateCfg(op)
		var cur *rcfg
		n := &rcfg{c: c}
		atomically(func() {
			rw.tick++
			n.from = rw.tick
			cur = rw.cfgs[len(rw.cfgs)-1]
			if valid {
				rw.cfgs = append(rw.cfgs, n)
			}
		})
		lc := rw.load(c)
		var err error
		if !within(time.Minute, func() { err = rw.node.ing.SetRateLimit(lc) }) {
			rw.failP("P18", "set-hangs", "changing the rate limit does not return")
			return
		}
		rw.event("rate limit %+v: %v", c, err)
		if (err == nil) != valid {
			rw.failP("P18", "set-result", "setting rate limit %+v: %v", c, err)
			return
		}
		if valid {
			atomically(func() { rw.tick++; cur.till = rw.tick })
			rw.hit("rate.changed")
		}
	case "sync":
		p := rw.pubs[op.P%len(rw.pubs)]
		_, ok := rw.syncWait(p, 0, false, 0, 30*time.Minute)
		if !ok {
			rw.failP("P18", "sync-blocked", "a sync with publisher %d does not end", p.i)
		}
	default:
		rw.IngWorld.exec(op)
	}
}

func runRate(w *World) {
	rw := &RateWorld{IngWorld: newIngWorld(w), syncs: map[*httpsync.Syncer]*rsync{}}
	dir, err := scratchDir()
	rw.must(err)
	rw.dir = dir
	defer os.RemoveAll(dir)
	rw.net.trace = rw.trace
	httpsync.SimClock = func() int64 {
		var t int64
		atomically(func() { rw.tick++; t = rw.tick })
		return t
	}
	first := &Op{A: w.knob("rate", 0), B: w.knob("rateApply", 0), X: w.knob("burst", 0), Y: w.knob("rateExcept", 0)}
	c, _ := rw.rateCfg(first)
	rw.cfgs = []*rcfg{{c: c}}
	rw.node.icfg.RateLimit = rw.load(c)
	rw.must(rw.node.start())
	wait := w.runClients(rw.exec)
	if !wait(24 * time.Hour) {
		rw.failP("P18", "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	// Everything published is fetched in a time that the limits allow.
	w.faultOn = false
	for _, p := range rw.pubs {
		if len(p.ads) == 0 {
			continue
		}
		want := p.ads[len(p.ads)-1].cid
		got, ok := rw.syncWait(p, 0, false, 0, 30*time.Minute)
		if !ok || w.failed() {
			rw.failP("P18", "sync-blocked", "a sync with publisher %d does not end", p.i)
			return
		}
		if got != want {
			if got, _ = rw.syncWait(p, 0, false, 0, 30*time.Minute); got == cid.Undef {
				rw.failP("P18", "sync-broken", "a sync with publisher %d fails although nothing is wrong", p.i)
				return
			}
		}
		if !rw.waitLatest(p, len(p.ads), 30*time.Minute) {
			rw.failP("P18", "not-converged", "publisher %d: ad %d is the head but the indexer stays at %d", p.i, len(p.ads), rw.latestIdx(p))
			return
		}
	}
	rw.checkConverged("P18")
}

func genRate(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	np := 1 + r.Intn(3)
	k["pubs"] = int64(np)
	k["workers"] = 1 + r.Int63n(4)
	k["seg"] = pick(r, 1, 2, 5, 100, 0)
	k["batch"] = pick(r, 1, 16, 4096)
	k["netLat"] = pick(r, 0, 100, 2000, 100000)
	k["diskLat"], k["vsLat"] = 0, 0
	rate := func() int64 { return pick(r, 1, 1, 2, 3, 5, 20, 100) }
	k["rate"], k["rateApply"], k["burst"], k["rateExcept"] = rate(), r.Int63n(2), pick(r, 0, 1, 2, 3, 5, 10, 30), r.Int63n(8)
	if chance(r, 15) {
		k["rate"] = 0
	}
	unit := pick(r, 1000, 100000, 3000000)
	mh := int64(0)
	for c := 0; c < np; c++ {
		// a backlog, then more of it in steps
		for j := 0; j < 1+r.Intn(3); j++ {
			n := 1 + r.Intn(12)
			if chance(r, 30) {
				n = 1
			}
			for i := 0; i < n; i++ {
				op := Op{C: c, K: "pub", P: c, X: adMeta, Y: r.Int63n(50)}
				switch x := r.Intn(100); {
				case x < 35 || n == 1:
					op.X, op.A, op.B = adChunks, 1+r.Int63n(20), 1+r.Int63n(2)
					if n == 1 {
						op.A = 10 + r.Int63n(40)
					}
				case x < 42:
					op.X, op.A = adHamt, 5+r.Int63n(40)
				}
				if op.X == adMeta {
					op.X, op.A, op.B = adChunks, 1, 1
					if chance(r, 60) {
						op.X, op.A = adRm, 0
					}
				}
				op.Z = mh
				mh += op.A + 1
				p.Ops = append(p.Ops, op)
			}
			kind := pick2(r, "ann", "sync")
			p.Ops = append(p.Ops, Op{C: c, K: kind, P: c, D: r.Int63n(unit)})
			if chance(r, 40) {
				p.Ops = append(p.Ops, Op{C: c + 10, K: pick2(r, "ann", "sync"), P: c, D: r.Int63n(unit * 10)})
			}
		}
	}
	if chance(r, 70) {
		for j := 0; j < 1+r.Intn(6); j++ {
			op := Op{C: 30, K: "rate", D: r.Int63n(unit * pick(r, 1, 10)), A: rate(), B: r.Int63n(2), X: pick(r, 0, 1, 2, 5, 30), Y: r.Int63n(8), Z: r.Int63n(4)}
			if chance(r, 20) {
				op.A = 0
			}
			if chance(r, 25) {
				op.S = []string{"badpeer", "badrate", "badburst"}[r.Intn(3)]
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 25) {
		for i := 0; i < 1+r.Intn(3); i++ {
			p.Faults = append(p.Faults, Fault{K: pick2(r, "net.slow", "net.refuse"), T: r.Intn(np), N: r.Int63n(30), M: 1, A: r.Int63n(5000000)})
		}
	}
}

func init() {
	register("rate", &Scenario{run: runRate, gen: genRate}, "P18")
}

var _ = fmt.Sprint
