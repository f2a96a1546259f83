package main

import (
	"math/rand"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
)

// Chains with advertisements for several providers. The publishers have
// providers and content of their own; every sync is waited for, and given time
// for all providers' advertisements, before the next starts. (A sync that
// overlaps another, fails in part or is interrupted may lose the older
// advertisements of one provider: the known finding P01-mixed-chain.)
func runMixed(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	w.faultOn = true
	prop := w.plan.Property
	rest := func() {
		// for the other providers' advertisements
		time.Sleep(time.Hour)
	}
	wait := w.runClients(func(op *Op) {
		p := iw.pubs[op.P]
		switch op.K {
		case "pub":
			iw.publish(op)
		case "msync":
			if len(p.ads) == 0 {
				return
			}
			if op.B == 1 {
				if iw.announce(p, p.head()) != nil {
					return
				}
			} else if _, done := iw.syncWait(p, 0, op.A == 1, 0, 6*time.Hour); !done {
				iw.failP(prop, "sync-hangs", "sync of publisher %d never finished", p.i)
				return
			}
			rest()
		}
	})
	if !wait(40 * time.Hour) {
		iw.failP(prop, "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	w.faultOn = false
	for _, p := range iw.pubs {
		if len(p.ads) == 0 {
			continue
		}
		if _, done := iw.syncWait(p, 0, false, 0, 6*time.Hour); !done {
			iw.failP(prop, "sync-hangs", "sync of publisher %d never finished", p.i)
			return
		}
	}
	rest()
	if w.failed() {
		return
	}
	if d := iw.diff(iw.model(nil)); d != "" {
		class := "mixed-index-differs"
		if len(w.plan.Faults) > 0 {
			class = "mixed-chain-lost"
		}
		iw.failP(prop, class, "chain with %d providers: %s", 1+w.knob("mixed", 0), d)
	}
}

// altProv is another provider that publisher p publishes for.
func (p *Publisher) altProv(n int64) peer.ID {
	id, err := peer.IDFromPrivateKey(keyFor("alt", p.i*10+int(n)))
	if err != nil {
		panic(err)
	}
	return id
}

func init() {
	register("mixed", &Scenario{run: runMixed, gen: func(r *rand.Rand, p *Plan, tier string) {
		o := genOpts{maxPubs: 2, maxAds: 1}
		np := genBase(r, p, o)
		p.Ops = nil
		k := p.Knobs
		k["mixed"] = 1 + r.Int63n(3)
		delete(k, "rate")
		k["syncTimeout"] = 7200
		for i := 0; i < np; i++ {
			for s := 0; s < 1+r.Intn(4); s++ {
				for j := 0; j < 1+r.Intn(6); j++ {
					op := genPub(r, i, j, o)
					op.X = pick(r, adChunks, adChunks, adChunks, adHamt, adMeta, adRm)
					op.C = i
					op.N = r.Int63n(1 + k["mixed"])
					// content of one provider's own: entry blocks in common
					// are the known finding P07-shared-entries
					op.Z = int64(i)*100000 + op.N*10000 + op.Z%100
					p.Ops = append(p.Ops, op)
				}
				op := Op{C: i, D: r.Int63n(3000), K: "msync", P: i}
				if chance(r, 40) {
					op.B = 1
				} else if chance(r, 15) {
					op.A = 1
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}}, "P01")
	// one run in eight
	for i := 0; i < 6; i++ {
		propScenarios["P01"] = append(propScenarios["P01"], "converge")
	}
}
