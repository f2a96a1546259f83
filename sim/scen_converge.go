package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

type genOpts struct {
	maxPubs int
	maxAds  int
	net     int // number of network faults
	vs      int
	disk    int
	crashes int
	resync  int // percent of syncs
	cancel  int // percent of syncs
	reconf  bool
	finals  []int64
	syncs   int
	noHamt  bool
	noAnn   bool
	oldAnn  bool
	finds   bool
}

// genBase draws knobs and the publishing workload.
func genBase(r *rand.Rand, p *Plan, o genOpts) int {
	k := p.Knobs
	np := 1 + r.Intn(o.maxPubs)
	k["pubs"] = int64(np)
	k["workers"] = pick(r, 1, 1, 2, 3, 8)
	k["batch"] = pick(r, 1, 2, 3, 5, 16, 4096)
	k["seg"] = pick(r, -1, 1, 2, 3, 10, 2000)
	k["codec"] = pick(r, 0, 0, 0, 1, 2)
	k["retries"] = pick(r, 0, 1, 2)
	k["syncTimeout"] = pick(r, 60, 600, 7200)
	k["diskLat"] = pick(r, 0, 0, 50, 500)
	k["vsLat"] = pick(r, 0, 20, 300, 3000)
	k["netLat"] = pick(r, 100, 2000, 20000)
	k["cache"] = pick(r, 0, 0, 100000)
	k["provDelta"] = pick(r, 0, 0, int64(r.Intn(1<<uint(np))))
	k["downtime"] = pick(r, 10, 1000, 100000)
	if chance(r, 20) {
		k["rate"] = pick(r, 20, 100, 1000)
		k["burst"] = pick(r, 1, 5, 50)
	}
	if chance(r, 15) {
		k["oldSig"] = pick(r, 255, 1+r.Int63n(255))
	}
	if chance(r, 20) {
		k["ctx0"] = 1
	}
	if len(o.finals) > 0 {
		k["final"] = o.finals[r.Intn(len(o.finals))]
	}
	if k["final"] == 2 {
		k["pollInterval"] = pick(r, 60, 300, 600)
		k["pollRetry"] = pick(r, 60, 120)
		k["pollStop"] = 864000
	}
	for i := 0; i < np; i++ {
		nads := 1 + r.Intn(o.maxAds)
		for j := 0; j < nads; j++ {
			p.Ops = append(p.Ops, genPub(r, i, j, o))
			if !o.noAnn && chance(r, 45) {
				op := Op{C: i, D: r.Int63n(3000), K: "ann", P: i}
				if o.oldAnn && chance(r, 20) {
					op.A = r.Int63n(3)
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	return np
}

func genPub(r *rand.Rand, pub, j int, o genOpts) Op {
	kind := pick(r, adChunks, adChunks, adChunks, adHamt, adHamt, adMeta, adRm, adBadMhs, adEmptyChunks, adRmWithEntries)
	if o.noHamt && kind == adHamt {
		kind = adChunks
	}
	if j == 0 && chance(r, 70) {
		kind = adChunks
	}
	op := Op{C: pub, D: r.Int63n(20000), K: "pub", P: pub, X: kind, Y: r.Int63n(3)}
	op.A = pick(r, 1, 2, 5, 9, 17, 30)
	if kind == adHamt {
		op.A = pick(r, 1, 8, 30, 60)
	}
	op.B = pick(r, 1, 2, 4, 8, 100)
	op.Z = int64(pub)*1000 + pick(r, 0, 0, 3, 10, 25)
	if chance(r, 25) {
		op.Z = r.Int63n(30) // shared between publishers
	}
	return op
}

func genSyncs(r *rand.Rand, p *Plan, np int, o genOpts) {
	for c := 0; c < 1+r.Intn(3); c++ {
		for s := 0; s < 1+r.Intn(o.syncs); s++ {
			op := Op{C: 100 + c, D: r.Int63n(40000), K: "sync", P: r.Intn(np)}
			if chance(r, o.resync) {
				op.B = 1
				op.A = pick(r, 0, -1)
			}
			if chance(r, o.cancel) {
				op.X = 1 + r.Int63n(60000)
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

func genNetFaults(r *rand.Rand, p *Plan, np, n int) {
	for i := 0; i < n; i++ {
		t := r.Intn(np)
		f := Fault{T: t, N: r.Int63n(60), M: 1 + r.Int63n(3), A: r.Int63n(1 << 20)}
		switch r.Intn(10) {
		case 0:
			f.K = "net.refuse"
		case 1:
			f.K = "net.hang"
		case 2, 3:
			f.K = "net.status"
			f.A = pick(r, 404, 429, 500, 502, 503, 403)
		case 4:
			f.K = "net.trunc"
			f.S = []string{"", "eof", "hang"}[r.Intn(3)]
		case 5:
			f.K = "net.drip"
			f.A = 1000 + r.Int63n(200000)
			f.M = 1 + r.Int63n(10)
		case 6:
			f.K = "net.slow"
			f.A = 1000 + r.Int63n(9000000)
		case 7:
			f.K = "net.lostreply"
		case 8:
			f.K = "net.part"
			f.At = r.Int63n(100000)
			f.Dur = 1 + r.Int63n(pick(r, 10000, 1000000, 30000000))
			f.A = r.Int63n(2)
		case 9:
			f.K = "net.corrupt"
			f.A = r.Int63n(1 << 30)
		}
		p.Faults = append(p.Faults, f)
	}
}

func genStoreFaults(r *rand.Rand, p *Plan, vs, disk int) {
	for i := 0; i < vs; i++ {
		f := Fault{K: []string{"vs.eio", "vs.eio", "vs.partial", "vs.lostack", "vs.flusheio", "vs.stall", "vs.ctxeio"}[r.Intn(7)], N: r.Int63n(25), M: pick(r, 1, 1, 2, 5)}
		if f.K == "vs.ctxeio" {
			// operations on a whole context: metadata updates and removals
			f.N = r.Int63n(3)
		}
		if f.K == "vs.stall" {
			f.A = r.Int63n(5000000)
		} else if chance(r, 30) {
			f.N, f.M = 0, 0
			f.At, f.Dur = r.Int63n(100000), 1+r.Int63n(pick(r, 5000, 100000, 10000000))
		}
		p.Faults = append(p.Faults, f)
	}
	for i := 0; i < disk; i++ {
		f := Fault{K: []string{"disk.eio", "disk.eio", "disk.full", "disk.lostack", "disk.rdeio", "disk.stall", "disk.synceio"}[r.Intn(7)], N: r.Int63n(80), M: pick(r, 1, 1, 2, 8)}
		if f.K == "disk.stall" {
			f.A = r.Int63n(5000000)
		} else if f.K == "disk.full" || chance(r, 25) {
			f.N, f.M = 0, 0
			f.At, f.Dur = r.Int63n(100000), 1+r.Int63n(pick(r, 5000, 100000, 10000000))
		}
		p.Faults = append(p.Faults, f)
	}
}

func genCrashes(r *rand.Rand, p *Plan, n int) {
	for i := 0; i < n; i++ {
		k := []string{"crash.disk", "crash.diskafter", "crash.vs", "crash.vsafter", "op"}[r.Intn(5)]
		if k == "op" {
			p.Ops = append(p.Ops, Op{C: 200, D: r.Int63n(60000), K: "crash"})
			continue
		}
		hi := int64(60)
		if strings.HasPrefix(k, "crash.vs") {
			hi = 25
		}
		p.Faults = append(p.Faults, Fault{K: k, N: r.Int63n(hi)})
	}
}

// runConverge is the generic ingestion run: workload and faults, then the
// faults stop, every head is brought in, and the index must equal the model.
func runConverge(w *World) {
	iw := newIngWorld(w)
	iw.hookStore()
	w.faultOn = false
	iw.must(iw.node.start())
	if w.knob("final", 0) == 2 {
		iw.preRegister()
	}
	w.faultOn = true
	iw.keepAlive()
	prop := w.plan.Property
	wait := w.runClients(iw.exec)
	if !wait(24 * time.Hour) {
		iw.failP(prop, "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	if !iw.settle(prop) {
		return
	}
	iw.checkConverged(prop)
	if prop == "P21" {
		iw.checkLeftovers()
	}
}

// checkLeftovers: no entry block of an ingested advertisement is left.
func (iw *IngWorld) checkLeftovers() {
	if iw.failed() {
		return
	}
	atomically(func() {
		most := 16
		for _, p := range iw.pubs {
			most += 8
			for _, a := range p.all {
				most += 2
				if a.kind == adHamt || a.kind == adChunks || a.kind == adBadMhs {
					most += len(a.blocks)
				}
			}
		}
		if n := len(iw.node.disk.data); n > most {
			iw.failP("P21", "datastore-grows", "the datastore holds %d keys for %d publishers: %v", n, len(iw.pubs), iw.node.disk.keys(""))
			return
		}
		for _, p := range iw.pubs {
			for i, a := range p.ads {
				// One that an overlapping sync fetched again may remain.
				if _, ok := iw.node.disk.data["/"+a.cid.String()]; ok && iw.node.disk.puts["/"+a.cid.String()] < 2 {
					iw.failP("P21", "ad-left", "publisher %d ad %d of %d (kind %d): advertisement %s still in the datastore", p.i, a.idx, len(p.ads), a.kind, a.cid)
					return
				}
				// An advertisement whose context is removed later may have been
				// skipped after a failed attempt; it was not ingested then.
				skipped := false
				for _, b := range p.ads[i+1:] {
					if (b.kind == adRm || b.kind == adRmWithEntries) && b.ctx == a.ctx {
						skipped = true
					}
				}
				if skipped {
					continue
				}
				for _, b := range a.blocks {
					if _, ok := iw.node.disk.data["/"+b]; ok {
						iw.failP("P21", "entry-block-left", "publisher %d ad %d (kind %d): entry block %s still in the datastore", p.i, a.idx, a.kind, b)
						return
					}
				}
			}
		}
	})
}

func init() {
	register("converge", &Scenario{run: runConverge, gen: func(r *rand.Rand, p *Plan, tier string) {
		big := 0
		if tier == "thorough" {
			big = 1
		}
		o := genOpts{maxPubs: 3 + big, maxAds: 5 + 4*big, syncs: 4, finals: []int64{0, 0, 1, 2}}
		switch p.Property {
		case "P01":
			o.cancel = 10
			o.oldAnn = true
			np := genBase(r, p, o)
			genSyncs(r, p, np, o)
			if chance(r, 60) {
				genNetFaults(r, p, np, 1+r.Intn(6))
			}
		case "P02":
			o.finals = []int64{0, 0, 1}
			np := genBase(r, p, o)
			genSyncs(r, p, np, o)
			genCrashes(r, p, 1+r.Intn(3))
			if chance(r, 25) {
				genNetFaults(r, p, np, 1+r.Intn(3))
			}
		case "P03":
			o.finals = []int64{0}
			np := genBase(r, p, o)
			genSyncs(r, p, np, o)
			genStoreFaults(r, p, 1+r.Intn(3), r.Intn(4))
		}
	}}, "P01", "P02", "P03")
}

var _ = fmt.Sprint
