// Deterministic-simulation support linked into the Go runtime through
// "go build -overlay". Nothing in here is part of the shipped system.
//
// One P, no sysmon, no GC, fake clock (build tag faketime). Every scheduling
// decision (which runnable goroutine runs next; whether to preempt at a yield
// point) is drawn from a PRNG seeded by SimInit.
package runtime

import "unsafe" // also for linkname

const simQMax = 1 << 16

type simState struct {
	on       bool
	q        [simQMax]guintptr
	n        int
	rng      uint64
	frng     uint64
	policy   int    // 0 fifo, 1 uniform random, 2 hashed priorities, 3 lifo-biased
	yieldDen uint32 // one in yieldDen yield points preempts; 0 never
	limit    uint64 // after this many decisions: fifo and no preemption
	tick     uint32 // max nanoseconds added per decision
	dec      uint64 // decisions so far
	yields   uint64 // preemptions taken
	points   uint64 // yield points passed
	switches uint64
	hash     uint64 // hash over (goid picked)
	epoch    uint64
	epochAt  uint64
	jumps    uint64
	lastG    int64
	stepMax  uint64 // decisions between clock advances before declaring livelock (0 = off)
	lastJump uint64
	base     int64
	wallOff  int64
	trace    bool
	stallDen uint32 // one in stallDen yield points stalls the goroutine
	stallMax uint64 // that many times at most
	stalls   uint64
}

var simS simState

//go:nosplit
func simRand() uint64 {
	simS.rng += 0x9e3779b97f4a7c15
	z := simS.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simMix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simFastrand() uint32 {
	simS.frng += 0x9e3779b97f4a7c15
	z := simS.frng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return uint32((z ^ (z >> 31)) >> 16)
}

func simGetRandomData(r []byte) {
	for i := range r {
		r[i] = byte(simMix(uint64(i), 0x51ed270b))
	}
}

// SimInit seeds every runtime-level source of nondeterminism and turns the
// seeded scheduler on.
func SimInit(seed uint64, policy int, yieldDen uint32, tick uint32, limit uint64) {
	simS.rng = simMix(seed, 1)
	simS.frng = simMix(seed, 2)
	simS.policy = policy
	simS.yieldDen = yieldDen
	simS.tick = tick
	simS.limit = limit
	simS.dec, simS.yields, simS.points, simS.switches, simS.hash = 0, 0, 0, 0, 0
	simS.epoch, simS.epochAt = 0, 0
	simS.stepMax, simS.lastJump = 30000000, 0
	simS.on = true
}

// SimStats returns decisions, preemptions taken, yield points passed, context
// switches, interleaving hash, clock jumps.
func SimStats() (dec, yields, points, switches, hash, jumps uint64) {
	return simS.dec, simS.yields, simS.points, simS.switches, simS.hash, simS.jumps
}

// SimStall lets goroutines stall for some simulated time, while everything else
// runs on: one in den yield points, max times at most.
func SimStall(den uint32, max uint64) { simS.stallDen, simS.stallMax, simS.stalls = den, max, 0 }

// SimStalls returns the number of stalls.
func SimStalls() uint64 { return simS.stalls }

// SimQuiet turns random scheduling on or off (used for oracle phases).
func SimQuiet(q bool) { simS.on = !q }

// SimJumpWall moves the wall clock (not the monotonic clock) by d nanoseconds.
func SimJumpWall(d int64) { simS.wallOff += d }

// SimTrace prints every scheduling decision (for debugging the simulator).
func SimTrace(on bool) { simS.trace = on }

// SimTag marks the calling goroutine, and all it starts, as part of something.
func SimTag(p unsafe.Pointer) { getg().labels = p }

// SimTagged returns the mark of the calling goroutine.
func SimTagged() unsafe.Pointer { return getg().labels }

// SimGoid returns the id of the current goroutine.
func SimGoid() int64 { return getg().goid }

// SimYield is a preemption point.
func SimYield() {
	if !simS.on || simS.yieldDen == 0 {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.gsignal == gp || gp.simNoYield != 0 {
		return
	}
	simS.points++
	if simS.dec >= simS.limit {
		// still let others in now and then, so that spinning loops make progress
		if simS.points%64 == 0 {
			mcall(gosched_m)
		}
		return
	}
	if simS.stalls < simS.stallMax && uint32(simRand()>>20)%simS.stallDen == 0 {
		simS.stalls++
		timeSleep(16000 << (simRand() % 15))
		return
	}
	if uint32(simRand()>>20)%simS.yieldDen == 0 {
		simS.yields++
		if simS.policy == 4 && simRand()&3 == 0 {
			// hold this goroutine up while others run on
			gp.simHold = simS.dec + 20<<(simRand()%9)
		}
		mcall(gosched_m)
	}
}

//go:linkname sync_simyield sync.runtime_simyield
func sync_simyield() { SimYield() }

func simPut(gp *g) {
	if simS.n >= simQMax {
		throw("sim: run queue overflow")
	}
	simS.q[simS.n].set(gp)
	simS.n++
}

func simGet() *g {
	if sched.runqsize != 0 {
		lock(&sched.lock)
		for sched.runqsize > 0 {
			sched.runqsize--
			simPut(sched.runq.pop())
		}
		unlock(&sched.lock)
	}
	n := simS.n
	if n == 0 {
		return nil
	}
	i := 0
	if simS.on {
		simS.dec++
		if simS.stepMax != 0 && simS.dec-simS.lastJump > simS.stepMax {
			simLivelock()
		}
		if simS.tick != 0 {
			faketime += 1 + int64(uint32(simS.dec*2654435761)>>8)%int64(simS.tick)
		}
		if simS.dec < simS.limit && n > 1 {
			switch simS.policy {
			case 1:
				i = int(simRand() % uint64(n))
			case 2:
				if simS.dec >= simS.epochAt {
					simS.epoch = simRand()
					simS.epochAt = simS.dec + 20 + simRand()%1500
				}
				best := uint64(0)
				for k := 0; k < n; k++ {
					p := simMix(uint64(simS.q[k].ptr().goid), simS.epoch) | 1
					if p > best {
						best, i = p, k
					}
				}
				// bounded unfairness
				if simRand()%16 == 0 {
					i = int(simRand() % uint64(n))
				}
			case 4:
				i = int(simRand() % uint64(n))
				for k := 0; k < n && simS.q[i].ptr().simHold > simS.dec; k++ {
					if i++; i == n {
						i = 0
					}
				}
			case 3:
				if simRand()%8 != 0 {
					i = n - 1
				} else {
					i = int(simRand() % uint64(n))
				}
			}
		}
	}
	gp := simS.q[i].ptr()
	if i == n-1 {
		simS.n = n - 1
	} else {
		// keep arrival order for the rest, so FIFO stays FIFO
		for k := i; k < n-1; k++ {
			simS.q[k] = simS.q[k+1]
		}
		simS.n = n - 1
	}
	simS.q[simS.n] = 0
	if simS.on {
		if gp.goid != simS.lastG {
			simS.switches++
			simS.lastG = gp.goid
		}
		if simS.trace {
			print("sched ", simS.dec, " g", gp.goid, " n", n, " rng ", simS.rng, " f ", simS.frng, " pc ", gp.gopc, "\n")
		}
		simS.hash = simMix(simS.hash^uint64(gp.goid), uint64(n))
	}
	return gp
}

func simLivelock() {
	throw("sim: livelock: scheduling steps exceeded without the system ever becoming idle")
}

// simIdle is called with nothing runnable; it jumps the fake clock to the next
// timer. It reports whether there was one.
func simIdle(pollUntil int64) bool {
	if pollUntil == 0 {
		return false
	}
	if pollUntil > faketime {
		faketime = pollUntil
		simS.jumps++
		simS.lastJump = simS.dec
	}
	return true
}

// SimRandBytes fills b from the runtime PRNG (crypto/rand replacement).
func SimRandBytes(b []byte) {
	for i := range b {
		b[i] = byte(simFastrand() >> 3)
	}
}

// SimNoYield brackets a section the simulator treats as one atomic step: no
// preemption point inside it yields.
func SimNoYield(d int32) { getg().simNoYield += d }
