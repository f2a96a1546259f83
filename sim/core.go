package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"time"
)

// ---- plan -----------------------------------------------------------------

// Plan is one simulated execution: everything the run depends on besides the
// code. It is generated from a seed, can be minimised and is what a replay
// file holds.
type Plan struct {
	Property string           `json:"property"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Sched    Sched            `json:"sched"`
	Knobs    map[string]int64 `json:"knobs"`
	Ops      []Op             `json:"ops"`
	Faults   []Fault          `json:"faults"`
}

type Sched struct {
	Policy int    `json:"policy"`
	Yield  uint32 `json:"yield"`
	Tick   uint32 `json:"tick"`
	Limit  uint64 `json:"limit"`
	// goroutines stall: one in StallDen yield points, StallMax times at most
	StallDen uint32 `json:"stallDen,omitempty"`
	StallMax uint64 `json:"stallMax,omitempty"`
}

// Op is one workload step. Steps of one client run in order; clients run
// concurrently.
type Op struct {
	C int    `json:"c"`           // client
	D int64  `json:"d,omitempty"` // think time before the step, microseconds
	K string `json:"k"`
	P int    `json:"p,omitempty"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	X int64  `json:"x,omitempty"`
	Y int64  `json:"y,omitempty"`
	Z int64  `json:"z,omitempty"`
	N int64  `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	L []int  `json:"l,omitempty"`
}

// Fault is one planned fault: it fires at the Nth..N+M-1th matching event at
// its seam, or during [At, At+Dur) microseconds of simulated time.
type Fault struct {
	K   string `json:"k"`
	T   int    `json:"t,omitempty"`
	N   int64  `json:"n,omitempty"`
	M   int64  `json:"m,omitempty"`
	At  int64  `json:"at,omitempty"`
	Dur int64  `json:"dur,omitempty"`
	A   int64  `json:"a,omitempty"`
	S   string `json:"s,omitempty"`
}

// ---- world ----------------------------------------------------------------

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	AtUs  int64  `json:"at_us"`
	Step  uint64 `json:"step"`
}

type World struct {
	plan  *Plan
	rng   *rand.Rand // used by seams (latencies etc.)
	start time.Time

	viol     *Violation
	count    map[string]int64 // event, fault and probe counters
	fire     map[string]int64 // nth-counters per seam kind
	log      []string
	verbose  bool
	keepLog  bool
	digest   uint64
	done     bool
	injected int  // faults so far
	faultOn  bool // planned faults fire only while true
	states   map[uint64]struct{}
	mu       sync.Mutex // only for harness data; never held over a seam
}

func newWorld(p *Plan) *World {
	w := &World{
		plan:    p,
		rng:     rand.New(rand.NewSource(int64(p.Seed) ^ 0x5eed)),
		start:   time.Now(),
		count:   map[string]int64{},
		fire:    map[string]int64{},
		faultOn: true,
		states:  map[uint64]struct{}{},
	}
	return w
}

// atomically runs f without any preemption.
func atomically(f func()) {
	runtime.SimNoYield(1)
	defer runtime.SimNoYield(-1)
	f()
}

func (w *World) now() int64 { return int64(time.Since(w.start) / time.Microsecond) }

func (w *World) knob(name string, def int64) int64 {
	if v, ok := w.plan.Knobs[name]; ok {
		return v
	}
	return def
}

func (w *World) hit(name string) { w.hitN(name, 1) }

func (w *World) hitN(name string, n int64) {
	atomically(func() { w.count[name] += n })
}

// event appends to the history (hashed always, kept when verbose).
func (w *World) event(format string, args ...interface{}) {
	atomically(func() {
		s := fmt.Sprintf(format, args...)
		h := fnv.New64a()
		fmt.Fprintf(h, "%d|%d|%s", w.digest, w.now(), s)
		w.digest = h.Sum64()
		if w.verbose {
			fmt.Fprintf(os.Stderr, "%12.6f %s\n", float64(w.now())/1e6, s)
		}
		if w.keepLog && len(w.log) < 20000 {
			w.log = append(w.log, fmt.Sprintf("%.6f %s", float64(w.now())/1e6, s))
		}
	})
}

// state records a distinct abstract state reached.
func (w *World) state(format string, args ...interface{}) {
	atomically(func() {
		h := fnv.New64a()
		fmt.Fprintf(h, format, args...)
		if len(w.states) < 1<<16 {
			w.states[h.Sum64()] = struct{}{}
		}
	})
}

// fail records the first violation.
func (w *World) fail(class, format string, args ...interface{}) {
	atomically(func() {
		if w.viol != nil || w.done {
			return
		}
		dec, _, _, _, _, _ := runtime.SimStats()
		w.viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...), AtUs: w.now(), Step: dec}
	})
	w.event("VIOLATION %s: %s", class, fmt.Sprintf(format, args...))
}

func (w *World) failed() bool { return w.viol != nil }

// fault reports whether a planned fault of kind k for target t fires at this
// event. Every call advances the nth-counter of (k, t).
func (w *World) fault(k string, t int) *Fault {
	var res *Fault
	atomically(func() {
		key := fmt.Sprintf("%s/%d", k, t)
		n := w.fire[key]
		w.fire[key] = n + 1
		if !w.faultOn {
			return
		}
		now := w.now()
		for i := range w.plan.Faults {
			f := &w.plan.Faults[i]
			if f.K != k || (f.T != t && f.T != -1) {
				continue
			}
			if f.Dur > 0 {
				if now >= f.At && now < f.At+f.Dur {
					res = f
					break
				}
				continue
			}
			m := f.M
			if m == 0 {
				m = 1
			}
			if n >= f.N && n < f.N+m {
				res = f
				break
			}
		}
		if res != nil {
			w.count["fault:"+k]++
			w.injected++
		}
	})
	if res != nil {
		w.event("fault %s t=%d", k, t)
	}
	return res
}

// ---- helpers --------------------------------------------------------------

// waitUntil polls cond on the simulated clock; false on timeout.
func (w *World) waitUntil(timeout time.Duration, cond func() bool) bool {
	step := time.Millisecond
	deadline := time.Now().Add(timeout)
	for {
		ok := false
		atomically(func() { ok = cond() })
		if ok {
			return true
		}
		if !time.Now().Before(deadline) {
			return false
		}
		time.Sleep(step)
		if step < 5*time.Second {
			step = step * 3 / 2
		}
	}
}

// within runs f in a goroutine and waits at most d of simulated time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// runClients executes the plan's ops, grouped by client, and returns a wait
// function that reports whether all clients ended within d.
func (w *World) runClients(exec func(op *Op)) func(d time.Duration) bool {
	groups := map[int][]*Op{}
	var order []int
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		if _, ok := groups[op.C]; !ok {
			order = append(order, op.C)
		}
		groups[op.C] = append(groups[op.C], op)
	}
	sort.Ints(order)
	var wg sync.WaitGroup
	for _, c := range order {
		ops := groups[c]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				if op.D > 0 {
					time.Sleep(time.Duration(op.D) * time.Microsecond)
				}
				if w.failed() {
					return
				}
				w.event("op c=%d %s p=%d a=%d b=%d x=%d y=%d %s", op.C, op.K, op.P, op.A, op.B, op.X, op.Y, op.S)
				w.hit("op:" + op.K)
				exec(op)
			}
		}()
	}
	return func(d time.Duration) bool {
		return within(d, wg.Wait)
	}
}

func pick(r *rand.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

// randSched draws scheduler parameters.
func randSched(r *rand.Rand) Sched {
	s := Sched{Limit: 1 << 60}
	s.Policy = int(pick(r, 0, 1, 1, 2, 2, 3, 4, 4))
	s.Yield = uint32(pick(r, 0, 3, 8, 8, 20, 60, 200))
	s.Tick = uint32(pick(r, 10, 200, 1000, 1000, 20000))
	return s
}

// scratchDir makes a directory for real files; its name has the same length in
// every run.
func scratchDir() (string, error) {
	d := filepath.Join(os.TempDir(), fmt.Sprintf("verifsim-%010d", os.Getpid()))
	_ = os.RemoveAll(d)
	return d, os.Mkdir(d, 0o700)
}
