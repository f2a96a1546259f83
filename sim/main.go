package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"

	logging "github.com/ipfs/go-log/v2"
)

// Scenario generates plans for a property and executes them.
type Scenario struct {
	gen func(r *rand.Rand, p *Plan, tier string)
	run func(w *World)
}

var scenarios = map[string]*Scenario{}

// propScenarios lists the scenarios that explore each property, with weights.
var propScenarios = map[string][]string{}

func register(name string, s *Scenario, props ...string) {
	scenarios[name] = s
	for _, p := range props {
		propScenarios[p] = append(propScenarios[p], name)
	}
}

// Result is what one simulated run reports.
type Result struct {
	Plan      *Plan            `json:"plan"`
	Violation *Violation       `json:"violation,omitempty"`
	Counts    map[string]int64 `json:"counts"`
	SimUs     int64            `json:"sim_us"`
	Dec       uint64           `json:"decisions"`
	Yields    uint64           `json:"preemptions"`
	Switches  uint64           `json:"switches"`
	Hash      string           `json:"interleaving"`
	Digest    string           `json:"history"`
	States    []uint64         `json:"states"`
	Log       []string         `json:"log,omitempty"`
}

const stallPct = 25

// exactTime are the scenarios that judge at what time something happens.
var exactTime = map[string]bool{"rate": true, "poll": true, "disc": true}

func genPlan(prop, scen string, seed uint64, tier string) *Plan {
	r := rand.New(rand.NewSource(int64(seed*0x9e3779b97f4a7c15 + 12345)))
	names := propScenarios[prop]
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	if scen == "" {
		scen = names[r.Intn(len(names))]
	}
	p := &Plan{Property: prop, Scenario: scen, Seed: seed, Knobs: map[string]int64{}}
	p.Sched = randSched(r)
	scenarios[scen].gen(r, p, tier)
	if chance(r, stallPct) && !exactTime[scen] {
		// A goroutine is held up here and there, for longer than the others
		// need for a request or a write.
		p.Sched.StallDen = uint32(pick(r, 30, 300, 3000))
		p.Sched.StallMax = uint64(pick(r, 1, 3, 20))
	}
	return p
}

func main() {
	prop := flag.String("property", "", "property id")
	scen := flag.String("scenario", "", "force this scenario")
	seed := flag.Uint64("seed", 0, "seed")
	planFile := flag.String("plan", "", "execute this plan instead of generating one")
	out := flag.String("out", "", "result file")
	tier := flag.String("tier", "quick", "quick or thorough")
	genN := flag.Uint64("gen", 0, "only write this many plans, for seeds from -seed on, into -dir")
	dir := flag.String("dir", ".", "where -gen writes")
	verbose := flag.Bool("v", false, "print the history")
	keepLog := flag.Bool("log", false, "keep the history in the result")
	flag.Parse()

	debug.SetGCPercent(-1)
	lvl := "fatal"
	if l := os.Getenv("SIM_LOG"); l != "" {
		lvl = l
	}
	if l, err := logging.LevelFromString(lvl); err == nil {
		logging.SetAllLoggers(l)
	}

	if *planFile == "" {
		if *genN > 0 {
			// write many plans
			for i := uint64(0); i < *genN; i++ {
				b, err := json.Marshal(genPlan(*prop, *scen, *seed+i, *tier))
				if err == nil {
					err = os.WriteFile(fmt.Sprintf("%s/%d.json", *dir, *seed+i), b, 0o644)
				}
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
			}
			return
		}
		// A run always starts from a plan file in a fresh process, so that
		// replaying the file repeats exactly this execution.
		f := fmt.Sprintf("%s/simplan-%d.json", os.TempDir(), os.Getpid())
		b, err := json.Marshal(genPlan(*prop, *scen, *seed, *tier))
		if err == nil {
			err = os.WriteFile(f, b, 0o644)
		}
		if err == nil {
			args := []string{os.Args[0], "-plan", f, "-out", *out}
			if *verbose {
				args = append(args, "-v")
			}
			if *keepLog {
				args = append(args, "-log")
			}
			err = syscall.Exec(os.Args[0], args, os.Environ())
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, err := os.ReadFile(*planFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	s := scenarios[p.Scenario]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", p.Scenario)
		os.Exit(3)
	}

	runtime.SimTrace(os.Getenv("SIM_TRACE") != "")
	runtime.SimInit(p.Seed, p.Sched.Policy, p.Sched.Yield, p.Sched.Tick, p.Sched.Limit)
	if p.Sched.StallDen > 0 {
		runtime.SimStall(p.Sched.StallDen, p.Sched.StallMax)
	}
	w := newWorld(p)
	w.verbose = *verbose
	w.keepLog = *keepLog
	s.run(w)
	runtime.SimQuiet(true)
	if n := runtime.SimStalls(); n > 0 {
		w.count["fault:goroutine.stall"] = int64(n)
	}
	w.done = true
	dec, yields, _, switches, hash, _ := runtime.SimStats()
	res := Result{Plan: p, Violation: w.viol, Counts: w.count, SimUs: w.now(), Dec: dec, Yields: yields, Switches: switches,
		Hash: fmt.Sprintf("%016x", hash), Digest: fmt.Sprintf("%016x", w.digest)}
	for s := range w.states {
		res.States = append(res.States, s)
	}
	sort.Slice(res.States, func(i, j int) bool { return res.States[i] < res.States[j] })
	if *keepLog {
		res.Log = w.log
	}
	b, err = json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		fmt.Println(string(b))
	}
	os.Exit(0)
}

func sortStrings(s []string) { sort.Strings(s) }
