// Command check decides one property: it builds the simulator from the current tree of the repository, runs the seeded
// search, confirms, minimises and reports what it finds, and writes the evidence file.
//
//	check C01 quick|thorough
//	check replay FILE
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type result struct {
	Prop      string          `json:"prop"`
	Race      bool            `json:"race"`
	From      int             `json:"from"`
	Next      int             `json:"next"`
	Runs      int             `json:"runs"`
	Steps     uint64          `json:"steps"`
	Preempt   int             `json:"preempt"`
	MaxPct    int             `json:"maxPct"`
	Faults    map[string]int  `json:"faults"`
	Probes    map[string]int  `json:"probes"`
	Sigs      []uint64        `json:"sigs"`
	Inters    []uint64        `json:"inters"`
	Sites     []int           `json:"sites"`
	Known     map[string]int  `json:"known"`
	Violation *violation      `json:"violation"`
	Plan      json.RawMessage `json:"plan"`
	Sched     json.RawMessage `json:"sched"`
	Digest    uint64          `json:"digest"`
	Samples   []string        `json:"samples"`
	Aborted   bool            `json:"aborted"`
}

type info struct {
	Prop               string
	Race, Chunk        int
	FreshPct           int
	Quick, Thorough    int
	Rule               string
	Real, Stub, Assume []string
}

var root, repo string

func main() {
	quickBudget := flag.Int("budget", 0, "seconds of search (0: by tier)")
	runsFlag := flag.Int("runs", 0, "number of runs (0: by tier)")
	noMin := flag.Bool("nomin", false, "do not minimise")
	flag.StringVar(&repo, "repo", "/repo", "repository under test")
	flag.Parse()
	var err error
	root, err = os.Getwd()
	must(err)
	if _, err = os.Stat(filepath.Join(root, `harness`)); err != nil {
		trouble("run in /verif")
	}
	if flag.NArg() == 2 && flag.Arg(0) == `replay` {
		os.Exit(replayFile(flag.Arg(1)))
	}
	if flag.NArg() == 1 && flag.Arg(0) == `prebuild` {
		b := makeBuild(root, repo)
		fmt.Printf("built for tree %s, %d positions\n", b.repoHash, b.sites)
		return
	}
	if flag.NArg() < 1 {
		trouble("usage: check PROPERTY quick|thorough | check replay FILE")
	}
	prop := flag.Arg(0)
	tier := flag.Arg(1)
	if tier == `` {
		tier = os.Getenv(`VERIF_TIER`)
	}
	if tier != `thorough` {
		tier = `quick`
	}
	seed := uint64(1)
	if s := os.Getenv(`VERIF_SEED`); s != `` {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		} else {
			for _, c := range s {
				seed = seed*1099511628211 + uint64(c)
			}
		}
	}
	os.Exit(check(prop, tier, seed, *quickBudget, *runsFlag, *noMin))
}

type chunk struct {
	from, n int
	race    bool
}

func chunks(sc *info, runs int, seed uint64) []chunk {
	var cs []chunk
	fresh := runs * sc.FreshPct / 100
	batch := runs - fresh
	k := uint64(0)
	isRace := func() bool {
		k++
		return int(splitmix(seed*7919+k)%100) < sc.Race
	}
	for i := 0; i < batch; i += sc.Chunk {
		n := sc.Chunk
		if i+n > batch {
			n = batch - i
		}
		cs = append(cs, chunk{i, n, isRace()})
	}
	var fs []chunk
	for i := batch; i < runs; i++ {
		fs = append(fs, chunk{i, 1, isRace()})
	}
	// interleave, so that a time limit hits both kinds alike
	var all []chunk
	for len(cs) > 0 || len(fs) > 0 {
		if len(cs) > 0 {
			all = append(all, cs[0])
			cs = cs[1:]
		}
		m := 0
		if len(cs) == 0 {
			m = len(fs)
		} else {
			m = (len(fs) + len(cs)) / (len(cs) + 1)
		}
		all = append(all, fs[:m]...)
		fs = fs[m:]
	}
	return all
}

func splitmix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type totals struct {
	sync.Mutex
	runs, aborted  int
	raceRuns       int
	steps          uint64
	preempt        int
	maxPct         int
	faults, probes map[string]int
	sigs, inters   map[uint64]bool
	sites          map[int]bool
	known          map[string]int
	samples        []string
	processes      int
	restarts       int
	watchdog       []string
}

func check(prop, tier string, seed uint64, budget, runsFlag int, noMin bool) int {
	start := time.Now()
	b := makeBuild(root, repo)
	buildS := time.Since(start).Seconds()
	w := &workers{b: b, root: root}
	w.init()
	defer w.cleanup()
	infos := map[string]*info{}
	out, err := w.plainOutput(`-info`)
	must(err)
	must(json.Unmarshal(out, &infos))
	sc := infos[prop]
	if sc == nil {
		trouble("no check for property %s", prop)
	}
	runs := sc.Quick
	lim := 150
	if tier == `thorough` {
		runs = sc.Thorough
		lim = 600
	}
	if runsFlag > 0 {
		runs = runsFlag
	}
	if budget > 0 {
		lim = budget
	}
	limit := time.Duration(lim) * time.Second
	t := &totals{faults: map[string]int{}, probes: map[string]int{}, sigs: map[uint64]bool{}, inters: map[uint64]bool{}, sites: map[int]bool{}, known: map[string]int{}}
	all := chunks(sc, runs, seed)
	next := 0
	searchStart := time.Now()
	var found *finding
	var mu sync.Mutex
	take := func() *chunk {
		mu.Lock()
		defer mu.Unlock()
		if found != nil || next >= len(all) || time.Since(searchStart) > limit {
			return nil
		}
		next++
		return &all[next-1]
	}
	var wg sync.WaitGroup
	for i := 0; i < w.par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				c := take()
				if c == nil {
					return
				}
				if f := w.chunk(prop, seed, *c, t); f != nil {
					mu.Lock()
					if found == nil || f.runIx < found.runIx {
						found = f
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(searchStart).Seconds()
	det := `not checked`
	violations := 0
	code := 0
	if found == nil {
		det = w.determinism(prop, seed, sc)
	} else {
		code, violations = w.report(prop, seed, found, noMin)
	}
	if len(t.watchdog) > 0 && code == 0 {
		for _, s := range t.watchdog {
			fmt.Printf("ERROR: %s\n", s)
		}
		code = 2
	}
	var kn []string
	for k := range t.known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	wall := time.Since(start).Seconds()
	done := 0
	for _, c := range all[:next] {
		done += c.n
	}
	if len(t.samples) > 3 {
		t.samples = t.samples[:3]
	}
	if len(t.samples) == 0 {
		t.samples = []string{`none`}
	}
	ev := map[string]interface{}{
		`property`: prop, `tier`: tier, `seed`: seed, `level`: `exploration`, `wall_s`: round(wall), `violations`: violations,
		`assumptions`: sc.Assume,
		`coverage`: map[string]interface{}{
			`evaluations`:             t.runs,
			`distinct_nontrivial`:     len(t.sigs),
			`rule`:                    sc.Rule + ` A run is counted as non-trivial when at least one preemption took place or at least one fault fired, and as distinct by a hash over its schedule (thread and code position at every switch) and its observed results.`,
			`samples`:                 t.samples,
			`runs_planned`:            runs,
			`runs_started`:            done,
			`runs_with_race_detector`: t.raceRuns,
			`worker_processes`:        t.processes,
			`simulated_steps`:         t.steps,
			`simulated_time`:          `the code under test has no clock or timer: simulated time is the number of scheduler steps`,
			`preemptions`:             t.preempt,
			`longest_execution_in_percent_of_step_limit`: t.maxPct,
			`runs_per_hour`:                  int(float64(t.runs) / searchS * 3600),
			`seeds_per_hour`:                 int(float64(t.runs) / searchS * 3600),
			`faults_injected`:                t.faults,
			`rare_conditions_reached`:        t.probes,
			`distinct_interleavings`:         len(t.inters),
			`distinct_interleavings_measure`: `hash over (thread, code position) at every context switch of a run`,
			`code_positions_reached`:         len(t.sites),
			`code_positions_instrumented`:    b.sites,
			`aborted_runs`:                   t.aborted,
			`determinism_self_check`:         det,
			`real_components`:                sc.Real,
			`stubbed_components`:             sc.Stub,
			`build_s`:                        round(buildS),
			`search_s`:                       round(searchS),
			`known_findings_reported`:        kn,
		},
	}
	if sc.Assume == nil {
		ev[`assumptions`] = []string{}
	}
	js, err := json.MarshalIndent(ev, ``, ` `)
	must(err)
	must(os.MkdirAll(filepath.Join(root, `evidence`), 0o755))
	must(os.WriteFile(filepath.Join(root, `evidence`, prop+`.json`), append(js, '\n'), 0o644))
	if f := os.Getenv(`VERIF_SITES`); f != `` {
		// for finding code that no execution reaches
		js, _ = json.Marshal(map[string]interface{}{`build`: b.plain, `sites`: t.sites})
		_ = os.WriteFile(f, js, 0o644)
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d steps, %d preemptions, longest %d%% of limit, faults %v, %d/%d positions, build %.0fs search %.0fs, determinism: %s\n",
		prop, tier, t.runs, len(t.sigs), t.steps, t.preempt, t.maxPct, t.faults, len(t.sites), b.sites, buildS, searchS, det)
	return code
}

func round(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func isKnownPanic(s string) bool {
	return strings.Contains(s, `fatal error:`) || strings.Contains(s, `panic:`) || strings.Contains(s, `stack exceeds`) || strings.Contains(s, `SIGSEGV`)
}
