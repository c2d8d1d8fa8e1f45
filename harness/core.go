// Command harness is the worker: it executes simulated runs of one property's scenario against the instrumented copy of
// lyraproj/dgo that it was built with.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"regexp"
	"sort"
	"strings"
	_ "unsafe" // linkname

	"verif.local/sim/rt"
)

// Rand is the only source of randomness of plan generation.
type Rand struct{ s uint64 }

func newRand(s uint64) *Rand { return &Rand{s} }

func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rand) rng(lo, hi int) int     { return lo + r.n(hi-lo+1) }
func (r *Rand) p(num, den int) bool    { return r.n(den) < num }
func (r *Rand) pick(s []string) string { return s[r.n(len(s))] }
func (r *Rand) ints(n, max int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = r.n(max)
	}
	return a
}

func mix(a, b uint64) uint64 {
	r := Rand{a ^ (b * 0xd6e8feb86659fd93)}
	return r.u64()
}

// Op is one operation of a simulated client.
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	S string `json:"s,omitempty"`
	C []Op   `json:"c,omitempty"`
}

// Plan is a complete description of one simulated run: everything else is a function of it.
type Plan struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Vals    []*Node        `json:"vals,omitempty"`
	Texts   []string       `json:"texts,omitempty"`
	Threads [][]Op         `json:"threads"`
	N       map[string]int `json:"n,omitempty"`
	Cfg     rt.Config      `json:"cfg"`
}

func (p *Plan) n(k string) int { return p.N[k] }

// Scenario generates and executes the plans of one property
type Scenario struct {
	Prop string
	Gen  func(r *Rand, p *Plan)
	Exec func(p *Plan, x *X)
	// Race is the share (in percent) of runs that use the race detector build
	Race int
	// Chunk is the number of runs that share a process; FreshPct is the percentage of runs in a process of their own.
	Chunk    int
	FreshPct int
	// Quick and Thorough are the number of runs of a tier
	Quick, Thorough int
	Rule            string
	Real            []string
	Stub            []string
	Assume          []string
	// NoThreadShrink keeps empty threads
	Minor bool
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Prop] = s }

// Violation of a property
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// X is the context of one execution
type X struct {
	p         *Plan
	viol      *Violation
	known     []string
	faults    map[string]int
	probes    map[string]int
	steps     uint64
	preempt   int
	inter     uint64
	sched     []rt.Switch
	aborted   bool
	races     int
	raceLog   func() string
	lastSteps uint32
	maxPct    int // steps of the longest execution, in percent of the limit
	digest    uint64
	// lenient: reaching the step limit is recorded in limited, it is not a violation yet
	lenient   bool
	limited   bool
	perThread [rt.MaxThreads + 1]struct {
		faults map[string]int
		probes map[string]int
		viol   *Violation
		known  []string
	}
}

func (x *X) slot() int {
	if c := rt.Cur(); c >= 0 {
		return c
	}
	return rt.MaxThreads
}

// fault records that a fault of a kind fired
func (x *X) fault(kind string) {
	s := &x.perThread[x.slot()]
	if s.faults == nil {
		s.faults = map[string]int{}
	}
	s.faults[kind]++
}

// probe records that a rare condition was reached
func (x *X) probe(name string) {
	s := &x.perThread[x.slot()]
	if s.probes == nil {
		s.probes = map[string]int{}
	}
	s.probes[name]++
}

func (x *X) collect() {
	for i := range x.perThread {
		for k, v := range x.perThread[i].faults {
			x.faults[k] += v
		}
		for k, v := range x.perThread[i].probes {
			x.probes[k] += v
		}
		x.perThread[i].faults = nil
		x.perThread[i].probes = nil
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	rx       *regexp.Regexp
}

var knownFindings []*knownFinding

// fail records a violation (the first one counts) unless it is a listed known finding
func (x *X) fail(class, format string, args ...interface{}) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + `...`
	}
	t := &x.perThread[x.slot()]
	for _, k := range knownFindings {
		if (k.Property == x.p.Prop) && k.rx.MatchString(class+"\n"+d) {
			t.known = append(t.known, k.What)
			x.merge()
			return
		}
	}
	if t.viol == nil {
		t.viol = &Violation{Class: class, Detail: d}
	}
	x.merge()
}

// merge collects what the threads found, unless a thread is running
func (x *X) merge() {
	if rt.Cur() >= 0 {
		return
	}
	for i := range x.perThread {
		t := &x.perThread[i]
		for _, k := range t.known {
			seen := false
			for _, h := range x.known {
				seen = seen || h == k
			}
			if !seen {
				x.known = append(x.known, k)
			}
		}
		t.known = nil
		if x.viol == nil {
			x.viol = t.viol
		}
	}
}

// note mixes observable results into the digest that the determinism check compares
func (x *X) note(s string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	x.digest = mix(x.digest, h.Sum64())
}

// failed is true when there is nothing more to be learned from this run
func (x *X) failed() bool { return x.viol != nil || x.aborted || x.perThread[x.slot()].viol != nil }

const serialMax = 20000000

func (x *X) serialMax() uint32 {
	if x.lenient && x.p.Cfg.MaxSteps > 0 {
		return x.p.Cfg.MaxSteps
	}
	return serialMax
}

// solo runs the function alone, bounded by the step limit
func (x *X) solo(what string, f func()) bool {
	if x.aborted {
		return false
	}
	o := rt.Run(rt.Config{Strategy: rt.Serial, MaxSteps: x.serialMax()}, f)
	x.steps += uint64(o.Steps)
	x.lastSteps = o.Steps
	x.pct(o, x.serialMax())
	x.judge(what, o)
	return !x.aborted
}

func (x *X) pct(o *rt.Outcome, max uint32) {
	if p := int(uint64(o.Steps) * 100 / uint64(max)); p > x.maxPct && !(x.lenient && o.StepLimit) {
		x.maxPct = p
	}
}

func (x *X) judge(what string, o *rt.Outcome) {
	x.merge()
	if o.Deadlock || o.StepLimit || o.Fatal != `` {
		rt.Abandon()
	}
	switch {
	case o.Deadlock:
		x.aborted = true
		x.fail(`deadlock`, `%s: no goroutine can proceed after %d steps (a lock is held that nobody will release)`, what, o.Steps)
	case o.StepLimit && x.lenient:
		x.limited = true
	case o.StepLimit:
		x.aborted = true
		x.fail(`no-progress`, `%s: not finished after %d simulated steps`, what, o.Steps)
	case o.Fatal != ``:
		x.aborted = true
		x.fail(`fatal`, `%s: fatal error: %s`, what, o.Fatal)
	}
}

// run executes the threads under the plan's schedule
func (x *X) run(what string, fns ...func()) bool {
	if x.aborted {
		return false
	}
	c := x.p.Cfg
	if c.MaxSteps == 0 {
		c.MaxSteps = 6000000
	}
	r0 := rt.RaceErrors()
	o := rt.Run(c, fns...)
	x.steps += uint64(o.Steps)
	x.preempt += o.Preempt
	x.inter = mix(x.inter, o.Interleave)
	x.sched = o.Sched
	x.lastSteps = o.Steps
	x.pct(o, c.MaxSteps)
	x.note(fmt.Sprint(o.Steps, o.Interleave, o.Deadlock, o.StepLimit))
	x.judge(what, o)
	if o.SchedTrunc {
		x.probe(`schedule-trace-truncated`)
	}
	if n := rt.RaceErrors() - r0; n > 0 {
		x.races += n
		for _, r := range parseRaces(x.raceLog()) {
			x.fail(`race:`+r.key, `data race in %s under the simulated schedule: %s`, what, r.text)
		}
		if x.merge(); x.viol == nil && len(x.known) == 0 {
			x.fail(`race:?`, `data race in %s (report not available)`, what)
		}
	}
	return !x.aborted
}

type raceReport struct {
	key  string
	text string
}

var frameRx = regexp.MustCompile(`^  ([^ ].*)\(\)$`)

func parseRaces(log string) []raceReport {
	var rs []raceReport
	for _, rep := range strings.Split(log, `WARNING: DATA RACE`)[1:] {
		if i := strings.Index(rep, `==================`); i >= 0 {
			rep = rep[:i]
		}
		// the two access stacks come first; stop at "Goroutine N (...) created at:"
		var tops, lines []string
		first := false
		inAccess := false
		cnt := 0
		for _, l := range strings.Split(rep, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, `Goroutine `):
				inAccess = false
			case strings.Contains(t, ` at 0x`) && strings.Contains(t, `by `):
				inAccess, first = true, true
				cnt = 0
				lines = append(lines, strings.Join(strings.Fields(t)[:1], ` `)+`:`)
			case inAccess && frameRx.MatchString(l):
				fn := frameRx.FindStringSubmatch(l)[1]
				if strings.HasPrefix(fn, `verif.local/sim/`) {
					continue
				}
				short := fn
				if i := strings.LastIndex(short, `/`); i >= 0 {
					short = short[i+1:]
				}
				if cnt < 8 {
					lines = append(lines, short)
				}
				cnt++
				// the first frame inside of dgo identifies the access
				if first && strings.Contains(fn, `lyraproj/dgo`) {
					tops = append(tops, short)
					first = false
				}
			case inAccess && strings.HasPrefix(t, `/repo/`) && cnt <= 8 && len(lines) > 0:
				f := strings.Fields(t)[0]
				lines[len(lines)-1] += ` ` + strings.TrimPrefix(f, `/repo/`)
			}
		}
		sort.Strings(tops)
		rs = append(rs, raceReport{key: strings.Join(tops, `~`), text: strings.Join(lines, ` < `)})
	}
	return rs
}

func jsonString(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

//go:linkname simMapState internal/runtime/maps.SimState
var simMapState uint64

// seedEnv makes the environment nondeterminism (iteration order of Go maps and of sync.Map) a function of the seed.
func seedEnv(seed uint64) {
	simMapState = seed | 1
	rt.EnvSeed(seed)
}

// drawSched picks a schedule strategy
func drawSched(r *Rand, est int) rt.Config {
	c := rt.Config{Seed: r.u64(), EstSteps: uint32(est)}
	switch r.n(10) {
	case 0, 1:
		c.Strategy, c.Den = rt.Random, uint32([]int{2, 3, 5}[r.n(3)])
	case 2, 3:
		c.Strategy, c.Den = rt.Random, uint32([]int{10, 25, 60, 150}[r.n(4)])
	case 4, 5, 6:
		c.Strategy, c.Depth = rt.PCT, r.rng(1, 6)
	case 7, 8:
		c.Strategy, c.Den = rt.HotSites, uint32([]int{4, 8, 16, 32}[r.n(4)])
	default:
		c.Strategy, c.Den = rt.Stall, uint32([]int{3, 20}[r.n(2)])
	}
	return c
}
