package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"time"

	"verif.local/sim/rt"
)

// Result of a batch, written as JSON to the result file
type Result struct {
	Prop      string         `json:"prop"`
	Race      bool           `json:"race"`
	From      int            `json:"from"`
	Next      int            `json:"next"` // the run after the last one executed
	Runs      int            `json:"runs"`
	Steps     uint64         `json:"steps"`
	Preempt   int            `json:"preempt"`
	MaxPct    int            `json:"maxPct"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Sigs      []uint64       `json:"sigs"`
	Inters    []uint64       `json:"inters"`
	Sites     []int          `json:"sites"`
	Known     map[string]int `json:"known"`
	Violation *Violation     `json:"violation,omitempty"`
	Plan      *Plan          `json:"plan,omitempty"`
	Sched     []rt.Switch    `json:"sched,omitempty"`
	Digest    uint64         `json:"digest"`
	Samples   []string       `json:"samples,omitempty"`
	Aborted   bool           `json:"aborted,omitempty"`
	Error     string         `json:"error,omitempty"`
}

func runSeed(seed uint64, prop string, ix int) uint64 {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, c := range []byte(prop) {
		h = mix(h, uint64(c))
	}
	return mix(h, uint64(ix)+77)
}

func genPlan(sc *Scenario, seed uint64) *Plan {
	r := newRand(seed)
	p := &Plan{Prop: sc.Prop, Seed: seed, N: map[string]int{}}
	sc.Gen(r, p)
	if p.Cfg.Seed == 0 {
		p.Cfg = drawSched(r, 400*len(p.Threads))
	}
	return p
}

var raceLogPath = os.Getenv(`SIM_RACELOG`)
var raceLogOff int64

func newRaceLog() string {
	if raceLogPath == `` {
		return ``
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", raceLogPath, os.Getpid()))
	if err != nil {
		return ``
	}
	defer f.Close()
	if _, err = f.Seek(raceLogOff, 0); err != nil {
		return ``
	}
	b := make([]byte, 1<<20)
	n := 0
	for n < len(b) {
		m, err := f.Read(b[n:])
		n += m
		if err != nil {
			break
		}
	}
	raceLogOff += int64(n)
	return string(b[:n])
}

func execPlan(sc *Scenario, p *Plan) (x *X) {
	x = &X{p: p, faults: map[string]int{}, probes: map[string]int{}, raceLog: newRaceLog}
	seedEnv(p.Seed)
	sc.Exec(p, x)
	seedEnv(1)
	x.collect()
	return
}

func loadKnown(file string) {
	if file == `` {
		return
	}
	b, err := os.ReadFile(file)
	die(err)
	var doc struct {
		Findings []*knownFinding `json:"findings"`
	}
	die(json.Unmarshal(b, &doc))
	for _, k := range doc.Findings {
		k.rx = regexp.MustCompile(`(?s)` + k.Match)
		knownFindings = append(knownFindings, k)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, `harness:`, err)
		os.Exit(3)
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "VERIF_SEED")
	from := flag.Int("from", 0, "first run")
	n := flag.Int("n", 1, "number of runs")
	out := flag.String("out", "", "result file")
	known := flag.String("known", "", "known findings file")
	planFile := flag.String("plan", "", "execute this plan")
	tries := flag.Int("tries", 0, "with -plan: also try this many other schedules")
	class := flag.String("class", "", "with -plan -tries: stop when a violation of this class is found")
	info := flag.Bool("info", false, "print the scenario table")
	child := flag.Bool("child", false, "execute the plan on standard input, for comparison with that of another process")
	show := flag.Bool("show", false, "print the plans")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	warmup()
	if *child {
		childMain()
		return
	}
	if *info {
		type si struct {
			Prop                  string
			Race, Chunk, FreshPct int
			Quick, Thorough       int
			Rule                  string
			Real, Stub, Assume    []string
		}
		m := map[string]si{}
		for k, s := range scenarios {
			m[k] = si{s.Prop, s.Race, s.Chunk, s.FreshPct, s.Quick, s.Thorough, s.Rule, s.Real, s.Stub, s.Assume}
		}
		fmt.Println(jsonString(m))
		return
	}
	loadKnown(*known)
	res := &Result{Prop: *prop, Race: rt.RaceEnabled, From: *from, Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	write := func() {
		res.Sites = rt.SitesHit()
		b, err := json.Marshal(res)
		die(err)
		if *out == `` {
			fmt.Println(string(b))
			return
		}
		die(os.WriteFile(*out+`.tmp`, b, 0o644))
		die(os.Rename(*out+`.tmp`, *out))
	}
	account := func(x *X) {
		res.Runs++
		res.Steps += x.steps
		res.Preempt += x.preempt
		if x.maxPct > res.MaxPct {
			res.MaxPct = x.maxPct
		}
		nf := 0
		for k, v := range x.faults {
			res.Faults[k] += v
			nf += v
		}
		for k, v := range x.probes {
			res.Probes[k] += v
		}
		for _, k := range x.known {
			res.Known[k]++
		}
		res.Digest = mix(res.Digest, x.digest)
		if x.preempt > 0 || nf > 0 {
			res.Sigs = append(res.Sigs, mix(x.inter, x.digest))
		}
		if x.preempt > 0 {
			res.Inters = append(res.Inters, x.inter)
		}
		res.Aborted = x.aborted
	}

	if *planFile != `` {
		b, err := os.ReadFile(*planFile)
		die(err)
		p := &Plan{}
		die(json.Unmarshal(b, p))
		sc := scenarios[p.Prop]
		if sc == nil {
			die(fmt.Errorf("no scenario for %q", p.Prop))
		}
		base := p.Cfg
		r := newRand(p.Seed ^ base.Seed ^ 0xabcdef)
		for t := 0; t <= *tries; t++ {
			if t > 0 {
				p.Cfg = drawSched(r, int(base.EstSteps))
				p.Cfg.MaxSteps = base.MaxSteps
			}
			x := execPlan(sc, p)
			account(x)
			if x.viol != nil && (*class == `` || *class == x.viol.Class || t == *tries) {
				res.Violation = x.viol
				res.Plan = p
				res.Sched = x.sched
				break
			}
			if x.aborted {
				break
			}
		}
		write()
		return
	}

	sc := scenarios[*prop]
	if sc == nil {
		die(fmt.Errorf("no scenario for %q", *prop))
	}
	var progress *os.File
	if *out != `` {
		var err error
		progress, err = os.Create(*out + `.progress`)
		die(err)
	}
	start := time.Now()
	_ = start
	for i := *from; i < *from+*n; i++ {
		if progress != nil {
			_, err := progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
			die(err)
		}
		p := genPlan(sc, runSeed(*seed, *prop, i))
		if *show {
			fmt.Println(jsonString(p))
		}
		x := execPlan(sc, p)
		account(x)
		res.Next = i + 1
		if len(res.Samples) < 2 && (x.preempt > 0 || len(x.faults) > 0) {
			s := jsonString(p)
			if len(s) > 1500 {
				s = s[:1500] + `...`
			}
			res.Samples = append(res.Samples, fmt.Sprintf("run %d: %d steps, %d preemptions, faults %v: %s", i, x.steps, x.preempt, x.faults, s))
		}
		if x.viol != nil {
			res.Violation = x.viol
			res.Plan = p
			res.Sched = x.sched
			break
		}
		if x.aborted {
			break
		}
	}
	write()
}
