package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	S string `json:"s,omitempty"`
	C []op   `json:"c,omitempty"`
}

type sw struct {
	Step uint32 `json:"s"`
	T    uint8  `json:"t"`
}

type plan struct {
	Prop    string            `json:"prop"`
	Seed    uint64            `json:"seed"`
	Vals    []json.RawMessage `json:"vals,omitempty"`
	Texts   []string          `json:"texts,omitempty"`
	Threads [][]op            `json:"threads"`
	N       map[string]int    `json:"n,omitempty"`
	Cfg     struct {
		Seed     uint64 `json:"seed"`
		Strategy int    `json:"strategy"`
		Den      uint32 `json:"den"`
		Depth    int    `json:"depth"`
		EstSteps uint32 `json:"est"`
		MaxSteps uint32 `json:"max"`
		Sched    []sw   `json:"sched,omitempty"`
	} `json:"cfg"`
}

const replayStrategy = 4

func (p *plan) clone() *plan {
	b, err := json.Marshal(p)
	must(err)
	q := &plan{}
	must(json.Unmarshal(b, q))
	return q
}

func (p *plan) size() int {
	n := 0
	for _, t := range p.Threads {
		for _, o := range t {
			n += 1 + len(o.C)
		}
	}
	return n*10000 + len(p.Cfg.Sched)
}

// replay is the content of a replay file
type replay struct {
	Property string `json:"property"`
	Seed     uint64 `json:"verif_seed"`
	Run      int    `json:"run"`
	Race     bool   `json:"race_build"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
	How      string `json:"how"`
	Plan     *plan  `json:"plan,omitempty"`
	Batch    *batch `json:"batch,omitempty"`
	Repo     string `json:"tree"`
	Original string `json:"original_size,omitempty"`
	Minimal  string `json:"minimised_size,omitempty"`
	Tests    int    `json:"minimiser_tests,omitempty"`
}

type batch struct {
	From int `json:"from"`
	N    int `json:"n"`
}

// tryPlan executes a plan in a process of its own and returns the violation, if any, with the schedule
func (w *workers) tryPlan(p *plan, race bool, tries int, class string) (*violation, *plan) {
	f := filepath.Join(w.dir, fmt.Sprintf("plan%d.json", time.Now().UnixNano()))
	b, err := json.Marshal(p)
	must(err)
	must(os.WriteFile(f, b, 0o644))
	defer os.Remove(f)
	args := []string{`-plan`, f, `-tries`, fmt.Sprint(tries)}
	if class != `` {
		args = append(args, `-class`, class)
	}
	e := w.exec(race, 60*time.Second, args...)
	if e.res == nil {
		if !e.killed && isKnownPanic(e.stderr) {
			return crashViolation(e.stderr), p
		}
		return nil, nil
	}
	if e.res.Violation == nil {
		return nil, nil
	}
	q := &plan{}
	must(json.Unmarshal(e.res.Plan, q))
	var s []sw
	if e.res.Sched != nil {
		must(json.Unmarshal(e.res.Sched, &s))
	}
	q.Cfg.Strategy = replayStrategy
	q.Cfg.Sched = s
	return e.res.Violation, q
}

// report confirms the finding in a fresh process, minimises it, writes the replay file and prints the VIOLATION line.
func (w *workers) report(prop string, seed uint64, f *finding, noMin bool) (int, int) {
	rp := &replay{Property: prop, Seed: seed, Run: f.runIx, Race: f.race, Class: f.v.Class, Detail: f.v.Detail, Repo: w.b.repoHash}
	if f.plan != nil {
		p := &plan{}
		must(json.Unmarshal(f.plan, p))
		orig := p.clone()
		if f.sched != nil {
			var s []sw
			must(json.Unmarshal(f.sched, &s))
			if len(s) > 0 {
				p.Cfg.Strategy = replayStrategy
				p.Cfg.Sched = s
			}
		}
		for _, c := range []*plan{p, orig} {
			if v, q := w.tryPlan(c, f.race, 0, ``); v != nil && v.Class == f.v.Class {
				rp.Plan = q
				rp.Detail = v.Detail
				break
			}
		}
		if rp.Plan != nil && !noMin {
			before := rp.Plan.size()
			w.minimise(rp)
			rp.Original = sizeText(before)
			rp.Minimal = sizeText(rp.Plan.size())
		}
	}
	if rp.Plan == nil {
		// the state that earlier runs of the process left behind matters: replay the runs of the chunk up to this one
		for i := 0; i < 3 && rp.Batch == nil; i++ {
			if v := w.tryBatch(prop, seed, f.race, f.chunkFrom, f.runIx-f.chunkFrom+1); v != nil && v.Class == f.v.Class {
				rp.Batch = &batch{From: f.chunkFrom, N: f.runIx - f.chunkFrom + 1}
				if !noMin {
					// shorten the prefix
					for from := f.runIx; from > f.chunkFrom; from -= 1 + (f.runIx - from) {
						if v := w.tryBatch(prop, seed, f.race, from, f.runIx-from+1); v != nil && v.Class == f.v.Class {
							rp.Batch = &batch{From: from, N: f.runIx - from + 1}
							break
						}
					}
				}
			}
		}
		if rp.Batch == nil {
			fmt.Printf("ERROR: run %d of seed %d reported %s, but neither the plan nor the batch reproduces it: %s\n", f.runIx, seed, f.v.Class, f.v.Detail)
			return 2, 0
		}
	}
	rp.How = `./check.sh replay <this file> rebuilds the simulator from /repo and executes exactly this ` + map[bool]string{true: `plan under exactly this schedule`, false: `sequence of runs`}[rp.Plan != nil]
	must(os.MkdirAll(filepath.Join(w.root, `replays`), 0o755))
	name := filepath.Join(w.root, `replays`, fmt.Sprintf("%s-s%d-r%d.json", prop, seed, f.runIx))
	js, err := json.MarshalIndent(rp, ``, ` `)
	must(err)
	must(os.WriteFile(name, js, 0o644))
	d := rp.Detail
	if len(d) > 1500 {
		d = d[:1500] + `...`
	}
	fmt.Printf("%s: %s\n", rp.Class, d)
	if rp.Plan != nil {
		for i, t := range rp.Plan.Threads {
			b, _ := json.Marshal(t)
			s := string(b)
			if len(s) > 800 {
				s = s[:800] + `...`
			}
			fmt.Printf("  thread %d: %s\n", i, s)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
	return 1, 1
}

func sizeText(n int) string {
	return fmt.Sprintf("%d operations, %d switches", n/10000, n%10000)
}

func (w *workers) tryBatch(prop string, seed uint64, race bool, from, n int) *violation {
	e := w.exec(race, 240*time.Second, `-prop`, prop, `-seed`, fmt.Sprint(seed), `-from`, fmt.Sprint(from), `-n`, fmt.Sprint(n))
	if e.res == nil {
		if !e.killed && isKnownPanic(e.stderr) {
			return crashViolation(e.stderr)
		}
		return nil
	}
	return e.res.Violation
}

func classMatches(a, b string) bool {
	if a == b {
		return true
	}
	// any other race is as good
	return strings.HasPrefix(a, `race:`) && strings.HasPrefix(b, `race:`) && false
}

func (w *workers) minimise(rp *replay) {
	deadline := time.Now().Add(40 * time.Second)
	best := rp.Plan
	accept := func(q *plan, tries int) bool {
		if time.Now().After(deadline) {
			return false
		}
		rp.Tests++
		v, r := w.tryPlan(q, rp.Race, tries, rp.Class)
		if v == nil || !classMatches(v.Class, rp.Class) {
			return false
		}
		// it must hold on its own, with the recorded schedule
		if v2, r2 := w.tryPlan(r, rp.Race, 0, ``); v2 == nil || !classMatches(v2.Class, rp.Class) {
			return false
		} else {
			best, rp.Detail = r2, v2.Detail
		}
		return true
	}
	const tries = 60
	// drop whole threads (they stay as empty threads, so that thread numbers keep their meaning)
	for i := len(best.Threads) - 1; i >= 0; i-- {
		if len(best.Threads[i]) == 0 {
			continue
		}
		q := best.clone()
		q.Threads[i] = []op{}
		accept(q, tries)
	}
	// drop operations: halves, quarters, ..., single ones
	for changed := true; changed; {
		changed = false
		for i := range best.Threads {
			for size := (len(best.Threads[i]) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(best.Threads[i]); {
					q := best.clone()
					end := at + size
					if end > len(q.Threads[i]) {
						end = len(q.Threads[i])
					}
					q.Threads[i] = append(append([]op{}, q.Threads[i][:at]...), q.Threads[i][end:]...)
					if accept(q, tries) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
		if time.Now().After(deadline) {
			break
		}
	}
	// a schedule without preemptions
	if len(best.Cfg.Sched) > 2 {
		q := best.clone()
		q.Cfg.Sched = q.Cfg.Sched[:1]
		accept(q, 0)
	}
	// drop switches
	for size := len(best.Cfg.Sched) / 2; size >= 1; size /= 2 {
		for at := 1; at < len(best.Cfg.Sched); {
			q := best.clone()
			end := at + size
			if end > len(q.Cfg.Sched) {
				end = len(q.Cfg.Sched)
			}
			n := len(q.Cfg.Sched)
			q.Cfg.Sched = append(append([]sw{}, q.Cfg.Sched[:at]...), q.Cfg.Sched[end:]...)
			if !accept(q, 0) || len(best.Cfg.Sched) >= n {
				at += size
			}
		}
		if time.Now().After(deadline) {
			break
		}
	}
	rp.Plan = best
}

func replayFile(file string) int {
	bs, err := os.ReadFile(file)
	must(err)
	rp := &replay{}
	must(json.Unmarshal(bs, rp))
	w := &workers{b: makeBuild(root, repo), root: root}
	w.init()
	defer w.cleanup()
	var v *violation
	if rp.Plan != nil {
		v, _ = w.tryPlan(rp.Plan, rp.Race, 0, ``)
	} else {
		v = w.tryBatch(rp.Property, rp.Seed, rp.Race, rp.Batch.From, rp.Batch.N)
	}
	if v == nil {
		fmt.Printf("the replay of %s shows no violation (recorded on tree %s, this is tree %s)\n", file, rp.Repo, w.b.repoHash)
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}
