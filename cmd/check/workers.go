package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type workers struct {
	b    *build
	root string
	dir  string
	par  int
	seq  int64
}

func (w *workers) init() {
	var err error
	w.dir, err = os.MkdirTemp(filepath.Join(w.root, `.build`), `run-`)
	must(err)
	w.par = runtime.NumCPU()
	if w.par > 8 {
		w.par = 8
	}
}

func (w *workers) cleanup() { _ = os.RemoveAll(w.dir) }

func (w *workers) plainOutput(args ...string) ([]byte, error) {
	return exec.Command(w.b.plain, args...).Output()
}

type exit struct {
	res    *result
	stderr string
	killed bool
	at     int // run in progress when the process died
}

// exec runs one worker process
func (w *workers) exec(race bool, timeout time.Duration, args ...string) *exit {
	id := atomic.AddInt64(&w.seq, 1)
	out := filepath.Join(w.dir, fmt.Sprintf("r%d", id))
	bin := w.b.plain
	env := []string{`GOMAXPROCS=1`, `GOTRACEBACK=single`, `HOME=/nonexistent`, `PATH=/usr/bin:/bin`, `LANG=C`, `TZ=UTC`}
	log := filepath.Join(w.dir, fmt.Sprintf("race%d", id))
	if race {
		bin = w.b.race
		env = append(env, `GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 log_path=`+log, `SIM_RACELOG=`+log)
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, append(args, `-out`, out, `-known`, filepath.Join(w.root, `known_findings.json`))...)
	c.Env = env
	c.Dir = w.dir
	var errb bytes.Buffer
	c.Stderr = &limited{b: &errb, n: 1 << 16}
	err := c.Run()
	e := &exit{at: -1}
	defer func() {
		fs, _ := filepath.Glob(log + `.*`)
		for _, f := range append(fs, out, out+`.progress`, out+`.tmp`) {
			_ = os.Remove(f)
		}
	}()
	if bs, rerr := os.ReadFile(out); rerr == nil && err == nil {
		e.res = &result{}
		must(json.Unmarshal(bs, e.res))
		return e
	}
	e.killed = ctx.Err() != nil
	e.stderr = errb.String()
	if err != nil {
		e.stderr += "\n" + err.Error()
	}
	if bs, rerr := os.ReadFile(out + `.progress`); rerr == nil {
		if n, perr := strconv.Atoi(strings.TrimSpace(string(bs))); perr == nil {
			e.at = n
		}
	}
	return e
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if m := l.n - l.b.Len(); m > 0 {
		if m > len(p) {
			m = len(p)
		}
		l.b.Write(p[:m])
	}
	return len(p), nil
}

// finding is a violation as it was found by the search
type finding struct {
	runIx     int
	chunkFrom int
	race      bool
	v         *violation
	plan      json.RawMessage
	sched     json.RawMessage
	crash     bool
}

var hexRx = regexp.MustCompile(`0x[0-9a-f]+`)

func crashViolation(stderr string) *violation {
	class := `crash`
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, `panic: `) || strings.HasPrefix(l, `fatal error: `) || strings.Contains(l, `stack exceeds`) {
			class = `crash:` + hexRx.ReplaceAllString(l, `0x`)
			if len(class) > 120 {
				class = class[:120]
			}
			break
		}
	}
	if len(stderr) > 3000 {
		stderr = stderr[:3000]
	}
	return &violation{Class: class, Detail: `the process died: ` + stderr}
}

// chunk runs a chunk of runs, in as many processes as it takes, and returns the first violation
func (w *workers) chunk(prop string, seed uint64, c chunk, t *totals) *finding {
	from := c.from
	for from < c.from+c.n {
		n := c.from + c.n - from
		e := w.exec(c.race, 240*time.Second, `-prop`, prop, `-seed`, fmt.Sprint(seed), `-from`, fmt.Sprint(from), `-n`, fmt.Sprint(n))
		t.Lock()
		t.processes++
		t.Unlock()
		if e.res == nil {
			if e.killed {
				t.Lock()
				t.watchdog = append(t.watchdog, fmt.Sprintf("worker was stopped by the watchdog in run %d (chunk from %d)", e.at, from))
				t.Unlock()
				return nil
			}
			if e.at >= 0 && isKnownPanic(e.stderr) {
				return &finding{runIx: e.at, chunkFrom: from, race: c.race, v: crashViolation(e.stderr), crash: true}
			}
			t.Lock()
			t.watchdog = append(t.watchdog, `worker failed: `+e.stderr)
			t.Unlock()
			return nil
		}
		r := e.res
		t.add(r)
		if r.Violation != nil {
			return &finding{runIx: r.Next - 1, chunkFrom: from, race: c.race, v: r.Violation, plan: r.Plan, sched: r.Sched}
		}
		if r.Next <= from {
			return nil
		}
		from = r.Next
	}
	return nil
}

func (t *totals) add(r *result) {
	t.Lock()
	defer t.Unlock()
	t.runs += r.Runs
	if r.Race {
		t.raceRuns += r.Runs
	}
	t.steps += r.Steps
	t.preempt += r.Preempt
	if r.MaxPct > t.maxPct {
		t.maxPct = r.MaxPct
	}
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	for k, v := range r.Known {
		t.known[k] += v
	}
	for _, s := range r.Sigs {
		t.sigs[s] = true
	}
	for _, s := range r.Inters {
		t.inters[s] = true
	}
	for _, s := range r.Sites {
		t.sites[s] = true
	}
	if len(t.samples) < 3 {
		t.samples = append(t.samples, r.Samples...)
	}
	if r.Aborted {
		t.aborted++
	}
}

// determinism runs the same seeds twice, and in both builds, and compares everything that was observed
func (w *workers) determinism(prop string, seed uint64, sc *info) string {
	n := sc.Chunk
	if n > 40 {
		n = 40
	}
	var d [4]string
	for i := range d {
		e := w.exec(i >= 2, 240*time.Second, `-prop`, prop, `-seed`, fmt.Sprint(seed), `-from`, `0`, `-n`, fmt.Sprint(n))
		if e.res == nil {
			return `not available: ` + e.stderr
		}
		d[i] = fmt.Sprintf("%d/%d/%d/%x", e.res.Runs, e.res.Steps, e.res.Preempt, e.res.Digest)
	}
	if d[0] != d[1] || d[2] != d[3] {
		return fmt.Sprintf("FAILED: the same %d seeds gave different executions: %v", n, d)
	}
	if d[0] != d[2] {
		return fmt.Sprintf("ok: %d seeds executed twice in each build with identical steps, switches and results; across the two builds results differ where hash codes of Go functions, which are code addresses, matter: %v", n, d)
	}
	return fmt.Sprintf("ok: %d seeds executed four times (twice in each build) with identical steps, switches and results", n)
}
