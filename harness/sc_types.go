package main

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
)

// C03: types shared by several threads, also while types are parsed

func genC03(r *Rand, p *Plan) {
	nv := r.n(3)
	for i := 0; i < nv; i++ {
		p.Vals = append(p.Vals, genFrozenPool(r, 1, genOpts{types: true, fns: true, named: true, rx: true, errs: true, sens: true})...)
	}
	n := r.rng(1, 5)
	for i := 0; i < n; i++ {
		p.Texts = append(p.Texts, genType(r, 2))
	}
	nt := r.rng(2, 4)
	no := r.rng(1, 9)
	mode := r.n(6)
	var same []Op
	for t := 0; t < nt; t++ {
		ops := genTypeOps(r, no, 30)
		switch mode {
		case 0, 1: // all threads do the same
			if t == 0 {
				same = ops
			}
			ops = append([]Op{}, same...)
		case 2: // one parses, the others use
			ps := []string{`parse`, `parseText`, `parseValue`, `parsePcore`, `parseRec`, `parseAlias`, `parseOwn`, `t.collect`, `t.StructFromMap`}
			if t == 0 {
				for i := range ops {
					ops[i].K = ps[r.n(len(ps))]
				}
			}
		case 3: // one receiver
			for i := range ops {
				if ops[i].A[0]%2 == 0 {
					ops[i].A[0] = 0
				}
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 150*no*nt)
	p.Cfg.MaxSteps = 2000000
}

// buildTypes builds the shared types; a description that cannot be built stands for the any type
func buildTypes(p *Plan, vals []dgo.Value) []dgo.Type {
	ts := make([]dgo.Type, 0, len(p.Texts)+1)
	for _, d := range p.Texts {
		d := d
		if pan := try(func() { ts = append(ts, buildType(d, vals)) }); pan != nil {
			ts = append(ts, typDefaults[8])
		}
	}
	if len(ts) == 0 {
		ts = append(ts, typDefaults[8])
	}
	return ts
}

func execC03(p *Plan, x *X) {
	nt := len(p.Threads)
	conc := make([][]opRes, nt)
	mk := func() (ts []dgo.Type, vs []dgo.Value) {
		vs = make([]dgo.Value, len(p.Vals))
		for i, n := range p.Vals {
			vs[i] = n.build(true)
		}
		return buildTypes(p, vs), vs
	}
	envOf := func(t int, ts []dgo.Type, vs []dgo.Value) *tenv {
		return &tenv{env: env{shared: vs}, types: ts, tag: fmt.Sprintf("%c", 'a'+t), num: t, x: x}
	}
	defer resetDefaultAliases()
	var pool []dgo.Type
	var vals []dgo.Value
	var before []string
	if !x.solo(`building types`, func() { pool, vals = mk() }) {
		return
	}
	fns := make([]func(), nt)
	for t := range fns {
		t := t
		e := envOf(t, pool, vals)
		fns[t] = func() { conc[t] = runTypeOps(e, p.Threads[t]) }
	}
	// Some operations never end for types that refer to themselves, also when they are alone (a Go type cannot contain
	// itself, for example). That is not what this property is about.
	x.lenient = true
	if !x.run(`concurrent use of types`, fns...) {
		return
	}
	if x.limited {
		x.limited = false
		all := p.Cfg.MaxSteps
		p.Cfg.MaxSteps = all / uint32(2*nt)
		for t := range fns {
			t := t
			resetDefaultAliases()
			x.solo(`the same operations alone`, func() {
				ts, vs := mk()
				runTypeOps(envOf(t, ts, vs), p.Threads[t])
			})
		}
		p.Cfg.MaxSteps = all
		if x.limited {
			x.probe(`unsupported-recursion-skipped`)
		} else {
			x.fail(`no-progress`, `concurrent use of types: not finished after %d simulated steps, each thread alone finishes after less than %d`, all, all/uint32(2*nt))
		}
		x.aborted = true
		return
	}
	x.lenient = false
	// the shared types are what they were: the same as those of an equal pool
	show := func(ts []dgo.Type) (s []string) {
		for _, t := range ts {
			t := t
			s = append(s, protect(func() string { return fmt.Sprint(walk(t, 5), t.String(), t.HashCode()) }))
		}
		return
	}
	resetDefaultAliases()
	var after []string
	if !x.solo(`using the types afterwards`, func() {
		after = show(pool)
		ts, _ := mk()
		before = show(ts)
	}) {
		return
	}
	for i := range after {
		if after[i] != before[i] && !hasAddr(p.Vals) {
			x.fail(`type-changed`, "the type %s is afterwards %s, one made anew is %s", p.Texts[i], after[i], before[i])
			return
		}
	}
	compareWithSolo(x, conc, func(t int) []opRes {
		resetDefaultAliases()
		ts, vs := mk()
		return runTypeOps(envOf(t, ts, vs), p.Threads[t])
	})
}

// hasAddr is true when hash codes depend on addresses
func hasAddr(ns []*Node) bool {
	for _, n := range ns {
		if n.has(`fn`) || n.has(`nat`) {
			return true
		}
	}
	return false
}

func init() {
	register(&Scenario{
		Prop: `C03`, Race: 70, Chunk: 40, FreshPct: 15, Quick: 14000, Thorough: 200000,
		Rule: `Each run draws 1-5 shared types (parsed in both syntaxes, self referencing, package defaults, reflected from Go types, named, types of values, composed) and 2-4 threads with 1-9 operations each out of about 50 (all type methods, constructing, reflecting, creating values, printing with and without alias maps, parsing expressions, values and aliases in both syntaxes, failing parses). The threads run under the drawn schedule, 70 % of them in the race build, 15 % in a process of their own so that first uses of lazily created state occur inside of the threads; every result is compared with that of the same thread alone on an equal set of types.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives)`, `goroutine scheduling`, `iteration order of Go maps`},
		Gen: genC03, Exec: execC03,
	})
}
