package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// C01 and C02: frozen values, used by several threads

var frozenOpts = genOpts{strct: true, types: true, fns: true, named: true, rx: true, errs: true, sens: true, entry: true}

// genFrozenPool draws the shared values; their kinds are spread evenly
func genFrozenPool(r *Rand, n int, o genOpts) []*Node {
	vs := make([]*Node, 0, n)
	for len(vs) < n {
		d := r.rng(1, 3)
		var v *Node
		switch r.n(10) {
		case 0, 1, 2:
			v = genArr(r, d, o)
		case 3, 4, 5:
			v = genMap(r, d, o)
		case 6:
			v = genStruct(r, 2)
		case 7:
			v = &Node{K: `me`, C: []*Node{genKey(r, o), genNode(r, d-1, o)}}
		default:
			v = genNode(r, d, o)
		}
		if v.size() > 80 {
			continue
		}
		vs = append(vs, v)
	}
	return vs
}

// a receiver is coded as 2*index (shared) or 2*index+1 (local)
func genOpsFor(r *Rand, vals []*Node, n int, muts bool, localBias int) []Op {
	ops := make([]Op, n)
	for i := range ops {
		ix := r.n(len(vals))
		var o *vop
		rcv := 2 * ix
		if r.n(100) < localBias {
			rcv = 2*r.n(1000) + 1
			o = vops[r.n(len(vops))]
			if o.mut && !muts {
				o = vopByName[`String`]
			}
		} else {
			o = drawFor(r, kindsOfNode(vals[ix]), muts)
		}
		ops[i] = Op{K: o.name, A: []int{rcv, r.n(1000), r.n(1000), r.n(1000), r.n(1000)}}
	}
	return ops
}

// pick finds the receiver and the operation
func (e *env) pick(o *Op, local []dgo.Value, muts bool) (*vop, dgo.Value) {
	var v dgo.Value
	rcv := o.A[0]
	if rcv%2 == 0 || len(local) == 0 {
		v = e.shared[rcv/2%len(e.shared)]
	} else {
		// favour recent ones
		k := rcv / 2 % len(local)
		v = local[len(local)-1-k]
	}
	return opFor(o.K, o.A[4], v, muts), v
}

func opFor(name string, sel int, v dgo.Value, muts bool) *vop {
	k := kindOf(v)
	op := vopByName[name]
	if op.kind&k != 0 && (muts || !op.mut) {
		return op
	}
	for i := 0; i < len(vops); i++ {
		c := vops[(sel*31+i)%len(vops)]
		if c.kind&k != 0 && (muts || !c.mut) {
			return c
		}
	}
	return vopByName[`String`]
}

type regd struct {
	v    dgo.Value
	fp   string
	what string
}

func isFrozen(v dgo.Value) bool {
	if f, ok := v.(dgo.Freezable); ok {
		return f.Frozen()
	}
	return false
}

func hasNative(v dgo.Value) bool {
	return strings.Contains(dump(v, 0), `native(`) || strings.Contains(dump(v, 0), `func(`)
}

// fpOf is the fingerprint of a value, with hash codes unless they depend on addresses
func fpOf(v dgo.Value) string { return fingerprint(v, !hasNative(v)) }

func size(v dgo.Value) int { return len(dump(v, 0)) }

func init() {
	register(&Scenario{
		Prop: `C01`, Race: 15, Chunk: 100, FreshPct: 2, Quick: 30000, Thorough: 400000,
		Rule: `Each run draws 3-6 frozen values (built by freezing, frozen copies, constructors, derivation from frozen values), and 1-3 threads with 6-18 operations each out of about 110 kinds, on these values and on whatever earlier operations of the thread returned; Go slices, bytes and pointers that are handed out are overwritten, mutable results are modified. Every value that reports to be frozen is fingerprinted (content, order, flags, lookups, string, hash code) when it appears and again after further operations and at the end.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives)`, `goroutine scheduling`, `iteration order of Go maps`},
		Gen: func(r *Rand, p *Plan) {
			p.Vals = genFrozenPool(r, r.rng(3, 6), frozenOpts)
			nt := []int{1, 1, 2, 3}[r.n(4)]
			for t := 0; t < nt; t++ {
				p.Threads = append(p.Threads, genOpsFor(r, p.Vals, r.rng(6, 18), true, 55))
			}
			p.Cfg = drawSched(r, 40000*nt)
			p.Cfg.MaxSteps = 12000000
		},
		Exec: execC01,
	})
	register(&Scenario{
		Prop: `C02`, Race: 75, Chunk: 60, FreshPct: 6, Quick: 16000, Thorough: 250000,
		Rule: `Each run draws 1-4 frozen values and 2-4 threads with 1-10 operations each that do not mutate (about 90 kinds), on the shared values and on what was obtained from them; in half of the runs all threads use the same receiver or the same operations. The threads run under the drawn schedule, in the race build with the race detector seeing only the happens-before edges of the program; every result is compared with that of the same thread running alone on an equal set of values.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives)`, `goroutine scheduling`, `sync.Pool of the standard library (never reuses)`, `iteration order of Go maps`},
		Gen: genC02, Exec: execC02,
	})
}

func execC01(p *Plan, x *X) {
	shared := make([]dgo.Value, len(p.Vals))
	reg := make([][]regd, len(p.Threads)+1)
	ok := x.solo(`building frozen values`, func() {
		for i, n := range p.Vals {
			shared[i] = n.build(true)
			if isFrozen(shared[i]) || !isFreezable(shared[i]) {
				reg[0] = append(reg[0], regd{shared[i], fpOf(shared[i]), fmt.Sprintf("value %d", i)})
			}
		}
	})
	if !ok {
		return
	}
	verify := func(rs []regd, by string) bool {
		for _, r := range rs {
			if fp := fpOf(r.v); fp != r.fp {
				x.fail(`frozen-value-changed`, "%s, frozen, was %s and is %s (seen %s)", r.what, r.fp, fp, by)
				return false
			}
		}
		return true
	}
	fns := make([]func(), len(p.Threads))
	for ti := range p.Threads {
		ti := ti
		fns[ti] = func() {
			e := &env{shared: shared, mayMutate: true}
			var local []dgo.Value
			// entries obtained from a mutable map are views of that map and follow it
			views := map[dgo.Value]bool{}
			// arguments of its own, mutable
			e.priv = []dgo.Value{vf.MutableValues(`p`, vf.MutableValues(1, 2)), vf.MutableMap(), vf.String(`str`), vf.Binary([]byte{1, 2, 3}, false), vf.Map(`k`, vf.Values(1))}
			e.priv[1].(dgo.Map).Put(`mutable`, vf.MutableValues(3))
			for oi := range p.Threads[ti] {
				o := &p.Threads[ti][oi]
				op, v := e.pick(o, local, true)
				frozen := isFrozen(v)
				n := 0
				switch c := v.(type) {
				case dgo.Array:
					n = c.Len()
				case dgo.Map:
					n = c.Len()
				}
				what := fmt.Sprintf("thread %d operation %d (%s)", ti, oi, op.name)
				before := len(local)
				var r ret
				pan := try(func() { r = op.fn(e, v, o.A[1:]) })
				if pan != nil {
					x.probe(`panic`)
				}
				if op.mut && frozen && n > 0 && pan == nil {
					x.fail(`frozen-mutator-accepted`, "%s on the frozen value %s did not panic", what, dump(v, dFrozen))
					return
				}
				for ri, rv := range r.vs {
					if rv == nil {
						continue
					}
					if op.keeps && frozen && pan == nil && isFreezable(rv) && !isFrozen(rv) {
						x.fail(`derived-not-frozen`, "%s on the frozen value %s returned the mutable %s", what, dump(v, dFrozen), dump(rv, dFrozen))
						return
					}
					if size(rv) > 1500 {
						continue
					}
					if isView(rv) && (views[v] || isMutableMap(v)) {
						views[rv] = true
					} else if isFrozen(rv) {
						reg[ti+1] = append(reg[ti+1], regd{rv, fpOf(rv), fmt.Sprintf("result %d of %s", ri, what)})
					} else if a := o.A[4] % 3; a == 0 {
						meddle(rv, o.A[4])
					}
					local = append(local, rv)
				}
				if len(local) > 40 {
					local = local[len(local)-40:]
				}
				_ = before
				// the mutable arguments change after use
				if o.A[4]%4 == 1 {
					meddle(e.priv[o.A[4]/4%2], o.A[4])
					meddle(e.priv[3], o.A[4])
				}
				if o.A[4]%5 == 0 {
					if !verify(reg[ti+1], what) {
						return
					}
				}
			}
			verify(reg[ti+1], `at the end of the thread`)
		}
	}
	if !x.run(`operations on frozen values`, fns...) {
		return
	}
	x.solo(`final check`, func() {
		for i := range reg {
			for _, r := range reg[i] {
				x.note(r.fp)
			}
			if !verify(reg[i], `at the end`) {
				return
			}
		}
	})
}

func isView(v dgo.Value) bool {
	switch v.(type) {
	case dgo.MapEntry, dgo.Sensitive:
		return true
	}
	return false
}

func isMutableMap(v dgo.Value) bool {
	m, ok := v.(dgo.Map)
	return ok && !m.Frozen()
}

func isFreezable(v dgo.Value) bool {
	switch v.(type) {
	case dgo.Native, dgo.Type:
		return false
	}
	_, ok := v.(dgo.Freezable)
	return ok
}

// meddle modifies a mutable value, at depth, in every way it can
func meddle(v dgo.Value, sel int) {
	if v == nil || isFrozen(v) {
		return
	}
	_ = try(func() {
		switch c := v.(type) {
		case dgo.Array:
			c.Each(func(ev dgo.Value) { meddle(ev, sel/2) })
			switch mix(uint64(sel), 9) % 9 {
			case 5: // the slice of a mutable array is the array's own
				s := c.GoSlice()
				for i := range s {
					s[i] = vf.Integer(int64(-1000 - i))
				}
				_ = append(s, vf.Integer(-2000))
			case 6:
				var s []dgo.Value
				c.ReflectTo(reflect.ValueOf(&s).Elem())
				for i := range s {
					s[i] = vf.Integer(int64(-1000 - i))
				}
			case 7:
				c.AddAll(vf.Values(`m1`, `m2`))
				c.RemoveValue(`m1`)
			case 8:
				for c.Len() > 0 {
					c.Pop()
				}
				c.Add(`m1`)
			case 0:
				c.Add(`meddled`)
			case 1:
				if c.Len() > 0 {
					c.Set(0, `meddled`)
				} else {
					c.Add(`meddled`)
				}
			case 2:
				if c.Len() > 0 {
					c.Remove(sel / 5 % c.Len())
				}
			case 3:
				c.Insert(0, `meddled`)
			default:
				c.AddValues(`m1`, `m2`, `m3`, `m4`, `m5`)
				c.Pop()
			}
		case dgo.Struct:
			c.Put(`X`, 31337)
		case dgo.Map:
			c.EachEntry(func(me dgo.MapEntry) { meddle(me.Value(), sel/2) })
			switch mix(uint64(sel), 5) % 5 {
			case 3:
				c.PutAll(vf.Map(`m1`, 1, `m2`, 2))
				if c.Len() > 2 {
					c.PutAll(vf.Map(keyOf(c, sel), `meddled`))
				}
			case 4:
				c.RemoveAll(c.Keys())
				c.Put(`again`, sel)
			case 0:
				c.Put(`meddled`, sel)
			case 1:
				if c.Len() > 0 {
					c.Put(keyOf(c, sel), `meddled`)
				} else {
					c.Put(`first`, 1)
				}
			default:
				if c.Len() > 0 {
					c.Remove(keyOf(c, sel))
				}
				c.Put(`again`, sel)
			}
		case dgo.MapEntry:
			meddle(c.Value(), sel)
		case dgo.Binary:
			bs := c.GoBytes()
			for i := range bs {
				bs[i] ^= 0x55
			}
		case dgo.Sensitive:
			meddle(c.Unwrap(), sel)
		}
	})
}

func genC02(r *Rand, p *Plan) {
	p.Vals = genFrozenPool(r, r.rng(1, 4), frozenOpts)
	nt := r.rng(2, 4)
	n := r.rng(1, 10)
	mode := r.n(6)
	var same []Op
	for t := 0; t < nt; t++ {
		ops := genOpsFor(r, p.Vals, n, false, 30)
		switch {
		case mode <= 1: // the same operations in all threads
			if t == 0 {
				same = ops
			} else {
				ops = append([]Op{}, same...)
			}
		case mode == 2: // the same receiver
			vs := p.Vals[:1]
			ops = genOpsFor(r, vs, n, false, 15)
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 60*n*nt)
}

type opRes struct {
	what string
	res  string
}

func runValueOps(ops []Op, shared []dgo.Value) []opRes {
	e := &env{shared: shared}
	e.priv = []dgo.Value{vf.Values(`p`, vf.Values(1, 2)), vf.MutableMap(), vf.String(`str`), vf.Binary([]byte{1, 2, 3}, true), vf.Map(`k`, vf.Values(1)), vf.MutableValues(1, `x`)}
	e.priv[1].(dgo.Map).Put(`mutable`, vf.MutableValues(3))
	var local []dgo.Value
	rs := make([]opRes, 0, len(ops))
	for i := range ops {
		o := &ops[i]
		op, v := e.pick(o, local, false)
		var r ret
		s := protect(func() string {
			r = op.fn(e, v, o.A[1:])
			return r.show()
		})
		for _, rv := range r.vs {
			if rv != nil && len(s) < 3000 {
				local = append(local, rv)
			}
		}
		rs = append(rs, opRes{op.name, s})
	}
	return rs
}

func execC02(p *Plan, x *X) {
	nt := len(p.Threads)
	conc := make([][]opRes, nt)
	mk := func() []dgo.Value {
		vs := make([]dgo.Value, len(p.Vals))
		for i, n := range p.Vals {
			vs[i] = n.build(true)
		}
		return vs
	}
	var pool []dgo.Value
	if !x.solo(`building frozen values`, func() { pool = mk() }) {
		return
	}
	fns := make([]func(), nt)
	for t := range fns {
		t := t
		fns[t] = func() { conc[t] = runValueOps(p.Threads[t], pool) }
	}
	if !x.run(`concurrent use of frozen values`, fns...) {
		return
	}
	compareWithSolo(x, conc, func(t int) []opRes { return runValueOps(p.Threads[t], mk()) })
}

// compareWithSolo compares what the threads saw with what they see when they run alone. A result that is not the same in two
// runs alone says nothing.
func compareWithSolo(x *X, conc [][]opRes, alone func(t int) []opRes) {
	for t := range conc {
		var a, b []opRes
		if !x.solo(`the same operations alone`, func() { a = alone(t) }) {
			return
		}
		for i := range conc[t] {
			x.note(conc[t][i].res)
			if i >= len(a) || conc[t][i] == a[i] {
				continue
			}
			if b == nil && !x.solo(`the same operations alone`, func() { b = alone(t) }) {
				return
			}
			if i < len(b) && a[i] == b[i] {
				x.fail(`result-differs:`+conc[t][i].what, "thread %d operation %d (%s) gave %s, alone it gives %s", t, i, conc[t][i].what, conc[t][i].res, a[i].res)
				return
			}
			x.probe(`unstable-result-skipped`)
			break
		}
	}
}
