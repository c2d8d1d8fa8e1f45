package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C17: callbacks that fail

const (
	pfError = iota
	pfString
	pfStruct
	pfRuntime
	pfErrValue // an error that is a dgo.Value
	pfInt
	pfKinds
)

var pfNames = []string{`callback-panics-with-error`, `callback-panics-with-string`, `callback-panics-with-struct`, `callback-runtime-error`, `callback-panics-with-error-value`, `callback-panics-with-int`}

type cbErr struct{ at int }

func (e *cbErr) Error() string { return fmt.Sprintf(`injected: callback failed in call %d`, e.at) }

type cbStruct struct {
	at int
	p  *int
}

// caller is what a callback does: it notes its arguments and returns what the pattern says, or fails
type caller struct {
	x      *X
	log    []string
	n      int
	at     int
	kind   int
	pat    int
	slow   int
	inj    interface{}
	after  int
	nested func()
	off    bool
}

// call notes a call and returns a number that depends on the pattern and the number of the call
func (c *caller) call(what string) int {
	if c.off {
		return 0
	}
	if c.inj != nil {
		c.after++
	}
	c.n++
	c.log = append(c.log, what)
	if c.slow > 0 {
		linger(c.slow)
	}
	if c.nested != nil {
		f := c.nested
		c.nested = nil
		f()
		c.nested = f
	}
	if c.n == c.at {
		c.x.fault(pfNames[c.kind])
		switch c.kind {
		case pfString:
			c.inj = fmt.Sprintf(`injected: callback failed in call %d`, c.at)
		case pfStruct:
			c.inj = cbStruct{c.at, new(int)}
		case pfRuntime:
			c.inj = `runtime error: index out of range`
			var e []int
			_ = e[c.n]
		case pfErrValue:
			c.inj = vf.Value(errors.New(`injected: a value`))
		case pfInt:
			c.inj = 4711
		default:
			c.inj = &cbErr{c.at}
		}
		panic(c.inj)
	}
	return int(mix(uint64(c.pat), uint64(c.n)) >> 33)
}

// same tells if the panic is the one that the callback raised
func (c *caller) same(pan interface{}) bool {
	if c.kind == pfRuntime {
		e, ok := pan.(error)
		return ok && strings.HasPrefix(e.Error(), c.inj.(string))
	}
	return reflect.TypeOf(pan) == reflect.TypeOf(c.inj) && pan == c.inj
}

// simCb is a value whose methods are callbacks of the thread that uses it
type simCb struct{ n int64 }

var cbCallers [rt.MaxThreads + 1]*caller

func cbOf() *caller {
	s := rt.Cur()
	if s < 0 {
		s = rt.MaxThreads
	}
	return cbCallers[s]
}

func setCb(c *caller) {
	s := rt.Cur()
	if s < 0 {
		s = rt.MaxThreads
	}
	cbCallers[s] = c
}

func cbCall(format string, args ...interface{}) {
	if c := cbOf(); c != nil {
		c.call(fmt.Sprintf(format, args...))
	}
}

var simCbType = tf.NewNamed(`simCb`,
	func(v dgo.Value) dgo.Value {
		cbCall("construct %s", dump(v, 0))
		if a, ok := v.(dgo.Array); ok {
			v = a.Get(0)
		}
		return &simCb{v.(dgo.Integer).GoInt()}
	},
	func(v dgo.Value) dgo.Value {
		n := v.(*simCb).n
		cbCall("extract %d", n)
		return vf.Integer(n)
	},
	reflect.TypeOf(&simCb{}), nil,
	func(self dgo.NamedType, t dgo.Type) bool {
		cbCall("assignable %s", t.String())
		if nt, ok := t.(dgo.NamedType); ok {
			return nt.Name() == `simCb`
		}
		return false
	})

func (p *simCb) String() string { return fmt.Sprintf(`simCb(%d)`, p.n) }
func (p *simCb) Type() dgo.Type { return tf.ExactNamed(simCbType, p) }
func (p *simCb) Equals(o interface{}) bool {
	cbCall("equals %d", p.n)
	op, ok := o.(*simCb)
	return ok && p.n == op.n
}
func (p *simCb) HashCode() int {
	cbCall("hash %d", p.n)
	return int(p.n * 41)
}
func (p *simCb) CompareTo(o interface{}) (int, bool) {
	cbCall("compare %d", p.n)
	switch o := o.(type) {
	case *simCb:
		return int(p.n - o.n), true
	}
	return 1, true
}

// cbIter is an iterable whose Each calls back
type cbIter struct {
	a dgo.Array
	c *caller
}

func (i *cbIter) Each(f dgo.Consumer) {
	i.a.Each(func(v dgo.Value) {
		i.c.call(dump(v, 0))
		f(v)
	})
}
func (i *cbIter) Len() int                  { return i.a.Len() }
func (i *cbIter) Freeze()                   { i.a.Freeze() }
func (i *cbIter) Frozen() bool              { return i.a.Frozen() }
func (i *cbIter) FrozenCopy() dgo.Value     { return &cbIter{i.a.FrozenCopy().(dgo.Array), i.c} }
func (i *cbIter) ThawedCopy() dgo.Value     { return &cbIter{i.a.ThawedCopy().(dgo.Array), i.c} }
func (i *cbIter) String() string            { return i.a.String() }
func (i *cbIter) Type() dgo.Type            { return i.a.Type() }
func (i *cbIter) Equals(o interface{}) bool { return i == o }
func (i *cbIter) HashCode() int             { return i.a.HashCode() }

type cbOp struct {
	name string
	kind int
	// elems lists what the calls are expected to be for, in order; nil when the order is up to the implementation
	elems func(v dgo.Value) []string
	// all: without a failure there is a call for each element
	all bool
	fn  func(c *caller, v dgo.Value, a int) string
}

var cbOps []*cbOp
var cbOpByName = map[string]*cbOp{}

func cbop(name string, kind int, elems func(v dgo.Value) []string, all bool, fn func(c *caller, v dgo.Value, a int) string) {
	o := &cbOp{name: name, kind: kind, elems: elems, all: all, fn: fn}
	cbOps = append(cbOps, o)
	cbOpByName[name] = o
}

func arrElems(v dgo.Value) []string {
	a := v.(dgo.Array)
	s := make([]string, a.Len())
	for i := range s {
		s[i] = dump(a.Get(i), 0)
	}
	return s
}

func arrIndexed(v dgo.Value) []string {
	s := arrElems(v)
	for i := range s {
		s[i] = fmt.Sprintf("%d:%s", i, s[i])
	}
	return s
}

func mapKeys(v dgo.Value) []string { return arrElems(v.(dgo.Map).Keys()) }

func mapValues(v dgo.Value) []string {
	m := v.(dgo.Map)
	ks := m.Keys()
	s := make([]string, ks.Len())
	for i := range s {
		s[i] = dump(m.Get(ks.Get(i)), 0)
	}
	return s
}

func mapEntries(v dgo.Value) []string {
	k, e := mapKeys(v), mapValues(v)
	for i := range k {
		k[i] = `<` + k[i] + `: ` + e[i] + `>`
	}
	return k
}

var cbStructType = tf.ParseType(`{a:int,b:string,c?:[]int,d:{x:int}}`).(dgo.StructMapType)

func init() {
	w := func(v dgo.Value) string { return dump(v, 0) }
	pre := func(c *caller) dgo.Predicate { return func(v dgo.Value) bool { return c.call(w(v))%3 == 0 } }
	npre := func(c *caller) dgo.Predicate { return func(v dgo.Value) bool { return c.call(w(v))%4 != 0 } }
	epre := func(c *caller) dgo.EntryPredicate { return func(v dgo.MapEntry) bool { return c.call(w(v))%3 == 0 } }
	nepre := func(c *caller) dgo.EntryPredicate { return func(v dgo.MapEntry) bool { return c.call(w(v))%4 != 0 } }
	sp := fmt.Sprint

	cbop(`arr.All`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string { return sp(arr(v).All(npre(c))) })
	cbop(`arr.Any`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string { return sp(arr(v).Any(pre(c))) })
	cbop(`arr.One`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string { return sp(arr(v).One(pre(c))) })
	cbop(`arr.Each`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		arr(v).Each(func(e dgo.Value) { c.call(w(e)) })
		return ``
	})
	cbop(`arr.EachWithIndex`, kArr, arrIndexed, true, func(c *caller, v dgo.Value, a int) string {
		arr(v).EachWithIndex(func(e dgo.Value, i int) { c.call(fmt.Sprintf("%d:%s", i, w(e))) })
		return ``
	})
	cbop(`arr.Find`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string {
		return sp(arr(v).Find(func(e dgo.Value) interface{} {
			if n := c.call(w(e)); n%4 == 0 {
				return n
			}
			return nil
		}))
	})
	cbop(`arr.Map`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		return dump(arr(v).Map(func(e dgo.Value) interface{} { return c.call(w(e)) }), dFrozen)
	})
	cbop(`arr.Reduce`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		return dump(arr(v).Reduce(1, func(m, e dgo.Value) interface{} {
			return m.(dgo.Integer).GoInt()*7 + int64(c.call(w(e))%100)
		}), 0)
	})
	cbop(`arr.Select`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string { return dump(arr(v).Select(pre(c)), dFrozen) })
	cbop(`arr.Reject`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string { return dump(arr(v).Reject(pre(c)), dFrozen) })
	cbop(`arr.WithAll`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		return dump(vf.Values(1, 2).WithAll(&cbIter{arr(v), c}), dFrozen)
	})
	cbop(`arr.ContainsAll`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string {
		return sp(arr(v).ContainsAll(&cbIter{arr(v), c}))
	})
	cbop(`arr.SameValues`, kArr, arrElems, false, func(c *caller, v dgo.Value, a int) string {
		return sp(arr(v).SameValues(&cbIter{arr(v), c}))
	})
	cbop(`arr.AddAll`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		m := vf.MutableValues(1)
		m.AddAll(&cbIter{arr(v), c})
		return dump(m, 0)
	})
	cbop(`arr.FromIterable`, kArr, arrElems, true, func(c *caller, v dgo.Value, a int) string {
		return dump(vf.Array(&cbIter{arr(v), c}), 0)
	})

	cbop(`map.All`, kMap, mapEntries, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).All(nepre(c))) })
	cbop(`map.AllKeys`, kMap, mapKeys, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).AllKeys(npre(c))) })
	cbop(`map.AllValues`, kMap, mapValues, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).AllValues(npre(c))) })
	cbop(`map.Any`, kMap, mapEntries, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).Any(epre(c))) })
	cbop(`map.AnyKey`, kMap, mapKeys, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).AnyKey(pre(c))) })
	cbop(`map.AnyValue`, kMap, mapValues, false, func(c *caller, v dgo.Value, a int) string { return sp(mp(v).AnyValue(pre(c))) })
	cbop(`map.Each`, kMap, mapEntries, true, func(c *caller, v dgo.Value, a int) string {
		mp(v).Each(func(e dgo.Value) { c.call(w(e)) })
		return ``
	})
	cbop(`map.EachEntry`, kMap, mapEntries, true, func(c *caller, v dgo.Value, a int) string {
		mp(v).EachEntry(func(e dgo.MapEntry) { c.call(w(e)) })
		return ``
	})
	cbop(`map.EachKey`, kMap, mapKeys, true, func(c *caller, v dgo.Value, a int) string {
		mp(v).EachKey(func(e dgo.Value) { c.call(w(e)) })
		return ``
	})
	cbop(`map.EachValue`, kMap, mapValues, true, func(c *caller, v dgo.Value, a int) string {
		mp(v).EachValue(func(e dgo.Value) { c.call(w(e)) })
		return ``
	})
	cbop(`map.Find`, kMap, mapEntries, false, func(c *caller, v dgo.Value, a int) string {
		if e := mp(v).Find(epre(c)); e != nil {
			return dump(e, 0)
		}
		return ``
	})
	cbop(`map.Map`, kMap, mapEntries, true, func(c *caller, v dgo.Value, a int) string {
		return dump(mp(v).Map(func(e dgo.MapEntry) interface{} { return c.call(w(e)) }), dLookup)
	})

	// methods of elements
	cbop(`val.Sort`, kArr, nil, false, func(c *caller, v dgo.Value, a int) string {
		setCb(c)
		return dump(cbArray(v).Sort(), 0)
	})
	cbop(`val.Equals`, kArr|kMap, nil, false, func(c *caller, v dgo.Value, a int) string {
		l := vf.Values(cbArray(v), 1)
		o := vf.Values(cbArray(v), a%2)
		setCb(c)
		return sp(l.Equals(o))
	})
	cbop(`val.HashCode`, kArr|kMap, nil, false, func(c *caller, v dgo.Value, a int) string {
		l := vf.Values(cbArray(v), 1)
		setCb(c)
		return sp(l.HashCode())
	})
	cbop(`val.IndexOf`, kArr|kMap, nil, false, func(c *caller, v dgo.Value, a int) string {
		l := cbArray(v)
		setCb(c)
		return sp(l.IndexOf(&simCb{int64(a % 7)}))
	})
	cbop(`val.Unique`, kArr|kMap, nil, false, func(c *caller, v dgo.Value, a int) string {
		l := cbArray(v)
		setCb(c)
		return dump(l.Unique(), 0)
	})
	cbop(`val.Get`, kArr|kMap, nil, false, func(c *caller, v dgo.Value, a int) string {
		l := cbArray(v)
		m := vf.MutableMap()
		l.EachWithIndex(func(e dgo.Value, i int) { m.Put(e, i) })
		m.Freeze()
		setCb(c)
		return dump(m.Get(&simCb{int64(a % 7)}), 0)
	})

	// calls
	cbop(`fn.Call`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		f := vf.Value(func(i int64, s string) (string, error) {
			return fmt.Sprint(c.call(fmt.Sprintf("call %d %s", i, s))), nil
		}).(dgo.Function)
		return goDump(f.Call(vf.Values(a, `x`)))
	})
	cbop(`fn.CallVariadic`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		f := vf.Value(func(s string, xs ...dgo.Value) dgo.Value {
			t := s
			for _, x := range xs {
				t += ` ` + dump(x, 0)
			}
			return vf.Integer(int64(c.call(t)))
		}).(dgo.Function)
		return goDump(f.Call(vf.Values(`x`, v, a)))
	})
	cbop(`named.New`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		setCb(c)
		return dump(vf.New(simCbType, vf.Integer(int64(a))), 0)
	})
	cbop(`named.NewArgs`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		setCb(c)
		return dump(vf.New(simCbType, vf.Arguments(a)), 0)
	})
	cbop(`named.Extract`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		setCb(c)
		return dump(simCbType.ExtractInitArg(&simCb{int64(a)}), 0) + simCbType.ValueString(&simCb{int64(a)})
	})
	cbop(`named.Assignable`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		setCb(c)
		return sp(simCbType.Assignable(simPointType), simCbType.Assignable(tf.ParseType(`int`)), simCbType.Instance(v), tf.AnyOf(tf.String(), simCbType).Assignable(v.Type()))
	})

	// types
	cbop(`struct.Each`, kAny, func(dgo.Value) []string { return []string{`"a"`, `"b"`, `"c"`, `"d"`} }, true, func(c *caller, v dgo.Value, a int) string {
		cbStructType.Each(func(e dgo.StructMapEntry) { c.call(e.Key().String()) })
		return ``
	})
	cbop(`struct.Validate`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		bad := []interface{}{
			vf.Map(`a`, `x`, `b`, 1, `c`, 2, `d`, 4, `e`, 5),
			vf.Map(`a`, 1),
			vf.Map(`b`, `x`, `zz`, 1, `yy`, 3, `d`, vf.Map(`x`, `y`)),
			vf.Map(`a`, 1, `b`, `x`, `d`, vf.Map(`x`, 1)),
			vf.Map(),
			vf.Map(3, 4, `a`, `b`)}[a%6]
		errs := cbStructType.Validate(func(k dgo.Value) string { return fmt.Sprint(`label`, c.call(w(k))%10, w(k)) }, bad)
		s := ``
		for _, e := range errs {
			s += e.Error() + `;`
		}
		return s
	})
	cbop(`alias.Collect`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		am := tf.BuiltInAliases()
		n := am.Collect(func(aa dgo.AliasAdder) {
			c.call(`collect`)
			aa.Add(tf.ParseType(`[]int`), vf.String(`c17a`))
			c.call(`collect`)
			aa.Add(tf.ParseType(`map[string]int`), vf.String(`c17b`))
			c.call(`collect`)
		})
		if am.GetType(vf.String(`c17a`)) != nil {
			return `the map has changed`
		}
		return sp(n.GetType(vf.String(`c17a`)), n.GetType(vf.String(`c17b`)), n.GetName(tf.ParseType(`[]int`)))
	})
	cbop(`doc.Catch`, kAny, nil, false, func(c *caller, v dgo.Value, a int) string {
		// the outcome is compared below
		err := util.Catch(func() {
			c.call(`outer`)
			if e := util.Catch(func() { c.call(`inner`) }); e != nil {
				panic(e)
			}
			c.call(`outer`)
		})
		return sp(err)
	})
}

// cbArray makes an array of values with callbacks from what is at hand
func cbArray(v dgo.Value) dgo.Array {
	n := 5
	if l, ok := v.(interface{ Len() int }); ok {
		n = 2 + l.Len()%9
	}
	vs := make([]interface{}, n)
	for i := range vs {
		vs[i] = &simCb{int64(i*5) % 7}
	}
	return vf.Values(vs...)
}

func genC17(r *Rand, p *Plan) {
	nv := r.rng(1, 4)
	o := genOpts{strct: true, types: true, fns: true, named: true, rx: true, errs: true, sens: true, entry: true}
	for i := 0; i < nv; i++ {
		var n *Node
		switch r.n(5) {
		case 0, 1:
			n = genArr(r, r.rng(1, 2), o)
		case 2, 3:
			n = genMap(r, r.rng(1, 2), o)
		default:
			n = genStruct(r, 2)
		}
		n.I = n.I * 2
		if n.K != `st` && r.p(1, 3) {
			n.I = 1 // mutable, one for each thread
		}
		p.Vals = append(p.Vals, n)
	}
	nt := []int{1, 1, 2, 3}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(1, 10); i < c; i++ {
			vi := r.n(nv)
			k := kAny | kArr
			if p.Vals[vi].K != `a` {
				k = kAny | kMap
			}
			var op *cbOp
			for op == nil || op.kind&k == 0 || (op.kind&k == kAny && !r.p(1, 3)) {
				op = cbOps[r.n(len(cbOps))]
			}
			o := Op{K: op.name, A: []int{vi, r.n(100), r.n(1000), 0, r.n(pfKinds), r.n(3), r.n(4)}}
			if r.p(3, 4) {
				o.A[3] = 1 + r.n([]int{2, 5, 12}[r.n(3)])
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 600*nt)
	p.Cfg.MaxSteps = 12000000
}

func execC17(p *Plan, x *X) {
	type outcome struct {
		log []string
		res string
	}
	nt := len(p.Threads)
	vals := make([][]dgo.Value, nt)
	fps := make([]string, len(p.Vals))
	alone := make([][]outcome, nt)
	fp := func(v dgo.Value) string {
		return protect(func() string { return dump(v, dFrozen|dLookup) + ` ` + strVal(v) })
	}
	do := func(c *caller, o Op, v dgo.Value) (res string, pan interface{}) {
		old := cbOf()
		setCb(nil)
		defer setCb(old)
		pan = try(func() { res = cbOpByName[o.K].fn(c, v, o.A[1]) })
		return
	}
	if !x.solo(`undisturbed operations`, func() {
		for i, n := range p.Vals {
			fr := n.build(true)
			for t := range vals {
				if n.I == 1 && n.K != `st` {
					vals[t] = append(vals[t], n.build(false))
				} else {
					vals[t] = append(vals[t], fr)
				}
			}
			fps[i] = fp(vals[0][i])
		}
		for t, ops := range p.Threads {
			for oi, o := range ops {
				v := vals[t][o.A[0]%len(p.Vals)]
				c := &caller{x: x, pat: o.A[2]}
				res, pan := do(c, o, v)
				what := fmt.Sprintf("thread %d operation %d (%s)", t, oi, o.K)
				if pan != nil {
					x.fail(`unexpected-failure`, "%s: %s: %s", what, fps[o.A[0]%len(p.Vals)], panicText(pan))
					return
				}
				if ef := cbOpByName[o.K].elems; ef != nil {
					es := ef(v)
					if len(c.log) > len(es) || cbOpByName[o.K].all && len(c.log) != len(es) {
						x.fail(`number-of-calls`, "%s: the callback was called for %v, the elements are %v", what, c.log, es)
						return
					}
					for i, l := range c.log {
						if l != es[i] {
							x.fail(`order-of-calls`, "%s: the callback was called for %v, the elements are %v", what, c.log, es)
							return
						}
					}
				}
				alone[t] = append(alone[t], outcome{c.log, res})
			}
		}
	}) || x.failed() {
		return
	}
	check := func(what string, o Op, c *caller, res string, pan interface{}, want outcome) bool {
		log := want.log
		if c.inj != nil {
			log = log[:c.at]
		}
		// the error catching helper returns errors
		caught := o.K == `doc.Catch` && c.inj != nil && (c.kind == pfError || c.kind == pfString || c.kind == pfRuntime || c.kind == pfErrValue)
		switch {
		case c.after > 0:
			x.fail(`called-after-failure`, "%s: the callback failed in call %d and was called %d more times: %v", what, c.at, c.after, c.log)
		case caught && pan != nil:
			x.fail(`not-caught`, "%s: an error should have been caught: %s", what, panicText(pan))
		case caught && !strings.Contains(res, strings.TrimPrefix(fmt.Sprint(c.inj), `*`)) && c.kind != pfErrValue:
			x.fail(`other-error`, "%s: caught %s, the function panicked with %v", what, res, c.inj)
		case c.inj != nil && !caught && pan == nil:
			x.fail(`failure-swallowed`, "%s: the callback failed in call %d with %v and the operation returned %s", what, c.at, c.inj, res)
		case c.inj != nil && !caught && !c.same(pan):
			x.fail(`other-panic`, "%s: the callback failed in call %d with %T %v and the caller got %T %s", what, c.at, c.inj, c.inj, pan, panicText(pan))
		case c.inj == nil && pan != nil:
			x.fail(`unexpected-failure`, "%s: %s", what, panicText(pan))
		case fmt.Sprint(c.log) != fmt.Sprint(log):
			x.fail(`other-calls`, "%s: the callback was called for %v, alone for %v (failure in call %d)", what, c.log, want.log, c.at)
		case c.inj == nil && res != want.res:
			x.fail(`other-result`, "%s: the result is %s, alone %s", what, res, want.res)
		default:
			return true
		}
		return false
	}
	fns := make([]func(), nt)
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				v := vals[t][o.A[0]%len(p.Vals)]
				what := fmt.Sprintf("thread %d operation %d (%s)", t, oi, o.K)
				c := &caller{x: x, pat: o.A[2], at: o.A[3], kind: o.A[4] % pfKinds, slow: o.A[5]}
				bad := false
				if o.A[6] == 0 { // the callback uses the same value in the same way
					c.nested = func() {
						in := &caller{x: x, pat: o.A[2]}
						if o.A[1]%2 == 0 {
							in.at = 1 + o.A[1]%5
						}
						res, pan := do(in, o, v)
						x.probe(`nested-use`)
						bad = bad || !check(what+`, nested`, o, in, res, pan, alone[t][oi])
					}
				}
				res, pan := do(c, o, v)
				if bad || !check(what, o, c, res, pan, alone[t][oi]) {
					return
				}
				if s := fp(v); s != fps[o.A[0]%len(p.Vals)] {
					x.fail(`value-changed`, "%s: the value was %s and is %s", what, fps[o.A[0]%len(p.Vals)], s)
					return
				}
				if n := p.Vals[o.A[0]%len(p.Vals)]; c.inj != nil && n.I == 1 && n.K != `st` {
					if !usableAfter(x, what, v) {
						return
					}
					if s := fp(v); s != fps[o.A[0]%len(p.Vals)] {
						x.fail(`unusable-after-failure`, "%s: modified and restored, the value was %s and is %s", what, fps[o.A[0]%len(p.Vals)], s)
						return
					}
				}
			}
		}
	}
	if !x.run(`operations with callbacks`, fns...) {
		return
	}
	x.solo(`after the failures`, func() {
		for t, ops := range p.Threads {
			for oi, o := range ops {
				v := vals[t][o.A[0]%len(p.Vals)]
				c := &caller{x: x, pat: o.A[2]}
				res, pan := do(c, o, v)
				if !check(fmt.Sprintf("afterwards, thread %d operation %d (%s)", t, oi, o.K), o, c, res, pan, alone[t][oi]) {
					return
				}
				x.note(res)
			}
			for i, v := range vals[t] {
				if s := fp(v); s != fps[i] {
					x.fail(`value-changed`, "the value was %s and is %s", fps[i], s)
					return
				}
			}
		}
	})
}

func init() {
	register(&Scenario{
		Prop: `C17`, Race: 30, Chunk: 150, FreshPct: 2, Quick: 40000, Thorough: 1500000, Gen: genC17, Exec: execC17,
		Rule: `Each run draws 1-4 arrays, maps and struct maps, frozen and shared or mutable and private, and 1-3 threads with up to 10 operations that take a callback (all iterating, searching, mapping, reducing and selecting methods, iterables and comparable elements implemented by the caller, Go functions, constructors, extractors and checkers of named types, struct type iteration and validation, alias collection, the catching helper). A drawn call of the callback panics with an error, string, struct, runtime error, error value or integer; callbacks may take their time and use the same value in the same way. Checked: the panic arrives unchanged, no call after it, the calls before it are for the first elements in order, the value is unchanged and, where it is mutable, can be modified in each part, and the operation without a failure gives what it gave alone.`,
		Real: []string{`internal, util and tf packages, instrumented`}, Stub: []string{`callbacks (simulated, faulty)`, `goroutine scheduling`},
	})
}
