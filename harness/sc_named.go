package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C11: histories of the registry of named types

const regNameCount = 4

func regName(i int) string { return `simReg` + string(rune('A'+i%regNameCount)) }

// the implementation types
type regI0 struct{ regVal }
type regI1 struct{ regVal }
type regI2 struct{ regVal }
type regI3 struct{ regVal }

var regImpls = []reflect.Type{reflect.TypeOf(&regI0{}), reflect.TypeOf(&regI1{}), reflect.TypeOf(&regI2{}), reflect.TypeOf(&regI3{})}

// regVal is a value of a registered type. It finds its type in the registry.
type regVal struct {
	name string
	id   int
	arg  dgo.Value
}

func (v *regVal) String() string { return fmt.Sprintf(`%s#%d`, v.name, v.id) }
func (v *regVal) Type() dgo.Type {
	t := tf.Named(v.name)
	if t == nil {
		panic(fmt.Errorf(`no type %s`, v.name))
	}
	return tf.ExactNamed(t, v)
}
func (v *regVal) Equals(o interface{}) bool { ov, ok := o.(*regVal); return ok && *v == *ov }
func (v *regVal) HashCode() int             { return v.id }

type regErr struct{ id int }

func (e *regErr) Error() string { return fmt.Sprintf(`injected: constructor %d failed`, e.id) }

type regCall struct {
	thread     int
	kind       string // reg, remove, look, refl, use
	name       int
	impl       int
	id         int // of a registration
	res        int // the id found, 0 = none
	ok         bool
	start, end uint32
	what       string
	bad        string
}

type regWorld struct {
	x    *X
	p    *Plan
	base uint32
	th   [rt.MaxThreads + 1]struct {
		calls []*regCall
		types []dgo.NamedType
		ids   int
		depth int
	}
	all []*regCall
}

func (w *regWorld) tick() uint32 { return w.base + rt.Tick() }

// regID identifies the registration that a type came from by asking its constructor

var regProbeArg = vf.String(`which registration?`)

func (w *regWorld) idOf(t dgo.NamedType) (id int, bad string) {
	if t == nil || reflect.ValueOf(t).IsNil() {
		return 0, ``
	}
	v := t.New(regProbeArg)
	i, ok := v.(dgo.Integer)
	if !ok {
		return -1, fmt.Sprintf(`constructor of %s gave %s`, t.Name(), v)
	}
	return int(i.GoInt()), ``
}

func (w *regWorld) newType(c *regCall, o *Op) dgo.NamedType {
	n := regName(c.name)
	var impl reflect.Type
	if c.impl >= 0 {
		impl = regImpls[c.impl]
	}
	id := c.id
	return tf.NewNamed(n,
		func(arg dgo.Value) dgo.Value {
			if arg == regProbeArg {
				return vf.Integer(int64(id))
			}
			if i, ok := arg.(dgo.Integer); ok {
				a := int(i.GoInt())
				if a%5 == 1 {
					w.x.fault(`constructor-panic`)
					panic(&regErr{id})
				}
				linger(a % 3)
				if th := &w.th[slot()]; a%7 == 2 && th.depth < 1 && rt.Cur() >= 0 {
					// the constructor uses the registry
					th.depth++
					nested := Op{K: []string{`reg`, `remove`, `look`, `refl`}[a/7%4], A: []int{c.name + 1 + a/28%2, a, a / 3}}
					w.one(&nested, `nested `)
					th.depth--
				}
			}
			return &regVal{n, id, arg}
		},
		func(v dgo.Value) dgo.Value { return v.(*regVal).arg },
		impl, nil, nil)
}

func (w *regWorld) one(o *Op, prefix string) {
	th := &w.th[slot()]
	c := &regCall{thread: slot(), kind: o.K, name: o.A[0] % regNameCount, impl: -1}
	th.calls = append(th.calls, c)
	c.what = fmt.Sprintf(`%s%s(%s)`, prefix, o.K, regName(c.name))
	found := func(t dgo.NamedType) {
		c.kind = `look`
		if t != nil && !reflect.ValueOf(t).IsNil() {
			if t.Name() != regName(c.name) || o.K != `type` && t.String() != regName(c.name) {
				c.bad = fmt.Sprintf(`gave a type with the name %s`, t.Name())
			}
			if o.K != `type` {
				th.types = append(th.types, t)
			}
		}
		c.end = w.tick()
		if b := ``; c.bad == `` {
			c.res, b = w.idOf(t)
			c.bad = b
		}
	}
	// a failure that is none of those that a missing type or an injected failure explains
	failed := func(pan interface{}) {
		if pan == nil {
			return
		}
		var re runtime.Error
		if e, ok := pan.(error); ok && errors.As(e, &re) || !ok {
			c.bad = `failed with ` + panicText(pan)
		}
	}
	c.start = w.tick()
	switch o.K {
	case `reg`:
		c.impl = o.A[1]%(len(regImpls)+1) - 1
		th.ids++
		c.id = (slot()+1)*1000 + th.ids
		c.what = fmt.Sprintf(`%s as #%d with implementation %d`, c.what, c.id, c.impl)
		var t dgo.NamedType
		pan := try(func() { t = w.newType(c, o) })
		c.end = w.tick()
		c.ok = pan == nil
		if pan != nil {
			if e, isErr := pan.(error); !isErr || !strings.Contains(e.Error(), `redefine`) {
				c.bad = `failed with ` + panicText(pan)
			}
		} else {
			id, bad := w.idOf(t)
			if c.bad = bad; bad == `` && id != c.id {
				c.bad = fmt.Sprintf(`succeeded but gave the type of registration %d`, id)
			}
			th.types = append(th.types, t)
		}
	case `remove`:
		tf.RemoveNamed(regName(c.name))
		c.end = w.tick()
	case `look`:
		found(tf.Named(regName(c.name)))
	case `parse`:
		var t dgo.NamedType
		pan := try(func() { t, _ = tf.ParseType(regName(c.name)).(dgo.NamedType) })
		failed(pan)
		found(t)
	case `json`:
		// the type is found by the decoder. A constructor that fails has been found too.
		var v dgo.Value
		doc := fmt.Sprintf(`{"__type":"%s","__value":%d}`, regName(c.name), o.A[1]%200)
		pan := try(func() { v = streamer.UnmarshalJSON([]byte(doc), streamer.DgoDialect()) })
		c.end = w.tick()
		c.kind = `look`
		if rvl, ok := v.(*regVal); ok {
			c.res = rvl.id
		} else if pan != nil {
			var re *regErr
			if e, ok := pan.(error); ok && errors.As(e, &re) {
				c.res = re.id
			} else {
				failed(pan)
			}
		}
	case `type`:
		// what is derived from a value goes through the registry too
		v := &regVal{regName(c.name), 0, vf.Integer(1)}
		var t dgo.Type
		pan := try(func() { t = v.Type() })
		failed(pan)
		var nt dgo.NamedType
		if t != nil {
			nt = t.(dgo.NamedType)
			if !nt.Instance(v) {
				c.bad = `gave a type that the value is no instance of`
			}
		}
		found(nt)
	case `refl`:
		c.impl = o.A[1] % len(regImpls)
		c.what = fmt.Sprintf(`%srefl(%d)`, prefix, c.impl)
		t := tf.NamedFromReflected(regImpls[c.impl])
		c.end = w.tick()
		if t != nil && !reflect.ValueOf(t).IsNil() {
			if t.AssignableType() != regImpls[c.impl] {
				c.bad = fmt.Sprintf(`gave a type for %s`, t.AssignableType())
			}
			th.types = append(th.types, t)
			if b := ``; c.bad == `` {
				c.res, b = w.idOf(t)
				c.bad = b
			}
		}
	case `use`:
		// a type remains what it is, registered or not
		c.end = c.start
		if len(th.types) == 0 {
			return
		}
		t := th.types[o.A[1]%len(th.types)]
		n := t.Name()
		c.what = fmt.Sprintf(`%suse of %s`, prefix, n)
		id, bad := w.idOf(t)
		if c.bad = bad; bad != `` {
			return
		}
		arg := vf.Integer(int64(o.A[2] % 400))
		var v dgo.Value
		if pan := try(func() { v = t.New(arg) }); pan != nil {
			if e, ok := pan.(*regErr); !ok || e.id != id {
				c.bad = fmt.Sprintf(`New failed with %s`, panicText(pan))
			}
			return
		}
		if rvl, ok := v.(*regVal); !ok || rvl.id != id {
			c.bad = fmt.Sprintf(`New of the type of registration %d gave %s`, id, v)
			return
		}
		if s := t.ValueString(v); !strings.HasPrefix(s, n) {
			c.bad = fmt.Sprintf(`ValueString gave %s`, s)
		}
		if !t.Equals(t) || t.HashCode() != t.HashCode() || t.Type().String() != `type[`+n+`]` {
			c.bad = fmt.Sprintf(`is not equal to itself, or prints as %s`, t.Type())
		}
		if e := t.ExtractInitArg(v); e != arg && !e.Equals(arg) {
			c.bad = fmt.Sprintf(`init argument %s, not %s`, e, arg)
		}
	case `static`:
		c.end = c.start
		c.what = prefix + `lookup of types that are always there`
		c.bad = staticTypes()
	}
}

// staticTypes checks what is registered when packages are initialised
func staticTypes() string {
	if t := tf.Named(`simPoint`); t != simPointType {
		return fmt.Sprintf(`simPoint is %v`, t)
	}
	if t := tf.NamedFromReflected(reflect.TypeOf(&simPoint{})); t != simPointType {
		return fmt.Sprintf(`the type of simPoint is %v`, t)
	}
	ls := []struct {
		l dgo.Loader
		t dgo.NamedType
	}{
		{loader.New(nil, ``, nil, nil, nil), loader.Type},
		{loader.New(nil, ``, nil, func(dgo.Loader, string) interface{} { return nil }, nil), loader.MutableType},
	}
	ls = append(ls, struct {
		l dgo.Loader
		t dgo.NamedType
	}{ls[0].l.NewChild(nil, func(dgo.Loader, string) dgo.Loader { return nil }), loader.ChildType})
	for _, l := range ls {
		if t := tf.Named(l.t.Name()); t != l.t {
			return fmt.Sprintf(`%s is %v`, l.t.Name(), t)
		}
		if t := tf.NamedFromReflected(reflect.TypeOf(l.l)); t != l.t {
			return fmt.Sprintf(`the type for the implementation of %s is %v`, l.t.Name(), t)
		}
		if t := l.l.Type().(dgo.NamedType); t.Name() != l.t.Name() || !l.t.Instance(l.l) {
			return fmt.Sprintf(`the type of a loader is %s, not %s`, t.Name(), l.t.Name())
		}
	}
	return ``
}

func genC11(r *Rand, p *Plan) {
	nt := r.rng(2, 4)
	names := r.rng(1, regNameCount)
	impls := r.rng(1, len(regImpls)+1)
	pre := r.n(4)
	var init []Op
	for i := 0; i < pre; i++ {
		init = append(init, Op{K: `reg`, A: []int{r.n(names), r.n(impls)}})
	}
	p.Threads = append(p.Threads, init)
	mode := r.n(5)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.rng(1, 8); i < n; i++ {
			o := Op{A: []int{r.n(names), r.n(1000), r.n(1000)}}
			k := r.n(20)
			switch {
			case mode == 0 && i == 0, k < 6:
				o.K = `reg`
				o.A[1] = r.n(impls)
			case k < 8 && mode != 1, k < 7:
				o.K = `remove`
			case k < 11:
				o.K = `look`
			case k < 14:
				o.K = `refl`
				o.A[1] = r.n(impls)
			case k < 15:
				o.K = `parse`
			case k < 16:
				o.K = `json`
			case k < 17:
				o.K = `type`
			case k < 19:
				o.K = `use`
			default:
				o.K = `static`
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 60*nt*5)
}

func execC11(p *Plan, x *X) {
	w := &regWorld{x: x, p: p}
	clean := func() {
		for i := 0; i < regNameCount; i++ {
			tf.RemoveNamed(regName(i))
		}
	}
	if !x.solo(`cleaning the registry`, clean) || len(p.Threads) == 0 {
		return
	}
	gather := func() {
		for i := range w.th {
			w.all = append(w.all, w.th[i].calls...)
			w.th[i].calls = nil
		}
	}
	defer func() {
		if !x.aborted {
			x.solo(`cleaning the registry`, clean)
		}
	}()
	if !x.solo(`the first registrations`, func() {
		for i := range p.Threads[0] {
			w.one(&p.Threads[0][i], `first `)
		}
	}) {
		return
	}
	gather()
	w.base = 1 << 28
	var fns []func()
	for ti := range p.Threads[1:] {
		ti := ti
		fns = append(fns, func() {
			for oi := range p.Threads[ti+1] {
				w.one(&p.Threads[ti+1][oi], fmt.Sprintf(`thread %d operation %d `, ti, oi))
			}
		})
	}
	if len(fns) > 0 && !x.run(`concurrent use of the registry`, fns...) {
		return
	}
	gather()
	w.base = 1 << 30
	if !x.solo(`lookups afterwards`, func() {
		for i := 0; i < regNameCount; i++ {
			w.one(&Op{K: `look`, A: []int{i}}, `final `)
			w.one(&Op{K: `json`, A: []int{i, 0}}, `final `)
			w.one(&Op{K: `parse`, A: []int{i}}, `final `)
			w.one(&Op{K: `type`, A: []int{i}}, `final `)
		}
		for i := range regImpls {
			was := -1
			for o := uint64(0); o < 4; o++ {
				rt.EnvSeed(mix(p.Seed, o))
				op := &Op{K: `refl`, A: []int{0, i}}
				w.one(op, `final `)
				x.fault(`traversal-order`)
				cs := w.th[slot()].calls
				id := cs[len(cs)-1].res
				if was >= 0 && was != id {
					x.fail(`order-dependent`, "the named type for implementation %d is that of registration %d, and under another traversal order that of registration %d", i, was, id)
				}
				was = id
			}
		}
		for i := 0; i < regNameCount; i++ {
			w.one(&Op{K: `reg`, A: []int{i, i}}, `final `)
			w.one(&Op{K: `look`, A: []int{i}}, `final `)
		}
		if bad := staticTypes(); bad != `` {
			x.fail(`other-name-disturbed`, `afterwards, %s`, bad)
		}
	}) {
		return
	}
	gather()
	w.check()
}

func (w *regWorld) check() {
	x := w.x
	for _, c := range w.all {
		x.note(fmt.Sprint(c.what, c.res, c.ok))
		if c.bad != `` {
			cl := `wrong-result`
			if c.kind == `static` {
				cl = `other-name-disturbed`
			}
			x.fail(cl, "%s: %s", c.what, c.bad)
			return
		}
	}
	byID := map[int]*regCall{}
	for _, c := range w.all {
		if c.kind == `reg` {
			byID[c.id] = c
		}
	}
	for n := 0; n < regNameCount; n++ {
		var h []*regCall
		for _, c := range w.all {
			if c.name == n && (c.kind == `reg` || c.kind == `remove` || c.kind == `look`) {
				h = append(h, c)
				if c.kind == `look` && c.res != 0 && byID[c.res] == nil {
					x.fail(`unknown-type`, "%s gave the type of registration %d, of which there is none", c.what, c.res)
					return
				}
			}
		}
		if why := linearizable(h); why != `` {
			x.fail(`not-linearizable`, "the calls for the name %s have no order that explains them:%s", regName(n), why)
			return
		}
	}
	// lookups by implementation type
	for _, c := range w.all {
		if c.kind != `refl` {
			continue
		}
		if c.res != 0 {
			g := byID[c.res]
			switch {
			case g == nil || !g.ok || g.impl != c.impl:
				x.fail(`unknown-type`, "%s gave the type of registration %d, which is none of that implementation", c.what, c.res)
				return
			case g.start > c.end:
				x.fail(`unknown-type`, "%s gave the type of registration %d before it was made", c.what, c.res)
				return
			}
			// of several types with the same implementation, the one whose name sorts first is found
			for _, o := range byID {
				if !o.ok || o.impl != c.impl || o.end > c.start || regName(o.name) >= regName(g.name) {
					continue
				}
				gone := false
				for _, rm := range w.all {
					gone = gone || rm.kind == `remove` && rm.name == o.name && rm.end > o.start && rm.start < c.end
				}
				if !gone {
					x.fail(`not-the-first`, "%s gave the type of registration %d (%s), but %s, whose name sorts before, had succeeded and was not undone", c.what, c.res, regName(g.name), o.what)
					return
				}
			}
			for _, rm := range w.all {
				if rm.kind == `remove` && rm.name == g.name && rm.start > g.end && rm.end < c.start {
					x.fail(`stale-type`, "%s gave the type of registration %d (%s), which was removed by %s before", c.what, c.res, g.what, rm.what)
					return
				}
			}
			continue
		}
		for _, g := range byID {
			if !g.ok || g.impl != c.impl || g.end > c.start {
				continue
			}
			gone := false
			for _, rm := range w.all {
				gone = gone || rm.kind == `remove` && rm.name == g.name && rm.end > g.start && rm.start < c.end
			}
			if !gone {
				x.fail(`type-not-found`, "%s gave nothing, but %s had succeeded and was not undone", c.what, g.what)
				return
			}
		}
	}
}

// linearizable searches an order of the calls that a registry could have executed them in. It returns the calls when there is
// none.
func linearizable(h []*regCall) string {
	if len(h) > 62 {
		return ``
	}
	sort.SliceStable(h, func(i, j int) bool { return h[i].start < h[j].start })
	type st struct {
		done uint64
		cur  int
	}
	seen := map[st]bool{}
	full := uint64(1)<<uint(len(h)) - 1
	var walk func(s st) bool
	walk = func(s st) bool {
		if s.done == full {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		// a call can be next if no pending call ended before it started
		first := ^uint32(0)
		for i, c := range h {
			if s.done&(1<<uint(i)) == 0 && c.end < first {
				first = c.end
			}
		}
		for i, c := range h {
			if s.done&(1<<uint(i)) != 0 || c.start > first {
				continue
			}
			n := st{s.done | 1<<uint(i), s.cur}
			switch c.kind {
			case `reg`:
				if c.ok != (s.cur == 0) {
					continue
				}
				if c.ok {
					n.cur = c.id
				}
			case `remove`:
				n.cur = 0
			case `look`:
				if c.res != s.cur {
					continue
				}
			}
			if walk(n) {
				return true
			}
		}
		return false
	}
	if walk(st{}) {
		return ``
	}
	b := &strings.Builder{}
	for _, c := range h {
		r := fmt.Sprintf(`#%d`, c.res)
		if c.kind == `reg` {
			r = fmt.Sprintf(`success %v`, c.ok)
		} else if c.kind == `remove` {
			r = `done`
		}
		fmt.Fprintf(b, "\n  [%d, %d] %s -> %s", c.start, c.end, c.what, r)
	}
	return b.String()
}

func init() {
	register(&Scenario{
		Prop: `C11`, Race: 40, Chunk: 150, FreshPct: 2, Quick: 100000, Thorough: 600000,
		Rule: `Each run draws 0-3 earlier registrations and 2-4 threads with 1-8 operations each on 1-4 names and 1-4 implementation types (registering, removing, looking up by name, by implementation type, through the parser, through the decoder and through values, using types found earlier, looking up types that are always registered). Constructors may panic, take their time, and use the registry themselves. The calls for each name must be linearizable as those of a register, each lookup by implementation type must give a type that was registered at some time during the lookup and must find one that was registered throughout, and after the threads have ended every way to look up a type, under several traversal orders, agrees.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives, including sync.Map with a drawn traversal order)`, `goroutine scheduling`},
		Gen: genC11, Exec: execC11,
	})
}
