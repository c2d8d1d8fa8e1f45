package main

import (
	"errors"
	"fmt"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
	"verif.local/sim/simsync"
)

// C06: registration of aliases

const (
	// what an adder does
	afNone       = iota
	afFirst      // fails before it adds anything
	afLater      // fails after it has added something
	afUnresolved // adds a type that refers to an alias that nobody declares
	afSyntax     // parses text that has a syntax error
	afRuntime    // fails with a runtime error after it has added something
	afNothing    // adds nothing
	afNested     // registers another alias in the middle
	afNestedFail // registers another alias in the middle and then fails
	afModes
)

var afNames = []string{``, `adder-fails-first`, `adder-fails-late`, `unresolved-reference`, `syntax-error`, `runtime-error`, ``, ``, `adder-fails-after-nested`}

const (
	viaAdd = iota
	viaParseFile
	viaParse
	viaPcore
	viaParseMany
	viaModes
)

type aErr struct{ id int }

func (e *aErr) Error() string { return fmt.Sprintf(`injected: adder %d failed`, e.id) }

// aReg is one registration
type aReg struct {
	id         int
	names      []string
	sizes      []int
	start, end uint32
	done       bool
	pan        interface{}
	mode       int
	inj        *aErr
	what       string
}

// aLook is one observation of an alias map
type aLook struct {
	start, end uint32
	m          dgo.AliasMap
	seen       map[string]int
	bad        string
	what       string
}

type aWorld struct {
	x     *X
	p     *Plan
	own   bool
	m     dgo.AliasMap
	lock  cLock
	base  uint32
	names []string
	th    [rt.MaxThreads + 1]struct {
		regs   []*aReg
		looks  []*aLook
		resets [][2]uint32
	}
}

// cLock is the caller's Locker
type cLock struct {
	mu   simsync.Mutex
	held [rt.MaxThreads + 1]bool // by thread, each is only accessed by its thread
}

func (l *cLock) Lock() {
	l.mu.Lock()
	l.held[slot()] = true
}

func (l *cLock) Unlock() {
	l.held[slot()] = false
	l.mu.Unlock()
}

var _ sync.Locker = &cLock{}

func (w *aWorld) tick() uint32 { return w.base + rt.Tick() }

// current gives the alias map as a caller gets it
func (w *aWorld) current() dgo.AliasMap {
	if !w.own {
		return tf.DefaultAliases()
	}
	w.lock.Lock()
	defer w.lock.Unlock()
	return w.m
}

func (w *aWorld) add(f func(dgo.AliasAdder)) {
	if w.own {
		tf.AddAliases(&w.m, &w.lock, f)
	} else {
		tf.AddDefaultAliases(f)
	}
}

// regID and size identify a registration: every registered type has a size of its own
func aliasSize(id, k int) int { return 1000 + id*10 + k }

// regNames are the names that a registration uses; S is set when the name is shared by several registrations
func regNames(id int, o *Op) (ns []string) {
	n := 1 + o.A[2]%4
	if via := o.A[0] % viaModes; via == viaParse || via == viaPcore {
		n = 1
	}
	for k := 0; k < n; k++ {
		if k == 0 && o.A[3]%6 == 0 {
			ns = append(ns, fmt.Sprintf(`dup%d`, o.A[3]/6%2))
		} else {
			ns = append(ns, fmt.Sprintf(`n%dx%d`, id, k))
		}
	}
	return
}

func (w *aWorld) register(id int, o *Op) {
	r := &aReg{id: id, names: regNames(id, o), mode: o.A[1] % afModes, what: fmt.Sprintf(`registration %d`, id)}
	via := o.A[0] % viaModes
	if w.own && via >= viaParse {
		via = via % 2
	}
	if via >= viaParse {
		switch r.mode {
		case afFirst, afLater, afRuntime, afNothing, afNested, afNestedFail:
			r.mode = afNone
		}
		if via == viaPcore && r.names[0][0] == 'd' {
			r.names[0] = fmt.Sprintf(`n%dx0`, id)
		}
	}
	for k := range r.names {
		r.sizes = append(r.sizes, aliasSize(id, k))
	}
	r.inj = &aErr{id}
	kind := o.A[4]
	// the text of the k-th type
	text := func(k int) string {
		s := r.sizes[k]
		switch (kind + k) % 5 {
		case 0:
			return fmt.Sprintf(`string[%d]`, s)
		case 1:
			return fmt.Sprintf(`map[string,%d](int|%s)`, s, r.names[k])
		case 2:
			if k > 0 {
				return fmt.Sprintf(`[%d]%s`, s, r.names[0])
			}
			return fmt.Sprintf(`[%d]data`, s)
		case 3:
			return fmt.Sprintf(`[%d](string|%s)`, s, r.names[k])
		}
		return fmt.Sprintf(`[%d]int`, s)
	}
	typeOf := func(k int) dgo.Type {
		s := r.sizes[k]
		al := func(j int) dgo.Type { return parser.NewAlias(vf.String(r.names[j])) }
		switch (kind + k) % 5 {
		case 0:
			return tf.String(s)
		case 1:
			return tf.Map(typ.String, tf.AnyOf(typ.Integer, al(k)), s)
		case 2:
			// also of one that is added later
			return tf.Array(al((k+1)%len(r.names)), s, s*2)
		case 3:
			return tf.Array(tf.AnyOf(typ.String, al(k)), s, s*3)
		}
		return tf.Binary(s)
	}
	nest := func() {
		w.register(500+id, &Op{A: []int{viaAdd, afNone, 0, 1, kind, 1}})
	}
	adder := func(a dgo.AliasAdder) {
		if w.own && w.lock.held[slot()] {
			w.x.fail(`lock-held`, `%s: the lock is held while the adder function is called`, r.what)
		}
		failAt := -1
		switch r.mode {
		case afFirst:
			failAt = 0
		case afLater, afRuntime, afUnresolved, afSyntax, afNested, afNestedFail:
			failAt = 1 + o.A[5]%len(r.names)
		}
		for k := 0; k <= len(r.names); k++ {
			linger(o.A[5] % 3)
			if k == failAt {
				if n := afNames[r.mode]; n != `` {
					w.x.fault(n)
				}
				switch r.mode {
				case afFirst, afLater:
					panic(r.inj)
				case afRuntime:
					var none []int
					_ = none[k]
				case afUnresolved:
					if o.A[5]%2 == 0 {
						a.Add(tf.Array(parser.NewAlias(vf.String(`nosuch`))), vf.String(fmt.Sprintf(`u%dx`, id)))
					} else {
						tf.ParseFile(a, ``, fmt.Sprintf(`u%dx=[]nosuch`, id))
					}
				case afSyntax:
					tf.ParseFile(a, ``, fmt.Sprintf(`u%dx=map[string](int|`, id))
				case afNested:
					nest()
				case afNestedFail:
					nest()
					panic(r.inj)
				}
			}
			if k == len(r.names) || r.mode == afNothing {
				return
			}
			nm := vf.String(r.names[k])
			if via == viaParseFile && r.names[k][0] != 'd' && (kind+k)%7 != 0 {
				tf.ParseFile(a, ``, r.names[k]+`=`+text(k))
			} else if (kind+k)%5 == 0 && o.A[5]%3 == 1 {
				transfer(a, typeOf(k), r.names[k])
			} else {
				t := typeOf(k)
				a.Add(t, nm)
				if o.A[5]%4 == 1 {
					if g := a.GetType(nm); g != t {
						w.x.fail(`adder-lookup`, `%s: the adder does not give the type %s that was just added to it`, r.what, nm)
					}
				}
			}
		}
	}
	th := &w.th[slot()]
	th.regs = append(th.regs, r)
	r.start = w.tick()
	r.pan = try(func() {
		switch via {
		case viaAdd, viaParseFile:
			w.add(adder)
		default:
			w.parse(r, via, text, id)
		}
		r.done = true
	})
	r.end = w.tick()
}

// parse registers by parsing
func (w *aWorld) parse(r *aReg, via int, text func(int) string, id int) {
	tail := ``
	switch r.mode {
	case afUnresolved:
		tail = `,y:[]nosuch`
		w.x.fault(afNames[r.mode])
	case afSyntax:
		tail = `,y:[](`
		w.x.fault(afNames[r.mode])
	}
	dup := false
	for _, n := range r.names {
		dup = dup || n[0] == 'd'
	}
	if via == viaPcore && !dup {
		s := fmt.Sprintf(`Binary[%d]`, r.sizes[0])
		if id%2 == 0 {
			s = fmt.Sprintf(`Hash[String,Variant[Integer,%s],%d]`, pcoreName(r.names[0]), r.sizes[0])
		}
		t := fmt.Sprintf(`type %s=%s`, pcoreName(r.names[0]), s)
		if tail != `` {
			t += `[`
		}
		if g := pcore.ParseType(t); sizeOf(g) != r.sizes[0] {
			w.x.fail(`parse-result`, `%s gave %s`, t, g)
		}
		return
	}
	s := `{types:{`
	for k, n := range r.names {
		if n[0] == 'd' {
			// an identifier cannot be redeclared by the parser
			n = fmt.Sprintf(`n%dx%d`, id, k)
			r.names[k] = n
		}
		s += n + `=` + text(k) + `,`
	}
	s += fmt.Sprintf(`},x:%s%s}`, r.names[0], tail)
	if via == viaParse && tail == `` && len(r.names) == 1 {
		s = r.names[0] + `=` + text(0)
		if g := tf.ParseType(s); sizeOf(g) != r.sizes[0] {
			w.x.fail(`parse-result`, `%s gave %s`, s, g)
		}
		return
	}
	tf.Parse(s)
}

func pcoreName(n string) string { return `N` + n[1:] }

func sizeOf(t dgo.Type) int {
	if s, ok := t.(dgo.SizedType); ok {
		return s.Min()
	}
	return -1
}

// look reads everything of interest from an alias map
func (w *aWorld) look(m dgo.AliasMap) (seen map[string]int, bad string) {
	seen = map[string]int{}
	for _, n := range w.names {
		t := m.GetType(vf.String(n))
		if t == nil {
			continue
		}
		sz := sizeOf(t)
		seen[n] = sz
		if a, ok := t.(dgo.Alias); ok {
			bad = fmt.Sprintf(`%s is the unresolved alias %s`, n, a.Reference())
		}
		if gn := m.GetName(t); n[0] == 'n' && (gn == nil || gn.GoString() != n) {
			bad = fmt.Sprintf(`the name of the type of %s is %v`, n, gn)
		}
		if s := protect(func() string { return stringer.TypeStringWithAliasMap(tf.Array(t), m) }); n[0] == 'n' && s != `[]`+n {
			bad = fmt.Sprintf(`the array type of %s is printed as %s`, n, s)
		}
		if n[0] == 'n' {
			c := streamer.DataCollector()
			if err := protect(func() string { streamer.New(m, nil).Stream(vf.Values(t), c); return `` }); err != `` {
				bad = fmt.Sprintf(`the type of %s cannot be streamed: %s`, n, err)
			} else if dm, ok := c.Value().(dgo.Array).Get(0).(dgo.Map); !ok || dm.Get(`__value`) == nil || !dm.Get(`__type`).Equals(`alias`) || !dm.Get(`__value`).(dgo.Array).Get(0).Equals(n) {
				bad = fmt.Sprintf(`the type of %s is streamed as %s`, n, c.Value())
			}
		}
	}
	if d := m.GetType(vf.String(`data`)); d == nil || m.GetName(d) == nil {
		bad = `the alias data is gone`
	}
	return
}

func genC06(r *Rand, p *Plan) {
	p.N[`own`] = r.n(2)
	nt := r.rng(2, 4)
	no := r.rng(1, 6)
	faulty := r.n(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 0; i < no; i++ {
			k := r.n(10)
			switch {
			case k < 5:
				mode := afNone
				switch {
				case faulty > 0 && r.p(1, 2):
					mode = r.n(afModes)
				case r.p(1, 8):
					mode = afNothing
				case r.p(1, 8):
					mode = afNested
				}
				ops = append(ops, Op{K: `reg`, A: []int{r.n(viaModes), mode, r.n(4), r.n(24), r.n(40), r.n(12)}})
			case k < 8:
				ops = append(ops, Op{K: `look`, A: []int{r.n(4)}})
			case k == 8:
				ops = append(ops, Op{K: r.pick([]string{`use`, `coll`, `str`}), A: []int{r.n(100), r.n(100)}})
			default:
				if p.N[`own`] == 0 && faulty == 0 && r.p(1, 2) {
					ops = append(ops, Op{K: `reset`, A: []int{0}})
				} else {
					ops = append(ops, Op{K: `look`, A: []int{0}})
				}
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 200*no*nt)
	p.Cfg.MaxSteps = 3000000
}

func execC06(p *Plan, x *X) {
	w := &aWorld{x: x, p: p, own: p.n(`own`) == 1}
	resetDefaultAliases()
	defer resetDefaultAliases()
	w.m = tf.BuiltInAliases()
	// all names that the plan may register
	idOf := func(t, i int) int { return t*20 + i }
	w.names = []string{`dup0`, `dup1`, `nosuch`}
	for t := range p.Threads {
		for i := range p.Threads[t] {
			o := &p.Threads[t][i]
			if o.K != `reg` {
				continue
			}
			id := idOf(t, i)
			for k := 0; k < 4; k++ {
				w.names = append(w.names, fmt.Sprintf(`n%dx%d`, id, k))
			}
			w.names = append(w.names, fmt.Sprintf(`u%dx`, id), fmt.Sprintf(`n%dx0`, 500+id))
		}
	}
	look := func(what string) {
		l := &aLook{what: what, start: w.tick()}
		l.m = w.current()
		l.end = w.tick()
		l.seen, l.bad = w.look(l.m)
		th := &w.th[slot()]
		th.looks = append(th.looks, l)
	}
	var fns []func()
	for ti := range p.Threads {
		ti := ti
		fns = append(fns, func() {
			for oi := range p.Threads[ti] {
				o := &p.Threads[ti][oi]
				what := fmt.Sprintf(`thread %d operation %d (%s)`, ti, oi, o.K)
				switch o.K {
				case `reg`:
					w.register(idOf(ti, oi), o)
				case `look`:
					linger(o.A[0])
					look(what)
				case `use`:
					w.use(what, o)
				case `str`:
					m := w.current()
					s := stringer.TypeStringWithAliasMap(tf.ParseFile(nil, ``, `map[string]data`).(dgo.Type), m)
					if s != `map[string]data` {
						x.fail(`printed`, `%s: map[string]data is printed as %s`, what, s)
					}
				case `coll`:
					m := w.current()
					c := m.Collect(func(a dgo.AliasAdder) { a.Add(tf.String(77, 78), vf.String(`private`)) })
					if c.GetType(vf.String(`private`)) == nil || m.GetType(vf.String(`private`)) != nil {
						x.fail(`collect`, `%s: Collect changed its receiver or lost the addition`, what)
					}
				case `reset`:
					th := &w.th[slot()]
					s := w.tick()
					resetDefaultAliases()
					th.resets = append(th.resets, [2]uint32{s, w.tick()})
				}
			}
		})
	}
	if !x.run(`concurrent registration of aliases`, fns...) {
		return
	}
	w.base = 1 << 30
	ok := x.solo(`use of the alias map after all registrations`, func() {
		look(`after all registrations`)
		w.register(900, &Op{A: []int{viaAdd, afNone, 2, 1, 0, 1}})
		w.names = append(w.names, `n900x0`, `n900x1`, `n900x2`)
		look(`after one more registration`)
	})
	if !ok {
		return
	}
	w.check()
}

// transfer adds an alias to an adder by decoding a stream in which it occurs
func transfer(a dgo.AliasAdder, t dgo.Type, name string) {
	m := tf.BuiltInAliases().Collect(func(pa dgo.AliasAdder) { pa.Add(t, vf.String(name)) })
	c := streamer.DataCollector()
	streamer.New(m, nil).Stream(vf.Values(t, `other`), c)
	d := streamer.DataDecoder(a, nil)
	streamer.New(nil, nil).Stream(c.Value(), d)
}

// refer makes the type of text in one of the ways in which text becomes a type
func refer(how int, text string) (t dgo.Type) {
	var v dgo.Value
	switch how % 4 {
	case 0:
		v = tf.ParseType(text)
	case 1:
		v = tf.Parse(text)
	case 2:
		v = streamer.UnmarshalJSON([]byte(`{"__type":"`+text+`"}`), nil)
	default:
		d := streamer.DataDecoder(nil, nil)
		streamer.New(nil, nil).Stream(vf.Values(vf.Map(`__type`, text)), d)
		v = d.Value().(dgo.Array).Get(0)
	}
	return v.(dgo.Type)
}

// use refers to a name that may be registered
func (w *aWorld) use(what string, o *Op) {
	n := w.names[o.A[0]%len(w.names)]
	if o.A[1]%3 == 0 {
		n = w.names[o.A[0]%2]
	}
	l := &aLook{what: what, start: w.tick(), seen: map[string]int{}}
	var t dgo.Type
	pan := try(func() {
		if w.own {
			w.current().Collect(func(a dgo.AliasAdder) { t = tf.ParseFile(a, ``, `[7]`+n).(dgo.Type) })
		} else {
			t = refer(o.A[1]/3, `[7]`+n)
		}
	})
	l.end = w.tick()
	if pan == nil {
		l.seen[n] = sizeOf(t.(dgo.ArrayType).ElementType())
	} else if !isPlainError(pan) {
		w.x.fail(`unexpected-panic`, `%s: %s`, what, panicText(pan))
	}
	l.bad = `only:` + n
	w.th[slot()].looks = append(w.th[slot()].looks, l)
}

func (w *aWorld) check() {
	x := w.x
	var regs []*aReg
	var looks []*aLook
	var resets [][2]uint32
	for i := range w.th {
		regs = append(regs, w.th[i].regs...)
		looks = append(looks, w.th[i].looks...)
		resets = append(resets, w.th[i].resets...)
	}
	// what must fail fails, with what was injected, and nothing else fails
	for _, r := range regs {
		x.note(fmt.Sprint(r.id, r.done))
		switch r.mode {
		case afFirst, afLater, afNestedFail:
			if r.pan != error(r.inj) {
				x.fail(`failure-not-reported`, `%s: the adder panicked with %v, the caller got %s`, r.what, r.inj, panicText(r.pan))
			}
		case afRuntime, afUnresolved, afSyntax:
			var e error
			if !errors.As(asErr(r.pan), &e) {
				x.fail(`failure-not-reported`, `%s (%s): the caller got %s`, r.what, afNames[r.mode], panicText(r.pan))
			}
		default:
			if r.pan != nil {
				x.fail(`unexpected-panic`, `%s: %s`, r.what, panicText(r.pan))
			}
		}
	}
	// reset says whether a reset may have taken place between the registration and the observation
	resetBetween := func(r *aReg, l *aLook) bool {
		for _, s := range resets {
			if s[1] > r.start && s[0] < l.end {
				return true
			}
		}
		return false
	}
	names := func(r *aReg) (ns []string) {
		for _, n := range r.names {
			if n[0] == 'n' {
				ns = append(ns, n)
			}
		}
		return
	}
	owner := map[int]*aReg{}
	for _, r := range regs {
		for _, s := range r.sizes {
			owner[s] = r
		}
	}
	for _, l := range looks {
		only := ``
		if len(l.bad) > 5 && l.bad[:5] == `only:` {
			only = l.bad[5:]
		} else if l.bad != `` {
			x.fail(`inconsistent-map`, `%s: %s`, l.what, l.bad)
			return
		}
		x.note(fmt.Sprint(len(l.seen)))
		for n, s := range l.seen {
			r := owner[s]
			if r == nil {
				x.fail(`foreign-alias`, `%s: %s has a type that nobody registered under it (size %d)`, l.what, n, s)
				return
			}
			own := false
			for k, rn := range r.names {
				own = own || (rn == n || pcoreToDgo(rn) == n) && r.sizes[k] == s
			}
			switch {
			case !own:
				x.fail(`foreign-alias`, `%s: %s has the type that %s registered under another name`, l.what, n, r.what)
			case r.pan != nil:
				x.fail(`failed-registration-visible`, `%s: %s is visible although %s failed: %s`, l.what, n, r.what, panicText(r.pan))
			case r.mode == afNothing:
				x.fail(`foreign-alias`, `%s: %s is visible although %s added nothing`, l.what, n, r.what)
			case r.start > l.end:
				x.fail(`visible-too-early`, `%s: %s is visible before %s began`, l.what, n, r.what)
			}
			for _, rs := range resets {
				if r.end < rs[0] && rs[1] < l.start {
					x.fail(`visible-after-reset`, `%s: %s is visible although the map was reset after %s`, l.what, n, r.what)
				}
			}
			if n[0] == 'd' {
				for _, r2 := range regs {
					if r2 == r || r2.pan != nil || r2.mode == afNothing || r2.start < r.end || r2.end > l.start || resetBetween(r2, l) {
						continue
					}
					for _, n2 := range r2.names {
						if n2 == n {
							x.fail(`stale-alias`, `%s: %s has the type of %s although %s replaced it later`, l.what, n, r.what, r2.what)
						}
					}
				}
			}
			if x.failed() {
				return
			}
		}
		for _, r := range regs {
			if r.pan != nil || r.mode == afNothing {
				continue
			}
			ns := names(r)
			have, miss := ``, ``
			for _, n := range ns {
				if _, ok := l.seen[n]; ok {
					have = n
				} else if only == `` || only == n {
					miss = n
				}
			}
			if only == `` && have != `` && miss != `` {
				x.fail(`partly-visible`, `%s: of the aliases of %s, %s is visible and %s is not`, l.what, r.what, have, miss)
				return
			}
			if miss != `` && r.end < l.start && !resetBetween(r, l) {
				x.fail(`lost-alias`, `%s: %s is not visible although %s had returned before`, l.what, miss, r.what)
				return
			}
			// what has been seen stays
			if miss != `` && !resetBetween(r, l) {
				for _, l2 := range looks {
					if _, ok := l2.seen[miss]; ok && l2.end < l.start {
						x.fail(`lost-alias`, `%s: %s is not visible although it was visible before (%s)`, l.what, miss, l2.what)
						return
					}
				}
			}
		}
	}
	// maps that were obtained earlier have not changed
	nn := w.names
	x.solo(`use of alias maps obtained earlier`, func() {
		for _, l := range looks {
			if l.m == nil {
				continue
			}
			w.names = nn
			seen, _ := w.look(l.m)
			for _, n := range nn {
				a, aok := l.seen[n]
				b, bok := seen[n]
				if (aok != bok || a != b) && n[:4] != `n900` {
					x.fail(`map-changed`, `%s: the map that was obtained gave %d (%v) for %s, now it gives %d (%v)`, l.what, a, aok, n, b, bok)
					return
				}
			}
		}
	})
}

func pcoreToDgo(n string) string { return n }

func init() {
	register(&Scenario{
		Prop: `C06`, Race: 55, Chunk: 60, FreshPct: 3, Quick: 60000, Thorough: 1500000,
		Rule: `Each run draws 2-4 threads with 1-6 operations each on the default aliases or on an alias map of the caller with a simulated lock: registrations of 1-4 aliases through an adder (types that refer to themselves, to each other and to predefined ones), by parsing in both syntaxes, nested in another registration, or failing (adder panics before or after additions, runtime error, syntax error, unresolved reference); lookups of all names in a snapshot; parsing that refers to a name; resets. The recorded history is checked: nothing lost, calls atomic, nothing of a failed call visible, snapshots unchanged, no lock kept.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives)`, `goroutine scheduling`, `the adder functions and the Locker of the caller`},
		Gen: genC06, Exec: execC06,
	})
}
