package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C05: mutable collections against a reference model that is a plain list and an insertion ordered list of associations

// MRec is the Go struct behind the struct maps of this scenario
type MRec struct {
	A int
	B string
	V dgo.Value
}

// mval is a mscal or a *mcoll
type mval interface{}

type mscal struct {
	d      string
	v      dgo.Value
	native bool
}

type mcoll struct {
	isMap  bool
	strct  bool
	frozen bool
	ks, es []mval
}

func (c *mcoll) flag() string {
	if c.frozen {
		return `F`
	}
	return `M`
}

func mdump(v mval) string {
	b := &strings.Builder{}
	mdumpTo(b, v)
	return b.String()
}

func mdumpTo(b *strings.Builder, v mval) {
	switch v := v.(type) {
	case nil:
		b.WriteString(`<nil>`)
	case mscal:
		b.WriteString(v.d)
	case *mcoll:
		b.WriteString(v.flag())
		if v.isMap {
			b.WriteString(`{`)
			for i := range v.ks {
				if i > 0 {
					b.WriteString(`, `)
				}
				mdumpTo(b, v.ks[i])
				b.WriteString(`: `)
				mdumpTo(b, v.es[i])
			}
			b.WriteString(`}`)
			return
		}
		b.WriteString(`[`)
		for i := range v.es {
			if i > 0 {
				b.WriteString(`, `)
			}
			mdumpTo(b, v.es[i])
		}
		b.WriteString(`]`)
	}
}

func meq(a, b mval) bool {
	switch a := a.(type) {
	case mscal:
		bs, ok := b.(mscal)
		return ok && a.d == bs.d && !a.native && !bs.native
	case *mcoll:
		bc, ok := b.(*mcoll)
		if !ok || a.isMap != bc.isMap || len(a.es) != len(bc.es) {
			return false
		}
		if a == bc {
			return true
		}
		for i := range a.es {
			if a.isMap {
				j := bc.find(a.ks[i])
				if j < 0 || !meq(a.es[i], bc.es[j]) {
					return false
				}
			} else if !meq(a.es[i], bc.es[i]) {
				return false
			}
		}
		return true
	}
	return a == nil && b == nil
}

// find gives the index of a key (map) or an element
func (c *mcoll) find(k mval) int {
	s := c.es
	if c.isMap {
		s = c.ks
	}
	for i := range s {
		if meq(s[i], k) {
			return i
		}
	}
	return -1
}

// mcopy makes a copy of the content. It fails on a native if the copy is to be frozen (what a thawed copy does with natives is left open)
func mcopy(v mval, frozen bool) (mval, bool) {
	switch v := v.(type) {
	case mscal:
		return v, !(v.native && frozen)
	case *mcoll:
		if v.frozen && frozen {
			return v, true
		}
		c := &mcoll{isMap: v.isMap, strct: v.strct, frozen: frozen, ks: append([]mval{}, v.ks...), es: make([]mval, len(v.es))}
		for i := range v.es {
			e, ok := mcopy(v.es[i], frozen)
			if !ok {
				return nil, false
			}
			c.es[i] = e
		}
		return c, true
	}
	return v, true
}

func (c *mcoll) reaches(o *mcoll) bool {
	if c == o {
		return true
	}
	for _, e := range c.es {
		if ec, ok := e.(*mcoll); ok && ec.reaches(o) {
			return true
		}
	}
	return false
}

func msize(v mval) int {
	n := 1
	if c, ok := v.(*mcoll); ok {
		for _, e := range c.es {
			n += msize(e)
		}
	}
	return n
}

type mpair struct {
	real dgo.Value
	m    *mcoll
}

type mworld struct {
	x      *X
	ti     int
	reg    []mpair
	byReal map[dgo.Value]*mcoll
	fault  int // the call of a callback that fails
	what   string
}

type injected struct{ n int }

func (e injected) Error() string { return fmt.Sprintf(`injected failure %d`, e.n) }

// call counts a callback invocation
func (w *mworld) call() {
	if w.fault > 0 {
		w.fault--
		if w.fault == 0 {
			w.x.fault(`callback-panics`)
			panic(injected{1})
		}
	}
}

func scalarFor(a int) dgo.Value {
	if a < 0 {
		a = -a
	}
	k := a / 7
	switch a % 7 {
	case 0, 1:
		return vf.Integer(int64(k % 24))
	case 2:
		return vf.Integer(int64(k%9) * 4096) // collide in the hash table
	case 3:
		return vf.String(fmt.Sprintf("k%d", k%20))
	case 4:
		return vf.String(strs[k%len(strs)])
	case 5:
		if k%3 == 0 {
			return vf.Nil
		}
		return vf.Boolean(k%2 == 0)
	}
	return vf.Float(float64(k%8) + 0.25)
}

func (w *mworld) scalar(a int) mscal {
	v := scalarFor(a)
	return mscal{d: dump(v, 0), v: v}
}

// arg makes an argument; a collection is one of the registered ones unless that would create a cycle
func (w *mworld) arg(a int, rcv *mcoll) (dgo.Value, mval) {
	switch a % 9 {
	case 0, 1:
		p := w.reg[a/9%len(w.reg)]
		if (rcv == nil || !p.m.reaches(rcv)) && msize(p.m) < 40 {
			return p.real, p.m
		}
	case 2:
		if a/9%5 == 0 {
			v := vf.Value(complex(float64(a), 1))
			s := mscal{d: dump(v, 0), v: v, native: true}
			return v, s
		}
	case 3:
		// a new mutable array
		s := w.scalar(a / 9)
		v := vf.MutableValues(s.v)
		m := &mcoll{es: []mval{s}}
		w.byReal[v] = m
		return v, m
	}
	s := w.scalar(a / 9)
	return s.v, s
}

func (w *mworld) key(a int) (dgo.Value, mval) {
	switch a % 11 {
	case 0:
		s := w.scalar(a / 11)
		v := vf.MutableValues(s.v)
		return v, &mcoll{es: []mval{s}}
	case 1:
		if a/11%6 == 0 {
			v := vf.Value(complex(float64(a), 1))
			return v, mscal{d: dump(v, 0), v: v, native: true}
		}
	}
	s := w.scalar(a / 11)
	return s.v, s
}

func (w *mworld) someKey(a int, c *mcoll) (dgo.Value, mval) {
	if a%2 == 0 && len(c.ks) > 0 {
		k := c.ks[a/2%len(c.ks)]
		return w.real(k), k
	}
	return w.key(a / 2)
}

// real builds a value with the content of the model
func (w *mworld) real(m mval) dgo.Value {
	switch m := m.(type) {
	case mscal:
		return m.v
	case *mcoll:
		for _, p := range w.reg {
			if p.m == m {
				return p.real
			}
		}
		vs := make([]interface{}, 0, len(m.es)*2)
		for i := range m.es {
			if m.isMap {
				vs = append(vs, w.real(m.ks[i]))
			}
			vs = append(vs, w.real(m.es[i]))
		}
		switch {
		case m.isMap && m.frozen:
			return vf.Map(vs...)
		case m.isMap:
			r := vf.MutableMap()
			for i := 0; i < len(vs); i += 2 {
				r.Put(vs[i], vs[i+1])
			}
			return r
		case m.frozen:
			return vf.Values(vs...)
		}
		return vf.MutableValues(vs...)
	}
	return nil
}

// adopt gives the model of a value that was obtained. Known collections keep their model.
func (w *mworld) adopt(v dgo.Value, exp mval, strict bool) mval {
	ec, ok := exp.(*mcoll)
	if !ok {
		return exp
	}
	if m, ok := w.byReal[v]; ok {
		if strict && !m.frozen {
			w.x.fail(`copy-shares`, "thread %d: %s: the copy holds the mutable %s of the original", w.ti, w.what, dump(v, dFrozen))
		}
		return m
	}
	c := &mcoll{isMap: ec.isMap, strct: ec.strct, frozen: isFrozen(v), ks: ec.ks}
	w.byReal[v] = c
	switch r := v.(type) {
	case dgo.Array:
		for i := range ec.es {
			c.es = append(c.es, w.adopt(r.Get(i), ec.es[i], strict))
		}
	case dgo.Map:
		for i := range ec.es {
			c.es = append(c.es, w.adopt(r.Get(w.real(ec.ks[i])), ec.es[i], strict))
		}
	}
	return c
}

// outcome is what the model says about an operation
type mout struct {
	res   mval   // the result
	after *mcoll // the receiver afterwards
	// states that the receiver may have after a failure, besides the original one
	steps []*mcoll
	must  bool // it must fail
	may   bool // it may fail
	any   bool // the result is not compared
	loose bool // nested parts may be copies, mutable or not
	alt   mval // another result that is as good
	copy  bool // the result shares no mutable part with anything
}

func (c *mcoll) with(ks, es []mval) *mcoll {
	return &mcoll{isMap: c.isMap, strct: c.strct, frozen: c.frozen, ks: ks, es: es}
}

func (c *mcoll) clone() *mcoll {
	return c.with(append([]mval{}, c.ks...), append([]mval{}, c.es...))
}

// put is the model of Put
func (c *mcoll) put(k, v mval) bool {
	if c.strct {
		i := c.find(k)
		if i < 0 {
			return false
		}
		if s, ok := v.(mscal); ok && s.v == vf.Nil {
			// gives the field its zero value
			switch i {
			case 0:
				v = mint(0)
			case 1:
				v = mscal{d: `""`, v: vf.String(``)}
			}
		}
		switch i {
		case 0:
			s, ok := v.(mscal)
			if !ok {
				return false
			}
			if _, ok = s.v.(dgo.Integer); !ok {
				return false
			}
		case 1:
			s, ok := v.(mscal)
			if !ok {
				return false
			}
			if _, ok = s.v.(dgo.String); !ok {
				return false
			}
		}
		c.es[i] = v
		return true
	}
	if i := c.find(k); i >= 0 {
		c.es[i] = v
		return true
	}
	fk, ok := mcopy(k, true)
	if !ok {
		return false
	}
	c.ks = append(c.ks, fk)
	c.es = append(c.es, v)
	return true
}

func (c *mcoll) del(k mval) mval {
	if i := c.find(k); i >= 0 {
		old := c.es[i]
		c.ks = append(append([]mval{}, c.ks[:i]...), c.ks[i+1:]...)
		c.es = append(append([]mval{}, c.es[:i]...), c.es[i+1:]...)
		return old
	}
	return nil
}

// toFrozen makes what is put into the derivation of a frozen collection
func (c *mcoll) toHash() *mcoll {
	r := c.clone()
	r.strct = false
	return r
}

// failing collections: deliver some elements and fail
type failArray struct {
	dgo.Array
	w *mworld
}

func (f *failArray) Each(actor dgo.Consumer) {
	f.Array.Each(func(v dgo.Value) { f.w.call(); actor(v) })
}

type anyMap = dgo.Map
type failMap struct {
	anyMap
	w *mworld
}

func (f *failMap) EachEntry(actor dgo.EntryActor) {
	f.anyMap.EachEntry(func(v dgo.MapEntry) { f.w.call(); actor(v) })
}
func (f *failMap) Each(actor dgo.Consumer) {
	f.anyMap.Each(func(v dgo.Value) { f.w.call(); actor(v) })
}

type mopFn func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout)

var arrMops = map[string]mopFn{}
var mapMops = map[string]mopFn{}
var arrMopNames, mapMopNames []string

// iterable picks an array (perhaps one that fails) as argument
func (w *mworld) iterable(a int, rcv *mcoll) (dgo.Iterable, *mcoll, bool) {
	var p mpair
	ok := false
	for i := 0; i < len(w.reg) && !ok; i++ {
		p = w.reg[(a/2+i)%len(w.reg)]
		ok = !p.m.isMap && (!p.m.reaches(rcv) || p.m == rcv) && len(p.m.es) < 30
	}
	if p.m == rcv {
		for _, e := range rcv.es {
			if ec, k := e.(*mcoll); k && ec.reaches(rcv) {
				ok = false
			}
		}
	}
	if !ok {
		s := w.scalar(a)
		p = mpair{vf.Values(s.v), &mcoll{frozen: true, es: []mval{s}}}
	}
	if w.fault > 0 {
		return &failArray{p.real.(dgo.Array), w}, p.m, w.fault <= len(p.m.es)
	}
	return p.real.(dgo.Array), p.m, false
}

func (w *mworld) mapping(a int, rcv *mcoll) (dgo.Map, *mcoll, bool) {
	var p mpair
	ok := false
	for i := 0; i < len(w.reg) && !ok; i++ {
		p = w.reg[(a/2+i)%len(w.reg)]
		ok = p.m.isMap && !p.m.reaches(rcv) && len(p.m.es) < 30
	}
	if !ok {
		s := w.scalar(a)
		p = mpair{vf.Map(s.v, 1), &mcoll{isMap: true, frozen: true, ks: []mval{s}, es: []mval{mscal{d: dump(vf.Integer(1), 0), v: vf.Integer(1)}}}}
	}
	if w.fault > 0 {
		return &failMap{p.real.(dgo.Map), w}, p.m, w.fault <= len(p.m.es)
	}
	return p.real.(dgo.Map), p.m, false
}

func mbool(b bool) mval { return mscal{d: dump(vf.Boolean(b), 0), v: vf.Boolean(b)} }
func mint(i int) mval   { return mscal{d: dump(vf.Integer(int64(i)), 0), v: vf.Integer(int64(i))} }

// mpred is a predicate that real and model share
func mpred(d string, a int) bool { return h64(d)%3 == uint64(a%3) || a%5 == 0 }

func unflag(d string) string {
	return strings.NewReplacer(`F[`, `[`, `M[`, `[`, `F{`, `{`, `M{`, `{`).Replace(d)
}

func rpred(w *mworld, a int) func(dgo.Value) bool {
	return func(v dgo.Value) bool { w.call(); return mpred(dump(v, 0), a) }
}

func mp1(v mval, a int) bool { return mpred(unflag(mdump(v)), a) }

// calls tells if the fault fires in an operation that makes n calls
func (w *mworld) fires(n int) bool { return w.fault > 0 && w.fault <= n }

func frozenM(c *mcoll, es []mval) ([]mval, bool) {
	if !c.frozen {
		return es, true
	}
	r := make([]mval, len(es))
	for i := range es {
		var ok bool
		if r[i], ok = mcopy(es[i], true); !ok {
			return nil, false
		}
	}
	return r, true
}

func init() {
	arrOp := func(name string, f mopFn) { arrMops[name] = f; arrMopNames = append(arrMopNames, name) }
	mapOp := func(name string, f mopFn) { mapMops[name] = f; mapMopNames = append(mapMopNames, name) }

	arrOp(`Add`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[0], c)
		n := c.clone()
		n.es = append(n.es, mv)
		return func() interface{} { arr(v).Add(rv); return nil }, mout{after: n, must: c.frozen}
	})
	arrOp(`AddGo`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n := c.clone()
		n.es = append(n.es, mint(a[0]), w.scalar(3+7*11))
		return func() interface{} { arr(v).AddValues(a[0], scalarFor(3+7*11).String()); return nil }, mout{after: n, must: c.frozen}
	})
	arrOp(`AddAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		ri, mi, f := w.iterable(a[0], c)
		n := c.clone()
		var steps []*mcoll
		for _, e := range mi.es {
			n.es = append(n.es, e)
			steps = append(steps, n.clone())
		}
		return func() interface{} { arr(v).AddAll(ri); return nil }, mout{after: n, steps: steps, must: c.frozen && len(mi.es) > 0, may: c.frozen || f}
	})
	arrOp(`AddValues`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		r1, m1 := w.arg(a[0], c)
		r2, m2 := w.arg(a[1], c)
		n := c.clone()
		n.es = append(n.es, m1, m2)
		return func() interface{} { arr(v).AddValues(r1, r2); return nil }, mout{after: n, must: c.frozen}
	})
	arrOp(`Set`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[0], c)
		i := a[1]%(len(c.es)+2) - a[2]%2
		if i < 0 || i >= len(c.es) {
			return func() interface{} { return arr(v).Set(i, rv) }, mout{must: true}
		}
		n := c.clone()
		n.es[i] = mv
		return func() interface{} { return arr(v).Set(i, rv) }, mout{after: n, res: c.es[i], must: c.frozen}
	})
	arrOp(`Insert`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[0], c)
		i := a[1]%(len(c.es)+3) - a[2]%8/7
		f := func() interface{} { arr(v).Insert(i, rv); return nil }
		if i < 0 || i > len(c.es) {
			return f, mout{must: true}
		}
		n := c.clone()
		n.es = append(append(append([]mval{}, c.es[:i]...), mv), c.es[i:]...)
		return f, mout{after: n, must: c.frozen}
	})
	arrOp(`Remove`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		i := a[0]%(len(c.es)+2) - a[1]%8/7
		f := func() interface{} { return arr(v).Remove(i) }
		if i < 0 || i >= len(c.es) {
			return f, mout{may: true, res: nil}
		}
		n := c.with(nil, append(append([]mval{}, c.es[:i]...), c.es[i+1:]...))
		return f, mout{after: n, res: c.es[i], must: c.frozen}
	})
	arrOp(`RemoveValue`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		var mv mval
		if len(c.es) > 0 && a[1]%3 > 0 {
			mv = c.es[a[0]%len(c.es)]
		} else {
			_, mv = w.key(a[0])
		}
		rv := w.real(mv)
		f := func() interface{} { return arr(v).RemoveValue(rv) }
		i := c.find(mv)
		if ms, ok := mv.(mscal); ok && ms.native {
			// a native equals itself only
			return f, mout{any: true, must: c.frozen, may: true, after: c, steps: w.removals(c)}
		}
		if i < 0 {
			return f, mout{res: mbool(false), may: c.frozen}
		}
		n := c.with(nil, append(append([]mval{}, c.es[:i]...), c.es[i+1:]...))
		return f, mout{after: n, res: mbool(true), must: c.frozen}
	})
	arrOp(`Pop`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		f := func() interface{} {
			r, ok := arr(v).Pop()
			if ok != (r != nil) {
				return `inconsistent result of Pop`
			}
			return r
		}
		if len(c.es) == 0 {
			return f, mout{may: c.frozen}
		}
		l := len(c.es) - 1
		return f, mout{after: c.with(nil, append([]mval{}, c.es[:l]...)), res: c.es[l], must: c.frozen}
	})
	arrOp(`Get`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		i := a[0]%(len(c.es)+2) - a[1]%8/7
		f := func() interface{} { return arr(v).Get(i) }
		if i < 0 || i >= len(c.es) {
			return f, mout{must: true}
		}
		return f, mout{res: c.es[i]}
	})
	arrOp(`IndexOf`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		var mv mval
		if len(c.es) > 0 && a[1]%3 > 0 {
			mv = c.es[a[0]%len(c.es)]
		} else {
			_, mv = w.key(a[0])
		}
		rv := w.real(mv)
		o := mout{res: mint(c.find(mv))}
		if ms, ok := mv.(mscal); ok && ms.native {
			o.any = true
		}
		return func() interface{} { return arr(v).IndexOf(rv) }, o
	})
	arrOp(`Slice`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		i, j := a[0]%(len(c.es)+2), a[1]%(len(c.es)+2)
		if a[2]%4 > 0 && i > j {
			i, j = j, i
		}
		f := func() interface{} { return arr(v).Slice(i, j) }
		if i > j || j > len(c.es) {
			return f, mout{may: true, any: true}
		}
		return f, mout{res: c.with(nil, append([]mval{}, c.es[i:j]...))}
	})
	arrOp(`Copy`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n, ok := mcopy(c, a[0]%2 == 0)
		return func() interface{} {
			switch {
			case a[1]%3 > 0:
				return arr(v).Copy(a[0]%2 == 0)
			case a[0]%2 == 0:
				return arr(v).FrozenCopy()
			}
			return arr(v).ThawedCopy()
		}, mout{res: n, must: !ok, may: mHasNative(c), copy: true}
	})
	arrOp(`With`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[0], c)
		es, ok := frozenM(c, append(append([]mval{}, c.es...), mv))
		return func() interface{} {
			if a[1]%2 == 0 {
				return arr(v).With(rv)
			}
			return arr(v).WithValues(rv)
		}, mout{res: c.with(nil, es), must: !ok}
	})
	arrOp(`WithAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		ri, mi, f := w.iterable(a[0], c)
		es, ok := frozenM(c, append(append([]mval{}, c.es...), mi.es...))
		return func() interface{} { return arr(v).WithAll(ri) }, mout{res: c.with(nil, es), must: !ok, may: f || mHasNative(c), loose: true}
	})
	filter := func(sel bool) mopFn {
		return func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
			es := []mval{}
			for _, e := range c.es {
				if mp1(e, a[0]) == sel {
					es = append(es, e)
				}
			}
			return func() interface{} {
				if sel {
					return arr(v).Select(rpred(w, a[0]))
				}
				return arr(v).Reject(rpred(w, a[0]))
			}, mout{res: c.with(nil, es), must: w.fires(len(c.es))}
		}
	}
	arrOp(`Select`, filter(true))
	arrOp(`Reject`, filter(false))
	arrOp(`Map`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[1], c)
		es := append([]mval{}, c.es...)
		for i := range es {
			if mp1(es[i], a[0]) {
				es[i] = mv
			}
		}
		es, ok := frozenM(c, es)
		p := rpred(w, a[0])
		return func() interface{} {
			return arr(v).Map(func(e dgo.Value) interface{} {
				if p(e) {
					return rv
				}
				return e
			})
		}, mout{res: c.with(nil, es), must: !ok || w.fires(len(c.es))}
	})
	arrOp(`Quantors`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n, first := 0, -1
		for i, e := range c.es {
			if mp1(e, a[0]) {
				if n++; first < 0 {
					first = i
				}
			}
		}
		f := w.fault
		w.fault = 0
		var fe mval
		if first >= 0 {
			fe = c.es[first]
		}
		res := &mcoll{frozen: false, es: []mval{mbool(n == len(c.es)), mbool(n > 0), mbool(n == 1), mint(len(c.es))}}
		if fe != nil {
			res.es = append(res.es, fe)
		}
		_ = f
		return func() interface{} {
			p := rpred(w, a[0])
			r := vf.MutableValues(arr(v).All(p), arr(v).Any(p), arr(v).One(p), arr(v).Len())
			x := arr(v).Find(func(e dgo.Value) interface{} {
				if p(e) {
					return e
				}
				return nil
			})
			if x != nil {
				r.Add(x)
			}
			return r
		}, mout{res: res}
	})
	arrOp(`Each`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		return func() interface{} {
			r := vf.MutableValues()
			if a[0]%2 == 0 {
				arr(v).Each(func(e dgo.Value) { w.call(); r.Add(e) })
			} else {
				arr(v).EachWithIndex(func(e dgo.Value, i int) {
					w.call()
					if i == r.Len() {
						r.Add(e)
					}
				})
			}
			return r
		}, mout{res: &mcoll{es: append([]mval{}, c.es...)}, must: w.fires(len(c.es))}
	})
	arrOp(`Reduce`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		m := a[0]
		for _, e := range c.es {
			m = (m*31 + len(unflag(mdump(e)))) % 100003
		}
		return func() interface{} {
			return arr(v).Reduce(a[0], func(m, e dgo.Value) interface{} {
				w.call()
				return (int(m.(dgo.Integer).GoInt())*31 + len(dump(e, 0))) % 100003
			})
		}, mout{res: mint(m), must: w.fires(len(c.es))}
	})
	arrOp(`Flatten`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		var es []mval
		var fl func(c *mcoll)
		fl = func(c *mcoll) {
			for _, e := range c.es {
				if ec, ok := e.(*mcoll); ok && !ec.isMap {
					fl(ec)
				} else {
					es = append(es, e)
				}
			}
		}
		fl(c)
		return func() interface{} { return arr(v).Flatten() }, mout{res: c.with(nil, es)}
	})
	arrOp(`Unique`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n := c.with(nil, nil)
		nat := false
		for _, e := range c.es {
			if s, ok := e.(mscal); ok && s.native {
				nat = true
			}
			if n.find(e) < 0 {
				n.es = append(n.es, e)
			}
		}
		return func() interface{} { return arr(v).Unique() }, mout{res: n, any: nat}
	})
	arrOp(`Sort`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		ints := true
		for _, e := range c.es {
			s, ok := e.(mscal)
			if ok {
				_, ok = s.v.(dgo.Integer)
			}
			ints = ints && ok
		}
		if ints {
			es := append([]mval{}, c.es...)
			sort.SliceStable(es, func(i, j int) bool {
				return es[i].(mscal).v.(dgo.Integer).GoInt() < es[j].(mscal).v.(dgo.Integer).GoInt()
			})
			return func() interface{} { return arr(v).Sort() }, mout{res: c.with(nil, es)}
		}
		want := []string{}
		for _, e := range c.es {
			want = append(want, mdump(e))
		}
		sort.Strings(want)
		return func() interface{} {
			s := arr(v).Sort()
			have := []string{}
			s.Each(func(e dgo.Value) { have = append(have, dump(e, dFrozen)) })
			sort.Strings(have)
			if strings.Join(have, `|`) != strings.Join(want, `|`) || s.Frozen() != c.frozen {
				return `not a permutation: ` + dump(s, dFrozen)
			}
			return nil
		}, mout{}
	})
	arrOp(`ContainsAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		ri, mi, f := w.iterable(a[0], c)
		used := map[int]bool{}
		all := true
		for _, e := range mi.es {
			ok := false
			for i := range c.es {
				if !used[i] && meq(c.es[i], e) {
					used[i], ok = true, true
					break
				}
			}
			all = all && ok
		}
		nat := strings.Contains(mdump(c), `native(`) && strings.Contains(mdump(mi), `native(`)
		return func() interface{} {
			if a[1]%2 == 0 {
				return arr(v).ContainsAll(ri)
			}
			return arr(v).SameValues(ri)
		}, mout{res: mbool(all && (a[1]%2 == 0 || len(mi.es) == len(c.es))), may: f, any: nat}
	})
	arrOp(`ToMap`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n := &mcoll{isMap: true}
		ok := true
		for i := 0; i < len(c.es) && ok; i += 2 {
			var mv mval = mscal{d: dump(vf.Nil, 0), v: vf.Nil}
			if i+1 < len(c.es) {
				mv = c.es[i+1]
			}
			ok = n.put(c.es[i], mv)
		}
		n.frozen = c.frozen
		return func() interface{} { return arr(v).ToMap() }, mout{res: n, must: !ok}
	})
	arrOp(`ToMapFromEntries`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n := &mcoll{isMap: true}
		good, nat := true, false
		for _, e := range c.es {
			p, ok := e.(*mcoll)
			if !ok || p.isMap || len(p.es) != 2 {
				good = false
				break
			}
			if !n.put(p.es[0], p.es[1]) {
				nat = true
				break
			}
		}
		n.frozen = c.frozen
		o := mout{res: n, must: nat}
		if !good {
			o.res = nil
		}
		return func() interface{} {
			m, ok := arr(v).ToMapFromEntries()
			if !ok {
				return nil
			}
			return m
		}, o
	})
	arrOp(`Equals`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		p := w.reg[a[0]%len(w.reg)]
		return func() interface{} { return v.Equals(p.real) }, mout{res: mbool(meq(c, p.m)), any: strings.Contains(mdump(c), `native(`)}
	})
	arrOp(`Freeze`, mFreeze)
	mapOp(`Freeze`, mFreeze)
	mapOp(`Equals`, arrMops[`Equals`])
	arrOp(`AppendToSlice`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		return func() interface{} {
			s := arr(v).AppendToSlice(make([]dgo.Value, 0, a[0]%20))
			r := vf.MutableValues()
			for _, e := range s {
				r.Add(e)
			}
			for i := range s { // it is the caller's
				s[i] = vf.Integer(-1)
			}
			return r
		}, mout{res: &mcoll{es: append([]mval{}, c.es...)}}
	})

	// ---- maps
	mapOp(`Put`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rk, mk := w.someKey(a[0], c)
		rv, mv := w.arg(a[1], c)
		if c.strct && len(c.es) > 0 && a[2]%3 > 0 {
			mv = w.scalar(a[1])
			rv = mv.(mscal).v
		}
		n := c.clone()
		i := c.find(mk)
		ok := n.put(mk, mv)
		o := mout{after: n, must: c.frozen || !ok}
		if i >= 0 {
			o.res = c.es[i]
		}
		return func() interface{} { return mp(v).Put(rk, rv) }, o
	})
	mapOp(`PutAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rm, mm, f := w.mapping(a[0], c)
		n := c.clone()
		var steps []*mcoll
		ok := true
		for i := range mm.ks {
			if !n.put(mm.ks[i], mm.es[i]) {
				ok = false
				break
			}
			steps = append(steps, n.clone())
		}
		return func() interface{} { mp(v).PutAll(rm); return nil }, mout{after: n, steps: steps, must: (c.frozen && len(mm.ks) > 0) || (!ok && w.fault == 0), may: c.frozen || f || !ok}
	})
	mapOp(`Remove`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rk, mk := w.someKey(a[0], c)
		n := c.clone()
		old := n.del(mk)
		return func() interface{} { return mp(v).Remove(rk) }, mout{after: n, res: old, must: (c.frozen && old != nil) || c.strct, may: c.frozen}
	})
	delAll := func(w *mworld, c *mcoll, a []int) (dgo.Array, *mcoll, bool) {
		rs := vf.MutableValues()
		n := c.clone()
		hit := false
		for i := 0; i < 1+a[1]%4; i++ {
			rk, mk := w.someKey(a[0]+i*37, c)
			if ms, ok := mk.(mscal); ok && ms.native {
				continue
			}
			rs.Add(rk)
			hit = n.del(mk) != nil || hit
		}
		return rs, n, hit
	}
	mapOp(`RemoveAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rs, n, hit := delAll(w, c, a)
		return func() interface{} { mp(v).RemoveAll(rs); return nil }, mout{after: n, must: (c.frozen && hit) || (c.strct && hit), may: c.frozen || c.strct}
	})
	mapOp(`WithoutAll`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rs, n, hit := delAll(w, c, a)
		if hit || true {
			n.strct = false
		}
		return func() interface{} { return mp(v).WithoutAll(rs) }, mout{res: n}
	})
	mapOp(`Without`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rk, mk := w.someKey(a[0], c)
		n := c.toHash()
		n.del(mk)
		return func() interface{} { return mp(v).Without(rk) }, mout{res: n}
	})
	mapOp(`With`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rk, mk := w.someKey(a[0], c)
		rv, mv := w.arg(a[1], c)
		n := c.toHash()
		ok := n.put(mk, mv)
		if ok && c.frozen {
			n.es, ok = frozenM(c, n.es)
		}
		o := mout{res: n, must: !ok}
		if i := c.find(mk); i >= 0 && meq(c.es[i], mv) {
			// the value is there already, although perhaps with another order of entries: the receiver itself is a good result
			o.alt = c.toHash()
		}
		return func() interface{} { return mp(v).With(rk, rv) }, o
	})
	mapOp(`Merge`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rm, mm, f := w.mapping(a[0], c)
		n := c.toHash()
		ok := true
		for i := range mm.ks {
			ok = ok && n.put(mm.ks[i], mm.es[i])
		}
		if c.strct {
			// what a frozen struct map and a mutable map give is mutable
			n.frozen = c.frozen && mm.frozen
		} else if ok && c.frozen {
			n.es, ok = frozenM(c, n.es)
		}
		return func() interface{} { return mp(v).Merge(rm) }, mout{res: n, must: !ok && w.fault == 0 && len(c.es) > 0, may: f || !ok, any: !ok}
	})
	mapOp(`Get`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rk, mk := w.someKey(a[0], c)
		o := mout{}
		if i := c.find(mk); i >= 0 {
			o.res = c.es[i]
		}
		return func() interface{} {
			r := mp(v).Get(rk)
			if (r != nil) != mp(v).ContainsKey(rk) {
				return `Get and ContainsKey differ`
			}
			return r
		}, o
	})
	mapOp(`Keys`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		return func() interface{} { return mp(v).Keys() }, mout{res: &mcoll{frozen: true, es: append([]mval{}, c.ks...)}}
	})
	mapOp(`Values`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n := &mcoll{frozen: c.frozen, es: append([]mval{}, c.es...)}
		ok := true
		if c.strct {
			n.frozen = true
			n.es, ok = frozenM(n, n.es)
		}
		return func() interface{} { return mp(v).Values() }, mout{res: n, must: !ok}
	})
	mapOp(`Map`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		rv, mv := w.arg(a[1], c)
		n := c.toHash()
		for i := range n.es {
			if mp1(n.ks[i], a[0]) {
				n.es[i] = mv
			}
		}
		var ok bool
		n.es, ok = frozenM(c, n.es)
		p := rpred(w, a[0])
		return func() interface{} {
			return mp(v).Map(func(e dgo.MapEntry) interface{} {
				if p(e.Key()) {
					return rv
				}
				return e.Value()
			})
		}, mout{res: n, must: !ok || w.fires(len(c.es))}
	})
	mapOp(`Copy`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		n, ok := mcopy(c, a[0]%2 == 0)
		return func() interface{} {
			switch {
			case a[1]%3 > 0:
				return mp(v).Copy(a[0]%2 == 0)
			case a[0]%2 == 0:
				return mp(v).FrozenCopy()
			}
			return mp(v).ThawedCopy()
		}, mout{res: n, must: !ok, may: mHasNative(c), copy: true}
	})
	mapOp(`Each`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		r := &mcoll{}
		for i := range c.es {
			if a[0]%4 != 2 {
				r.es = append(r.es, c.ks[i])
			}
			if a[0]%4 != 3 {
				r.es = append(r.es, c.es[i])
			}
		}
		return func() interface{} {
			s := vf.MutableValues()
			switch a[0] % 4 {
			case 0:
				mp(v).EachEntry(func(e dgo.MapEntry) { w.call(); s.AddValues(e.Key(), e.Value()) })
			case 1:
				mp(v).Each(func(e dgo.Value) { w.call(); s.AddValues(e.(dgo.MapEntry).Key(), e.(dgo.MapEntry).Value()) })
			case 2:
				mp(v).EachValue(func(e dgo.Value) { w.call(); s.Add(e) })
			default:
				mp(v).EachKey(func(e dgo.Value) { w.call(); s.Add(e) })
			}
			return s
		}, mout{res: r, must: w.fires(len(c.es))}
	})
	mapOp(`Quantors`, func(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
		w.fault = 0
		nk, nv, str := 0, 0, true
		for i := range c.es {
			if mp1(c.ks[i], a[0]) {
				nk++
			}
			if mp1(c.es[i], a[0]) {
				nv++
			}
			s, ok := c.ks[i].(mscal)
			if ok {
				_, ok = s.v.(dgo.String)
			}
			str = str && ok
		}
		l := len(c.es)
		res := &mcoll{es: []mval{mbool(nk == l), mbool(nk == l), mbool(nv == l), mbool(nk > 0), mbool(nk > 0), mbool(nv > 0), mint(l), mbool(str), mbool(nk > 0)}}
		return func() interface{} {
			p := rpred(w, a[0])
			pe := func(e dgo.MapEntry) bool { return p(e.Key()) }
			m := mp(v)
			return vf.MutableValues(m.All(pe), m.AllKeys(p), m.AllValues(p), m.Any(pe), m.AnyKey(p), m.AnyValue(p), m.Len(), m.StringKeys(), m.Find(pe) != nil)
		}, mout{res: res}
	})
	register(&Scenario{
		Prop: `C05`, Race: 5, Chunk: 400, FreshPct: 0, Quick: 90000, Thorough: 1500000,
		Rule: `Each run draws 2-5 collections (arrays, maps, struct maps, nested, mutable and frozen; maps of up to 45 entries with colliding hash codes) and a history of 10-60 operations out of 47 kinds on them and on what is derived from them, with failures injected into the n-th invocation of a callback or the n-th element delivered by an iterated argument, indexes out of range, keys and elements that cannot be frozen, and callbacks that modify the collection that is being iterated. After every operation the result, the receiver and every other collection are compared with the model, and every entry is looked up by its key. A quarter of the runs has two threads with histories of their own.`,
		Real: []string{`internal/array.go, internal/map.go, internal/struct.go and what they use, instrumented`}, Stub: []string{`iterated arguments that fail are the harness's`, `goroutine scheduling`},
		Gen: genC05, Exec: execC05,
	})
}

func (w *mworld) removals(c *mcoll) []*mcoll {
	r := []*mcoll{}
	for i := range c.es {
		r = append(r, c.with(nil, append(append([]mval{}, c.es[:i]...), c.es[i+1:]...)))
	}
	return r
}

func freezeM(v mval) {
	if c, ok := v.(*mcoll); ok && !c.frozen {
		c.frozen = true
		for _, e := range c.es {
			freezeM(e)
		}
	}
}

func mHasNative(v mval) bool {
	switch v := v.(type) {
	case mscal:
		return v.native
	case *mcoll:
		for _, e := range v.es {
			if !v.frozen && mHasNative(e) {
				return true
			}
		}
	}
	return false
}

func mFreeze(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
	if a[0]%5 > 0 {
		return func() interface{} { return v.(dgo.Freezable).Frozen() }, mout{res: mbool(c.frozen)}
	}
	bad := mHasNative(c)
	if !bad {
		// the model objects inside are frozen too
		return func() interface{} { v.(dgo.Freezable).Freeze(); freezeM(c); return nil }, mout{}
	}
	return func() interface{} { v.(dgo.Freezable).Freeze(); return nil }, mout{must: !c.frozen}
}

// reentrant is an iteration whose callback modifies the collection that is iterated. What the iteration visits after that is
// left open, and so is its result. The modifications are ordinary operations and must all be there afterwards.
func reentrant(w *mworld, v dgo.Value, c *mcoll, a []int) (func() interface{}, mout) {
	cur := c.clone()
	if c.frozen || c.strct {
		return func() interface{} { return nil }, mout{}
	}
	budget := 1 + a[0]%3
	calls := 0
	modify := func() {
		w.call()
		calls++
		if budget == 0 || (calls+a[1])%2 == 0 {
			return
		}
		budget--
		k := a[2] + calls*31
		w.x.probe(`modified-while-iterating`)
		s := w.scalar(k / 7)
		if c.isMap {
			if k%3 == 0 && len(cur.ks) > 0 {
				key := cur.ks[k/3%len(cur.ks)]
				rk := w.real(key)
				cur.del(key)
				mp(v).Remove(rk)
				return
			}
			rk, mk := dgo.Value(s.v), mval(s)
			if k%3 == 1 && len(cur.ks) > 0 {
				mk = cur.ks[k/3%len(cur.ks)]
				rk = w.real(mk)
			}
			cur.put(mk, s)
			mp(v).Put(rk, s.v)
			return
		}
		n := len(cur.es)
		switch i := k / 5; k % 5 {
		case 0:
			cur.es = append(append([]mval{}, cur.es...), s)
			arr(v).Add(s.v)
		case 1:
			i %= n + 1
			cur.es = append(append(append([]mval{}, cur.es[:i]...), s), cur.es[i:]...)
			arr(v).Insert(i, s.v)
		case 2:
			if n > 0 {
				i %= n
				cur.es = append([]mval{}, cur.es...)
				cur.es[i] = s
				arr(v).Set(i, s.v)
			}
		case 3:
			if n > 0 {
				i %= n
				cur.es = append(append([]mval{}, cur.es[:i]...), cur.es[i+1:]...)
				arr(v).Remove(i)
			}
		default:
			if n > 0 {
				cur.es = append([]mval{}, cur.es[:n-1]...)
				arr(v).Pop()
			}
		}
	}
	return func() interface{} {
		kind := a[0] / 3
		if c.isMap {
			switch kind % 10 {
			case 0:
				mp(v).EachEntry(func(dgo.MapEntry) { modify() })
			case 1:
				mp(v).Each(func(dgo.Value) { modify() })
			case 2:
				mp(v).EachValue(func(dgo.Value) { modify() })
			case 3:
				mp(v).EachKey(func(dgo.Value) { modify() })
			case 4:
				mp(v).All(func(dgo.MapEntry) bool { modify(); return true })
			case 5:
				mp(v).AnyValue(func(dgo.Value) bool { modify(); return false })
			case 6:
				mp(v).Find(func(dgo.MapEntry) bool { modify(); return false })
			case 7:
				mp(v).AllKeys(func(dgo.Value) bool { modify(); return true })
			case 8:
				mp(v).Map(func(e dgo.MapEntry) interface{} { modify(); return 1 })
			default:
				mp(v).Any(func(dgo.MapEntry) bool { modify(); return calls > 4 })
			}
			return nil
		}
		switch kind % 9 {
		case 0:
			arr(v).Each(func(dgo.Value) { modify() })
		case 1:
			arr(v).EachWithIndex(func(dgo.Value, int) { modify() })
		case 2:
			arr(v).All(func(dgo.Value) bool { modify(); return true })
		case 3:
			arr(v).Any(func(dgo.Value) bool { modify(); return false })
		case 4:
			arr(v).Find(func(dgo.Value) interface{} { modify(); return nil })
		case 5:
			arr(v).Map(func(dgo.Value) interface{} { modify(); return 1 })
		case 6:
			arr(v).Select(func(dgo.Value) bool { modify(); return calls%2 == 0 })
		case 7:
			arr(v).Reduce(0, func(_, _ dgo.Value) interface{} { modify(); return calls })
		default:
			arr(v).One(func(dgo.Value) bool { modify(); return false })
		}
		return nil
	}, mout{after: cur, steps: []*mcoll{cur}, may: true}
}

func init() {
	arrMops[`Reentrant`], mapMops[`Reentrant`] = reentrant, reentrant
	arrMopNames, mapMopNames = append(arrMopNames, `Reentrant`), append(mapMopNames, `Reentrant`)
}

func genC05(r *Rand, p *Plan) {
	o := genOpts{}
	nt := 1
	if r.p(1, 4) {
		nt = 2
	}
	n := r.rng(2, 5)
	for i := 0; i < n; i++ {
		switch r.n(5) {
		case 0, 1:
			p.Vals = append(p.Vals, &Node{K: `a`, I: int64(r.n(1000)), M: r.n(5) / 4})
			p.Vals[i].S = fmt.Sprint(r.n([]int{6, 6, 14}[r.n(3)]))
		case 2, 3:
			p.Vals = append(p.Vals, &Node{K: `m`, I: int64(r.n(1000)), M: r.n(5) / 4})
			p.Vals[i].S = fmt.Sprint(r.n([]int{4, 10, 45}[r.n(3)]))
		default:
			p.Vals = append(p.Vals, &Node{K: `st`, I: int64(r.n(1000)), S: `3`})
		}
	}
	_ = o
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(10, 60); i < c; i++ {
			// the target decides between operations of arrays and maps: both are drawn
			f := 0
			if r.p(1, 6) {
				f = r.rng(1, 5)
			}
			ops = append(ops, Op{K: r.pick(arrMopNames), S: r.pick(mapMopNames), A: []int{r.n(1000), r.n(10000), r.n(10000), r.n(10000), f}})
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = rt.Config{Seed: r.u64(), Strategy: rt.Random, Den: uint32([]int{50, 300, 2000}[r.n(3)])}
	p.Cfg.MaxSteps = 12000000
}

func (w *mworld) build(n *Node) {
	sz := 0
	_, _ = fmt.Sscan(n.S, &sz)
	var m *mcoll
	var v dgo.Value
	switch n.K {
	case `a`:
		m = &mcoll{}
		a := vf.MutableValues()
		for i := 0; i < sz; i++ {
			s := w.scalar(int(n.I) + i*17)
			a.Add(s.v)
			m.es = append(m.es, s)
		}
		v = a
	case `m`:
		m = &mcoll{isMap: true}
		a := vf.MapWithCapacity(int(n.I) % 3 * 8)
		for i := 0; i < sz; i++ {
			k, s := w.scalar(int(n.I)+i*13), w.scalar(int(n.I)+i)
			a.Put(k.v, s.v)
			m.put(k, s)
		}
		v = a
	case `st`:
		s0 := vf.String(`x`)
		v = vf.Map(&MRec{A: int(n.I), B: `x`, V: s0})
		key := func(s string) mval { return mscal{d: dump(vf.String(s), 0), v: vf.String(s)} }
		m = &mcoll{isMap: true, strct: true, ks: []mval{key(`A`), key(`B`), key(`V`)}, es: []mval{mint(int(n.I)), key(`x`), key(`x`)}}
	}
	if n.M == 1 {
		v.(dgo.Freezable).Freeze()
		m.frozen = true
	}
	w.byReal[v] = m
	w.reg = append(w.reg, mpair{v, m})
}

func execC05(p *Plan, x *X) {
	fns := make([]func(), len(p.Threads))
	ends := make([]string, len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() { ends[t] = runModel(p, x, t) }
	}
	x.run(`histories of collections`, fns...)
	for _, e := range ends {
		x.note(e)
	}
}

func runModel(p *Plan, x *X, ti int) string {
	w := &mworld{x: x, ti: ti, byReal: map[dgo.Value]*mcoll{}}
	for _, n := range p.Vals {
		w.build(n)
	}
	for oi := range p.Threads[ti] {
		o := &p.Threads[ti][oi]
		pr := w.reg[o.A[0]%len(w.reg)]
		name := o.K
		f := arrMops[name]
		if pr.m.isMap {
			name = o.S
			f = mapMops[name]
		}
		w.fault = o.A[4]
		w.what = fmt.Sprintf("operation %d (%s on %s)", oi, name, mdump(pr.m))
		before := pr.m.clone()
		call, exp := f(w, pr.real, pr.m, o.A[1:4])
		var res interface{}
		pan := try(func() { res = call() })
		w.fault = 0
		if pan != nil {
			x.probe(`operation-failed`)
			if !exp.must && !exp.may {
				x.fail(`unexpected-failure:`+name, "thread %d: %s failed: %s", ti, w.what, panicText(pan))
				return ``
			}
			have := w.dump(pr.real)
			ok := have == mdump(before)
			if !ok {
				for _, s := range exp.steps {
					if have == mdump(s) {
						ok = true
						pr.m.ks, pr.m.es = s.ks, s.es
						x.probe(`partially-applied`)
						break
					}
				}
			}
			if !ok {
				x.fail(`inconsistent-after-failure:`+name, "thread %d: after %s failed with %s, the collection is %s", ti, w.what, panicText(pan), have)
				return ``
			}
			w.resync(pr)
		} else {
			if exp.must {
				x.fail(`failure-not-reported:`+name, "thread %d: %s returned %s instead of failing", ti, w.what, showRes(res))
				return ``
			}
			if exp.after != nil && !exp.any {
				pr.m.ks, pr.m.es = exp.after.ks, exp.after.es
			}
			if have := w.dump(pr.real); have != mdump(pr.m) {
				ok := false
				if exp.any {
					for _, s := range exp.steps {
						if have == mdump(s) {
							ok = true
							pr.m.ks, pr.m.es = s.ks, s.es
						}
					}
				}
				if !ok {
					x.fail(`content:`+name, "thread %d: after %s the collection is %s, expected %s", ti, w.what, have, mdump(pr.m))
					return ``
				}
			}
			if !exp.any && !w.result(name, res, exp, pr) {
				return ``
			}
		}
		if oi%2 == 0 && !w.looks(name, pr) {
			return ``
		}
		for _, q := range w.reg {
			if have := w.dump(q.real); have != mdump(q.m) {
				x.fail(`other-collection:`+name, "thread %d: after %s another collection is %s, expected %s", ti, w.what, have, mdump(q.m))
				return ``
			}
		}
		if x.failed() {
			return ``
		}
		if len(w.reg) > 14 {
			w.reg = append(append([]mpair{}, w.reg[:3]...), w.reg[len(w.reg)-9:]...)
		}
	}
	s := ``
	for _, q := range w.reg {
		s += mdump(q.m) + ` `
	}
	return s
}

// looks checks that what is computed from the contents of a collection is that of a new collection with the same contents
func (w *mworld) looks(name string, pr mpair) bool {
	if pr.m.strct {
		return true
	}
	t := w.twin(pr.m)
	bad := ``
	if pan := try(func() {
		switch {
		case !pr.real.Equals(t) || !t.Equals(pr.real):
			bad = `is not equal to`
		case pr.real.HashCode() != t.HashCode():
			bad = `has another hash code than`
		case pr.real.String() != t.String():
			bad = fmt.Sprintf(`has the string form %s, unlike`, pr.real)
		}
	}); pan != nil {
		bad = panicText(pan) + ` when it is compared to`
	}
	if bad != `` {
		w.x.fail(`looks:`+name, "thread %d: after %s the collection %s a new one with the same contents, %s", w.ti, w.what, bad, mdump(pr.m))
	}
	return bad == ``
}

// twin creates a collection from the model
func (w *mworld) twin(m mval) dgo.Value {
	c, ok := m.(*mcoll)
	if !ok {
		return w.real(m)
	}
	if c.strct {
		return w.real(m)
	}
	if c.isMap {
		r := vf.MutableMap()
		for i := range c.es {
			r.Put(w.twin(c.ks[i]), w.twin(c.es[i]))
		}
		return r
	}
	r := vf.MutableValues()
	for i := range c.es {
		r.Add(w.twin(c.es[i]))
	}
	return r
}

// resync finds out which collection is held after a failure, when one was perhaps replaced by another with the same content
func (w *mworld) resync(p mpair) {
	for i := range p.m.es {
		var v dgo.Value
		if p.m.isMap {
			v = p.real.(dgo.Map).Get(w.real(p.m.ks[i]))
		} else {
			v = p.real.(dgo.Array).Get(i)
		}
		if m, ok := w.byReal[v]; ok && mdump(m) == mdump(p.m.es[i]) {
			p.m.es[i] = m
		}
	}
}

func (w *mworld) dump(v dgo.Value) string {
	return protect(func() string { return dump(v, dFrozen|dLookup) })
}

func showRes(r interface{}) string {
	if v, ok := r.(dgo.Value); ok {
		return dump(v, dFrozen)
	}
	return fmt.Sprint(r)
}

// result compares the result and registers it
func (w *mworld) result(name string, res interface{}, exp mout, pr mpair) bool {
	want := mdump(exp.res)
	if exp.alt != nil {
		if rv, ok := res.(dgo.Value); ok && w.dump(rv) == mdump(exp.alt) {
			exp.res = exp.alt
			want = mdump(exp.res)
		}
	}
	var v dgo.Value
	switch r := res.(type) {
	case nil:
	case dgo.Value:
		v = r
	case string:
		w.x.fail(`result:`+name, "thread %d: %s: %s", w.ti, w.what, r)
		return false
	default:
		v = vf.Value(r)
	}
	have := `<nil>`
	if v != nil {
		have = w.dump(v)
	}
	if exp.loose && unflag(have) == unflag(want) && have[:1] == want[:1] {
		have = want
	}
	if have != want {
		// struct maps turn into ordinary maps
		if v == pr.real || (name == `Merge` && unflag(have) == unflag(want) && len(pr.m.es) == 0) {
			if unflag(have) == unflag(want) {
				return true
			}
		}
		w.x.fail(`result:`+name, "thread %d: %s gave %s, expected %s", w.ti, w.what, have, want)
		return false
	}
	if v == nil {
		return true
	}
	if c, ok := exp.res.(*mcoll); ok {
		if _, ok := v.(*failMap); ok {
			return true
		}
		if _, ok := v.(*failArray); ok {
			return true
		}
		m := w.adopt(v, c, exp.copy && !(v == pr.real && c.frozen)).(*mcoll)
		if msize(m) < 120 {
			w.reg = append(w.reg, mpair{v, m})
		}
	}
	return !w.x.failed()
}
