package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	_ "unsafe" // linkname

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// C04: freezing, with elements that refuse to be frozen

//go:linkname newAlias github.com/lyraproj/dgo/internal.NewAlias
func newAlias(s dgo.String) dgo.Alias

// simFrz is a freezable value of a user. It refuses to make a frozen copy when it is told to.
type simFrz struct {
	n      int
	frozen bool
	refuse bool
}

type frzErr struct{ n int }

func (e *frzErr) Error() string { return fmt.Sprintf(`injected: simFrz %d cannot be frozen`, e.n) }

var simFrzType = tf.NewNamed(`simFrz`, nil, nil, reflect.TypeOf(&simFrz{}), nil, nil)

func (v *simFrz) String() string            { return fmt.Sprintf(`simFrz(%d)`, v.n) }
func (v *simFrz) Type() dgo.Type            { return tf.ExactNamed(simFrzType, v) }
func (v *simFrz) Equals(o interface{}) bool { ov, ok := o.(*simFrz); return ok && v.n == ov.n }
func (v *simFrz) HashCode() int             { return v.n }
func (v *simFrz) Frozen() bool              { return v.frozen }
func (v *simFrz) Freeze()                   { v.frozen = true }
func (v *simFrz) FrozenCopy() dgo.Value {
	if v.frozen {
		return v
	}
	if v.refuse {
		panic(&frzErr{v.n})
	}
	return &simFrz{v.n, true, v.refuse}
}
func (v *simFrz) ThawedCopy() dgo.Value { return &simFrz{v.n, false, v.refuse} }

// reachable calls the actor with every mutable part of v, once
func mutableParts(v dgo.Value, seen map[dgo.Value]bool) {
	if v == nil {
		return
	}
	if f, ok := v.(dgo.Freezable); ok && reflect.TypeOf(v).Kind() == reflect.Ptr {
		switch v.(type) {
		case dgo.Native, dgo.Type:
			return
		case dgo.MapEntry, dgo.Sensitive:
			// Have no state of their own, but the entry of a map is a view of it
			if _, ok := v.(dgo.MapEntry); ok {
				if seen[v] {
					return
				}
				seen[v] = true
			}
		default:
			if !f.Frozen() {
				if seen[v] {
					return
				}
				seen[v] = true
			}
		}
	}
	switch c := v.(type) {
	case dgo.Type:
	case dgo.Array:
		for i, n := 0, c.Len(); i < n; i++ {
			mutableParts(c.Get(i), seen)
		}
	case dgo.Map:
		c.EachEntry(func(e dgo.MapEntry) {
			mutableParts(e, seen)
		})
	case dgo.MapEntry:
		mutableParts(c.Key(), seen)
		mutableParts(c.Value(), seen)
	case dgo.Sensitive:
		mutableParts(c.Unwrap(), seen)
	}
}

func partsOf(v dgo.Value) map[dgo.Value]bool {
	s := map[dgo.Value]bool{}
	mutableParts(v, s)
	return s
}

// shared tells which part two sets have in common
func sharedPart(a, b map[dgo.Value]bool) dgo.Value {
	for k := range a {
		if _, view := k.(dgo.MapEntry); !view && b[k] {
			return k
		}
	}
	return nil
}

// sharedView is like sharedPart, but an entry is a part of the map that it is a view of
func sharedView(a, b map[dgo.Value]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

type fWorld struct {
	x    *X
	pool []dgo.Value
	e    *env
}

type fSnap struct {
	text  []string // with flags
	parts []map[dgo.Value]bool

	frozen []bool
}

func (w *fWorld) snap() *fSnap {
	s := &fSnap{}
	for _, v := range w.pool {
		s.text = append(s.text, dump(v, dFrozen|dLookup))
		s.parts = append(s.parts, partsOf(v))
		s.frozen = append(s.frozen, isFrozen(v))
	}
	return s
}

// checkPool checks that the values changed only if they have a part that may have changed, and that frozen ones are deeply frozen
func (w *fWorld) checkPool(what string, before *fSnap, changed map[dgo.Value]bool) bool {
	for i, v := range w.pool {
		if isFreezable(v) && isFrozen(v) {
			if path := unfrozen(v); path != `` {
				w.x.fail(`not-deeply-frozen`, "after %s the value %d reports to be frozen, but %s is mutable: %s", what, i, path, dump(v, dFrozen))
				return false
			}
		}
		if i >= len(before.text) || changed != nil && !before.frozen[i] && sharedView(before.parts[i], changed) {
			continue
		}
		if now := dump(v, dFrozen|dLookup); now != before.text[i] {
			cl := `value-changed`
			if flagless(now) == flagless(before.text[i]) {
				cl = `original-frozen`
			}
			w.x.fail(cl, "%s changed value %d from %s to %s (F = frozen, M = mutable)", what, i, before.text[i], now)
			return false
		}
	}
	return true
}

func flagless(s string) string {
	for _, c := range []string{`[`, `{`, `<`, `sensitive(`, `bin:`} {
		s = strings.ReplaceAll(s, `F`+c, c)
		s = strings.ReplaceAll(s, `M`+c, c)
	}
	return s
}

// checkFrozen checks something that was obtained
func (w *fWorld) checkFrozen(what string, v dgo.Value) bool {
	if v == nil || !isFreezable(v) || !isFrozen(v) {
		return true
	}
	if path := unfrozen(v); path != `` {
		w.x.fail(`not-deeply-frozen`, "%s gave %s, which reports to be frozen but is mutable at %s", what, dump(v, dFrozen), path)
		return false
	}
	return true
}

// usable checks that every mutable part can be modified, and undoes the modification
func (w *fWorld) usable(what string, v dgo.Value) bool {
	return usableAfter(w.x, what, v)
}

func usableAfter(x *X, what string, v dgo.Value) bool {
	var parts []dgo.Value
	listParts(v, &parts)
	for _, part := range parts {
		part := part
		was := dump(part, dLookup)
		pan := try(func() {
			switch c := part.(type) {
			case dgo.Struct:
				old := c.Get(`X`)
				c.Put(`X`, 4711)
				c.Put(`X`, old)
			case dgo.Array:
				c.Add(`probe`)
				c.Pop()
			case dgo.Map:
				c.Put(`probe of use`, 1)
				c.Remove(`probe of use`)
			}
		})
		if pan != nil {
			x.fail(`unusable-after-failure`, "after %s failed, %s cannot be modified: %s", what, dump(part, dFrozen), panicText(pan))
			return false
		}
		if now := dump(part, dLookup); now != was {
			x.fail(`unusable-after-failure`, "after %s failed, adding to and removing from %s gives %s", what, was, now)
			return false
		}
	}
	return true
}

func (w *fWorld) failure(what string, pan interface{}) bool {
	var re runtime.Error
	if e, ok := pan.(error); ok && errors.As(e, &re) {
		w.x.fail(`runtime-error`, "%s: %s", what, panicText(pan))
		return false
	}
	w.x.fault(`refused-freeze`)
	return true
}

func (w *fWorld) add(v dgo.Value) {
	if v == nil || size(v) > 600 || !isFreezable(v) {
		return
	}
	if _, ok := v.(dgo.MapEntry); ok {
		return
	}
	if len(w.pool) < 14 {
		w.pool = append(w.pool, v)
	}
}

// stubborn puts something that cannot be frozen into a collection
func stubborn(a int) dgo.Value {
	switch a % 4 {
	case 0:
		return vf.Value(complex(1, 2))
	case 1:
		return newAlias(vf.String(`unresolved`))
	case 2:
		return vf.Value(&struct{ A int }{3})
	}
	return &simFrz{n: a % 9, refuse: true}
}

var freezeConstructors = []func(v, u dgo.Value, a int) dgo.Value{
	func(v, u dgo.Value, a int) dgo.Value { return vf.Values(v, u) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Map(`a`, v, `b`, u) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Map(map[string]dgo.Value{`a`: v, `b`: u}) },
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.Map(map[string]interface{}{`a`: v, `b`: []interface{}{u}})
	},
	func(v, u dgo.Value, a int) dgo.Value { return vf.Array([]dgo.Value{v, u}) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Value([]dgo.Value{v, u}) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Value([]interface{}{v, []dgo.Value{u}}) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Value(map[string]interface{}{`a`: v, `b`: u}) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Sensitive(v) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Arguments(v, u) },
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.FromReflectedMap(reflect.ValueOf(map[string]dgo.Value{`a`: v, `b`: u}), a%2 == 0)
	},
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.ValueFromReflected(reflect.ValueOf([]dgo.Value{v, u}))
	},
	func(v, u dgo.Value, a int) dgo.Value {
		m := vf.MutableMap()
		m.Put(v, u)
		return m
	},
	func(v, u dgo.Value, a int) dgo.Value { return vf.MutableValues(v, u) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Map(vf.Values(`a`, v, `b`, u)) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Values(`x`).With(v).WithValues(u) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Map(`x`, 1).With(`y`, v).With(`z`, u) },
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.Map(`x`, 1).Merge(vf.Map(`q`, v)).Merge(vf.MutableMap(`a`, u))
	},
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.Values(1, 2).Map(func(dgo.Value) interface{} { return v })
	},
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.Map(`x`, 1, `y`, 2).Map(func(dgo.MapEntry) interface{} { return u })
	},
	func(v, u dgo.Value, a int) dgo.Value {
		if i, ok := v.(dgo.Iterable); ok {
			return vf.Values(`x`).WithAll(i)
		}
		return vf.Values(v)
	},
	func(v, u dgo.Value, a int) dgo.Value {
		return vf.Map(&GoThing{Arr: vf.MutableValues(v), Dict: vf.MutableMap(`u`, u), Bin: vf.Binary([]byte{1}, false)})
	},
	func(v, u dgo.Value, a int) dgo.Value {
		m, _ := vf.Values(vf.Values(`k`, v), vf.MutableValues(`l`, u)).ToMapFromEntries()
		return m
	},
	func(v, u dgo.Value, a int) dgo.Value { return vf.Values(`a`, v, `b`, u).ToMap() },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Values(vf.MapEntry(v, u)) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.MutableValues(vf.MapEntry(v, u)) },
	func(v, u dgo.Value, a int) dgo.Value { return vf.Values(vf.MapEntry(`a`, v), u).FrozenCopy() },
	func(v, u dgo.Value, a int) dgo.Value {
		if m, ok := v.(dgo.Map); ok {
			vs := []dgo.Value{u}
			m.EachEntry(func(e dgo.MapEntry) { vs = append(vs, e) })
			return vf.Array(vs)
		}
		return vf.Values(v)
	},
	func(v, u dgo.Value, a int) dgo.Value { return vf.MutableValues(`a`, v, `b`, u).FrozenCopy() },
}

// goSources create a value, and give the Go data that it was made from or that it has handed out
var goSources = []func(v, u dgo.Value, a int) (dgo.Value, interface{}){
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) { s := []dgo.Value{v, u}; return vf.Array(s), s },
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) { s := []dgo.Value{v, u}; return vf.Value(s), s },
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []dgo.Value{v, u}
		return vf.ValueFromReflected(reflect.ValueOf(s)), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []dgo.Value{v, u}
		return vf.Array(reflect.ValueOf(s)), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := [][]dgo.Value{{v}, {u, v}}
		return vf.Value(s), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := map[string][]dgo.Value{`a`: {v}, `b`: {u, v}}
		return vf.Value(s), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := map[string][]dgo.Value{`a`: {v}, `b`: {u, v}}
		return vf.Map(s), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := map[string]interface{}{`a`: []dgo.Value{v}, `b`: []byte{1, 2}, `c`: []string{`x`}, `d`: map[string]interface{}{`y`: []interface{}{u}}}
		return vf.FromReflectedMap(reflect.ValueOf(s), a%2 == 0), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []interface{}{v, []string{`a`, `b`}, []byte{1, 2}, map[string]int{`a`: 1}, []interface{}{u, []dgo.Value{v}}}
		return vf.Value(s), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []interface{}{v, []string{`a`, `b`}, []byte{1, 2}, [][]int{{1}, {2}}, u}
		return vf.Values(s...), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []interface{}{v, []string{`a`, `b`}, []byte{1, 2}, [][]int{{1}, {2}}, u}
		return vf.MutableValues(s...), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []interface{}{`k`, v, `l`, []dgo.Value{u}}
		return vf.Map(s...), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []dgo.Value{v, u}
		return vf.WrapSlice(s), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.MutableValues(v, u)
		return m, m.GoSlice()
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.MutableValues(v, u)
		var s []dgo.Value
		vf.FromValue(m, &s)
		return m, s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.Values(`x`, `y`).With(v)
		return m, m.GoSlice()
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.Values(`x`, `y`, v, u).Slice(1, 3+a%2)
		var s []dgo.Value
		vf.FromValue(m, &s)
		return m, s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []byte{1, 2, 3}
		return vf.Binary(s, a%2 == 0), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) { s := []byte{1, 2, 3}; return vf.Value(s), s },
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		b := vf.Binary([]byte{1, 2, 3}, a%2 == 0)
		return b, b.GoBytes()
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		b := vf.Binary([]byte{1, 2, 3}, a%2 == 0)
		var s []byte
		vf.FromValue(b, &s)
		return b, s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		s := []string{`a`, `b`}
		return vf.Strings(s...), s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) { s := []int{1, 2}; return vf.Integers(s...), s },
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) { s := newThing(v, u, a); return vf.Map(s), s },
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.Map(newThing(v, u, a))
		return m, m.(dgo.Struct).GoStruct()
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.Map(newThing(v, u, a))
		var s *GoThing
		vf.FromValue(m, &s)
		return m, s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.Map(newThing(v, u, a))
		var s GoThing
		vf.FromValue(m, &s)
		return m, &s
	},
	func(v, u dgo.Value, a int) (dgo.Value, interface{}) {
		m := vf.MutableMap(`a`, vf.Map(newThing(v, u, a)))
		var s map[string]interface{}
		vf.FromValue(m, &s)
		return m, s
	},
}

func newThing(v, u dgo.Value, a int) *GoThing {
	return &GoThing{X: a, Name: `n`, Tags: []string{`t1`, `t2`}, Arr: vf.MutableValues(v), Dict: vf.MutableMap(`u`, u), Bin: vf.Binary([]byte{1}, false),
		Raw: []byte{1, 2}, Nest: [][]int{{1, 2}, {3}}, Nums: map[string]int{`one`: 1}, Any: goAny(int64(a))}
}

// source checks that a frozen value has no mutable Go data in common with its maker
func (w *fWorld) source(what string, v, u dgo.Value, o *Op) bool {
	var c dgo.Value
	var src interface{}
	how := []string{``, `frozen`, `copied frozen`, `frozen inside of an array`, `frozen inside of a sensitive`, `added to a frozen array`}[o.A[4]%6]
	pan := try(func() {
		// values of its own: they become frozen
		own := func(v dgo.Value) dgo.Value {
			if f, ok := v.(dgo.Freezable); ok && isFreezable(v) {
				return f.ThawedCopy()
			}
			return v
		}
		c, src = goSources[o.A[2]%len(goSources)](own(v), own(u), o.A[3])
		f := c.(dgo.Freezable)
		switch o.A[4] % 6 {
		case 1:
			f.Freeze()
		case 2:
			c = f.FrozenCopy()
		case 3:
			c = vf.MutableValues(1, c)
			c.(dgo.Freezable).Freeze()
		case 4:
			c = vf.Sensitive(c)
			c.(dgo.Freezable).Freeze()
		case 5:
			c = vf.Values(1).With(c)
		}
	})
	if pan != nil || !isFrozen(c) {
		return true // something in it cannot be copied or frozen
	}
	text := dump(c, dFrozen|dLookup)
	if !w.checkFrozen(what, c) {
		return false
	}
	if pan = try(func() { goMeddle(reflect.ValueOf(src)) }); pan != nil {
		w.x.fail(`harness-meddle`, "%s: %v", what, pan)
		return false
	}
	if now := dump(c, dFrozen|dLookup); now != text {
		w.x.fail(`shares-go-data`, "%s: %s, %s, became %s when the Go data (%T) was modified that it was made from or had handed out", what, text, how, now, src)
		return false
	}
	return true
}

func (w *fWorld) step(i int, o *Op) bool {
	x := w.x
	v := w.pool[o.A[0]%len(w.pool)]
	u := w.pool[o.A[1]%len(w.pool)]
	a := o.A[2]
	what := fmt.Sprintf(`operation %d (%s of value %d)`, i, o.K, o.A[0]%len(w.pool))
	before := w.snap()
	switch o.K {
	case `freeze`:
		f, ok := v.(dgo.Freezable)
		if !ok || !isFreezable(v) || refuses(v) {
			return true
		}
		text := flagless(dump(v, dLookup))
		mine := partsOf(v)
		if pan := try(f.Freeze); pan != nil {
			return w.failure(what, pan) && w.checkPool(what+`, which failed,`, before, nil) && w.usable(what, v)
		}
		if !f.Frozen() {
			x.fail(`not-frozen`, "%s: not frozen: %s", what, dump(v, dFrozen))
			return false
		}
		if now := flagless(dump(v, dLookup)); now != text {
			x.fail(`value-changed`, "%s changed %s to %s", what, text, now)
			return false
		}
		return w.checkFrozen(what, v) && w.checkPool(what, before, mine)
	case `frozenCopy`, `copyFrozen`:
		f, ok := v.(dgo.Freezable)
		if !ok || !isFreezable(v) {
			return true
		}
		var c dgo.Value
		pan := try(func() {
			switch cv := v.(type) {
			case dgo.Array:
				if c = nil; o.K == `copyFrozen` {
					c = cv.Copy(true)
				}
			case dgo.Map:
				if c = nil; o.K == `copyFrozen` {
					c = cv.Copy(true)
				}
			case dgo.Binary:
				if c = nil; o.K == `copyFrozen` {
					c = cv.Copy(true)
				}
			}
			if c == nil {
				c = f.FrozenCopy()
			}
		})
		if pan != nil {
			return w.failure(what, pan) && w.checkPool(what+`, which failed,`, before, nil) && w.usable(what, v)
		}
		if !isFrozen(c) {
			x.fail(`not-frozen`, "%s gave %s, which is not frozen", what, dump(c, dFrozen))
			return false
		}
		if got, want := flagless(dump(c, dLookup)), flagless(dump(v, dLookup)); got != want {
			x.fail(`copy-differs`, "%s gave %s, not %s", what, got, want)
			return false
		}
		ok = w.checkFrozen(what, c) && w.checkPool(what, before, nil)
		w.add(c)
		return ok
	case `thawedCopy`, `copyMutable`:
		f, ok := v.(dgo.Freezable)
		if !ok || !isFreezable(v) {
			return true
		}
		var c dgo.Value
		pan := try(func() {
			if o.K == `copyMutable` {
				switch cv := v.(type) {
				case dgo.Array:
					c = cv.Copy(false)
				case dgo.Map:
					c = cv.Copy(false)
				case dgo.Binary:
					c = cv.Copy(false)
				}
			}
			if c == nil {
				c = f.ThawedCopy()
			}
		})
		if pan != nil {
			// something inside cannot be copied
			return w.failure(what, pan) && w.checkPool(what+`, which failed,`, before, nil)
		}
		switch c.(type) {
		case dgo.Array, dgo.Map, dgo.Binary:
			if isFrozen(c) {
				x.fail(`not-thawed`, "%s gave %s, which is frozen", what, dump(c, dFrozen))
				return false
			}
		}
		if got, want := flagless(dump(c, dLookup)), flagless(dump(v, dLookup)); got != want {
			x.fail(`copy-differs`, "%s gave %s, not %s", what, got, want)
			return false
		}
		if s := sharedPart(partsOf(c), partsOf(v)); s != nil {
			x.fail(`copy-shares-state`, "%s gave %s, which shares the mutable %s with the original", what, dump(c, dFrozen), dump(s, dFrozen))
			return false
		}
		ok = w.checkFrozen(what, c) && w.checkPool(what, before, nil)
		w.add(c)
		return ok
	case `make`:
		n := a % len(freezeConstructors)
		what = fmt.Sprintf(`operation %d (construction %d of values %d and %d)`, i, n, o.A[0]%len(w.pool), o.A[1]%len(w.pool))
		var c dgo.Value
		if pan := try(func() { c = freezeConstructors[n](v, u, o.A[3]) }); pan != nil {
			return w.failure(what, pan) && w.checkPool(what+`, which failed,`, before, nil)
		}
		ok := w.checkFrozen(what, c) && w.checkPool(what, before, nil)
		w.add(c)
		return ok
	case `source`:
		n := a % len(goSources)
		what = fmt.Sprintf(`operation %d (Go data %d with values %d and %d)`, i, n, o.A[0]%len(w.pool), o.A[1]%len(w.pool))
		return w.source(what, v, u, o) && w.checkPool(what, before, nil)
	case `stubborn`:
		// an element that cannot be frozen, somewhere in the value
		if isFrozen(v) {
			return true
		}
		mine := partsOf(v)
		var cs []dgo.Value
		listParts(v, &cs)
		if len(cs) == 0 {
			return true
		}
		s := stubborn(a)
		_ = try(func() {
			switch c := cs[o.A[3]%len(cs)].(type) {
			case dgo.Array:
				c.Insert(o.A[1]%(c.Len()+1), s)
			case dgo.Map:
				k := interface{}(`stubborn`)
				if c.Len() > 0 && o.A[1]%2 == 0 {
					k = keyOf(c, o.A[1])
				}
				c.Put(k, s)
			}
		})
		x.fault(`unfreezable-element`)
		return w.checkPool(what, before, mine)
	case `put`:
		// share a value between several
		if isFrozen(v) || partsOf(u)[v] {
			return true
		}
		mine := map[dgo.Value]bool{v: true}
		if m, ok := v.(dgo.Map); ok {
			m.EachEntry(func(e dgo.MapEntry) { mine[e] = true })
		}
		_ = try(func() {
			switch c := v.(type) {
			case dgo.Struct:
				c.Put(`Arr`, u)
			case dgo.Array:
				if o.A[3]%2 == 0 || c.Len() == 0 {
					c.Add(u)
				} else {
					c.Set(a%c.Len(), u)
				}
			case dgo.Map:
				switch o.A[3] % 3 {
				case 0:
					c.Put(fmt.Sprintf(`n%d`, a%9), u)
				case 1:
					c.Put(u, a)
				default:
					if c.Len() > 0 {
						c.Put(keyOf(c, a), u)
					}
				}
			}
		})
		return w.checkPool(what, before, mine)
	case `graph`:
		return graphFreeze(x, what, newRand(uint64(a)*1000+uint64(o.A[3])))
	case `meddle`:
		mine := partsOf(v)
		meddle(v, a)
		return w.checkPool(what, before, mine)
	}
	// any operation that derives something
	op := opFor(o.K, a, v, false)
	if op.name == `Freezable.Freeze` {
		return w.step(i, &Op{K: `freeze`, A: o.A})
	}
	what = fmt.Sprintf(`operation %d (%s of value %d)`, i, op.name, o.A[0]%len(w.pool))
	var r ret
	w.e.shared = w.pool
	pan := try(func() { r = op.fn(w.e, v, o.A[1:]) })
	if pan != nil {
		x.probe(`operation-panicked`)
	}
	for _, c := range r.vs {
		if _, view := c.(dgo.MapEntry); view {
			continue
		}
		if !w.checkFrozen(what, c) {
			return false
		}
	}
	if !w.checkPool(what, before, nil) {
		return false
	}
	for _, c := range r.vs {
		w.add(c)
	}
	return true
}

// graphFreeze freezes one of several collections that contain each other and themselves
func graphFreeze(x *X, what string, r *Rand) bool {
	n := r.rng(1, 6)
	nodes := make([]dgo.Freezable, n)
	edges := make([][]int, n)
	native := make([]bool, n)
	for i := range nodes {
		switch r.n(5) {
		case 0, 1:
			nodes[i] = vf.MutableValues(i)
		case 2, 3:
			nodes[i] = vf.MutableMap(`i`, i)
		default:
			nodes[i] = vf.Map(&MRec{A: i}).(dgo.Freezable)
		}
	}
	for i := range nodes {
		ne := r.n(3)
		if _, ok := nodes[i].(dgo.Struct); ok && ne > 1 {
			ne = 1
		}
		for e := 0; e < ne; e++ {
			j := r.n(n)
			v := nodes[j].(dgo.Value)
			if r.p(1, 5) {
				v = vf.Sensitive(v)
			}
			if r.p(1, 25) {
				v = stubborn(r.n(3))
				native[i] = true
				j = -1
			}
			switch c := nodes[i].(type) {
			case dgo.Struct:
				c.Put(`V`, v)
			case dgo.Array:
				c.Insert(r.n(c.Len()+1), v)
			case dgo.Map:
				c.Put(fmt.Sprintf(`e%d`, e), v)
			}
			if j >= 0 {
				edges[i] = append(edges[i], j)
			}
		}
	}
	frozen := make([]bool, n)
	state := func(when string) bool {
		for i, f := range nodes {
			if f.Frozen() != frozen[i] {
				x.fail(`graph`, "%s: %s: collection %d (%T) of %v: Frozen() is %v", what, when, i, f, edges, f.Frozen())
				return false
			}
			if !frozen[i] {
				continue
			}
			refused := false
			switch c := f.(type) {
			case dgo.Struct:
				refused = try(func() { c.Put(`A`, 99) }) != nil && c.Get(`A`).Equals(i)
			case dgo.Array:
				l := c.Len()
				refused = try(func() { c.Add(99) }) != nil && c.Len() == l && try(func() { c.Set(0, 99) }) != nil
			case dgo.Map:
				refused = try(func() { c.Put(`i`, 99) }) != nil && c.Get(`i`).Equals(i)
			}
			if !refused {
				x.fail(`graph`, "%s: %s: collection %d (%T) of %v is frozen and can be modified", what, when, i, f, edges)
				return false
			}
		}
		return true
	}
	for k := r.rng(1, 3); k > 0; k-- {
		root := r.n(n)
		reach := map[int]bool{}
		bad := false
		var walk func(i int)
		walk = func(i int) {
			if reach[i] || frozen[i] {
				return
			}
			reach[i] = true
			bad = bad || native[i]
			for _, j := range edges[i] {
				walk(j)
			}
		}
		walk(root)
		when := fmt.Sprintf(`after freezing %d`, root)
		pan := try(nodes[root].Freeze)
		if bad != (pan != nil) {
			x.fail(`graph`, "%s: %s of %v with elements that cannot be frozen in %v: failed with %v", what, when, edges, native, pan)
			return false
		}
		if pan == nil {
			for i := range reach {
				frozen[i] = true
			}
		}
		if !state(when) {
			return false
		}
	}
	x.probe(`graph-frozen`)
	return true
}

// refuses is true when a user defined part refuses to be frozen: it may be found out too late
func refuses(v dgo.Value) bool {
	for p := range partsOf(v) {
		if s, ok := p.(*simFrz); ok && s.refuse {
			return true
		}
	}
	return false
}

// listParts lists the mutable collections in v in order
func listParts(v dgo.Value, cs *[]dgo.Value) {
	switch c := v.(type) {
	case dgo.Type:
	case dgo.Struct:
		c.EachValue(func(e dgo.Value) { listParts(e, cs) })
	case dgo.Array:
		if !c.Frozen() {
			*cs = append(*cs, c)
		}
		c.Each(func(e dgo.Value) { listParts(e, cs) })
	case dgo.Map:
		if !c.Frozen() {
			*cs = append(*cs, c)
		}
		c.EachValue(func(e dgo.Value) { listParts(e, cs) })
	case dgo.MapEntry:
		listParts(c.Value(), cs)
	case dgo.Sensitive:
		listParts(c.Unwrap(), cs)
	}
}

var freezeOpts = genOpts{native: true, strct: true, types: true, fns: false, named: true, rx: true, errs: true, sens: true, entry: true}

func genC04(r *Rand, p *Plan) {
	o := freezeOpts
	o.native = r.p(1, 3)
	for i, n := 0, r.rng(2, 4); i < n; i++ {
		vs := genFrozenPool(r, 1, o)
		p.N[fmt.Sprintf(`frozen%d`, i)] = r.n(4) / 3
		p.Vals = append(p.Vals, vs[0])
	}
	names := []string{`freeze`, `frozenCopy`, `frozenCopy`, `copyFrozen`, `thawedCopy`, `copyMutable`, `make`, `make`, `source`, `source`, `stubborn`, `put`, `put`, `meddle`, `graph`}
	var ops []Op
	for i, n := 0, r.rng(3, 14); i < n; i++ {
		op := Op{A: []int{r.n(1000), r.n(1000), r.n(1000), r.n(1000), r.n(1000)}}
		if r.p(1, 4) {
			op.K = vops[r.n(len(vops))].name
		} else {
			op.K = r.pick(names)
		}
		ops = append(ops, op)
	}
	p.Threads = [][]Op{ops}
	p.Cfg.Seed = r.u64()
}

func execC04(p *Plan, x *X) {
	w := &fWorld{x: x, e: &env{}}
	if len(p.Threads) == 0 || len(p.Vals) == 0 {
		return
	}
	ok := x.solo(`building values`, func() {
		for i, n := range p.Vals {
			var v dgo.Value
			// a frozen form may not exist
			if p.n(fmt.Sprintf(`frozen%d`, i)) > 0 {
				_ = try(func() { v = n.build(true) })
			}
			if v == nil && try(func() { v = n.build(false) }) != nil {
				v = vf.MutableValues(i)
			}
			if !w.checkFrozen(fmt.Sprintf(`building value %d`, i), v) {
				return
			}
			w.pool = append(w.pool, v)
		}
		w.e.priv = []dgo.Value{vf.MutableValues(`p`, vf.MutableValues(1, 2)), vf.MutableMap(), vf.String(`str`), vf.Binary([]byte{1, 2, 3}, false), vf.Map(`k`, vf.Values(1))}
		w.e.priv[1].(dgo.Map).Put(`mutable`, vf.MutableValues(3))
	})
	if !ok {
		return
	}
	x.solo(`freezing, copying, and deriving`, func() {
		for i := range p.Threads[0] {
			if !w.step(i, &p.Threads[0][i]) || x.failed() {
				return
			}
		}
	})
	for _, v := range w.pool {
		x.note(protect(func() string { return dump(v, dFrozen) }))
	}
}

func init() {
	register(&Scenario{
		Prop: `C04`, Race: 0, Chunk: 300, FreshPct: 0, Quick: 60000, Thorough: 1200000,
		Rule: `Each run draws 2-4 values (mutable or frozen, nested, with Go natives, struct maps, sensitives, entries) and 3-14 operations on them and on what earlier ones gave: freezing, frozen, thawed and mutable copies, 29 constructions and derivations, about 90 other operations, sharing values between collections, modifying them, inserting elements that cannot be frozen (natives, unresolved aliases, user values that refuse) at any position, and freezing graphs of collections that contain each other and themselves; and freezing, in six ways, values made from 28 shapes of Go data (slices, maps, byte slices, structs, pointers), all of which is then overwritten. After each operation everything that reports to be frozen must be deeply frozen, a failed operation must have changed nothing, frozen or otherwise, and left everything usable, a copy must have shared no mutable part, and no value may have changed that did not contain what was modified.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`user defined freezable values`, `iteration order of Go maps`},
		Gen: genC04, Exec: execC04,
	})
}
