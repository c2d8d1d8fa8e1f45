package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C18: the same operations under several iteration orders of the Go maps involved

type oStr string
type oKey struct {
	A int
	B string
}
type oHolder struct {
	M  map[string]interface{}
	N  map[int]string
	P  *map[string]int
	In oInner
}
type oInner struct{ X map[float64]bool }

// simOrder1 and simOrder2 are registered under several names each, some of them with the same implementation type
type simOrder1 struct{ n int }
type simOrder2 struct{ n int }

var orderNames = []string{`simOrdC`, `simOrdA`, `simOrdD`, `simOrdB`}

var orderTypes = func() (ts []dgo.NamedType) {
	for _, n := range orderNames {
		ts = append(ts, tf.NewNamed(n, nil, nil, reflect.TypeOf(&simOrder1{}), nil, nil))
	}
	ts = append(ts, tf.NewNamed(`simOrdZ`, nil, nil, reflect.TypeOf(simOrder2{}), nil, nil))
	ts = append(ts, tf.NewNamed(`simOrdY`, nil, nil, reflect.TypeOf(simOrder2{}), nil, nil))
	return
}()

var mixedKeys = []interface{}{1, 2.5, `a`, true, `b`, false, 10, 3, -7, 2.25, `c`, nil, time.Unix(100, 0).UTC(), `A`, 2, 100, time.Unix(50, 0).UTC(), int64(77), uint8(9), -2.5,
	1.0, 3.0, int64(1) << 53, int64(1)<<53 + 1, float64(1 << 53), [2]int{1, 2}, [2]int{1, 1}, oKey{1, `x`}, oKey{1, `a`}, oStr(`zz`), oStr(`ya`), vf.Integer(42), vf.Nil, vf.True}

const goMapKinds = 22

// goMap makes a Go map. What it contains is a function of the arguments, the order of insertion is part of the environment.
func goMap(kind, n, salt int) interface{} {
	r := newRand(uint64(kind)*31 + uint64(n)*977 + uint64(salt)*7919)
	var m reflect.Value
	var ks []reflect.Value
	mk := func(z interface{}, key func(i int) interface{}) {
		t := reflect.TypeOf(z)
		m = reflect.MakeMap(t)
		seen := map[interface{}]bool{}
		for i := 0; i < n; i++ {
			k := key(i)
			if seen[k] {
				continue
			}
			seen[k] = true
			kv := reflect.New(t.Key()).Elem()
			if k != nil {
				kv.Set(reflect.ValueOf(k).Convert(t.Key()))
			}
			ks = append(ks, kv)
		}
	}
	str := func(i int) interface{} {
		return fmt.Sprintf(`%s%d`, []string{`k`, `K`, ``, `key `, `å`}[r.n(5)], r.n(300))
	}
	switch kind % goMapKinds {
	case 0:
		mk(map[string]int{}, str)
	case 1:
		mk(map[string]interface{}{}, str)
	case 2:
		mk(map[int]string{}, func(i int) interface{} { return r.n(1000) - 500 })
	case 3:
		mk(map[int64]interface{}{}, func(i int) interface{} { return int64(r.u64()) })
	case 4:
		mk(map[uint16]bool{}, func(i int) interface{} { return r.n(60000) })
	case 5:
		mk(map[float64]string{}, func(i int) interface{} { return float64(r.n(4000)-2000) / 8 })
	case 6:
		mk(map[bool]string{}, func(i int) interface{} { return r.n(2) == 0 })
	case 7:
		mk(map[interface{}]interface{}{}, func(i int) interface{} { return mixedKeys[r.n(len(mixedKeys))] })
	case 8:
		mk(map[time.Time]string{}, func(i int) interface{} { return time.Unix(int64(r.n(100000)), 0).UTC() })
	case 9:
		mk(map[string]map[string]int{}, str)
	case 10:
		mk(map[string][]string{}, str)
	case 11:
		mk(map[oStr]int{}, func(i int) interface{} { return str(i) })
	case 12:
		mk(map[oKey]string{}, func(i int) interface{} { return oKey{r.n(5), str(i).(string)} })
	case 13:
		mk(map[[2]int]string{}, func(i int) interface{} { return [2]int{r.n(5), r.n(9)} })
	case 14:
		mk(map[dgo.Value]dgo.Value{}, func(i int) interface{} {
			switch r.n(4) {
			case 0:
				return vf.Integer(int64(r.n(90)))
			case 1:
				return vf.Float(float64(r.n(90)) + .5)
			case 2:
				return vf.Boolean(r.n(2) == 0)
			}
			return vf.Integer(int64(r.n(30)) - 100)
		})
	case 15:
		mk(map[string]dgo.Value{}, str)
	case 16:
		mk(map[float32]interface{}{}, func(i int) interface{} { return float32(r.n(400)) / 4 })
	case 17:
		mk(map[uint64]string{}, func(i int) interface{} { return r.u64() >> 1 })
	case 18:
		mk(map[interface{}]string{}, func(i int) interface{} {
			if r.n(2) == 0 {
				return r.n(40)
			}
			return float64(r.n(160)) / 4
		})
	case 19:
		mk(map[int8]int8{}, func(i int) interface{} { return r.n(256) - 128 })
	case 20:
		mk(map[string]error{}, str)
	case 21:
		// different Go types, equal values
		mk(map[interface{}]interface{}{}, func(i int) interface{} {
			v := r.n(4)
			switch r.n(6) {
			case 0:
				return v
			case 1:
				return int64(v)
			case 2:
				return uint8(v)
			case 3:
				return float64(v)
			case 4:
				return float32(v)
			}
			return vf.Integer(int64(v))
		})
	}
	vals := make([]reflect.Value, len(ks))
	for i := range ks {
		vals[i] = goMapValue(m.Type().Elem(), r, salt)
	}
	for i := range ks {
		j := i + rt.EnvRand(len(ks)-i)
		ks[i], ks[j] = ks[j], ks[i]
		vals[i], vals[j] = vals[j], vals[i]
		m.SetMapIndex(ks[i], vals[i])
	}
	return m.Interface()
}

func goMapValue(t reflect.Type, r *Rand, salt int) reflect.Value {
	i := r.n(50)
	var v interface{}
	switch t.String() {
	case `string`:
		v = fmt.Sprintf(`v%d`, i)
	case `bool`:
		v = i%2 == 0
	case `error`:
		v = fmt.Errorf(`error %d`, i)
	case `map[string]int`:
		v = goMap(0, i%7, salt+1)
	case `[]string`:
		v = []string{fmt.Sprint(i), `x`}
	case `dgo.Value`:
		v = vf.Values(i, vf.Map(`in`, i))
	case `interface {}`:
		switch i % 9 {
		case 0:
			v = goMap(r.n(11), 1+i%7, salt+2)
		case 1:
			v = []interface{}{i, `s`, goMap(r.n(7), i%5, salt+3)}
		case 2:
			v = `a longer string value that exceeds the limit for deduplication`
		case 3:
			v = float64(i) / 4
		case 4:
			v = []byte{byte(i), 2}
		case 5:
			v = regexp.MustCompile(`^a+$`)
		case 6:
			return reflect.Zero(t)
		default:
			v = i
		}
	default:
		return reflect.ValueOf(i).Convert(t)
	}
	return reflect.ValueOf(v)
}

// orderOp is an operation whose result is to be the same under every iteration order. The receiver is the map made by op A[0..3]
var orderVia = []func(g interface{}, a int) dgo.Value{
	func(g interface{}, a int) dgo.Value { return vf.Map(g) },
	func(g interface{}, a int) dgo.Value { return vf.Value(g) },
	func(g interface{}, a int) dgo.Value { return vf.MutableMap(g) },
	func(g interface{}, a int) dgo.Value { return vf.FromReflectedMap(reflect.ValueOf(g), a%2 == 0) },
	func(g interface{}, a int) dgo.Value { return vf.ValueFromReflected(reflect.ValueOf(g)) },
	func(g interface{}, a int) dgo.Value { return vf.Values(a, g, `x`) },
	func(g interface{}, a int) dgo.Value { return vf.Map(`k`, g, `l`, a) },
	func(g interface{}, a int) dgo.Value { m := vf.MutableMap(); m.Put(`g`, g); return m },
	func(g interface{}, a int) dgo.Value { return vf.MutableValues().With(g) },
	func(g interface{}, a int) dgo.Value { return vf.Map(map[string]interface{}{`z`: g, `a`: a, `m`: g}) },
	func(g interface{}, a int) dgo.Value {
		p := goMap(0, a%6, 1).(map[string]int)
		h := &oHolder{P: &p, M: map[string]interface{}{`g`: g, `b`: 1, `c`: 2}, N: goMap(2, a%5, 3).(map[int]string), In: oInner{map[float64]bool{1.5: true, 1.25: false, -3: true}}}
		return vf.Map(h)
	},
	func(g interface{}, a int) dgo.Value { return vf.Sensitive(g) },
	func(g interface{}, a int) dgo.Value { return vf.Arguments(g, a) },
	func(g interface{}, a int) dgo.Value { return vf.Array([]interface{}{g}) },
	func(g interface{}, a int) dgo.Value { return vf.MapEntry(`e`, g) },
	func(g interface{}, a int) dgo.Value { return vf.Array(g) },
	func(g interface{}, a int) dgo.Value { return vf.New(tf.ParseType(`map[any]any`), vf.Value(g)) },
}

var orderObs = []struct {
	name string
	fn   func(v dgo.Value, a int) string
}{
	{`dump`, func(v dgo.Value, a int) string { return dump(v, dLookup|dFrozen) }},
	{`String`, func(v dgo.Value, a int) string { return v.String() }},
	{`HashCode`, func(v dgo.Value, a int) string { return fmt.Sprint(v.HashCode()) }},
	{`Type`, func(v dgo.Value, a int) string {
		t := v.Type()
		return t.String() + ` ` + fmt.Sprint(t.HashCode()) + ` ` + walk(t, 4)
	}},
	{`Generic`, func(v dgo.Value, a int) string { return typeText(v.Type()) }},
	{`json`, func(v dgo.Value, a int) string {
		b := &bytes.Buffer{}
		newStreamers(true).get(a).Stream(v, streamer.JSON(b))
		return b.String()
	}},
	{`MarshalJSON`, func(v dgo.Value, a int) string { return string(streamer.MarshalJSON(v, dialects[a%2])) }},
	{`FrozenCopy`, func(v dgo.Value, a int) string {
		if f, ok := v.(dgo.Freezable); ok {
			return dump(f.FrozenCopy(), dFrozen)
		}
		return ``
	}},
	{`ThawedCopy`, func(v dgo.Value, a int) string {
		if f, ok := v.(dgo.Freezable); ok {
			return dump(f.ThawedCopy(), dFrozen)
		}
		return ``
	}},
	{`Keys`, func(v dgo.Value, a int) string {
		if m, ok := v.(dgo.Map); ok {
			return dump(m.Keys(), 0) + dump(m.Values(), 0)
		}
		return ``
	}},
	{`derive`, func(v dgo.Value, a int) string {
		if m, ok := v.(dgo.Map); ok {
			m2 := m.With(`new`, a).Merge(vf.Map(goMap(a%11, a%8, a)))
			k := m2.Keys()
			m2 = m2.Without(k.Get(a % k.Len()))
			return dump(m2, dLookup) + fmt.Sprint(m2.HashCode())
		}
		return ``
	}},
	{`toArray`, func(v dgo.Value, a int) string {
		if ar, ok := v.(dgo.Array); ok {
			return dump(ar.Flatten(), 0) + dump(ar.Unique(), 0)
		}
		return ``
	}},
	{`FromValue`, func(v dgo.Value, a int) string {
		switch a % 4 {
		case 0:
			// other keys become pointers, which Go hashes by address
			if m, ok := v.(dgo.Map); ok && !m.AllKeys(func(k dgo.Value) bool {
				switch k.(type) {
				case dgo.Integer, dgo.Float, dgo.String, dgo.Boolean, dgo.Nil:
					return true
				}
				return false
			}) {
				return ``
			}
			var d map[interface{}]interface{}
			vf.FromValue(v, &d)
			return dump(vf.Value(d), 0)
		case 1:
			var d map[string]interface{}
			vf.FromValue(v, &d)
			return dump(vf.Value(d), 0)
		case 2:
			var d interface{}
			vf.FromValue(v, &d)
			return dump(vf.Value(d), 0)
		}
		var d map[string]int
		vf.FromValue(v, &d)
		return dump(vf.Value(d), 0)
	}},
	{`roundTrip`, func(v dgo.Value, a int) string {
		b := &bytes.Buffer{}
		d := dialects[a%2]
		newStreamers(true).get(a).Stream(v, streamer.JSON(b))
		return dump(streamer.UnmarshalJSON(b.Bytes(), d), 0)
	}},
	{`collect`, func(v dgo.Value, a int) string {
		c := streamer.NewCollector()
		newStreamers(false).get(a).Stream(v, c)
		return dump(c.Value(), 0)
	}},
	{`errors`, func(v dgo.Value, a int) string {
		t := tf.ParseType(`{a:int,b:string,k?:[]int,z?:int}`)
		st := t.(dgo.StructMapType)
		var es []string
		for _, e := range st.Validate(func(key dgo.Value) string { return key.String() }, v) {
			es = append(es, e.Error())
		}
		ind := util.NewIndenter(`  `)
		ok := st.ValidateVerbose(v, ind)
		return strings.Join(es, "\n") + fmt.Sprint(ok) + ind.String()
	}},
	{`instance`, func(v dgo.Value, a int) string {
		t := v.Type()
		return fmt.Sprint(t.Instance(v), tf.ParseType(`map[string]any`).Instance(v), tf.ParseType(`map[any](int|string)`).Assignable(t))
	}},
	{`equal`, func(v dgo.Value, a int) string { return fmt.Sprint(v.Equals(v)) }},
	{`reduce`, func(v dgo.Value, a int) string {
		s := ``
		if m, ok := v.(dgo.Map); ok {
			m.Each(func(e dgo.Value) { s += e.String() + `;` })
			s += fmt.Sprint(m.Find(func(e dgo.MapEntry) bool { return e.HashCode()%(a%5+1) == 0 }))
			s += dump(m.Map(func(e dgo.MapEntry) interface{} { return e.Key() }), 0)
		}
		return s
	}},
}

var orderGlobals = []struct {
	name string
	fn   func(a int) string
}{
	{`NamedFromReflected`, func(a int) string {
		s := ``
		for _, t := range []reflect.Type{reflect.TypeOf(&simOrder1{}), reflect.TypeOf(simOrder2{}), reflect.TypeOf(&simPoint{})} {
			if n := tf.NamedFromReflected(t); n == nil {
				s += ` none`
			} else {
				s += ` ` + n.Name()
			}
		}
		return s
	}},
	{`FromReflected`, func(a int) string {
		gt := goTypes[a%len(goTypes)]
		t := tf.FromReflected(gt)
		return typeText(t) + typeText(tf.FromReflected(reflect.TypeOf(&simOrder1{}))) + typeText(tf.FromReflected(reflect.TypeOf(map[string]simOrder2{})))
	}},
	{`Named`, func(a int) string { return typeText(tf.Named(orderNames[a%len(orderNames)])) }},
	{`parse`, func(a int) string {
		return typeText(tf.ParseType(typeTexts[a%len(typeTexts)])) + typeText(pcore.ParseType(pcoreTexts[a%len(pcoreTexts)]))
	}},
	{`parse error`, func(a int) string {
		t := typeTexts[a%len(typeTexts)]
		return protect(func() string { return tf.ParseType(t[:len(t)/2] + `]`).String() })
	}},
	{`parse value`, func(a int) string {
		return dump(tf.Parse(`{b:1,a:{z:1,y:[2,{q:1,p:2}]},"c":nil}`), 0) + dump(pcore.Parse(`{b=>1,a=>{z=>1,y=>[2,{q=>1,p=>2}]},c=>undef}`), 0)
	}},
	{`aliases`, func(a int) string {
		names := []string{`oC`, `oA`, `oD`, `oB`}
		am := tf.DefaultAliases().Collect(func(aa dgo.AliasAdder) {
			for i, n := range names {
				// two names for the same type
				aa.Add(tf.ParseType(fmt.Sprintf(`int[%d,%d]`, 0, 7)), vf.String(n))
				aa.Add(tf.ParseType(fmt.Sprintf(`string[%d]`, i+1)), vf.String(n+`x`))
			}
		})
		var t dgo.Type
		am = am.Collect(func(aa dgo.AliasAdder) { t = tf.ParseFile(aa, `t`, `{a:oA,b:oB,c:oCx,d:[]oDx}`).(dgo.Type) })
		s := stringer.TypeStringWithAliasMap(t, am)
		for _, n := range names {
			s += ` ` + typeText(am.GetType(vf.String(n))) + typeText(am.GetType(vf.String(n+`x`)))
		}
		if nm := am.GetName(tf.ParseType(`int[0,7]`)); nm != nil {
			s += ` ` + nm.String()
		}
		return s
	}},
	{`loader`, func(a int) string {
		l := loader.New(nil, `top`, vf.Map(goMap(0, 1+a%9, a)), func(l dgo.Loader, k string) interface{} { return nil },
			func(l dgo.Loader, n string) dgo.Loader { return loader.New(l, n, nil, nil, nil) })
		for _, n := range []string{`b`, `c`, `a`, `e`, `d`} {
			l.Namespace(n)
			l.Load(n)
		}
		return l.String() + fmt.Sprint(l.HashCode()) + typeText(l.Type())
	}},
	{`default aliases`, func(a int) string {
		s := ``
		for _, t := range typDefaults {
			s += t.String() + ` `
		}
		return s
	}},
	{`struct type`, func(a int) string {
		t := tf.FromReflected(reflect.TypeOf(oHolder{}))
		return typeText(t)
	}},
}

func typeText(t dgo.Type) string {
	if t == nil {
		return `none`
	}
	return t.String() + ` ` + fmt.Sprint(t.HashCode()) + ` ` + walk(t, 4)
}

func genC18(r *Rand, p *Plan) {
	n := r.rng(1, 5)
	var ops []Op
	for i := 0; i < n; i++ {
		if r.p(1, 4) {
			ops = append(ops, Op{K: `global`, A: []int{r.n(len(orderGlobals)), r.n(1000)}})
			continue
		}
		size := r.n(8)
		if r.p(1, 3) {
			size = r.rng(8, 40)
		}
		via := r.n(len(orderVia))
		if r.p(1, 2) {
			via = r.n(4)
		}
		o := Op{K: `map`, A: []int{r.n(goMapKinds), size, r.n(1000), via, r.n(100)}}
		for j, m := 0, r.rng(1, 5); j < m; j++ {
			o.C = append(o.C, Op{K: `obs`, A: []int{r.n(len(orderObs)), r.n(1000)}})
		}
		ops = append(ops, o)
	}
	p.Threads = [][]Op{ops}
	// the same through the general operations on values and types
	if r.p(1, 3) {
		p.Vals = genFrozenPool(r, r.rng(1, 3), frozenOpts)
		p.Threads = append(p.Threads, genOpsFor(r, p.Vals, r.rng(1, 8), false, 30))
	} else {
		p.Threads = append(p.Threads, nil)
	}
	if r.p(1, 3) {
		for i, m := 0, r.rng(1, 3); i < m; i++ {
			p.Texts = append(p.Texts, genType(r, 2))
		}
		p.Threads = append(p.Threads, genTypeOps(r, r.rng(1, 6), 30))
	}
	p.N[`orders`] = r.rng(2, 6)
	p.N[`world`] = r.n(1 << 30)
	if r.p(1, 150) {
		p.N[`processes`] = 1
	}
	p.Cfg.Seed = r.u64()
}

// natural checks the order of the keys of a map that was made from a Go map
func natural(v dgo.Value) string {
	m, ok := v.(dgo.Map)
	if !ok {
		return ``
	}
	if s, ok := v.(dgo.Struct); ok && s != nil {
		return ``
	}
	var prev dgo.Value
	bad := ``
	m.EachKey(func(k dgo.Value) {
		if pc, ok := prev.(dgo.Comparable); ok && bad == `` {
			if c, ok := pc.CompareTo(k); ok && c > 0 {
				bad = fmt.Sprintf(`%s comes before %s`, prev, k)
			}
		}
		prev = k
	})
	return bad
}

func (p *Plan) orderOps(x *X, note func(what, res string)) {
	for i := range p.Threads[0] {
		o := &p.Threads[0][i]
		if o.K == `global` {
			g := orderGlobals[o.A[0]%len(orderGlobals)]
			note(g.name, protect(func() string { return g.fn(o.A[1]) }))
			continue
		}
		var v dgo.Value
		what := fmt.Sprintf(`%T`, goMap(o.A[0], 0, 0)) + fmt.Sprintf(` of %d via %d: `, o.A[1], o.A[3]%len(orderVia))
		note(what+`make`, protect(func() string {
			v = orderVia[o.A[3]%len(orderVia)](goMap(o.A[0], o.A[1], o.A[2]), o.A[4])
			if o.A[3]%len(orderVia) <= 4 {
				if bad := natural(v); bad != `` && x != nil {
					x.fail(`not-natural-order`, "%s: %s in %s", what, bad, v)
				}
				if m, ok := v.(dgo.Map); ok && x != nil {
					if u := m.Keys().Unique().Len(); u != m.Len() {
						x.fail(`equal-keys`, "%s: %d entries but %d different keys: %s", what, m.Len(), u, v)
					}
				}
			}
			return fmt.Sprintf(`%T`, v)
		}))
		if v == nil {
			continue
		}
		for j := range o.C {
			c := &o.C[j]
			ob := orderObs[c.A[0]%len(orderObs)]
			note(what+ob.name, protect(func() string { return ob.fn(v, c.A[1]) }))
		}
	}
	if len(p.Threads) > 1 && len(p.Threads[1]) > 0 && len(p.Vals) > 0 {
		vs := make([]dgo.Value, len(p.Vals))
		for i, n := range p.Vals {
			vs[i] = n.build(true)
		}
		for _, r := range runValueOps(p.Threads[1], vs) {
			note(r.what, r.res)
		}
	}
	if len(p.Threads) > 2 && len(p.Threads[2]) > 0 {
		resetDefaultAliases()
		vs := make([]dgo.Value, len(p.Vals))
		for i, n := range p.Vals {
			vs[i] = n.build(true)
		}
		e := &tenv{env: env{shared: vs}, types: buildTypes(p, vs), tag: `a`}
		for _, r := range runTypeOps(e, p.Threads[2]) {
			note(r.what, r.res)
		}
		resetDefaultAliases()
	}
}

// orderResults executes the operations under one iteration order
func (p *Plan) orderResults(x *X, seed uint64) (rs []opRes, ok bool) {
	seedEnv(seed)
	ok = x.solo(`the operations of the plan`, func() {
		p.orderOps(x, func(what, res string) { rs = append(rs, opRes{what, res}) })
	})
	return
}

func (x *X) sameResults(class, how string, a, b []opRes, stable func(i int) bool) bool {
	for i := range a {
		if i >= len(b) {
			break
		}
		if a[i] == b[i] {
			continue
		}
		if !stable(i) {
			x.probe(`unstable-result-skipped`)
			return true
		}
		w := a[i].what
		w = w[strings.LastIndex(w, ` `)+1:]
		x.fail(class+`:`+w, "operation %d (%s) gives %s and, %s, %s", i, a[i].what, around(a[i].res, b[i].res), how, around(b[i].res, a[i].res))
		return false
	}
	return true
}

// around shows where a differs from b
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 200 {
		a = `...` + a[i-200:]
	}
	if len(a) > 700 {
		a = a[:700] + `...`
	}
	return a
}

func execC18(p *Plan, x *X) {
	world := uint64(p.n(`world`))
	// some operations never end for types that refer to themselves, which is not what this property is about
	x.lenient = true
	p.Cfg.MaxSteps = 2000000
	first, ok := p.orderResults(x, mix(world, 1))
	if !ok {
		return
	}
	if x.limited {
		x.probe(`unsupported-recursion-skipped`)
		x.aborted = true
		return
	}
	for _, r := range first {
		x.note(r.what + r.res)
	}
	p.Cfg.MaxSteps = 6000000
	for i := 2; i <= p.n(`orders`) && !x.failed(); i++ {
		next, ok := p.orderResults(x, mix(world, uint64(i)))
		if !ok {
			return
		}
		if x.limited {
			x.fail(`no-progress`, `the operations end under one iteration order but not under another`)
			x.aborted = true
			return
		}
		x.fault(`iteration-order`)
		x.sameResults(`order-dependent`, `under another iteration order`, first, next, func(ix int) bool {
			// not the same under the same order either: depends on something else, such as an address
			if strings.Contains(first[ix].res, `0xc0`) || hasAddr(p.Vals) {
				return false
			}
			return true
		})
	}
	if p.n(`processes`) > 0 && !x.failed() {
		other, err := childProcess(p)
		if err != nil {
			x.probe(`child-process-failed`)
			return
		}
		x.fault(`other-process`)
		x.sameResults(`process-dependent`, `in another process`, first, other, func(ix int) bool { return !hasAddr(p.Vals) && !strings.Contains(first[ix].res, `0xc0`) })
	}
}

// childProcess executes the plan in a process of its own
func childProcess(p *Plan) ([]opRes, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, `-child`)
	c.Env = []string{`GOMAXPROCS=1`, `TZ=UTC`, `PATH=/usr/bin:/bin`, `GORACE=exitcode=0 atexit_sleep_ms=0`}
	c.Stdin = strings.NewReader(jsonString(p))
	out, err := c.Output()
	if err != nil {
		return nil, err
	}
	var rs [][2]string
	if err = json.Unmarshal(out, &rs); err != nil {
		return nil, err
	}
	res := make([]opRes, len(rs))
	for i := range rs {
		res[i] = opRes{rs[i][0], rs[i][1]}
	}
	return res, nil
}

// childMain is the other end of childProcess
func childMain() {
	p := &Plan{}
	die(json.NewDecoder(os.Stdin).Decode(p))
	if len(p.Threads) == 0 {
		die(errors.New(`no plan`))
	}
	x := &X{p: p, faults: map[string]int{}, probes: map[string]int{}, raceLog: func() string { return `` }}
	first, _ := p.orderResults(x, mix(uint64(p.n(`world`)), 1))
	rs := make([][2]string, len(first))
	for i := range first {
		rs[i] = [2]string{first[i].what, first[i].res}
	}
	fmt.Println(jsonString(rs))
}

func init() {
	register(&Scenario{
		Prop: `C18`, Race: 0, Chunk: 200, FreshPct: 0, Quick: 40000, Thorough: 400000,
		Rule: `Each run executes the same 1-5 operations (making maps of any of 22 kinds of Go maps with 0-40 entries, by 17 ways into the library, and observing them in 19 ways: contents, string, hash, type, JSON in both dialects, copies, derivations, conversion back; registry lookups; parsing; alias maps; loaders), and in a third of the runs general operations on values and types, under 2-6 iteration orders of all Go maps and the registry and orders of insertion, and compares all results; keys that are comparable must be in their natural order. One run in 150 is repeated in another process.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`iteration order of Go maps and of sync.Map`},
		Gen: genC18, Exec: execC18,
	})
}
