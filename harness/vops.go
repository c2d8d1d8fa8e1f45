package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

// operations on values

const (
	kArr = 1 << iota
	kMap
	kEntry
	kBin
	kStr
	kSens
	kTime
	kRx
	kFn
	kStruct
	kAny
	kNum
)

func kindOf(v dgo.Value) int {
	k := kAny
	switch v.(type) {
	case dgo.Struct:
		k |= kMap | kStruct
	case dgo.Type:
	case dgo.Array:
		k |= kArr
	case dgo.Map:
		k |= kMap
	case dgo.MapEntry:
		k |= kEntry
	case dgo.Binary:
		k |= kBin
	case dgo.Sensitive:
		k |= kSens
	case dgo.String:
		k |= kStr
	case dgo.Time:
		k |= kTime
	case dgo.Regexp:
		k |= kRx
	case dgo.Function:
		k |= kFn
	case dgo.Integer, dgo.Float:
		k |= kNum
	}
	return k
}

// env is what an operation may use besides its receiver. It belongs to one thread.
type env struct {
	priv   []dgo.Value // values that only this thread uses
	shared []dgo.Value // values that all threads use
	// mayMutate is set when results of operations may be modified to find out whether they are independent
	mayMutate bool
}

// arg makes an argument from a number
func (e *env) arg(a int) interface{} {
	if a < 0 {
		a = -a
	}
	switch a % 5 {
	case 0:
		return a / 5 % 7
	case 1:
		return strs[a/5%len(strs)]
	case 2:
		if len(e.shared) > 0 {
			return e.shared[a/5%len(e.shared)]
		}
		return a
	default:
		if len(e.priv) > 0 {
			return e.priv[a/5%len(e.priv)]
		}
		return fmt.Sprintf("arg%d", a%11)
	}
}

func (e *env) array(a int) dgo.Array {
	if v, ok := e.arg(a).(dgo.Array); ok {
		return v
	}
	return vf.MutableValues(e.arg(a+1), `e`, a%10)
}

func (e *env) iterable(a int) dgo.Iterable {
	if v, ok := e.arg(a).(dgo.Iterable); ok {
		return v
	}
	return e.array(a)
}

func (e *env) mapArg(a int) dgo.Map {
	if v, ok := e.arg(a).(dgo.Map); ok {
		return v
	}
	m := vf.MutableMap()
	m.Put(fmt.Sprintf("n%d", a%13), e.arg(a+1))
	m.Put(`a`, a%3)
	return m
}

type ret struct {
	vs []dgo.Value // values obtained
	t  string      // anything else that was observed
}

func rv(vs ...dgo.Value) ret { return ret{vs: vs} }
func rt_(format string, args ...interface{}) ret {
	return ret{t: fmt.Sprintf(format, args...)}
}

func (r ret) show() string {
	s := r.t
	for _, v := range r.vs {
		s += ` ` + dump(v, dFrozen|dLookup)
	}
	return s
}

type vop struct {
	name string
	kind int
	// mut: with the arguments used the operation changes a mutable receiver with at least one element
	mut bool
	// keeps: a frozen receiver gives a frozen result
	keeps bool
	fn    func(e *env, v dgo.Value, a []int) ret
}

func elemOf(v dgo.Array, a int) dgo.Value {
	if v.Len() == 0 {
		return vf.Nil
	}
	return v.Get(a % v.Len())
}

func keyOf(v dgo.Map, a int) dgo.Value {
	ks := v.Keys()
	if ks.Len() == 0 {
		return vf.String(`none`)
	}
	return ks.Get(a % ks.Len())
}

func pred(a int) func(dgo.Value) bool {
	i := 0
	return func(v dgo.Value) bool { i++; return (i+a)%3 == 0 }
}

// goMeddle overwrites everything that is reachable from a Go value
func goMeddle(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if dv, ok := v.Interface().(dgo.Value); ok {
			meddle(dv, 5)
		} else if !v.IsNil() {
			goMeddle(v.Elem())
		}
	case reflect.Ptr:
		if dv, ok := v.Interface().(dgo.Value); ok {
			meddle(dv, 5)
		} else if !v.IsNil() && v.Type() == reflect.TypeOf(&GoThing{}) { // other pointers are natives of the caller
			goMeddle(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			goMeddle(v.Index(i))
			goSet(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			goMeddle(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; v.Type() == reflect.TypeOf(GoThing{}) && i < v.NumField(); i++ {
			goMeddle(v.Field(i))
			goSet(v.Field(i))
		}
	}
}

func goSet(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int8, reflect.Int32:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.String:
		v.SetString(`meddled`)
	default:
		v.Set(reflect.Zero(v.Type()))
	}
}

func goDump(x interface{}) string {
	if v, ok := x.(dgo.Value); ok {
		return dump(v, 0)
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Slice:
		s := `go[`
		for i := 0; i < rv.Len(); i++ {
			s += goDump(rv.Index(i).Interface()) + `,`
		}
		return s + `]`
	case reflect.Map:
		var es []string
		for _, k := range rv.MapKeys() {
			es = append(es, goDump(k.Interface())+`:`+goDump(rv.MapIndex(k).Interface()))
		}
		sort.Strings(es)
		return `go{` + strings.Join(es, `,`) + `}`
	case reflect.Ptr:
		if rv.IsNil() {
			return `nil`
		}
		return `*` + goDump(rv.Elem().Interface())
	case reflect.Func, reflect.Chan:
		return rv.Type().String()
	case reflect.Struct:
		if t, ok := x.(time.Time); ok {
			return t.String()
		}
		s := rv.Type().String() + `{`
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).CanInterface() {
				s += goDump(rv.Field(i).Interface()) + `,`
			}
		}
		return s + `}`
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

func arr(v dgo.Value) dgo.Array { return v.(dgo.Array) }
func mp(v dgo.Value) dgo.Map    { return v.(dgo.Map) }

var vops []*vop
var vopByName = map[string]*vop{}

func addOp(name string, kind int, fn func(e *env, v dgo.Value, a []int) ret) *vop {
	o := &vop{name: name, kind: kind, fn: fn}
	vops = append(vops, o)
	if vopByName[name] != nil {
		panic(`duplicate op ` + name)
	}
	vopByName[name] = o
	return o
}

func keeps(name string, kind int, fn func(e *env, v dgo.Value, a []int) ret) {
	addOp(name, kind, fn).keeps = true
}

func mutop(name string, kind int, fn func(e *env, v dgo.Value, a []int) ret) {
	addOp(name, kind, fn).mut = true
}

func init() {
	// ---- arrays
	addOp(`arr.All`, kArr, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", arr(v).All(pred(a[0]))) })
	addOp(`arr.Any`, kArr, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", arr(v).Any(pred(a[0]))) })
	addOp(`arr.One`, kArr, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", arr(v).One(pred(a[0]))) })
	addOp(`arr.AppendTo`, kArr|kMap, func(e *env, v dgo.Value, a []int) ret {
		var w dgo.Indenter
		if a[0]%2 == 0 {
			w = util.NewIndenter(`  `)
		} else {
			w = util.NewERPIndenter(` `)
		}
		w.AppendValue(v)
		return rt_("%s", w.String())
	})
	addOp(`arr.AppendToSlice`, kArr, func(e *env, v dgo.Value, a []int) ret {
		s := arr(v).AppendToSlice(make([]dgo.Value, 0, a[0]%4))
		d := goDump(s)
		if e.mayMutate {
			for i := range s {
				s[i] = vf.Integer(-77)
			}
			_ = append(s, vf.Integer(-78))
		}
		return rt_("%s", d)
	})
	addOp(`arr.ContainsAll`, kArr, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", arr(v).ContainsAll(e.iterable(a[0]))) })
	addOp(`arr.SameValues`, kArr, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", arr(v).SameValues(e.iterable(a[0]))) })
	addOp(`arr.Copy(false)`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Copy(false)) })
	keeps(`arr.Copy(true)`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Copy(true)) })
	addOp(`arr.Each`, kArr, func(e *env, v dgo.Value, a []int) ret {
		var vs []dgo.Value
		arr(v).Each(func(x dgo.Value) { vs = append(vs, x) })
		return rv(vs...)
	})
	addOp(`arr.EachWithIndex`, kArr, func(e *env, v dgo.Value, a []int) ret {
		s := ``
		arr(v).EachWithIndex(func(x dgo.Value, i int) { s += fmt.Sprint(i) + dump(x, 0) })
		return rt_("%s", s)
	})
	addOp(`arr.Find`, kArr, func(e *env, v dgo.Value, a []int) ret {
		p := pred(a[0])
		r := arr(v).Find(func(x dgo.Value) interface{} {
			if p(x) {
				return x
			}
			return nil
		})
		if r == nil {
			return rt_("nil")
		}
		return rv(r.(dgo.Value))
	})
	keeps(`arr.Flatten`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Flatten()) })
	addOp(`arr.Get`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(elemOf(arr(v), a[0])) })
	addOp(`arr.GetRange`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Get(a[0]%8 - 1)) })
	addOp(`arr.GoSlice`, kArr, func(e *env, v dgo.Value, a []int) ret {
		s := arr(v).GoSlice()
		d := goDump(s)
		if e.mayMutate && arr(v).Frozen() {
			for i := range s {
				s[i] = vf.Integer(-66)
			}
			_ = append(s, vf.Integer(-67))
		}
		return rt_("%s", d)
	})
	addOp(`arr.InterfaceSlice`, kArr, func(e *env, v dgo.Value, a []int) ret {
		s := arr(v).InterfaceSlice()
		d := goDump(s)
		if e.mayMutate {
			for i := range s {
				s[i] = -55
			}
		}
		return rt_("%s", d)
	})
	addOp(`arr.IndexOf`, kArr, func(e *env, v dgo.Value, a []int) ret {
		return rt_("%d %d", arr(v).IndexOf(elemOf(arr(v), a[0])), arr(v).IndexOf(e.arg(a[1])))
	})
	keeps(`arr.Map`, kArr, func(e *env, v dgo.Value, a []int) ret {
		return rv(arr(v).Map(func(x dgo.Value) interface{} {
			if a[0]%3 == 0 {
				return e.arg(a[1])
			}
			if a[0]%3 == 1 {
				return vf.MutableValues(x, 1)
			}
			return x
		}))
	})
	addOp(`arr.Reduce`, kArr, func(e *env, v dgo.Value, a []int) ret {
		r := arr(v).Reduce(a[0], func(m, x dgo.Value) interface{} { return m.HashCode()%1000003*31 + len(dump(x, 0)) })
		return rv(r)
	})
	addOp(`arr.ReflectTo`, kArr, func(e *env, v dgo.Value, a []int) ret {
		var s string
		switch a[0] % 4 {
		case 0:
			var is []interface{}
			vf.FromValue(v, &is)
			s = goDump(is)
			if e.mayMutate && arr(v).Frozen() {
				goMeddle(reflect.ValueOf(is))
			}
			for i := range is {
				is[i] = nil
			}
		case 1:
			var is []dgo.Value
			vf.FromValue(v, &is)
			s = goDump(is)
			if e.mayMutate && arr(v).Frozen() {
				for i := range is {
					is[i] = vf.Integer(-44)
				}
			}
		case 2:
			var is []string
			vf.FromValue(v, &is)
			s = goDump(is)
		default:
			var is interface{}
			vf.FromValue(v, &is)
			s = goDump(is)
			if e.mayMutate && arr(v).Frozen() {
				goMeddle(reflect.ValueOf(is))
			}
		}
		return rt_("%s", s)
	})
	keeps(`arr.Reject`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Reject(pred(a[0]))) })
	keeps(`arr.Select`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Select(pred(a[0]))) })
	keeps(`arr.Slice`, kArr, func(e *env, v dgo.Value, a []int) ret {
		n := arr(v).Len()
		i := a[0] % (n + 1)
		j := i + a[1]%(n-i+1)
		return rv(arr(v).Slice(i, j))
	})
	keeps(`arr.Sort`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Sort()) })
	keeps(`arr.ToMap`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).ToMap()) })
	addOp(`arr.ToMapFromEntries`, kArr, func(e *env, v dgo.Value, a []int) ret {
		m, ok := arr(v).ToMapFromEntries()
		if !ok {
			return rt_("false")
		}
		return rv(m)
	})
	keeps(`arr.Unique`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).Unique()) })
	keeps(`arr.With`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).With(e.arg(a[0]))) })
	keeps(`arr.WithAll`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).WithAll(e.iterable(a[0]))) })
	keeps(`arr.WithValues`, kArr, func(e *env, v dgo.Value, a []int) ret {
		return rv(arr(v).WithValues(e.arg(a[0]), e.arg(a[1])))
	})
	keeps(`arr.WithNothing`, kArr, func(e *env, v dgo.Value, a []int) ret { return rv(arr(v).WithValues()) })
	addOp(`arr.Arguments`, kArr, func(e *env, v dgo.Value, a []int) ret {
		args := vf.ArgumentsFromArray(arr(v))
		return rt_("%d %s", args.Len(), protect(func() string { args.AssertSize(`f`, 1, 3); return dump(args.Arg(`f`, 0, typ.Any), 0) }))
	})
	mutop(`arr.Add`, kArr, func(e *env, v dgo.Value, a []int) ret { arr(v).Add(e.arg(a[0])); return ret{} })
	mutop(`arr.AddAll`, kArr, func(e *env, v dgo.Value, a []int) ret { arr(v).AddAll(vf.Values(1, `x`)); return ret{} })
	mutop(`arr.AddAllMap`, kArr, func(e *env, v dgo.Value, a []int) ret { arr(v).AddAll(vf.Map(1, `x`)); return ret{} })
	mutop(`arr.AddValues`, kArr, func(e *env, v dgo.Value, a []int) ret { arr(v).AddValues(e.arg(a[0]), 7); return ret{} })
	mutop(`arr.Insert`, kArr, func(e *env, v dgo.Value, a []int) ret {
		arr(v).Insert(a[0]%(arr(v).Len()+1), `inserted`)
		return ret{}
	})
	mutop(`arr.Pop`, kArr, func(e *env, v dgo.Value, a []int) ret { x, ok := arr(v).Pop(); return rt_("%s %v", dump(x, 0), ok) })
	mutop(`arr.Remove`, kArr, func(e *env, v dgo.Value, a []int) ret {
		n := arr(v).Len()
		if n == 0 {
			n = 1
		}
		return rv(arr(v).Remove(a[0] % n))
	})
	mutop(`arr.RemoveValue`, kArr, func(e *env, v dgo.Value, a []int) ret {
		return rt_("%v", arr(v).RemoveValue(elemOf(arr(v), a[0])))
	})
	mutop(`arr.Set`, kArr, func(e *env, v dgo.Value, a []int) ret {
		n := arr(v).Len()
		if n == 0 {
			n = 1
		}
		return rv(arr(v).Set(a[0]%n, `changed by Set`))
	})

	// ---- maps
	addOp(`map.All`, kMap, func(e *env, v dgo.Value, a []int) ret {
		s := ``
		r := mp(v).All(func(x dgo.MapEntry) bool { s += dump(x, 0); return len(s)%5 != 0 })
		return rt_("%v %s", r, s)
	})
	addOp(`map.AllKeys`, kMap, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", mp(v).AllKeys(pred(a[0]))) })
	addOp(`map.AllValues`, kMap, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", mp(v).AllValues(pred(a[0]))) })
	addOp(`map.Any`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rt_("%v", mp(v).Any(func(x dgo.MapEntry) bool { return len(dump(x.Key(), 0))%3 == a[0]%3 }))
	})
	addOp(`map.AnyKey`, kMap, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", mp(v).AnyKey(pred(a[0]))) })
	addOp(`map.AnyValue`, kMap, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", mp(v).AnyValue(pred(a[0]))) })
	addOp(`map.ContainsKey`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rt_("%v %v", mp(v).ContainsKey(keyOf(mp(v), a[0])), mp(v).ContainsKey(e.arg(a[1])))
	})
	addOp(`map.Copy(false)`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Copy(false)) })
	keeps(`map.Copy(true)`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Copy(true)) })
	addOp(`map.Each`, kMap, func(e *env, v dgo.Value, a []int) ret {
		var vs []dgo.Value
		mp(v).Each(func(x dgo.Value) { vs = append(vs, x) })
		return rv(vs...)
	})
	addOp(`map.EachEntry`, kMap, func(e *env, v dgo.Value, a []int) ret {
		var vs []dgo.Value
		mp(v).EachEntry(func(x dgo.MapEntry) { vs = append(vs, x) })
		return rv(vs...)
	})
	addOp(`map.EachKey`, kMap, func(e *env, v dgo.Value, a []int) ret {
		var vs []dgo.Value
		mp(v).EachKey(func(x dgo.Value) { vs = append(vs, x) })
		return rv(vs...)
	})
	addOp(`map.EachValue`, kMap, func(e *env, v dgo.Value, a []int) ret {
		var vs []dgo.Value
		mp(v).EachValue(func(x dgo.Value) { vs = append(vs, x) })
		return rv(vs...)
	})
	addOp(`map.Find`, kMap, func(e *env, v dgo.Value, a []int) ret {
		n := 0
		x := mp(v).Find(func(dgo.MapEntry) bool { n++; return n > a[0]%4 })
		if x == nil {
			return rt_("nil")
		}
		return rv(x)
	})
	addOp(`map.Get`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).Get(keyOf(mp(v), a[0])), mp(v).Get(e.arg(a[1])))
	})
	addOp(`map.GetGo`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).Get(fmt.Sprintf("k%d", a[0]%40)), mp(v).Get(a[1]%12), mp(v).Get(nil))
	})
	keeps(`map.Keys`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Keys()) })
	keeps(`map.Values`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Values()) })
	addOp(`map.Map`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).Map(func(x dgo.MapEntry) interface{} {
			if a[0]%3 == 0 {
				return e.arg(a[1])
			}
			if a[0]%3 == 1 {
				return vf.MutableValues(x.Key(), 1)
			}
			return x.Value()
		}))
	})
	addOp(`map.Merge`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Merge(e.mapArg(a[0]))) })
	addOp(`map.ReflectTo`, kMap, func(e *env, v dgo.Value, a []int) ret {
		var s string
		switch a[0] % 3 {
		case 0:
			var m map[string]interface{}
			vf.FromValue(v, &m)
			s = goDump(m)
			if e.mayMutate && mp(v).Frozen() {
				goMeddle(reflect.ValueOf(m))
			}
			for k := range m {
				m[k] = nil
			}
		case 1:
			var m map[string]dgo.Value
			vf.FromValue(v, &m)
			s = goDump(m)
		default:
			var m interface{}
			vf.FromValue(v, &m)
			s = goDump(m)
			if e.mayMutate && mp(v).Frozen() {
				goMeddle(reflect.ValueOf(m))
			}
		}
		return rt_("%s", s)
	})
	addOp(`map.StringKeys`, kMap, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", mp(v).StringKeys()) })
	addOp(`map.With`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).With(e.arg(a[0]), e.arg(a[1])), mp(v).With(keyOf(mp(v), a[0]), e.arg(a[1])))
	})
	addOp(`map.Without`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).Without(keyOf(mp(v), a[0])), mp(v).Without(e.arg(a[1])))
	})
	addOp(`map.WithoutAll`, kMap, func(e *env, v dgo.Value, a []int) ret {
		return rv(mp(v).WithoutAll(vf.Values(keyOf(mp(v), a[0]), keyOf(mp(v), a[1]))), mp(v).WithoutAll(e.array(a[2])))
	})
	addOp(`map.EntriesToMap`, kMap, func(e *env, v dgo.Value, a []int) ret {
		// entries of this map become entries of another one
		es := vf.MutableValues()
		mp(v).EachEntry(func(x dgo.MapEntry) {
			if a[0]%2 == 0 || es.Len() < 2 {
				es.Add(x)
			}
		})
		if a[1]%2 == 0 {
			es.Add(vf.Values(`extra`, a[1]))
		}
		m, ok := es.ToMapFromEntries()
		if !ok {
			return rt_("false")
		}
		if e.mayMutate {
			m.Put(`put into the new map`, 1)
			if a[2]%2 == 0 && m.Len() > 2 {
				m.Remove(m.Keys().Get(0))
			}
		}
		return rv(m)
	})
	mutop(`map.Put`, kMap, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Struct); ok {
			return rv(mp(v).Put(`X`, 4711))
		}
		return rv(mp(v).Put(fmt.Sprintf("new%d", a[0]%3), `new value`))
	})
	mutop(`map.PutExisting`, kMap, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Struct); ok {
			return rv(mp(v).Put(`Name`, `changed by Put`))
		}
		return rv(mp(v).Put(keyOf(mp(v), a[0]), `changed by Put`))
	})
	mutop(`map.PutAll`, kMap, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Struct); ok {
			mp(v).PutAll(vf.Map(`X`, 4712))
		} else {
			mp(v).PutAll(vf.Map(`new1`, 1, `new2`, 2))
		}
		return ret{}
	})
	mutop(`map.Remove`, kMap, func(e *env, v dgo.Value, a []int) ret { return rv(mp(v).Remove(keyOf(mp(v), a[0]))) })
	mutop(`map.RemoveAll`, kMap, func(e *env, v dgo.Value, a []int) ret {
		mp(v).RemoveAll(vf.Values(keyOf(mp(v), a[0]), keyOf(mp(v), a[1])))
		return ret{}
	})

	// ---- struct maps
	addOp(`struct.GoStruct`, kStruct, func(e *env, v dgo.Value, a []int) ret {
		p := v.(dgo.Struct).GoStruct().(*GoThing)
		s := goDump(*p)
		if e.mayMutate && mp(v).Frozen() {
			goMeddle(reflect.ValueOf(p))
		}
		return rt_("%s", s)
	})
	addOp(`struct.ReflectTo`, kStruct, func(e *env, v dgo.Value, a []int) ret {
		if a[0]%2 == 0 {
			var p *GoThing
			vf.FromValue(v, &p)
			s := goDump(*p)
			if e.mayMutate && mp(v).Frozen() {
				goMeddle(reflect.ValueOf(p))
			}
			return rt_("%s", s)
		}
		var p GoThing
		vf.FromValue(v, &p)
		s := goDump(p)
		p.X = 54322
		if e.mayMutate && mp(v).Frozen() {
			goMeddle(reflect.ValueOf(&p))
		}
		return rt_("%s", s)
	})

	// ---- entries
	addOp(`entry.Key`, kEntry, func(e *env, v dgo.Value, a []int) ret { return rv(v.(dgo.MapEntry).Key()) })
	addOp(`entry.Value`, kEntry, func(e *env, v dgo.Value, a []int) ret { return rv(v.(dgo.MapEntry).Value()) })

	// ---- anything freezable
	addOp(`Freezable.FrozenCopy`, kArr|kMap|kEntry|kBin|kSens, func(e *env, v dgo.Value, a []int) ret { return rv(v.(dgo.Freezable).FrozenCopy()) })
	addOp(`Freezable.ThawedCopy`, kArr|kMap|kEntry|kBin|kSens, func(e *env, v dgo.Value, a []int) ret { return rv(v.(dgo.Freezable).ThawedCopy()) })
	addOp(`Freezable.Freeze`, kArr|kMap|kEntry|kBin|kSens, func(e *env, v dgo.Value, a []int) ret { v.(dgo.Freezable).Freeze(); return ret{} })
	addOp(`Freezable.Frozen`, kArr|kMap|kEntry|kBin|kSens, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", v.(dgo.Freezable).Frozen()) })

	// ---- binaries
	addOp(`bin.Copy`, kBin, func(e *env, v dgo.Value, a []int) ret {
		return rv(v.(dgo.Binary).Copy(false), v.(dgo.Binary).Copy(true))
	})
	addOp(`bin.GoBytes`, kBin, func(e *env, v dgo.Value, a []int) ret {
		bs := v.(dgo.Binary).GoBytes()
		s := fmt.Sprintf("%x", bs)
		if e.mayMutate && v.(dgo.Binary).Frozen() {
			for i := range bs {
				bs[i] ^= 0xff
			}
			_ = append(bs, 1)
		}
		return rt_("%s", s)
	})
	addOp(`bin.Encode`, kBin, func(e *env, v dgo.Value, a []int) ret { return rt_("%s", v.(dgo.Binary).Encode()) })
	addOp(`bin.ReflectTo`, kBin, func(e *env, v dgo.Value, a []int) ret {
		var s string
		var bs []byte
		switch a[0] % 3 {
		case 0:
			vf.FromValue(v, &bs)
		case 1:
			var p *[]byte
			vf.FromValue(v, &p)
			bs = *p
		default:
			var i interface{}
			vf.FromValue(v, &i)
			bs, _ = i.([]byte)
		}
		s = fmt.Sprintf("%x", bs)
		if e.mayMutate && v.(dgo.Binary).Frozen() {
			for i := range bs {
				bs[i] ^= 0xff
			}
		}
		return rt_("%s", s)
	})

	// ---- strings and other scalars: pointers that are handed out must not lead into the value
	addOp(`str.ReflectTo`, kStr, func(e *env, v dgo.Value, a []int) ret {
		if a[0]%2 == 0 {
			var p *string
			vf.FromValue(v, &p)
			s := *p
			if e.mayMutate {
				*p = `changed through pointer`
			}
			return rt_("%s", s)
		}
		var s string
		vf.FromValue(v, &s)
		return rt_("%s", s)
	})
	addOp(`str.GoString`, kStr, func(e *env, v dgo.Value, a []int) ret { return rt_("%s", v.(dgo.String).GoString()) })
	addOp(`num.ReflectTo`, kNum, func(e *env, v dgo.Value, a []int) ret {
		switch x := v.(type) {
		case dgo.Integer:
			var p *int64
			vf.FromValue(v, &p)
			s := *p
			if e.mayMutate {
				*p = -999
			}
			return rt_("%d %v %d", s, x.ToFloat(), x.GoInt())
		case dgo.Float:
			var p *float64
			vf.FromValue(v, &p)
			s := *p
			if e.mayMutate {
				*p = -999
			}
			return rt_("%v %v %v", s, x.ToInt(), x.GoFloat())
		}
		return ret{}
	})
	addOp(`time.Use`, kTime, func(e *env, v dgo.Value, a []int) ret {
		t := v.(dgo.Time)
		var p *time.Time
		vf.FromValue(v, &p)
		s := p.String()
		var q time.Time
		vf.FromValue(v, &q)
		return rt_("%s %s %s %v", s, q, t.GoTime(), t.SecondsWithFraction())
	})
	addOp(`time.GoTime`, kTime, func(e *env, v dgo.Value, a []int) ret {
		p := v.(dgo.Time).GoTime()
		return rt_("%v", p)
	})
	addOp(`rx.Use`, kRx, func(e *env, v dgo.Value, a []int) ret {
		x := v.(dgo.Regexp).GoRegexp()
		return rt_("%v %s", x.MatchString(`aaxyb`), x)
	})
	addOp(`fn.Call`, kFn, func(e *env, v dgo.Value, a []int) ret {
		f := v.(dgo.Function)
		n := f.Type().(dgo.FunctionType).In().Len()
		var args dgo.Array
		switch {
		case f.Type().(dgo.FunctionType).Variadic():
			args = vf.Values(a[0], a[1], 3)
		case n == 2:
			args = vf.Values(a[0], `text`)
		default:
			args = vf.Values(vf.Map(`a`, a[0]))
		}
		if a[0]%7 == 0 {
			args = args.With(`one too many`)
		}
		return rv(f.Call(args)...)
	})
	addOp(`fn.Use`, kFn, func(e *env, v dgo.Value, a []int) ret {
		t := v.Type().(dgo.FunctionType)
		return rt_("%s %s %v %v", t.In(), t.Out(), t.Variadic(), t.Instance(v))
	})
	addOp(`sens.Unwrap`, kSens, func(e *env, v dgo.Value, a []int) ret { return rv(v.(dgo.Sensitive).Unwrap()) })

	// ---- everything
	addOp(`String`, kAny, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Native); ok {
			return ret{}
		}
		return rt_("%s|%s|%v", v.String(), fmt.Sprintf("%s", v), strings.Count(fmt.Sprintf("%v", v), ``))
	})
	addOp(`indented`, kAny, func(e *env, v dgo.Value, a []int) ret {
		ia, ok := v.(dgo.Indentable)
		if !ok {
			return ret{}
		}
		s := util.ToIndentedStringERP(ia)
		in := util.NewERPIndenter([]string{``, `  `, "\t"}[a[0]%3])
		in.AppendIndented("a\n\nb\n")
		in.AppendBool(a[0]%2 == 0)
		in.AppendInt(a[0])
		in.NewLine()
		in.AppendValue(v)
		ew := in.Indent()
		ew.NewLine()
		ew.AppendValue(vf.Value(e.arg(a[1])))
		ew.Append("\nend ")
		s += fmt.Sprint(in.Len() > 0, ew.Level(), in.Level()) + in.String()
		if nesting(v, nil) {
			s += util.ToIndentedString(ia) + util.ToString(ia)
		}
		return rt_("%s", s)
	})
	addOp(`reflectTo`, kAny, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Native); ok {
			return ret{}
		}
		// into variables of many types, some fit
		s := ``
		for i := 0; i < 6; i++ {
			rt := reflectTargets[(a[0]+i*5)%len(reflectTargets)]
			x := reflect.New(rt)
			if p := try(func() { vf.ReflectTo(v, x.Elem()) }); p != nil {
				s += ` ` + panicText(p)
				continue
			}
			s += ` ` + goDump(x.Elem().Interface())
			if y := x.Elem(); e.mayMutate && y.Kind() == reflect.Ptr && !y.IsNil() && y.Elem().Kind() != reflect.Struct {
				y.Elem().Set(reflect.Zero(y.Type().Elem()))
			}
		}
		return rt_("%s", s)
	})
	addOp(`error.Use`, kAny, func(e *env, v dgo.Value, a []int) ret {
		err, ok := v.(error)
		if !ok {
			return ret{}
		}
		return rt_("%s %v %v %v", err.Error(), errors.Unwrap(err), v.Equals(errors.New(err.Error())), errors.Is(err, io.EOF))
	})
	addOp(`HashCode`, kAny, func(e *env, v dgo.Value, a []int) ret {
		switch v.(type) {
		case dgo.Native, dgo.Function:
			v.HashCode()
			return ret{}
		}
		return rt_("%d", v.HashCode())
	})
	addOp(`Equals`, kAny, func(e *env, v dgo.Value, a []int) ret {
		return rt_("%v %v %v", v.Equals(v), v.Equals(e.arg(a[0])), v.Equals(vf.Value(e.arg(a[1]))))
	})
	addOp(`EqualsShared`, kAny, func(e *env, v dgo.Value, a []int) ret {
		if len(e.shared) == 0 {
			return ret{}
		}
		s := e.shared[a[0]%len(e.shared)]
		return rt_("%v %v", v.Equals(s), s.Equals(v))
	})
	addOp(`CompareTo`, kAny, func(e *env, v dgo.Value, a []int) ret {
		c, ok := v.(dgo.Comparable)
		if !ok {
			return ret{}
		}
		r1, o1 := c.CompareTo(e.arg(a[0]))
		r2, o2 := c.CompareTo(v)
		return rt_("%d%v %d%v", r1, o1, r2, o2)
	})
	addOp(`Type`, kAny, func(e *env, v dgo.Value, a []int) ret {
		t := v.Type()
		s := fmt.Sprintf("%v %v %v", t.TypeIdentifier(), t.Instance(v), t.Instance(e.arg(a[0])))
		if _, ok := v.(dgo.Native); !ok {
			s += t.String() + ` ` + typ.Generic(t).String()
		}
		return rt_("%s", s)
	})
	addOp(`Type.Assignable`, kAny, func(e *env, v dgo.Value, a []int) ret {
		t := v.Type()
		o := vf.Value(e.arg(a[0])).Type()
		return rt_("%v %v %v", t.Assignable(t), t.Assignable(o), typ.Generic(t).Assignable(o))
	})
	addOp(`Type.Equals`, kAny, func(e *env, v dgo.Value, a []int) ret {
		t := v.Type()
		switch v.(type) {
		case dgo.Native, dgo.Function:
			return rt_("%v", t.Equals(v.Type()))
		}
		return rt_("%v %v %d %s", t.Equals(v.Type()), t.Equals(vf.Value(e.arg(a[0])).Type()), t.HashCode(), t.Type())
	})
	addOp(`Type.ReflectType`, kAny, func(e *env, v dgo.Value, a []int) ret { return rt_("%v", v.Type().ReflectType()) })
	addOp(`stringer`, kAny, func(e *env, v dgo.Value, a []int) ret {
		if _, ok := v.(dgo.Native); ok {
			return ret{}
		}
		return rt_("%s %s", stringer.TypeString(v.Type()), stringer.TypeStringWithAliasMap(v.Type(), tf.BuiltInAliases()))
	})
	addOp(`MarshalJSON`, kAny, func(e *env, v dgo.Value, a []int) ret {
		d := streamer.DgoDialect()
		if a[0]%3 == 0 {
			d = pcore.Dialect()
		}
		return rt_("%s", streamer.MarshalJSON(v, d))
	})
	addOp(`Stream`, kAny, func(e *env, v dgo.Value, a []int) ret {
		c := streamer.NewCollector()
		o := streamer.DefaultOptions()
		o.DedupLevel = streamer.DedupLevel(a[0] % 4)
		streamer.New(nil, o).Stream(v, c)
		r := c.Value()
		if e.mayMutate {
			return rv(r)
		}
		return rt_("%s", dump(r, dLookup))
	})
	addOp(`FromValue`, kAny, func(e *env, v dgo.Value, a []int) ret {
		var i interface{}
		vf.FromValue(v, &i)
		if _, ok := v.(dgo.Native); ok {
			return ret{}
		}
		return rt_("%s", goDump(i))
	})
	addOp(`AsKey`, kAny, func(e *env, v dgo.Value, a []int) ret {
		m := vf.MutableMap()
		m.Put(v, 1)
		m.Put(`other`, v)
		r := fmt.Sprintf("%s %v", dump(m.Get(v), 0), m.ContainsKey(v))
		return rt_("%s", r)
	})
	addOp(`AsElement`, kAny, func(e *env, v dgo.Value, a []int) ret {
		return rv(vf.Values(v, a[0]), vf.Map(`v`, v), vf.Sensitive(v))
	})
	addOp(`New`, kAny, func(e *env, v dgo.Value, a []int) ret {
		ts := []dgo.Type{typ.String, typ.Array, typ.Map, typ.Integer, typ.Binary, typ.Any, typ.Time, typ.Boolean, typ.Float}
		return rv(vf.New(ts[a[0]%len(ts)], v))
	})
	addOp(`InstanceOf`, kAny, func(e *env, v dgo.Value, a []int) ret {
		ts := []dgo.Type{typ.String, typ.Array, typ.Map, typ.Integer, typ.Binary, typ.Any, typ.Sensitive, tf.BuiltInAliases().GetType(vf.String(`data`)), tf.BuiltInAliases().GetType(vf.String(`richdata`))}
		t := ts[a[0]%len(ts)]
		return rt_("%v %v", t.Instance(v), t.Assignable(v.Type()))
	})
}

// genOps draws operations for a receiver index space [0,nShared) and local results
func genValueOp(r *Rand, muts bool) Op {
	for {
		o := vops[r.n(len(vops))]
		if o.mut && !muts {
			continue
		}
		return Op{K: o.name, A: []int{r.n(1 << 12), r.n(1000), r.n(1000), r.n(1000)}}
	}
}

// kindsOfNode predicts the kinds of the value that a node builds, so that operations are drawn for receivers they fit
func kindsOfNode(n *Node) int {
	switch n.K {
	case `a`:
		return kArr | kAny
	case `m`:
		return kMap | kAny
	case `st`:
		return kMap | kStruct | kAny
	case `me`:
		return kEntry | kAny
	case `b`:
		return kBin | kAny
	case `s`:
		return kStr | kAny
	case `se`:
		return kSens | kAny
	case `tm`:
		return kTime | kAny
	case `rx`:
		return kRx | kAny
	case `fn`:
		return kFn | kAny
	case `i`, `fl`:
		return kNum | kAny
	}
	return kAny
}

// drawFor draws an operation that fits the kind; specific operations are preferred over generic ones
func drawFor(r *Rand, kind int, muts bool) *vop {
	for {
		o := vops[r.n(len(vops))]
		if o.kind&kind == 0 || o.mut && !muts {
			continue
		}
		if o.kind == kAny && kind != kAny && r.p(1, 2) {
			continue
		}
		return o
	}
}

var reflectTargets = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(``), reflect.TypeOf((*int)(nil)), reflect.TypeOf((*int8)(nil)), reflect.TypeOf((*int16)(nil)),
	reflect.TypeOf((*int32)(nil)), reflect.TypeOf((*int64)(nil)), reflect.TypeOf((*uint)(nil)), reflect.TypeOf((*uint8)(nil)), reflect.TypeOf((*uint16)(nil)), reflect.TypeOf((*uint32)(nil)), reflect.TypeOf((*uint64)(nil)), reflect.TypeOf((*float32)(nil)),
	reflect.TypeOf((*float64)(nil)), reflect.TypeOf((*bool)(nil)), reflect.TypeOf((*string)(nil)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*error)(nil)), reflect.TypeOf([]string{}), reflect.TypeOf([]int{}),
	reflect.TypeOf([]interface{}{}), reflect.TypeOf([]byte{}), reflect.TypeOf((*[]byte)(nil)), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(time.Time{}), reflect.TypeOf((*time.Time)(nil)),
	reflect.TypeOf(struct{ A int }{}), reflect.TypeOf(GoThing{}), reflect.TypeOf(&GoThing{}), reflect.TypeOf((*[]string)(nil)), reflect.TypeOf((*map[string]int)(nil)), reflect.TypeOf((*dgo.Value)(nil)).Elem(), reflect.TypeOf((*dgo.Array)(nil)).Elem()}

// nesting is false if the value contains itself.
func nesting(v dgo.Value, path []dgo.Value) bool {
	for _, p := range path {
		if p == v {
			return false
		}
	}
	ok := true
	each := func(c dgo.Value) { ok = ok && nesting(c, append(path, v)) }
	switch v := v.(type) {
	case dgo.Type:
	case dgo.Array:
		v.Each(each)
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { each(e.Key()); each(e.Value()) })
	case dgo.MapEntry:
		each(v.Key())
		each(v.Value())
	case dgo.Sensitive:
		each(v.Unwrap())
	}
	return ok
}
