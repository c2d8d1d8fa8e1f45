package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	_ "unsafe" // linkname

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

// operations on types

//go:linkname resetDefaultAliases github.com/lyraproj/dgo/internal.ResetDefaultAliases
func resetDefaultAliases()

var pcoreTexts = []string{`String`, `Integer[1,5]`, `Array[String,1,3]`, `Hash[String,Integer]`, `Struct[a=>Integer[1,5],Optional[b]=>String]`,
	`Variant[Undef,String]`, `Tuple[String,Integer]`, `Callable[[String,Integer],Boolean]`, `Enum[a,b]`, `Pattern[/a.*/]`, `Optional[Integer]`, `NotUndef[String]`,
	`Sensitive[String]`, `Type[String]`, `Number[3]`, `Float[1.0,2.5]`, `Regexp[/x+/]`, `Struct[{}]`, `Struct`, `Callable[String,Any,1]`, `Hash[1,3]`, `Tuple[String,0]`, `Boolean`,
	`Callable[0,0]`, `Callable[String,1,3]`, `Callable[[String],String]`, `Callable[[0,0],String]`, `Tuple[String,Integer,1,4]`, `Tuple[String,0,2]`, `Enum[a,b,false]`, `Enum[a,b,true]`, `Array`, `Array[1,3]`, `Array[Enum["a b",'c']]`,
	`NotUndef`, `NotUndef[abc]`, `Optional[abc]`, `Number[1,2]`, `Number[1.5,2.5]`, `Number[1,2.5]`, `Float[1]`, `Integer[default,3]`, `Integer[3,default]`, `Pattern['a.*',/b/]`, `Regexp['x+']`, `String['x']`,
	`Hash[Hash[String,Integer],String[1,10],2,5]`, `Any`, `Undef`, `Binary[1,4]`, `{a=>1,b=>[2,3]}`, `[1,two,3.5]`, `Enum`, `Type`}

// types that refer to themselves
var recTexts = []string{`rt=map[string](int|rt)`, `rt=[](string|rt)`, `rt={v:int,n?:rt}`, `rt=map[string](string|[]rt)`, `rt={rt?:rt,...}`,
	`{types:{ra=map[string](int|rb),rb=[](string|ra)},x:ra}`, `{types:{sl=/^[a-z]+$/,as=1..127},x:map[sl]{token:as,value:string}}`, `rt=[1,3](int|rt)`, `rt=func(int) (rt)`,
	`rt=string|[]rt`, `rt=int|{rt,rt}`, `rt=sensitive[rt]|int`, `rt={string,...rt}|int`, `rt=map[string]!rt`}

type rGo struct {
	A int
	B []string
	C map[string]*rGo
}

var goTypes = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(``), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(1.5),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf(&GoThing{}), reflect.TypeOf(map[string][]map[string]interface{}{}), reflect.TypeOf(func(int) string { return `` }),
	reflect.TypeOf((*dgo.Value)(nil)).Elem(), reflect.TypeOf((*dgo.Type)(nil)).Elem(), reflect.TypeOf([]byte{}), reflect.TypeOf(&simPoint{}), reflect.TypeOf(regexp.MustCompile(`a`)), reflect.TypeOf(rGo{})}

var typDefaults = []dgo.Type{typ.AllOf, typ.AnyOf, typ.OneOf, typ.Array, typ.Tuple, typ.EmptyTuple, typ.Not, typ.Map, typ.Any, typ.Nil, typ.Boolean, typ.False, typ.True, typ.Number, typ.Float,
	typ.Function, typ.Integer, typ.Regexp, typ.Time, typ.Binary, typ.String, typ.DgoString, typ.Error, typ.Native, typ.Sensitive, typ.Type, typ.Loader, typ.DefiningLoader, typ.ParentedLoader}

// types that are made by the constructors
var madeTypes = []func() dgo.Type{
	func() dgo.Type { return tf.IntEnum() }, func() dgo.Type { return tf.IntEnum(4) }, func() dgo.Type { return tf.IntEnum(4, 2, 9) },
	func() dgo.Type { return tf.Enum() }, func() dgo.Type { return tf.Enum(`x`) }, func() dgo.Type { return tf.Enum(`x`, `abc`, `k1`) },
	func() dgo.Type { return tf.CiEnum() }, func() dgo.Type { return tf.CiEnum(`X`) }, func() dgo.Type { return tf.CiEnum(`X`, `aBc`) }, func() dgo.Type { return tf.CiString(`aBC`) },
	func() dgo.Type { return tf.AllOf() }, func() dgo.Type { return tf.AllOf(typ.String) }, func() dgo.Type { return tf.AllOf(1, 2) }, func() dgo.Type { return tf.AllOf(1, `a`, typ.Any) },
	func() dgo.Type { return tf.AnyOf() }, func() dgo.Type { return tf.AnyOf(typ.Integer) }, func() dgo.Type { return tf.OneOf() }, func() dgo.Type { return tf.OneOf(typ.Integer) },
	func() dgo.Type { return tf.Binary() }, func() dgo.Type { return tf.Binary(2) }, func() dgo.Type { return tf.Binary(4, 1) }, func() dgo.Type { return tf.Binary(0, 1<<62) },
	func() dgo.Type { return tf.String() }, func() dgo.Type { return tf.String(`abc`) }, func() dgo.Type { return tf.String(5, 2) }, func() dgo.Type { return tf.String(3) }, func() dgo.Type { return tf.String(-1, 4) },
	func() dgo.Type { return tf.Array(3) }, func() dgo.Type { return tf.Array(typ.String, 3) }, func() dgo.Type { return tf.Array(3, 1) }, func() dgo.Type { return tf.Array(`x`, 0, 3) }, func() dgo.Type { return tf.Array(vf.Value(`x`).Type()) },
	func() dgo.Type { return tf.Map(3) }, func() dgo.Type { return tf.Map(3, 1) }, func() dgo.Type { return tf.Map(typ.String, 3) }, func() dgo.Type { return tf.Map(`a`, 3) }, func() dgo.Type { return tf.Map(`a`, 3, 1) }, func() dgo.Type { return tf.Map(typ.String, typ.Any, 3, 1) },
	func() dgo.Type { return tf.Float(2, 1, false) }, func() dgo.Type { return tf.Float(1, 1, true) }, func() dgo.Type { return tf.Float(-1, 7.5, true) }, func() dgo.Type { return tf.Integer(9, 1, true) }, func() dgo.Type { return tf.Integer(4, 4, true) }, func() dgo.Type { return tf.Integer(0, 5, false) },
	func() dgo.Type { return tf.VariadicTuple(typ.Any) }, func() dgo.Type { return tf.VariadicTuple(typ.String) }, func() dgo.Type { return tf.Tuple(1, `a`) }, func() dgo.Type { return tf.VariadicTuple(typ.String, 3, typ.Integer) }, func() dgo.Type { return tf.Tuple() },
	func() dgo.Type { return tf.Sensitive() }, func() dgo.Type { return tf.Sensitive(typ.String) }, func() dgo.Type { return tf.Sensitive(`x`) },
	func() dgo.Type { return tf.Pattern(regexp.MustCompile("a/b\\/c\t[\\s/]")) }, func() dgo.Type { return tf.Not(tf.AnyOf(typ.String, typ.Integer)) }, func() dgo.Type { return tf.Not(tf.Not(typ.String)) }, func() dgo.Type { return tf.Not(tf.AllOf(typ.String, tf.String(1, 3))) }, func() dgo.Type { return tf.Not(tf.OneOf(typ.String, typ.Any)) },
	func() dgo.Type { return tf.StructMap(false) }, func() dgo.Type { return tf.StructMap(true) }, func() dgo.Type { return tf.StructMap(false, tf.StructMapEntry(`a`, 1, true)) }, func() dgo.Type { return tf.StructMap(true, tf.StructMapEntry(typ.String, typ.Any, false)) },
	func() dgo.Type { return tf.Meta(typ.String) }, func() dgo.Type { return tf.Meta(nil) }, func() dgo.Type { return typ.Generic(vf.Values(1, `a`, 2.5, vf.Values(1)).Type()) },
	func() dgo.Type { return vf.Values(1, `a`).Type().(dgo.ArrayType).ElementType() }, func() dgo.Type { return vf.Map(`a`, 1, `b`, `c`).Type().(dgo.MapType).ValueType() }, func() dgo.Type { return vf.Map(`a`, 1, `b`, `c`).Type().(dgo.MapType).KeyType() },
	func() dgo.Type { return vf.Value(func(a int, b string) string { return b }).Type() }, func() dgo.Type { return vf.Value(func(a int, b ...string) {}).Type().(dgo.FunctionType).In() }, func() dgo.Type {
		return vf.Value(func(a int, b ...string) (int, error) { return 0, nil }).Type().(dgo.FunctionType).Out()
	},
	func() dgo.Type { return tf.Function(tf.Tuple(typ.String), tf.Tuple()) }, func() dgo.Type { return tf.Function(tf.VariadicTuple(typ.String, typ.Any), typ.Tuple) }, func() dgo.Type { return tf.Parameterized(tf.Named(`simPoint`), vf.Values(1, `a`)) }, func() dgo.Type { return tf.ExactNamed(tf.Named(`simPoint`), &simPoint{1, 2}) },
	func() dgo.Type { return vf.Value(errors.New(`e1`)).Type() }, func() dgo.Type { return vf.Time(time.Unix(1000, 0)).Type() }, func() dgo.Type { return vf.Regexp(regexp.MustCompile(`a+`)).Type() }, func() dgo.Type { return vf.Binary([]byte{1, 2}, true).Type() },
}

// madeType makes a type, or the type of the failure to do so.
func madeType(i int) (t dgo.Type) {
	defer func() {
		if r := recover(); r != nil {
			t = vf.String(panicText(r)).Type()
		}
	}()
	return madeTypes[i%len(madeTypes)]()
}

// a type is described by a text
func genType(r *Rand, depth int) string {
	switch r.n(15) {
	case 13, 14:
		return fmt.Sprintf("k:%d", r.n(len(madeTypes)))
	case 0, 1, 2:
		return `d:` + r.pick(typeTexts)
	case 3, 4:
		return `r:` + r.pick(recTexts)
	case 5:
		return `p:` + r.pick(pcoreTexts)
	case 6:
		return fmt.Sprintf("t:%d", r.n(len(typDefaults)))
	case 7:
		return fmt.Sprintf("g:%d", r.n(len(goTypes)))
	case 8:
		return `a:` + r.pick([]string{`data`, `richdata`})
	case 9:
		return fmt.Sprintf("v:%d", r.n(100))
	case 10:
		return `n:simPoint`
	default:
		if depth <= 0 {
			return `d:` + genTypeText(r, 2)
		}
		if r.p(1, 2) {
			return `d:` + genTypeText(r, 3)
		}
		return fmt.Sprintf("c:%d:%s", r.n(1000), genType(r, depth-1))
	}
}

var typeAtoms = []string{`int`, `string`, `float`, `bool`, `nil`, `any`, `data`, `richdata`, `1..10`, `-5...5`, `2.5..7.25`, `string[1]`, `string[2,9]`, `"x"`, `"abc"`, `3`, `true`, `false`, `4.5`, `/^a.*/`, `/[0-9]+/`, `~"abc"`,
	`binary`, `type`, `dgo`, `sensitive`, `simPoint`, `0..`, `binary[1,3]`, `[]any`}

// genTypeText draws a type expression
func genTypeText(r *Rand, depth int) string {
	if depth <= 0 {
		return r.pick(typeAtoms)
	}
	s := func() string { return genTypeText(r, depth-1) }
	switch r.n(14) {
	case 0:
		return `[]` + paren(s())
	case 1:
		return fmt.Sprintf(`[%d,%d]`, r.n(3), r.rng(3, 6)) + paren(s())
	case 2:
		return `map[` + r.pick([]string{`string`, `int`, `string|int`, `/^k/`}) + `]` + paren(s())
	case 3:
		return `map[string,` + fmt.Sprintf(`%d,%d]`, r.n(3), r.rng(3, 6)) + paren(s())
	case 4, 5:
		t := `{`
		n := r.rng(1, 4)
		for i := 0; i < n; i++ {
			t += string(rune('a'+i)) + r.pick([]string{``, `?`}) + `:` + s() + `,`
		}
		if r.p(1, 3) {
			return t + `...}`
		}
		return t[:len(t)-1] + `}`
	case 6:
		return `{` + s() + `,` + s() + `}`
	case 7:
		return paren(s()) + `|` + paren(s())
	case 8:
		return paren(s()) + `&` + paren(s())
	case 9:
		return paren(s()) + `^` + paren(s())
	case 10:
		return `!` + paren(s())
	case 11:
		if r.p(1, 3) {
			return `func(` + s() + `) (` + s() + r.pick([]string{`|`, `&`, `^`}) + s() + `)`
		}
		return `func(` + s() + `,` + s() + `) (` + s() + `)`
	case 12:
		return r.pick([]string{`sensitive[`, `type[`}) + s() + `]`
	}
	return s()
}

func paren(s string) string {
	if strings.ContainsAny(s, `|&^`) || strings.HasPrefix(s, `func`) {
		return `(` + s + `)`
	}
	return s
}

func buildType(d string, vals []dgo.Value) dgo.Type {
	x := d[2:]
	switch d[0] {
	case 'd':
		return tf.ParseType(x)
	case 'r':
		return typ.AsType(tf.ParseFile(nil, ``, x))
	case 'p':
		return pcore.ParseType(x)
	case 't':
		i, _ := strconv.Atoi(x)
		return typDefaults[i%len(typDefaults)]
	case 'g':
		i, _ := strconv.Atoi(x)
		return tf.FromReflected(goTypes[i%len(goTypes)])
	case 'a':
		return tf.DefaultAliases().GetType(vf.String(x))
	case 'n':
		return tf.Named(x)
	case 'k':
		i, _ := strconv.Atoi(x)
		return madeType(i)
	case 'v':
		i, _ := strconv.Atoi(x)
		if len(vals) == 0 {
			return typ.Any
		}
		return vals[i%len(vals)].Type()
	}
	p := strings.SplitN(x, `:`, 2)
	i, _ := strconv.Atoi(p[0])
	return composeType(i, buildType(p[1], vals), typ.String)
}

// composeType makes a type from two others
func composeType(i int, t, u dgo.Type) dgo.Type {
	switch i % 13 {
	case 0:
		return tf.Array(t)
	case 1:
		return tf.Array(t, i/13%3, 4)
	case 2:
		return tf.Map(typ.String, t)
	case 3:
		return tf.Map(t, u, 0, 7)
	case 4:
		return tf.Tuple(t, u)
	case 5:
		return tf.VariadicTuple(u, t)
	case 6:
		return tf.AnyOf(t, u)
	case 7:
		return tf.AllOf(t, u)
	case 8:
		return tf.OneOf(u, t)
	case 9:
		return tf.Not(t)
	case 10:
		return tf.StructMap(i%2 == 0, tf.StructMapEntry(`a`, t, true), tf.StructMapEntry(`b`, u, i%3 == 0))
	case 11:
		return tf.Function(tf.Tuple(t, u), tf.Tuple(u))
	}
	return tf.Sensitive(t)
}

// walk shows what can be observed of the structure of a type
func walk(t dgo.Type, depth int) string {
	if t == nil {
		return `<nil>`
	}
	if depth <= 0 {
		return t.TypeIdentifier().String()
	}
	w := func(t dgo.Type) string { return walk(t, depth-1) }
	b := &strings.Builder{}
	fmt.Fprintf(b, "%s", t.TypeIdentifier())
	if s, ok := t.(dgo.SizedType); ok {
		fmt.Fprintf(b, "[%d,%d,%v]", s.Min(), s.Max(), s.Unbounded())
	}
	if n, ok := t.(dgo.NamedType); ok {
		fmt.Fprintf(b, " named:%s", n.Name())
		if n.Parameters() != nil {
			b.WriteString(dump(n.Parameters(), 0))
		}
	}
	if e, ok := t.(dgo.ExactType); ok {
		return b.String() + `=` + dump(e.ExactValue(), 0)
	}
	switch t := t.(type) {
	case dgo.IntegerType:
		fmt.Fprintf(b, "(%d..%d %v)", t.Min(), t.Max(), t.Inclusive())
	case dgo.FloatType:
		fmt.Fprintf(b, "(%v..%v %v)", t.Min(), t.Max(), t.Inclusive())
	case dgo.StructMapType:
		fmt.Fprintf(b, "{%d %v ", t.Len(), t.Additional())
		t.Each(func(e dgo.StructMapEntry) {
			fmt.Fprintf(b, "%s%v:%s,", w(e.Key().(dgo.Type)), e.Required(), w(e.Value().(dgo.Type)))
		})
		b.WriteString(`}`)
	case dgo.TupleType:
		fmt.Fprintf(b, "<%d %v ", t.Len(), t.Variadic())
		for i := 0; i < t.Len(); i++ {
			b.WriteString(w(t.Element(i)) + `,`)
		}
		b.WriteString(`>`)
	case dgo.ArrayType:
		b.WriteString(`[]` + w(t.ElementType()))
	case dgo.MapType:
		b.WriteString(`map ` + w(t.KeyType()) + `:` + w(t.ValueType()))
	case dgo.FunctionType:
		b.WriteString(`func ` + w(t.In()) + ` ` + w(t.Out()) + fmt.Sprint(t.Variadic()))
	case dgo.UnaryType:
		fmt.Fprintf(b, "unary%d(%s)", t.Operator(), w(t.Operand()))
	case dgo.TernaryType:
		fmt.Fprintf(b, "ternary%d(", t.Operator())
		t.Operands().Each(func(v dgo.Value) {
			if ot, ok := v.(dgo.Type); ok {
				b.WriteString(w(ot) + `,`)
			} else {
				b.WriteString(`=` + dump(v, 0) + `,`)
			}
		})
		b.WriteString(`)`)
	case dgo.NativeType:
		b.WriteString(fmt.Sprint(t.GoType()))
	}
	return b.String()
}

// selfRef is true if the type contains itself
func selfRef(t dgo.Type, path []dgo.Type) bool {
	for _, p := range path {
		if p == t {
			return true
		}
	}
	if len(path) > 12 {
		return true
	}
	var ps []dgo.Type
	switch t := t.(type) {
	case dgo.StructMapType:
		t.Each(func(se dgo.StructMapEntry) { ps = append(ps, se.Value().(dgo.Type)) })
	case dgo.ExactType:
	case dgo.MapType:
		ps = []dgo.Type{t.KeyType(), t.ValueType()}
	case dgo.TupleType:
		for i := 0; i < t.Len(); i++ {
			ps = append(ps, t.Element(i))
		}
	case dgo.ArrayType:
		ps = []dgo.Type{t.ElementType()}
	case dgo.FunctionType:
		ps = []dgo.Type{t.In(), t.Out()}
	case dgo.UnaryType:
		if t.Operand() != nil {
			ps = []dgo.Type{t.Operand()}
		}
	case dgo.TernaryType:
		t.Operands().Each(func(v dgo.Value) { ps = append(ps, typ.AsType(v)) })
	}
	path = append(path, t)
	for _, p := range ps {
		if selfRef(p, path) {
			return true
		}
	}
	return false
}

type tenv struct {
	env
	types []dgo.Type // shared
	local []dgo.Type // of this thread
	tag   string     // unique name of the thread
	num   int        // unique number of the thread
	cnt   int
	x     *X // not nil when what is known about a result is checked at once
}

func (e *tenv) check(ok bool, class, format string, args ...interface{}) {
	if !ok && e.x != nil {
		e.x.fail(class, `thread %d: %s`, e.num, fmt.Sprintf(format, args...))
	}
}

func (e *tenv) typ(a int) dgo.Type {
	if a%3 != 0 || len(e.local) == 0 {
		return e.types[a/3%len(e.types)]
	}
	return e.local[a/3%len(e.local)]
}

func (e *tenv) val(a int) dgo.Value {
	switch {
	case len(e.shared) > 0 && a%3 != 0:
		return e.shared[a/3%len(e.shared)]
	default:
		return vf.Value(e.arg(a))
	}
}

type tret struct {
	ts []dgo.Type
	t  string
}

func tt(ts ...dgo.Type) tret { return tret{ts: ts} }
func ts(format string, args ...interface{}) tret {
	return tret{t: fmt.Sprintf(format, args...)}
}

func (r tret) show() string {
	s := r.t
	for _, t := range r.ts {
		s += ` ` + walk(t, 3)
	}
	return s
}

type top struct {
	name string
	fn   func(e *tenv, t dgo.Type, a []int) tret
}

var tops []*top
var topByName = map[string]*top{}

func addTop(name string, fn func(e *tenv, t dgo.Type, a []int) tret) {
	if topByName[name] != nil {
		panic(`duplicate op ` + name)
	}
	o := &top{name, fn}
	tops = append(tops, o)
	topByName[name] = o
}

func valRet(v dgo.Value) tret {
	if t, ok := v.(dgo.Type); ok {
		return tt(t)
	}
	return ts("%s", dump(v, dFrozen|dLookup))
}

func init() {
	addTop(`t.Equals`, func(e *tenv, t dgo.Type, a []int) tret {
		o := e.typ(a[0])
		return ts("%v %v", t.Equals(o), o.Equals(t))
	})
	addTop(`t.HashCode`, func(e *tenv, t dgo.Type, a []int) tret { return ts("%d", t.HashCode()) })
	addTop(`t.String`, func(e *tenv, t dgo.Type, a []int) tret { return ts("%s", t.String()) })
	addTop(`t.Type`, func(e *tenv, t dgo.Type, a []int) tret {
		mt := t.Type()
		return tret{[]dgo.Type{mt}, fmt.Sprint(mt.Instance(t))}
	})
	addTop(`t.Generic`, func(e *tenv, t dgo.Type, a []int) tret { return tt(typ.Generic(t)) })
	addTop(`t.Assignable`, func(e *tenv, t dgo.Type, a []int) tret {
		o := e.typ(a[0])
		return ts("%v %v %v", t.Assignable(o), o.Assignable(t), t.Assignable(t))
	})
	addTop(`t.Instance`, func(e *tenv, t dgo.Type, a []int) tret {
		return ts("%v %v", t.Instance(e.val(a[0])), t.Instance(e.val(a[1])))
	})
	addTop(`t.InstanceNested`, func(e *tenv, t dgo.Type, a []int) tret {
		m := vf.Map(`a`, vf.Map(`b`, 2, `c`, vf.Map()), `n`, vf.Values(1, vf.Values(`x`)), `v`, 3)
		s := vf.Values(`x`, vf.Values(1, vf.Values()), vf.Map(`k`, vf.Values(`y`)))
		return ts("%v %v %v", t.Instance(m), t.Instance(s), t.Instance(t))
	})
	addTop(`t.ReflectType`, func(e *tenv, t dgo.Type, a []int) tret {
		if selfRef(t, nil) {
			return ts(`not supported`) // a Go type cannot contain itself
		}
		return ts("%v", t.ReflectType())
	})
	addTop(`t.TypeIdentifier`, func(e *tenv, t dgo.Type, a []int) tret { return ts("%v", t.TypeIdentifier()) })
	addTop(`t.walk`, func(e *tenv, t dgo.Type, a []int) tret { return ts("%s", walk(t, 3)) })
	addTop(`t.New`, func(e *tenv, t dgo.Type, a []int) tret { return valRet(vf.New(t, e.val(a[0]))) })
	addTop(`t.New2`, func(e *tenv, t dgo.Type, a []int) tret {
		var v interface{}
		switch a[0] % 8 {
		case 0:
			v = 3
		case 1:
			v = `12`
		case 2:
			v = []string{`a`, `b`}
		case 3:
			v = map[string]int{`a`: 1}
		case 4:
			v = vf.Arguments([]interface{}{`23`, 10})
		case 5:
			v = vf.Values(vf.Values(`a`, 1))
		case 6:
			v = 2.5
		default:
			v = `[]string`
		}
		return valRet(vf.New(t, vf.Value(v)))
	})
	addTop(`t.parts`, func(e *tenv, t dgo.Type, a []int) tret {
		switch t := t.(type) {
		case dgo.StructMapType:
			var ps []dgo.Type
			t.Each(func(se dgo.StructMapEntry) { ps = append(ps, se.Key().(dgo.Type), se.Value().(dgo.Type)) })
			return tret{append(ps, t.KeyType(), t.ValueType()), fmt.Sprintf("%d %v %d %d", t.Len(), t.Additional(), t.Min(), t.Max())}
		case dgo.MapType:
			return tt(t.KeyType(), t.ValueType())
		case dgo.TupleType:
			ps := []dgo.Type{t.ElementType()}
			for i := 0; i < t.Len(); i++ {
				ps = append(ps, t.Element(i))
			}
			return tret{ps, dump(t.ElementTypes(), 0)}
		case dgo.ArrayType:
			return tt(t.ElementType())
		case dgo.FunctionType:
			return tt(t.In(), t.Out())
		case dgo.UnaryType:
			return tt(t.Operand())
		case dgo.TernaryType:
			var ps []dgo.Type
			t.Operands().Each(func(v dgo.Value) { ps = append(ps, typ.AsType(v)) })
			return tret{ps, dump(t.Operands(), 0)}
		case dgo.NativeType:
			return ts("%v", t.GoType())
		case dgo.NamedType:
			return ts("%s %v", t.Name(), t.AssignableType())
		}
		return ts(`none`)
	})
	addTop(`t.StructGet`, func(e *tenv, t dgo.Type, a []int) tret {
		st, ok := t.(dgo.StructMapType)
		if !ok {
			return ts(`no struct`)
		}
		r := tret{}
		for _, k := range []string{`a`, `b`, `n`, `zz`} {
			if se := st.Get(k); se != nil {
				r.ts = append(r.ts, se.Value().(dgo.Type))
				r.t += fmt.Sprint(k, se.Required(), se.Equals(st.Get(k)), se.HashCode() == st.Get(k).HashCode())
			}
		}
		return r
	})
	addTop(`t.Validate`, func(e *tenv, t dgo.Type, a []int) tret {
		st, ok := t.(dgo.StructMapType)
		if !ok {
			return ts(`no struct`)
		}
		v := e.val(a[0])
		if a[1]%2 == 0 {
			v = vf.Map(`a`, 1, `b`, `x`, `zz`, vf.Map(`a`, 2))
		}
		s := ``
		for _, err := range st.Validate(nil, v) {
			s += err.Error() + `;`
		}
		w := util.NewIndenter(` `)
		return ts("%s %v %s", s, st.ValidateVerbose(v, w), w.String())
	})
	addTop(`t.meddle`, func(e *tenv, t dgo.Type, a []int) tret {
		// what a type hands out, or was made from, is not a way to modify it
		meddleWith := func(c dgo.Array) {
			if c == nil {
				return
			}
			for _, f := range []func(){
				func() { c.Add(typ.Nil) },
				func() { c.Set(a[1]%2, typ.Error) },
				func() { c.Insert(0, 3) },
				func() { c.Remove(0) },
				func() { c.Pop() },
				func() { c.AddValues(`x`, `y`) },
			} {
				_ = try(f)
			}
			for i := range c.GoSlice() {
				if !c.Frozen() {
					c.GoSlice()[i] = vf.Nil
				}
			}
			for _, v := range c.FrozenCopy().(dgo.Array).GoSlice() {
				if m, ok := v.(dgo.Array); ok {
					_ = try(func() { m.Add(1) })
				}
			}
		}
		args := []interface{}{t, e.typ(a[0]), `lit`}
		entries := []dgo.StructMapEntry{tf.StructMapEntry(`a`, t, true), tf.StructMapEntry(`b`, e.typ(a[0]), false)}
		strs := []string{`a`, `b`, `c`}
		params := vf.MutableValues(1, vf.MutableValues(`x`), vf.MutableMap(`k`, 2))
		smap := vf.MutableMap(`a`, t, `b`, vf.MutableMap(`type`, `[]int`, `required`, true))
		made := map[string]dgo.Type{}
		mk := func(n string, f func() dgo.Type) { _ = try(func() { made[n] = f() }) }
		switch a[0] % 8 {
		case 0:
			mk(`AnyOf`, func() dgo.Type { return tf.AnyOf(args...) })
			mk(`OneOf`, func() dgo.Type { return tf.OneOf(args...) })
		case 1:
			mk(`AllOf`, func() dgo.Type { return tf.AllOf(args...) })
			mk(`Tuple`, func() dgo.Type { return tf.Tuple(args[:2]...) })
		case 2:
			mk(`VariadicTuple`, func() dgo.Type { return tf.VariadicTuple(args[:2]...) })
			mk(`StructMap`, func() dgo.Type { return tf.StructMap(false, entries...) })
		case 3:
			mk(`Enum`, func() dgo.Type { return tf.Enum(strs...) })
			mk(`CiEnum`, func() dgo.Type { return tf.CiEnum(strs...) })
		case 4:
			mk(`Parameterized`, func() dgo.Type { return tf.Parameterized(tf.Named(`simPoint`), params) })
			mk(`PcoreParameterized`, func() dgo.Type { return pcore.ParseType(`SimPoint[1,[x,[3]],{a=>[1]}]`) })
		case 5:
			mk(`StructMapFromMap`, func() dgo.Type { return tf.StructMapFromMap(false, smap) })
		case 6:
			mk(`ParseTuple`, func() dgo.Type { return tf.ParseType(`{string,int|"a"|nil,[]data}`) })
			mk(`ParseAllOf`, func() dgo.Type { return tf.ParseType(`(int|string)&!(3|4)`) })
		default:
			made[`the receiver`] = t
		}
		looks := func() (s string) {
			for _, n := range []string{`AnyOf`, `OneOf`, `AllOf`, `Tuple`, `VariadicTuple`, `StructMap`, `Enum`, `CiEnum`, `Parameterized`, `PcoreParameterized`, `StructMapFromMap`, `ParseTuple`, `ParseAllOf`, `the receiver`} {
				if m := made[n]; m != nil {
					s += protect(func() string { return n + ` ` + m.String() + ` ` + fmt.Sprint(m.HashCode()) + "\n" })
				}
			}
			return
		}
		before := looks()
		for i := range args {
			args[i] = typ.Nil
		}
		entries[0], entries[1] = entries[1], entries[0]
		strs[1] = `z`
		params.Get(1).(dgo.Array).Add(4)
		meddleWith(params)
		_ = try(func() { smap.Put(`a`, typ.Nil) })
		_ = try(func() { smap.Get(`b`).(dgo.Map).Put(`required`, false) })
		for _, m := range made {
			switch m := m.(type) {
			case dgo.TernaryType:
				meddleWith(m.Operands())
			case dgo.TupleType:
				meddleWith(m.ElementTypes())
			case dgo.NamedType:
				meddleWith(m.Parameters())
				if ps := m.Parameters(); ps != nil {
					ps.Each(func(v dgo.Value) {
						switch v := v.(type) {
						case dgo.Array:
							meddleWith(v)
						case dgo.Map:
							_ = try(func() { v.Put(`k`, 99) })
						}
					})
				}
			case dgo.FunctionType:
				meddleWith(m.In().ElementTypes())
				meddleWith(m.Out().ElementTypes())
			}
		}
		after := looks()
		e.check(after == before, `type-changed`, "the type was %s, and is %s after what it was made from, and what it handed out, was modified", before, after)
		return ts("%s", before)
	})
	addTop(`t.ExactValue`, func(e *tenv, t dgo.Type, a []int) tret {
		if et, ok := t.(dgo.ExactType); ok {
			return valRet(et.ExactValue())
		}
		return ts("%s", dump(typ.ExactValue(t), 0))
	})
	addTop(`t.Meta`, func(e *tenv, t dgo.Type, a []int) tret {
		mt := tf.Meta(t)
		return tret{[]dgo.Type{mt.Describes()}, fmt.Sprint(mt.Instance(t), mt.Instance(e.typ(a[0])), mt.Assignable(t.Type()), mt)}
	})
	addTop(`t.compose`, func(e *tenv, t dgo.Type, a []int) tret { return tt(composeType(a[0], t, e.typ(a[1]))) })
	addTop(`t.AnyOf3`, func(e *tenv, t dgo.Type, a []int) tret { return tt(tf.AnyOf(t, e.typ(a[0]), `lit`, e.typ(a[1]))) })
	addTop(`t.Parameterized`, func(e *tenv, t dgo.Type, a []int) tret {
		if n, ok := t.(dgo.NamedType); ok {
			p := tf.Parameterized(n, vf.Values(a[0]%5, `x`))
			return tret{[]dgo.Type{p}, p.String() + fmt.Sprint(n.Assignable(p), p.Assignable(n), p.HashCode())}
		}
		return ts(`not named`)
	})
	addTop(`t.StructFromMap`, func(e *tenv, t dgo.Type, a []int) tret {
		switch a[0] % 3 {
		case 0:
			return tt(tf.StructMapFromMap(a[0]%2 == 0, vf.Map(`a`, t, `b`, vf.Map(`type`, `map[string]data`, `required`, a[1]%2 == 0))))
		case 1:
			return tt(tf.StructMapFromMap(false, vf.Map(`x`, `int|string`, `y`, vf.Map(`type`, t))))
		}
		return tt(tf.StructMapFromMap(true, vf.Map(`k`, vf.Map(`type`, `[]richdata`), `l`, 3)))
	})
	addTop(`t.reparse`, func(e *tenv, t dgo.Type, a []int) tret {
		s := t.String()
		if strings.Contains(s, `<recursive`) || strings.Contains(s, `func`) && strings.Contains(s, `Go`) {
			return ts(`not parseable`)
		}
		u := tf.ParseType(s)
		return tret{[]dgo.Type{u}, fmt.Sprint(u.Equals(t), t.Equals(u))}
	})
	addTop(`t.json`, func(e *tenv, t dgo.Type, a []int) tret {
		b := streamer.MarshalJSON(t, streamer.DgoDialect())
		return ts("%s", b)
	})
	addTop(`t.jsonBack`, func(e *tenv, t dgo.Type, a []int) tret {
		b := streamer.MarshalJSON(vf.Values(t, t, vf.Map(`t`, t)), streamer.DgoDialect())
		return valRet(streamer.UnmarshalJSON(b, streamer.DgoDialect()))
	})
	addTop(`t.withAliases`, func(e *tenv, t dgo.Type, a []int) tret {
		am := tf.BuiltInAliases()
		if a[0]%2 == 0 {
			am = am.Collect(func(ad dgo.AliasAdder) { ad.Add(t, vf.String(`al`)) })
		}
		return ts("%s", stringer.TypeStringWithAliasMap(tf.Array(t), am))
	})
	addTop(`t.collect`, func(e *tenv, t dgo.Type, a []int) tret {
		u := e.typ(a[0])
		am := tf.BuiltInAliases().Collect(func(ad dgo.AliasAdder) {
			ad.Add(tf.Array(t), vf.String(`xs`))
			tf.ParseFile(ad, ``, `ys=map[string](int|xs)`)
			ad.Add(tf.Map(typ.String, u), vf.String(`zs`))
		})
		r := tt(am.GetType(vf.String(`xs`)), am.GetType(vf.String(`ys`)), am.GetType(vf.String(`zs`)), am.GetType(vf.String(`data`)))
		r.t = fmt.Sprint(am.GetName(tf.Array(t)), am.GetName(u))
		return r
	})
	addTop(`t.asKey`, func(e *tenv, t dgo.Type, a []int) tret {
		m := vf.MutableMap()
		m.Put(t, 1)
		m.Put(e.typ(a[0]), 2)
		m.Put(t, 3)
		return ts("%d %v %s", m.Len(), m.Get(t), dump(m.Keys(), 0))
	})
	addTop(`t.inArray`, func(e *tenv, t dgo.Type, a []int) tret {
		as := vf.Values(t, e.typ(a[0]), t)
		as2 := as.FrozenCopy().(dgo.Array)
		return ts("%v %d %v %s", as.Equals(as2), as.IndexOf(t), as2.Unique(), as2.Type())
	})
	addTop(`t.toSlice`, func(e *tenv, t dgo.Type, a []int) tret {
		var x dgo.Type
		vf.FromValue(t, &x)
		return tret{[]dgo.Type{x}, fmt.Sprint(x == t)}
	})
	addTop(`t.errors`, func(e *tenv, t dgo.Type, a []int) tret {
		s := tf.IllegalAssignment(t, e.val(a[0])).String() + tf.IllegalSize(t, a[1]%7).String()
		if st, ok := t.(dgo.StructMapType); ok {
			s += tf.IllegalMapKey(st, e.val(a[1])).String()
		}
		er := []dgo.Value{tf.IllegalAssignment(t, e.val(a[0])), tf.IllegalSize(t, a[1]%7), tf.IllegalMapKey(typ.AsType(tf.ParseType(`{a:int}`)).(dgo.StructMapType), e.val(a[1])), tf.IllegalAssignment(typ.String, vf.Integer(1))}
		x, y := er[a[0]%4], er[a[1]%4]
		return ts("%s %d %v %v %s %v", s, x.HashCode(), x.Equals(y), x.Equals(x.(error)), x.Type(), x.Type().Instance(y))
	})
	addTop(`t.isInstance`, func(e *tenv, t dgo.Type, a []int) tret {
		n := []int64{-1, 0, 3, 4, 9, 1 << 40}[a[0]%6]
		str := []string{``, `x`, `abc`, `ABC`, `aaaa`}[a[1]%5]
		s := ``
		switch t := t.(type) {
		case dgo.IntegerType:
			s = fmt.Sprint(t.IsInstance(n), t.Min(), t.Max(), t.Inclusive())
		case dgo.FloatType:
			s = fmt.Sprint(t.IsInstance(float64(n)+0.5), t.IsInstance(float64(n)), t.Min(), t.Max(), t.Inclusive())
		case dgo.BooleanType:
			s = fmt.Sprint(t.IsInstance(n == 0))
		case dgo.TimeType:
			s = fmt.Sprint(t.IsInstance(time.Unix(n, 0)))
		case dgo.RegexpType:
			s = fmt.Sprint(t.IsInstance(regexp.MustCompile(str)))
		case dgo.BinaryType:
			s = fmt.Sprint(t.IsInstance([]byte(str)), t.Min(), t.Max(), t.Unbounded())
		case dgo.ErrorType:
			s = fmt.Sprint(t.IsInstance(errors.New(str)))
		}
		for _, v := range []interface{}{n, str, float64(n), []byte(str), errors.New(str), regexp.MustCompile(str), time.Unix(n, 0), nil, true, []string{str}, map[string]int64{str: n}, reflect.ValueOf(str), t} {
			s += fmt.Sprint(` `, t.Instance(v))
		}
		return ts("%s", s)
	})
	addTop(`t.newArgs`, func(e *tenv, t dgo.Type, a []int) tret {
		args := [][]interface{}{{`0x1f`, 16}, {`1f`, 16}, {`11`, 2}, {`077`}, {`%d`, 3}, {3, `%x`}, {`2.5e3`}, {`yes`}, {`f`}, {true}, {`2020-05-06T07:08:09Z`}, {1234567.25}, {`AQID`, `%b`}, {`AQI`, `%B`}, {`a-_b`, `%u`}, {`abc`, `%s`}, {"\xff", `%s`}, {"\xff", `%r`},
			{`abc`, `%q`}, {[]int{1, 2}}, {[]int{1, 300}}, {`x`, `[a`}, {`^a+$`}, {map[string]int{`a`: 1}}, {vf.Values(vf.Values(`a`, 1), vf.Values(`b`, 2))}, {vf.Values(`a`, 1, `b`)}, {vf.Values(`a`, `x`), vf.Values(1, 2)}, {}, {1, 2, 3}, {`b`}, {time.Unix(55, 0)}, {json.Number(`12`)}, {json.Number(`1.5`)}, {json.Number(`x`)},
			{-0.0}, {1e300}, {`1e300`}, {int64(-1) << 63}, {`-9223372036854775808`}, {vf.Sensitive(3)}, {`simPoint`, 3}, {regexp.MustCompile(`b`)}}[a[0]%42]
		var av dgo.Value = vf.Arguments(args...)
		if a[1]%3 == 0 && len(args) > 0 {
			av = vf.Value(args[0])
		}
		res := []string{}
		for _, x := range []dgo.Type{t, typ.Integer, typ.Float, typ.Boolean, typ.String, typ.Time, typ.Binary, typ.Array, typ.Map, typ.Regexp, typ.Sensitive, tf.Integer(0, 100, true), vf.Integer(3).Type(), vf.Time(time.Unix(55, 0)).Type()} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						res = append(res, panicText(r))
					}
				}()
				res = append(res, dump(vf.New(x, av), dFrozen))
			}()
		}
		return ts("%s", strings.Join(res, `; `))
	})
	addTop(`t.named`, func(e *tenv, t dgo.Type, a []int) tret {
		n := tf.Named(`simPoint`)
		p := &simPoint{int64(a[0] % 5), 2}
		return tret{[]dgo.Type{n, p.Type()}, fmt.Sprint(n.Instance(p), t.Instance(p), t.Assignable(n), n.Assignable(t), p.Type().Assignable(t), tf.NamedFromReflected(reflect.TypeOf(p)) == n)}
	})
	addTop(`t.valType`, func(e *tenv, t dgo.Type, a []int) tret {
		v := e.val(a[0])
		vt := v.Type()
		return tret{[]dgo.Type{vt}, fmt.Sprint(vt.Instance(v), t.Assignable(vt), typ.Generic(vt))}
	})
	addTop(`t.FromReflected`, func(e *tenv, t dgo.Type, a []int) tret { return tt(tf.FromReflected(goTypes[a[0]%len(goTypes)])) })
	addTop(`t.freeze`, func(e *tenv, t dgo.Type, a []int) tret {
		if f, ok := t.(dgo.Freezable); ok {
			f.Freeze()
			return tret{[]dgo.Type{f.FrozenCopy().(dgo.Type)}, fmt.Sprint(f.Frozen())}
		}
		return ts(`not freezable`)
	})
	addTop(`t.func`, func(e *tenv, t dgo.Type, a []int) tret {
		f := vf.Value(func(n int, s string) string { return s })
		return ts("%v %v %s", t.Instance(f), f.Type().Assignable(t), f.Type())
	})
	addTop(`parse`, func(e *tenv, t dgo.Type, a []int) tret {
		return tt(tf.ParseType(typeTexts[a[0]%len(typeTexts)]))
	})
	addTop(`parseText`, func(e *tenv, t dgo.Type, a []int) tret {
		return tt(tf.ParseType(genTypeText(newRand(uint64(a[0])), 1+a[1]%3)))
	})
	addTop(`parseValue`, func(e *tenv, t dgo.Type, a []int) tret {
		txts := []string{`{"a",1,{b:"c"}}`, `{a:1,b:{2,3.5,"x"}}`, `[]data`, `{x:map[string]richdata,y?:data}`, `{{{1}}}`, `simPoint`, `binary "AQID"`, `{a:simPoint}`, `map[data]data`}
		return valRet(tf.Parse(txts[a[0]%len(txts)]))
	})
	addTop(`parsePcore`, func(e *tenv, t dgo.Type, a []int) tret {
		return valRet(pcore.Parse(pcoreTexts[a[0]%len(pcoreTexts)]))
	})
	addTop(`parseRec`, func(e *tenv, t dgo.Type, a []int) tret {
		return valRet(tf.ParseFile(nil, `f`, recTexts[a[0]%len(recTexts)]))
	})
	addTop(`parseAlias`, func(e *tenv, t dgo.Type, a []int) tret {
		// the name and the type are the thread's own
		e.cnt++
		n := fmt.Sprintf(`al%s%d`, e.tag, e.cnt)
		q := 7000 + e.num*1000 + e.cnt
		var u, w dgo.Type
		switch a[0] % 4 {
		case 0:
			u = tf.ParseType(fmt.Sprintf(`%s=map[string,%d](int|%s)`, n, q, n))
			w = tf.ParseType(fmt.Sprintf(`[](%s|data)`, n))
		case 1:
			u = tf.ParseType(fmt.Sprintf(`%s=string[%d]`, n, q))
			w = tf.ParseType(fmt.Sprintf(`{a:%s,b?:[]%s}`, n, n))
		case 2:
			n = strings.Title(n)
			u = pcore.ParseType(fmt.Sprintf(`type %s=Integer[1,%d]`, n, q))
			w = pcore.ParseType(fmt.Sprintf(`Array[%s]`, n))
		default:
			u = typ.AsType(tf.Parse(fmt.Sprintf(`{types:{%s=[%d](string|%s)},x:%s}`, n, q, n, n)))
			w = tf.ParseType(fmt.Sprintf(`map[string]%s`, n))
		}
		am := tf.DefaultAliases()
		g := am.GetType(vf.String(n))
		return tret{[]dgo.Type{u, w, g}, fmt.Sprint(u, w, am.GetName(g))}
	})
	addTop(`parseOwn`, func(e *tenv, t dgo.Type, a []int) tret {
		// All threads use the same names and texts, each name is an alias of a type of the thread's own. It's known what
		// the text means, so that also a meaning that's remembered from the first one who asked is found.
		q := int64(50000 + e.num*100 + e.cnt%50) // never the same as those of parseAlias
		e.cnt++
		own := []dgo.Type{tf.Integer(1, q, true), tf.String(0, int(q)), tf.Array(tf.Integer(0, q, true)), tf.AnyOf(int(q), `x`), vf.Value(int(q)).Type()}[a[0]%5]
		type meaning struct {
			pcore bool
			text  string
			want  func(o dgo.Type) dgo.Type
		}
		ms := []meaning{
			{false, `[]own1`, func(o dgo.Type) dgo.Type { return tf.Array(o) }},
			{false, `map[string]own1`, func(o dgo.Type) dgo.Type { return tf.Map(typ.String, o) }},
			{false, `own1`, func(o dgo.Type) dgo.Type { return o }},
			{false, `map[own1,1,3](own1|nil)`, func(o dgo.Type) dgo.Type { return tf.Map(o, tf.AnyOf(o, typ.Nil), 1, 3) }},
			{false, `!own1`, func(o dgo.Type) dgo.Type { return tf.Not(o) }},
			{false, `{a:own1,b?:[]own1}`, func(o dgo.Type) dgo.Type {
				return tf.StructMap(false, tf.StructMapEntry(`a`, o, true), tf.StructMapEntry(`b`, tf.Array(o), false))
			}},
			{true, `Array[Own1]`, func(o dgo.Type) dgo.Type { return tf.Array(o) }},
			{true, `Hash[String,Own1]`, func(o dgo.Type) dgo.Type { return tf.Map(typ.String, o) }},
			{true, `Variant[Own1,Undef]`, func(o dgo.Type) dgo.Type { return tf.AnyOf(o, typ.Nil) }},
		}
		m := ms[a[1]%len(ms)]
		parse, name := tf.ParseFile, `own1`
		if m.pcore {
			parse, name = pcore.ParseFile, `own1`
		}
		var got dgo.Type
		var am dgo.AliasMap
		if pan := try(func() {
			am = tf.BuiltInAliases().Collect(func(ad dgo.AliasAdder) {
				ad.Add(own, vf.String(name))
				got = typ.AsType(parse(ad, `own`, m.text))
			})
		}); pan != nil {
			e.check(false, `known-text-fails`, "%q, where %s is %s, failed with %s", m.text, name, own, panicText(pan))
			return ts("%s", panicText(pan))
		}
		want := m.want(own)
		e.check(want.Equals(got), `meaning-of-text`, "%q, where %s is %s, is %s instead of %s", m.text, name, own, got, want)
		e.check(own.Equals(am.GetType(vf.String(name))), `meaning-of-name`, "%s was added as an alias of %s, it is one of %v", name, own, am.GetType(vf.String(name)))
		str := stringer.TypeStringWithAliasMap(got, am)
		var back dgo.Type
		am.Collect(func(ad dgo.AliasAdder) { back = typ.AsType(tf.ParseFile(ad, ``, str)) })
		e.check(want.Equals(back), `meaning-of-text`, "%q is the string of %s, where %s is %s, it means %s", str, got, name, own, back)
		return tret{[]dgo.Type{got}, str}
	})
	addTop(`parseKnown`, func(e *tenv, t dgo.Type, a []int) tret {
		// texts with a known meaning, through all ways into the parsers
		am := tf.DefaultAliases()
		data, rich := am.GetType(vf.String(`data`)), am.GetType(vf.String(`richdata`))
		type meaning struct {
			dgo, pcore string
			want       dgo.Type
		}
		q := int64(30000 + e.num*100 + e.cnt%50)
		e.cnt++
		ms := []meaning{
			{`[]data`, `Array[Data]`, tf.Array(data)},
			{`map[string,1,3]richdata`, `Hash[String,Richdata,1,3]`, tf.Map(typ.String, rich, 1, 3)},
			{`data|[]int`, `Variant[Data,Array[Integer]]`, tf.AnyOf(data, tf.Array(typ.Integer))},
			{`data`, `Data`, data},
			{`simPoint`, `SimPoint`, tf.Named(`simPoint`)},
			{`[]simPoint`, `Array[SimPoint]`, tf.Array(tf.Named(`simPoint`))},
			{fmt.Sprintf(`string[1,%d]`, q), fmt.Sprintf(`String[1,%d]`, q), tf.String(1, int(q))},
			{fmt.Sprintf(`[](-%d..%d)`, q, q), fmt.Sprintf(`Array[Integer[-%d,%d]]`, q, q), tf.Array(tf.Integer(-q, q, true))},
			{fmt.Sprintf(`{a:string[%d],b?:data}`, q), fmt.Sprintf(`Struct[a=>String[%d],Optional[b]=>Data]`, q), tf.StructMap(false, tf.StructMapEntry(`a`, tf.String(int(q)), true), tf.StructMapEntry(`b`, data, false))},
			{`[]/a+b/`, `Array[Pattern[/a+b/]]`, tf.Array(tf.Pattern(regexp.MustCompile(`a+b`)))},
		}
		m := ms[a[0]%len(ms)]
		via := a[1] % 10
		var got dgo.Type
		text := m.dgo
		if via >= 5 {
			text = m.pcore
		}
		pan := try(func() {
			switch via {
			case 0:
				got = tf.ParseType(text)
			case 1:
				got = typ.AsType(tf.Parse(text))
			case 2:
				got = typ.AsType(tf.ParseFile(nil, ``, text))
			case 3:
				tf.AddDefaultAliases(func(ad dgo.AliasAdder) { got = typ.AsType(tf.ParseFile(ad, `f`, text)) })
			case 4:
				tf.BuiltInAliases().Collect(func(ad dgo.AliasAdder) { got = typ.AsType(tf.ParseFile(ad, `f`, text)) })
			case 5:
				got = pcore.ParseType(text)
			case 6:
				got = typ.AsType(pcore.Parse(text))
			case 7:
				got = typ.AsType(pcore.ParseFile(nil, ``, text))
			case 8:
				tf.AddDefaultAliases(func(ad dgo.AliasAdder) { got = typ.AsType(pcore.ParseFile(ad, `f`, text)) })
			default:
				tf.BuiltInAliases().Collect(func(ad dgo.AliasAdder) { got = typ.AsType(pcore.ParseFile(ad, `f`, text)) })
			}
		})
		if pan != nil {
			e.check(false, `known-text-fails`, "%q, parsed in way %d, failed with %s", text, via, panicText(pan))
			return ts("%s", panicText(pan))
		}
		e.check(m.want.Equals(got) && got.Equals(m.want), `meaning-of-text`, "%q, parsed in way %d, is %s instead of %s", text, via, got, m.want)
		return tt(got)
	})
	addTop(`parseBad`, func(e *tenv, t dgo.Type, a []int) tret {
		txts := []string{`map[string`, `{a:[]nosuch}`, `[](data|nope)`, `{a:1,2}`, `string[x]`, `1...`, `map[string](int|`, `"abc`, `sensitive[`, `func(`, `x=map[string](y|x)`}
		return valRet(tf.Parse(txts[a[0]%len(txts)]))
	})
	addTop(`defaults`, func(e *tenv, t dgo.Type, a []int) tret {
		am := tf.DefaultAliases()
		d := am.GetType(vf.String(`data`))
		rd := am.GetType(vf.String(`richdata`))
		v := e.val(a[0])
		return tret{[]dgo.Type{d, rd}, fmt.Sprint(am.GetName(d), am.GetName(rd), d.Instance(v), rd.Instance(v), d.Assignable(t), rd.Assignable(t), d, rd, d.HashCode() == rd.HashCode())}
	})
}

func pickTop(e *tenv, o *Op) (*top, dgo.Type) {
	var t dgo.Type
	if o.A[0]%2 == 0 || len(e.local) == 0 {
		t = e.types[o.A[0]/2%len(e.types)]
	} else {
		t = e.local[len(e.local)-1-o.A[0]/2%len(e.local)]
	}
	return topByName[o.K], t
}

// runTypeOps performs operations on types, with some operations on frozen values mixed in
func runTypeOps(e *tenv, ops []Op) []opRes {
	e.priv = []dgo.Value{vf.Values(`p`, vf.Values(1, 2)), vf.Map(`a`, 1, `b`, `x`), vf.String(`str`), vf.Binary([]byte{1, 2, 3}, true), vf.Map(`k`, vf.Values(1)), vf.Nil, vf.True}
	rs := make([]opRes, 0, len(ops))
	for i := range ops {
		o := &ops[i]
		if vo := vopByName[o.K]; vo != nil {
			s := protect(func() string { return vo.fn(&e.env, e.types[o.A[0]/2%len(e.types)], o.A[1:]).show() })
			rs = append(rs, opRes{o.K, s})
			continue
		}
		op, t := pickTop(e, o)
		var r tret
		s := protect(func() string {
			r = op.fn(e, t, o.A[1:])
			return r.show()
		})
		for _, rt := range r.ts {
			if rt != nil && len(s) < 2000 && len(e.local) < 40 {
				e.local = append(e.local, rt)
			}
		}
		rs = append(rs, opRes{op.name, s})
	}
	return rs
}

func genTypeOps(r *Rand, n int, localBias int) []Op {
	ops := make([]Op, n)
	for i := range ops {
		rcv := 2 * r.n(50)
		if r.n(100) < localBias {
			rcv = 2*r.n(50) + 1
		}
		k := tops[r.n(len(tops))].name
		if r.p(1, 12) {
			k = drawFor(r, kAny, false).name
		}
		ops[i] = Op{K: k, A: []int{rcv, r.n(1000), r.n(1000), r.n(1000), r.n(1000)}}
	}
	return ops
}
