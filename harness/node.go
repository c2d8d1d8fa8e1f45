package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Node describes a value. Building the same node twice gives two independent but equal values.
type Node struct {
	K string  `json:"k"`
	I int64   `json:"i,omitempty"`
	S string  `json:"s,omitempty"`
	M int     `json:"m,omitempty"`
	C []*Node `json:"c,omitempty"`
}

// GoThing is the Go struct that struct maps wrap
type GoThing struct {
	X    int
	Name string
	Tags []string
	Arr  dgo.Array
	Dict dgo.Map
	Bin  dgo.Binary
	Raw  []byte
	Nest [][]int
	Nums map[string]int
	Any  interface{}
}

// goAny gives what may be in a field of interface type
func goAny(n int64) interface{} {
	switch n % 4 {
	case 0:
		return []string{`a1`, `a2`}
	case 1:
		return map[string]interface{}{`m`: []int{1, 2}}
	case 2:
		return `any`
	}
	return nil
}

// simPoint is an immutable value with a named type
type simPoint struct{ x, y int64 }

var simPointType = tf.NewNamed(`simPoint`,
	func(v dgo.Value) dgo.Value {
		m := v.(dgo.Map)
		return &simPoint{m.Get(`x`).(dgo.Integer).GoInt(), m.Get(`y`).(dgo.Integer).GoInt()}
	},
	func(v dgo.Value) dgo.Value {
		p := v.(*simPoint)
		return vf.Map(`x`, p.x, `y`, p.y)
	},
	reflect.TypeOf(&simPoint{}), nil, nil)

func (p *simPoint) String() string { return simPointType.ValueString(p) }
func (p *simPoint) Type() dgo.Type { return tf.ExactNamed(simPointType, p) }
func (p *simPoint) Equals(o interface{}) bool {
	op, ok := o.(*simPoint)
	return ok && *p == *op
}
func (p *simPoint) HashCode() int { return int(p.x*31 + p.y) }

var strs = []string{``, `a`, `b`, `key`, `a longer string that exceeds the dedup threshold of twenty`, `x y`, `<&>`, "\u00e5\u00e4\u00f6", "q\"uote\\", `12`, `another quite long string value, also above the limit`}

// typeText draws the text of a type
func (o genOpts) typeText(r *Rand) string {
	if o.wide && r.p(1, 3) {
		if t := genTypeText(r, 2); !strings.Contains(t, `binary[`) && !strings.Contains(t, `sensitive[`) { // their string form may be refused by the parser (N02)
			return t
		}
	}
	return r.pick(typeTexts)
}

var typeTexts = []string{`int`, `string`, `[]string`, `map[string]int`, `{a:int,b?:string}`, `1..10`, `string[1,5]`, `/^a.*/`, `"x"|"y"`,
	`[]data`, `map[string]richdata`, `data`, `!int`, `sensitive[string]`, `[2]int`, `{string,int}`, `func(int,string) (bool)`, `any`, `type[int]`, `int&1..5`, `float|int`, `binary`, `{"a",3}`, `simPoint`,
	`dgo`, `"a"^"b"`, `map[string,1,3]int`, `{a:int,...}`, `{...}`, `func(...int)`, `5..`, `1...10`, `3.5..6.1`, `[1,2]string`, `nil`, `true`, `[][]string`, `map[string]map[string]int`, `{n:{m:1..3},o?:[]int}`, `{int,...string}`, `type`, `type[string[1,3]]`,
	`func(int) (string|int)`, `func(string) (int&1..5)`, `func() ("a"^"b")`, `[](func(int) (string|nil))`, `func(func(int) (1|2)) ([]string)`}

// kinds of values a generator may produce
type genOpts struct {
	native bool // unfreezable values
	strct  bool // struct maps
	types  bool
	fns    bool
	json   bool // only what round trips through JSON
	named  bool
	rx     bool
	errs   bool
	sens   bool
	entry  bool
	loader bool // loaders of values
	wide   bool // unusual numbers, strings, times
	bag    bool // values of a named type that are created from any value
}

func genNode(r *Rand, depth int, o genOpts) *Node {
	k := r.n(100)
	if depth > 0 {
		switch {
		case k < 30:
			return genArr(r, depth, o)
		case k < 60:
			return genMap(r, depth, o)
		case k < 66 && o.strct:
			return genStruct(r, depth)
		case k < 72 && o.sens:
			return &Node{K: `se`, C: []*Node{genNode(r, depth-1, o)}}
		case k < 74 && o.entry:
			return &Node{K: `me`, C: []*Node{genKey(r, o), genNode(r, depth-1, o)}}
		case k >= 95 && o.bag:
			return &Node{K: `nb`, C: []*Node{genBagArg(r, depth, o)}}
		}
	}
	return genScalar(r, o)
}

func genScalar(r *Rand, o genOpts) *Node {
	if o.wide && r.p(1, 8) {
		return genWide(r)
	}
	for {
		switch r.n(17) {
		case 0:
			if o.loader && r.p(1, 3) {
				return &Node{K: `ldr`, S: r.pick([]string{`l1`, `l2`}), I: int64(r.n(8))}
			}
			return &Node{K: `nil`}
		case 1:
			return &Node{K: `bool`, I: int64(r.n(2))}
		case 2, 3, 4:
			return &Node{K: `i`, I: int64(r.n(9)) - 2}
		case 5:
			return &Node{K: `fl`, I: int64(r.n(40)) - 10}
		case 6, 7, 8, 9:
			return &Node{K: `s`, S: r.pick(strs)}
		case 10:
			return genBin(r)
		case 11:
			return &Node{K: `tm`, I: int64(r.n(5)) * 86400 * 1e9}
		case 12:
			if o.rx {
				return &Node{K: `rx`, S: r.pick([]string{`a+`, `^x[yz]*$`, `.`})}
			}
		case 13:
			if o.types {
				return &Node{K: `ty`, S: o.typeText(r)}
			}
		case 14:
			if o.errs {
				return &Node{K: `er`, S: r.pick(strs)}
			}
		case 15:
			if o.fns {
				return &Node{K: `fn`, I: int64(r.n(3))}
			}
			if o.native {
				return &Node{K: `na`, I: int64(r.n(3))}
			}
		case 16:
			if o.named {
				return &Node{K: `nm`, I: int64(r.n(3))}
			}
		}
	}
}

var wideInts = []int64{math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1 << 53) - 1, 1<<53 - 1, 1 << 31, 1<<32 + 1, 255, 256, -129, 1000000000000000000, 999999999999999999, 1000000}
var wideFloats = []float64{1e21, 1e20, 123456789012345680, 1e-7, 1e-6, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 1e22, -1e300, 1 << 53, 9007199254740993, math.MaxInt64, 1e15, 100, math.Pi}
var long64 = strings.Repeat(`0123456789abcdef`, 8)
var wideStrs = []string{"\x00", "\x00\x01\a\b\v\f\x1f\x7f", "\r\n\t", "\u2028\u2029", "\U0001F600 and \U0010FFFF", "\ufffd", "e\u0301", `</script>&amp;'`, `{"__ref":1}`, `__ref`, `__type`, `__value`, `__pref`, `__ptype`,
	`null`, `true`, `1.0`, `nil`, `[]`, `\u0041\`, `/a\/b/`, `sensitive`, `map`, `binary`, `AQIDBA==`, `2020-01-01T00:00:00Z`, `1970-01-01T00:00:00Z`, `1..10`, `int`, `simPoint`,
	`exactly nineteen ch`, `exactly twenty chara`, `exactly 21 characters`, `nineteen and one \u00e5`, long64 + `x`, long64 + `y`, long64, `x` + long64, `y` + long64, strings.Repeat("\u00e5", 10), strings.Repeat("\u00e5", 19), strings.Repeat(`"`, 30)}
var wideTimes = []time.Time{time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 1, time.FixedZone(`X`, 5400)), time.Date(2020, 1, 1, 12, 0, 0, 123000000, time.FixedZone(`Y`, -12*3600)),
	time.Date(1890, 1, 1, 0, 0, 0, 5, time.FixedZone(`LMT`, 1172)), time.Date(1850, 6, 1, 0, 0, 0, 0, time.FixedZone(`LMT`, -17762)), time.Date(0, 1, 1, 0, 0, 0, 100, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 59, 500000000, time.UTC), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2300, 1, 1, 0, 0, 0, 0, time.FixedZone(``, 3600)), {},
	// times that have much in common, see genNear
	time.Date(2020, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2020, 2, 29, 23, 59, 59, 1, time.UTC), time.Date(2020, 2, 29, 23, 59, 59, 999000000, time.UTC), time.Date(2020, 2, 29, 23, 59, 59, 999999000, time.UTC),
	time.Date(2020, 3, 1, 0, 59, 59, 0, time.FixedZone(``, 3600)), time.Date(2020, 2, 29, 23, 59, 59, 0, time.FixedZone(``, 3600)), time.Date(2020, 2, 29, 23, 59, 0, 0, time.UTC), time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC)}

const nearTimes = 8

// genNear draws an array of values that are not equal, but have much in common
func genNear(r *Rand) *Node {
	n := &Node{K: `a`, M: r.n(12)}
	c := r.rng(2, 5)
	pre := strings.Repeat(`0123456789abcdef`, []int{1, 2, 4, 8, 16, 32}[r.n(6)]) + `0123456`[:r.n(8)]
	kind := r.n(5)
	for i := 0; i < c; i++ {
		switch kind {
		case 0:
			n.C = append(n.C, &Node{K: `tm`, M: 1 + len(wideTimes) - nearTimes + r.n(nearTimes)})
		case 1: // strings with the same beginning, end or length
			x := string(rune('a' + r.n(4)))
			n.C = append(n.C, &Node{K: `s`, S: r.pick([]string{pre + x, x + pre, pre, strings.ToUpper(pre), pre + ` `, pre + "\u0000", pre[1:] + x})})
		case 2: // binaries, and strings that are the string form of them
			b := []byte(pre)
			switch r.n(4) {
			case 0:
				b[len(b)-1]++
			case 1:
				b = b[:len(b)-1]
			case 2:
				b = append(b, 0)
			}
			if r.p(1, 3) {
				n.C = append(n.C, &Node{K: `s`, S: r.pick([]string{base64.StdEncoding.EncodeToString(b), fmt.Sprintf("%x", b), string(b)})})
			} else {
				n.C = append(n.C, &Node{K: `b`, S: fmt.Sprintf("%x", b), M: r.n(4)})
			}
		case 3: // different kinds that look alike
			n.C = append(n.C, []*Node{{K: `i`, I: 1}, {K: `i`, I: 0}, {K: `s`, S: `1`}, {K: `s`, S: `true`}, {K: `s`, S: `nil`}, {K: `s`, S: `null`}, {K: `nil`}, {K: `s`}, {K: `a`}, {K: `m`},
				{K: `ty`, S: `1..10`}, {K: `s`, S: `1..10`}, {K: `ty`, S: `string`}, {K: `s`, S: `string`}, {K: `tm`, M: 1 + len(wideTimes) - nearTimes}, {K: `s`, S: `2020-02-29T23:59:59Z`}}[r.n(16)])
		case 4: // the same content in different containers
			x := &Node{K: `s`, S: pre}
			n.C = append(n.C, []*Node{x, {K: `a`, C: []*Node{x}}, {K: `a`, C: []*Node{x, x}}, {K: `se`, C: []*Node{x}}, {K: `m`, C: []*Node{x, x}}, {K: `m`, C: []*Node{x, {K: `a`, C: []*Node{x}}}}}[r.n(6)])
		}
	}
	return n
}

func genWide(r *Rand) *Node {
	switch r.n(8) {
	case 0, 1:
		return &Node{K: `i`, I: wideInts[r.n(len(wideInts))]}
	case 2, 3:
		return &Node{K: `fl`, M: 1 + r.n(len(wideFloats))}
	case 4:
		return &Node{K: `tm`, M: 1 + r.n(len(wideTimes))}
	case 5:
		b := make([]byte, r.n(100))
		for i := range b {
			b[i] = byte(r.n(256))
		}
		return &Node{K: `b`, S: fmt.Sprintf("%x", b), M: r.n(4)}
	}
	if r.p(1, 4) {
		// a few runes of any kind
		var b strings.Builder
		for i := r.rng(1, 3); i > 0; i-- {
			b.WriteRune([]rune{rune(r.n(0x30)), rune(r.n(0x100)), rune(0x2020 + r.n(16)), rune(0xfff0 + r.n(16)), rune(0x10000 + r.n(0x100000))}[r.n(5)])
		}
		return &Node{K: `s`, S: b.String()}
	}
	return &Node{K: `s`, S: r.pick(wideStrs)}
}

// genBagArg makes what a bag is created from
func genBagArg(r *Rand, depth int, o genOpts) *Node {
	o.native, o.errs, o.fns, o.rx, o.entry = false, false, false, false, false
	switch r.n(8) {
	case 0:
		return &Node{K: `m`}
	case 1:
		return &Node{K: `a`}
	case 2:
		return genArr(r, depth, o)
	case 3, 4:
		return genMap(r, depth, o)
	}
	return genNode(r, depth-1, o)
}

// simBag is an immutable value with a named type that is created from any value
type simBag struct{ arg dgo.Value }

var simBagType = tf.NewNamed(`simBag`,
	func(v dgo.Value) dgo.Value { return &simBag{v} },
	func(v dgo.Value) dgo.Value { return v.(*simBag).arg },
	reflect.TypeOf(&simBag{}), nil, nil)

func (p *simBag) String() string { return simBagType.ValueString(p) }
func (p *simBag) Type() dgo.Type { return tf.ExactNamed(simBagType, p) }
func (p *simBag) Equals(o interface{}) bool {
	op, ok := o.(*simBag)
	return ok && p.arg.Equals(op.arg)
}
func (p *simBag) HashCode() int { return 17 + p.arg.HashCode() }

func genBin(r *Rand) *Node {
	b := make([]byte, r.n(6))
	for i := range b {
		b[i] = byte(r.n(256))
	}
	return &Node{K: `b`, S: fmt.Sprintf("%x", b), M: r.n(4)}
}

func genArr(r *Rand, depth int, o genOpts) *Node {
	if o.wide && r.p(1, 10) {
		return genNear(r)
	}
	n := &Node{K: `a`, M: r.n(12)}
	c := r.n(6)
	if r.p(1, 12) {
		c = r.rng(9, 24)
	}
	for i := 0; i < c; i++ {
		n.C = append(n.C, genNode(r, depth-1, o))
	}
	if c > 1 && r.p(1, 4) {
		n.C[c-1] = n.C[0]
	}
	return n
}

func genKey(r *Rand, o genOpts) *Node {
	switch r.n(10) {
	case 0, 1:
		return &Node{K: `i`, I: int64(r.n(12))}
	case 2:
		return genArrOf(r, r.n(3))
	case 3:
		if o.types && !o.json {
			return &Node{K: `ty`, S: o.typeText(r)}
		}
	case 4:
		return genBin(r)
	}
	if r.p(1, 2) {
		return &Node{K: `s`, S: fmt.Sprintf("k%d", r.n(30))}
	}
	return &Node{K: `s`, S: r.pick(strs)}
}

func genArrOf(r *Rand, n int) *Node {
	a := &Node{K: `a`, M: r.n(12)}
	for i := 0; i < n; i++ {
		a.C = append(a.C, &Node{K: `i`, I: int64(r.n(5))})
	}
	return a
}

func genMap(r *Rand, depth int, o genOpts) *Node {
	n := &Node{K: `m`, M: r.n(12)}
	c := r.n(5)
	if r.p(1, 10) {
		c = r.rng(8, 20)
	}
	strOnly := r.p(1, 2)
	seen := map[string]bool{}
	for i := 0; i < c; i++ {
		k := genKey(r, o)
		if strOnly {
			k = &Node{K: `s`, S: fmt.Sprintf("k%d", r.n(40))}
			if o.wide && r.p(1, 5) {
				k.S = fmt.Sprintf("a key that is longer than the threshold %d", r.n(4))
			}
		}
		id := nodeID(k)
		if seen[id] {
			continue
		}
		seen[id] = true
		n.C = append(n.C, k, genNode(r, depth-1, o))
	}
	return n
}

func nodeID(n *Node) string {
	c := ``
	for _, e := range n.C {
		c += `,` + nodeID(e)
	}
	return fmt.Sprintf("%s/%d/%s(%s)", n.K, n.I, n.S, c)
}

func genStruct(r *Rand, depth int) *Node {
	o := genOpts{}
	return &Node{K: `st`, I: int64(r.n(100)), S: r.pick(strs), M: r.n(4), C: []*Node{genArr(r, depth-1, o), genMap(r, depth-1, o), genBin(r)}}
}

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		_, _ = fmt.Sscanf(s[2*i:2*i+2], "%02x", &b[i])
	}
	return b
}

var funcs = []interface{}{
	func(a int64, b string) string { return fmt.Sprintf("%d-%s", a, b) },
	func(xs ...int64) int64 {
		t := int64(0)
		for _, x := range xs {
			t += x
		}
		return t
	},
	func(m map[string]int64) (int, error) { return len(m), nil },
}

var typeCache = map[string]dgo.Type{}

func (n *Node) children(frozen bool) []interface{} {
	cs := make([]interface{}, len(n.C))
	for i, c := range n.C {
		cs[i] = c.build(frozen)
	}
	return cs
}

// build creates the value. A frozen value is frozen in one of several ways.
func (n *Node) build(frozen bool) dgo.Value {
	switch n.K {
	case `nil`:
		return vf.Nil
	case `bool`:
		return vf.Boolean(n.I != 0)
	case `i`:
		return vf.Integer(n.I)
	case `fl`:
		if n.M > 0 {
			return vf.Float(wideFloats[n.M-1])
		}
		return vf.Float(float64(n.I) / 4)
	case `s`:
		return vf.String(strings.Clone(n.S))
	case `b`:
		bs := unhex(n.S)
		if !frozen {
			return vf.Binary(bs, false)
		}
		switch n.M {
		case 0:
			return vf.Binary(bs, true)
		case 1:
			b := vf.Binary(bs, false)
			b.Freeze()
			for i := range bs { // the source is modified after the freeze
				bs[i]++
			}
			return b
		case 2:
			b := vf.Binary(bs, true)
			for i := range bs {
				bs[i]++
			}
			return b
		default:
			b := vf.Binary(bs, false).Copy(true)
			for i := range bs {
				bs[i]++
			}
			return b
		}
	case `tm`:
		if n.M > 0 {
			return vf.Time(wideTimes[n.M-1])
		}
		return vf.Time(time.Unix(0, n.I).UTC())
	case `rx`:
		return vf.Regexp(regexp.MustCompile(n.S))
	case `ty`:
		return tf.ParseType(n.S)
	case `er`:
		return vf.Value(errors.New(n.S))
	case `fn`:
		return vf.Value(funcs[int(n.I)%len(funcs)])
	case `na`:
		switch n.I {
		case 0:
			return vf.Value(complex(1, 2))
		case 1:
			return vf.Value(&struct{ A int }{3})
		default:
			return vf.Value(struct{ B string }{`x`})
		}
	case `nm`:
		return &simPoint{n.I, n.I * 2}
	case `nb`:
		return &simBag{n.C[0].build(true)}
	case `nf`:
		return &simFaulty{n.I}
	case `se`:
		v := n.C[0].build(frozen)
		return vf.Sensitive(v)
	case `me`:
		return vf.MapEntry(n.C[0].build(true), n.C[1].build(frozen))
	case `a`:
		return n.buildArray(frozen)
	case `m`:
		return n.buildMap(frozen)
	case `st`:
		return n.buildStruct(frozen)
	case `dup`:
		return n.buildDup(frozen)
	case `deep`:
		return n.buildDeep(frozen)
	case `ldr`:
		return n.buildLoader()
	case `loader`, `alias`:
		return vf.String(n.S)
	}
	panic(`bad node kind ` + n.K)
}

func (n *Node) buildArray(frozen bool) dgo.Array {
	if !frozen {
		return vf.MutableValues(n.children(false)...)
	}
	switch n.M {
	case 0:
		return vf.Values(n.children(true)...)
	case 1:
		a := vf.MutableValues(n.children(false)...)
		a.Freeze()
		return a
	case 2:
		return vf.MutableValues(n.children(false)...).FrozenCopy().(dgo.Array)
	case 3: // a slice of a larger frozen array
		cs := append(n.children(true), `more`, 1, 2)
		return vf.Values(cs...).Slice(0, len(n.C))
	case 4:
		vs := make([]dgo.Value, len(n.C))
		for i, c := range n.C {
			vs[i] = c.build(false)
		}
		a := vf.Array(vs)
		for i := range vs { // the source is modified afterwards
			vs[i] = vf.Integer(99)
		}
		return a
	case 5: // grown one by one: spare capacity
		a := vf.Values()
		for _, c := range n.C {
			a = a.With(c.build(true))
		}
		return a
	case 6:
		return vf.Values().WithValues(n.children(true)...)
	case 7:
		return vf.Values(n.children(true)...).Select(func(dgo.Value) bool { return true })
	case 8:
		a := vf.ArrayWithCapacity(2)
		for _, c := range n.C {
			a.Add(c.build(false))
		}
		return a.Copy(true)
	case 9: // a mutable slice that is wrapped and frozen
		vs := make([]dgo.Value, len(n.C), len(n.C)+4)
		for i, c := range n.C {
			vs[i] = c.build(false)
		}
		return vf.WrapSlice(vs).FrozenCopy().(dgo.Array)
	case 10:
		return vf.Values().WithAll(vf.MutableValues(n.children(false)...))
	default:
		return vf.Values(append([]interface{}{0}, n.children(true)...)...).Slice(1, len(n.C)+1)
	}
}

func (n *Node) buildMap(frozen bool) dgo.Map {
	mutable := func(f bool) dgo.Map {
		m := vf.MutableMap()
		for i := 0; i+1 < len(n.C); i += 2 {
			m.Put(n.C[i].build(f), n.C[i+1].build(f))
		}
		return m
	}
	if !frozen {
		return mutable(false)
	}
	switch n.M {
	case 0, 1:
		return vf.Map(n.children(true)...)
	case 2:
		m := mutable(false)
		m.Freeze()
		return m
	case 3:
		return mutable(false).FrozenCopy().(dgo.Map)
	case 4:
		return mutable(true).Copy(true)
	case 5:
		m := vf.Map()
		for i := 0; i+1 < len(n.C); i += 2 {
			m = m.With(n.C[i].build(true), n.C[i+1].build(true))
		}
		return m
	case 6:
		return vf.Map(`gone`, 1).Merge(mutable(true).Copy(true)).Without(`gone`)
	case 7: // has been larger
		m := mutable(false)
		for i := 0; i < 20; i++ {
			m.Put(fmt.Sprintf("tmp%d", i), i)
		}
		for i := 0; i < 20; i++ {
			m.Remove(fmt.Sprintf("tmp%d", i))
		}
		m.Freeze()
		return m
	case 8:
		return vf.Values(n.children(true)...).ToMap()
	case 9:
		es := make([]interface{}, 0, len(n.C)/2)
		for i := 0; i+1 < len(n.C); i += 2 {
			es = append(es, vf.Values(n.C[i].build(true), n.C[i+1].build(true)))
		}
		m, _ := vf.Values(es...).ToMapFromEntries()
		return m
	case 10:
		return mutable(true).Copy(true).Map(func(e dgo.MapEntry) interface{} { return e.Value() })
	default:
		m := vf.MapWithCapacity(3)
		m.PutAll(mutable(false))
		m.Freeze()
		return m
	}
}

func (n *Node) buildStruct(frozen bool) dgo.Map {
	s := &GoThing{X: int(n.I), Name: n.S, Tags: []string{`t1`, n.S}, Arr: n.C[0].build(false).(dgo.Array), Dict: n.C[1].build(false).(dgo.Map), Bin: n.C[2].build(false).(dgo.Binary),
		Raw: []byte{1, byte(n.I)}, Nest: [][]int{{1, 2}, {int(n.I)}}, Nums: map[string]int{`one`: 1, n.S: 2}, Any: goAny(n.I)}
	m := vf.Map(s)
	if !frozen {
		return m
	}
	arr, dict := s.Arr, s.Dict
	var f dgo.Map
	switch n.M {
	case 0, 1:
		m.Freeze()
		f = m
	case 2:
		f = m.Copy(true)
		arr.Add(1)
	default:
		f = m.FrozenCopy().(dgo.Map)
		dict.Put(`changed`, 1)
	}
	// the source is modified afterwards
	goMeddle(reflect.ValueOf(s))
	return f
}

func (n *Node) has(k string) bool {
	if n.K == k {
		return true
	}
	for _, c := range n.C {
		if c.has(k) {
			return true
		}
	}
	return false
}

func (n *Node) size() int {
	s := 1
	for _, c := range n.C {
		s += c.size()
	}
	return s
}

var _ = typ.Any
