package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// C07: parsing of text that is cut off or damaged

// declTexts declare aliases
var declTexts = []string{
	`pa=int`, `pa=map[string](int|pa)`, `pa=[]ua`, `{types:{pa=string[1],pb=[]pa,pc={a:pa,b?:pb}},x:map[string]pc,y:pb}`,
	`{pa=1..5,pb=pa|string,[]pb}`, `[](pa=string|[]pa)`, `map[pa=string]pb=(int|[]pb)`, `{x:pa={a:int,b?:pa},y:[]pa}`, `<ua>|pa=<ub>`, `{types:{pa=[]pb,pb=map[string](pa|pb)},x:pb}`,
	`func(pa=int,pb=string) (pa)`, `{pa=ua,pb=map[string]<pa>}`, `pa=ub&map[string]any`, `{types:{pa=simPoint,pb=data},x:{p:pa,q:pb,r:richdata}}`, `pa={v:int,n?:pa,...}`, `pa=!(string|pb=int)`,
	`pa=type[pa]|int`, `pa=sensitive[pa]|string`, `pa=(int|!pa)`, `pa={pa,...pa}|int`, `pa=func(pa,...pa) (pa)`, `pa=(string^[]pa)&!int`}

var pcoreDecls = []string{
	`type Pa=Integer`, `type Pa=Hash[String,Variant[Integer,Pa]]`, `[type Pa=String,type Pb=Array[Pa],Pb]`, `{types=>[type Pa=Integer[1,5],type Pb=Variant[Pa,Ua]],x=>Pb}`,
	`type Pa=Struct[a=>Integer,Optional[b]=>Pa]`, `Array[Ua]`, `Variant[Ua,Ub,Data]`, `type Pa=Array[type Pb=Optional[Ub]]`, `type Pa=Callable[[Ua,Integer],Ub]`, `Hash[Ua,type Pa=Tuple[Ub,String]]`}

var refTexts = []string{`[]ua`, `map[ua]ub`, `{a:ua,b?:[]ub,c:uc}`, `ua|ub|data`, `[]<ub>`, `type[ua]`, `func(ua) (ub)`, `{{ua,1},{ub,"x"}}`, `uc&!ua`, `sensitive[ub]`}

var valueTexts = []string{`{"a",1,{b:"c"}}`, `{a:1,b:{2,3.5,"x"}}`, `{x:map[string]richdata,y?:data}`, `binary "AQID"`, `{a:binary "AQID",b:simPoint}`, "{\n a:1, # one\n b:`raw\nstring`,\n}", `"esc\n\t\"q\" \u00e5"`,
	`{1..2,3...4,..5,6..}`, `{-12,0x1f,0777,1.5e-3,/re\/x/}`, `int "12"`, `{a:int{"ff",16},b:string{3}}`, `time "2020-01-02T03:04:05Z"`, `{types:{},x:int "1",...}`, `float "1.5"`, `{"k":"v","l":{}}`}

// damageText applies the faults to a text
func damageText(doc string, ds []Op) string {
	for _, d := range ds {
		if len(doc) == 0 {
			return doc
		}
		a := d.A
		i := a[0] % len(doc)
		switch d.K {
		case `cut`:
			doc = doc[:i]
		case `tok`:
			tk := parseTokens[a[1]%len(parseTokens)]
			doc = doc[:i] + tk + doc[i:]
		case `tokr`:
			tk := parseTokens[a[1]%len(parseTokens)]
			doc = doc[:i] + tk + doc[i+1:]
		case `unknown`: // an identifier is replaced by one that nobody declares
			if ps := identRx.FindAllStringIndex(doc, -1); len(ps) > 0 {
				p := ps[a[0]%len(ps)]
				n := `nosuch`
				if c := doc[p[0]]; c >= 'A' && c <= 'Z' {
					n = `Nosuch`
				}
				doc = doc[:p[0]] + n + doc[p[1]:]
			}
		case `known`: // or by another one
			if ps := identRx.FindAllStringIndex(doc, -1); len(ps) > 1 {
				p, q := ps[a[0]%len(ps)], ps[a[1]%len(ps)]
				doc = doc[:p[0]] + doc[q[0]:q[1]] + doc[p[1]:]
			}
		case `nest`: // the text within itself
			doc = doc[:i] + doc + doc[i:]
		default:
			doc = damage(doc, []Op{d})
		}
	}
	if len(doc) > 600 {
		doc = doc[:600]
	}
	return doc
}

var identRx = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

var parseTokens = []string{`[`, `]`, `{`, `}`, `(`, `)`, `<`, `>`, `,`, `:`, `?`, `=`, `|`, `&`, `^`, `!`, `..`, `...`, `"`, "`", `/`, `~`, `-`, `.`, `0x`, `1e`, `99999999999999999999`, `map[`, `func(`, `type[`, `type`, `string`, `sensitive[`,
	`nosuch`, `pa`, `ua`, `data`, `pa=`, `ua=`, `=>`, `type Pa=`, `type Ua=`, `Nosuch`, `#`, `\`, "\x00", "\xff", "\u00e5", ` `, "\n", `simPoint`, `simPoint[`, `binary `, `int `, `1`, `5.`, `true`, `nil`, `...any`}

const (
	pvParse = iota
	pvParseType
	pvFileNil
	pvFileCaught
	pvFileAdder
	pvPcoreParse
	pvPcoreType
	pvPcoreFileNil
	pvPcoreCaught
	pvPcoreAdder
	pvModes
)

func parsePcoreVia(via int) bool { return via >= pvPcoreParse }

func genBadText(r *Rand) (via int, text string) {
	via = r.n(pvModes)
	if parsePcoreVia(via) {
		text = r.pick(pcoreTexts)
		if r.p(1, 2) {
			text = r.pick(pcoreDecls)
		}
	} else {
		switch r.n(8) {
		case 0, 1:
			text = genTypeText(r, r.rng(1, 3))
		case 2:
			text = r.pick(recTexts)
		case 3:
			text = r.pick(refTexts)
		case 4:
			text = r.pick(valueTexts)
		default:
			text = r.pick(declTexts)
		}
	}
	if len(text) > 250 {
		text = text[:250]
	}
	return
}

func genDamage(r *Rand) (ds []Op) {
	n := 1
	if r.p(1, 4) {
		n = r.rng(2, 4)
	}
	for i := 0; i < n; i++ {
		k := r.pick([]string{`cut`, `cut`, `cut`, `flip`, `byte`, `lose`, `dup`, `swap`, `tok`, `tok`, `tokr`, `unknown`, `unknown`, `known`, `cutin`, `nest`})
		ds = append(ds, Op{K: k, A: []int{r.n(1000), r.n(1000), r.n(256)}})
	}
	return
}

func genC07(r *Rand, p *Plan) {
	n := r.rng(1, 4)
	for i := 0; i < n; i++ {
		if r.p(1, 3) {
			p.Texts = append(p.Texts, `a:`+r.pick([]string{`ua`, `ub`, `uc`}))
		} else {
			p.Texts = append(p.Texts, genType(r, 2))
		}
	}
	bad := func() Op {
		via, text := genBadText(r)
		o := Op{K: `bad`, A: []int{via}, S: text, C: genDamage(r)}
		if r.p(1, 12) {
			o.C = nil
		}
		return o
	}
	if r.p(1, 5) {
		p.N[`sweep`] = 1
		var ops []Op
		for i := r.rng(1, 2); i > 0; i-- {
			o := bad()
			if r.p(2, 3) {
				o.C = nil
			}
			ops = append(ops, o)
		}
		p.Threads = [][]Op{ops}
		return
	}
	nt := r.rng(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		no := r.rng(1, 8)
		share := r.n(3)
		for i := 0; i < no; i++ {
			if r.n(4) <= share {
				ops = append(ops, bad())
			} else {
				ops = append(ops, genTypeOps(r, 1, 30)...)
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 300*8*nt)
	p.Cfg.MaxSteps = 700000
}

var userNames = []string{`ua`, `ub`, `uc`}

// pWorld is what exists before the parses of a run
type pWorld struct {
	users []dgo.Type
	pool  []dgo.Type
}

func (w *pWorld) registerUsers() {
	resetDefaultAliases()
	tf.AddDefaultAliases(func(a dgo.AliasAdder) {
		for i, t := range w.users {
			a.Add(t, vf.String(userNames[i]))
		}
	})
}

func newParseWorld(p *Plan) *pWorld {
	resetDefaultAliases()
	w := &pWorld{}
	w.users = []dgo.Type{tf.String(3, 9), typ.AsType(tf.ParseFile(nil, ``, `ub=map[string](int|ub)`)), typ.AsType(tf.ParseFile(nil, ``, `{a:int,b?:[]data,c?:[2,5]string}`))}
	w.registerUsers()
	w.pool = append(buildTypes(p, nil), w.users...)
	return w
}

var probeTexts = []string{`[]ua`, `map[string]ub`, `{x:uc,y?:data}`, `simPoint`, `[]richdata`, `{1,"x",ua}`}
var pcoreProbes = []string{`Array[Ua]`, `Hash[Ub,Uc]`, `Data`, `Optional[Integer[1,3]]`}
var probeVals = []interface{}{1, `abc`, `abcdefghijkl`, map[string]interface{}{`a`: 1}, map[string]int{`x`: 2}, []string{`a`}, nil, true, []byte{1}}

// snap is what can be observed before and must not change
func (w *pWorld) snap() string {
	b := &strings.Builder{}
	line := func(what string, f func() string) { fmt.Fprintf(b, "%s: %s\n", what, protect(f)) }
	line(`shared`, sharedState)
	am := tf.DefaultAliases()
	for i, n := range append([]string{`data`, `richdata`}, userNames...) {
		line(`alias `+n, func() string {
			t := am.GetType(vf.String(n))
			s := fmt.Sprint(walk(t, 3), am.GetName(t), stringer.TypeStringWithAliasMap(tf.Array(t), am))
			if i >= 2 {
				s += fmt.Sprint(t == w.users[i-2])
			}
			return s
		})
	}
	for i, t := range w.pool {
		line(fmt.Sprintf(`type %d`, i), func() string {
			s := fmt.Sprint(walk(t, 4), ` `, t.String(), ` `)
			for _, v := range probeVals {
				s += protect(func() string { return fmt.Sprint(t.Instance(v)) })[:1]
			}
			return s
		})
	}
	for _, s := range probeTexts {
		line(s, func() string { return walk(typ.AsType(tf.ParseFile(nil, ``, s)), 4) })
	}
	for _, s := range pcoreProbes {
		line(s, func() string { return walk(typ.AsType(pcore.ParseFile(nil, ``, s)), 4) })
	}
	return b.String()
}

func firstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) {
			return as[i] + ` is gone`
		}
		if as[i] != bs[i] {
			return fmt.Sprintf(`%s is now %s`, as[i], bs[i])
		}
	}
	return `?`
}

// parsed is the outcome of a parse
type parsed struct {
	v      dgo.Value
	pan    interface{} // the failure of the parse
	outer  interface{} // the failure of the registration around a parse
	late   string      // what is wrong inside of the adder after a failed parse
	caught bool
}

func (r *parsed) show() string {
	if r.pan != nil {
		return panicText(r.pan)
	}
	if r.outer != nil {
		return `registration: ` + panicText(r.outer)
	}
	return protect(func() string {
		if t, ok := r.v.(dgo.Type); ok {
			return walk(t, 3)
		}
		return dump(r.v, dLookup)
	})
}

// idents are the names that a text might declare
func idents(text string) (ns []string) {
	seen := map[string]bool{}
	for _, n := range identRx.FindAllString(text, -1) {
		n = strings.ToLower(n[:1]) + n[1:]
		if !seen[n] {
			seen[n] = true
			ns = append(ns, n)
		}
	}
	return
}

func isKnown(n string) bool {
	for _, u := range userNames {
		if n == u {
			return true
		}
	}
	return n == `data` || n == `richdata`
}

// parseVia parses a text
func parseVia(via int, text string) *parsed {
	r := &parsed{}
	file := tf.ParseFile
	if parsePcoreVia(via) {
		file = pcore.ParseFile
	}
	switch via {
	case pvParse:
		r.pan = try(func() { r.v = tf.Parse(text) })
	case pvParseType:
		r.pan = try(func() { r.v = tf.ParseType(text) })
	case pvPcoreParse:
		r.pan = try(func() { r.v = pcore.Parse(text) })
	case pvPcoreType:
		r.pan = try(func() { r.v = pcore.ParseType(text) })
	case pvFileNil, pvPcoreFileNil:
		r.pan = try(func() { r.v = file(nil, `f.dgo`, text) })
	case pvFileAdder, pvPcoreAdder:
		r.pan = try(func() {
			tf.AddDefaultAliases(func(a dgo.AliasAdder) { r.v = file(a, `f.dgo`, text) })
		})
	case pvFileCaught, pvPcoreCaught:
		r.caught = true
		r.outer = try(func() {
			tf.AddDefaultAliases(func(a dgo.AliasAdder) {
				r.pan = try(func() { r.v = file(a, `f.dgo`, text) })
				if r.pan != nil {
					for _, n := range idents(text) {
						if t := a.GetType(vf.String(n)); t != nil && !isKnown(n) {
							r.late = fmt.Sprintf(`%s has the type %s in the alias adder although the text that declares it could not be parsed`, n, protect(t.String))
						}
					}
				}
			})
		})
	}
	return r
}

func (x *X) checkParse(what string, r *parsed, text string) {
	for _, pan := range []interface{}{r.pan, r.outer} {
		if pan == nil {
			continue
		}
		if e, ok := pan.(error); !ok || protect(e.Error) == `` {
			x.fail(`failure-without-error`, `%s of %q: failed with %s`, what, text, panicText(pan))
		}
	}
	if r.late != `` {
		x.fail(`failed-parse-adds-alias`, `%s of %q: %s`, what, text, r.late)
	}
	if r.pan != nil && r.outer != nil {
		x.fail(`failed-parse-fails-registration`, `%s of %q: the parse failed, which was caught, and the registration failed with %s`, what, text, panicText(r.outer))
	}
}

var viaNames = []string{`tf.Parse`, `tf.ParseType`, `tf.ParseFile without aliases`, `tf.ParseFile, caught in the adder,`, `tf.ParseFile in an adder`, `pcore.Parse`, `pcore.ParseType`, `pcore.ParseFile without aliases`, `pcore.ParseFile, caught in the adder,`, `pcore.ParseFile in an adder`}

// parseAlone parses a damaged text with nothing else going on and checks what it leaves behind. It is true if the parse failed.
func (w *pWorld) parseAlone(x *X, before string, via int, text string) (failed bool) {
	what := viaNames[via]
	var r *parsed
	if !x.solo(fmt.Sprintf(`%s of %q`, what, text), func() { r = parseVia(via, text) }) {
		return
	}
	x.checkParse(what, r, text)
	failed = r.pan != nil || r.outer != nil
	var after string
	extra := ``
	if !x.solo(`use after the parse`, func() {
		if failed {
			am := tf.DefaultAliases()
			for _, n := range idents(text) {
				if t := am.GetType(vf.String(n)); t != nil && !isKnown(n) {
					extra = fmt.Sprintf(`%s is an alias of %s`, n, protect(t.String))
				}
			}
		}
		if !failed {
			w.registerUsers()
		}
		after = w.snap()
	}) {
		return
	}
	x.note(fmt.Sprint(failed))
	switch {
	case extra != ``:
		x.fail(`failed-parse-adds-alias`, `%s of %q failed (%s), afterwards %s`, what, text, panicText(r.pan), extra)
	case after != before && failed:
		x.fail(`failed-parse-changes-state`, `%s of %q failed (%s), afterwards: %s`, what, text, panicText(r.pan), firstDiff(before, after))
	case after != before:
		x.fail(`parse-changes-state`, `%s of %q: afterwards: %s`, what, text, firstDiff(before, after))
	}
	if failed {
		x.probe(`damaged-text-refused`)
	} else {
		x.probe(`damaged-text-accepted`)
	}
	return
}

func execC07(p *Plan, x *X) {
	defer resetDefaultAliases()
	var w *pWorld
	var before string
	x.lenient = true
	if !x.solo(`shared types`, func() {
		w = newParseWorld(p)
		before = w.snap()
	}) {
		return
	}
	if x.limited {
		x.aborted = true
		x.probe(`unsupported-recursion-skipped`)
		return
	}
	x.lenient = false
	// each text alone
	fails := map[string]bool{}
	key := func(via int, text string) string { return fmt.Sprint(via, ` `, text) }
	for _, ops := range p.Threads {
		for i := range ops {
			o := &ops[i]
			if o.K != `bad` {
				continue
			}
			for _, d := range o.C {
				x.fault(`text-` + d.K)
			}
			text := damageText(o.S, o.C)
			via := o.A[0] % pvModes
			if p.n(`sweep`) == 1 {
				for c := 0; c < len(text) && !x.failed(); c++ {
					x.fault(`text-cut-at-every-byte`)
					w.parseAlone(x, before, via, text[:c])
				}
			}
			fails[key(via, text)] = w.parseAlone(x, before, via, text)
			if x.failed() {
				return
			}
		}
	}
	if p.n(`sweep`) == 1 {
		return
	}
	// the same while other threads use types and parse. What they register has names of its own.
	nt := len(p.Threads)
	conc := make([][]opRes, nt)
	runOps := func(t int, w *pWorld) (rs []opRes) {
		e := &tenv{types: w.pool, tag: fmt.Sprintf("%c", 'a'+t), num: t, x: x}
		for i := range p.Threads[t] {
			o := &p.Threads[t][i]
			if o.K != `bad` {
				rs = append(rs, runTypeOps(e, p.Threads[t][i:i+1])...)
				continue
			}
			text := damageText(o.S, o.C)
			via := o.A[0] % pvModes
			if !fails[key(via, text)] {
				// it would register what it declares for everybody
				if via < pvPcoreParse {
					via = pvFileNil
				} else {
					via = pvPcoreFileNil
				}
			}
			r := parseVia(via, text)
			if r.late != `` {
				x.fail(`failed-parse-adds-alias`, `thread %d: %s of %q: %s`, t, viaNames[via], text, r.late)
			}
			rs = append(rs, opRes{viaNames[via], r.show()})
		}
		return
	}
	fns := make([]func(), nt)
	for t := range fns {
		t := t
		fns[t] = func() { conc[t] = runOps(t, w) }
	}
	x.lenient = true
	if !x.run(`concurrent parsing of damaged text`, fns...) {
		return
	}
	if x.limited {
		// an operation on a type that refers to itself that never ends
		x.probe(`unsupported-recursion-skipped`)
		x.aborted = true
		return
	}
	x.lenient = false
	var after, fresh string
	if !x.solo(`use after the parses`, func() {
		after = w.snap()
		// types that have been printed with an alias map are printed in the same way later
		w.registerUsers()
		fresh = w.snap()
	}) {
		return
	}
	if fresh != before {
		x.fail(`failed-parse-changes-state`, `concurrent parsing of damaged text: afterwards: %s`, firstDiff(before, fresh))
		return
	}
	if after != before {
		x.fail(`failed-parse-changes-aliases`, `concurrent parsing of damaged text: afterwards: %s`, firstDiff(before, after))
		return
	}
	compareWithSolo(x, conc, func(t int) []opRes { return runOps(t, newParseWorld(p)) })
}

func init() {
	register(&Scenario{
		Prop: `C07`, Race: 40, Chunk: 60, FreshPct: 2, Quick: 15000, Thorough: 300000,
		Rule: `Each run draws texts in both syntaxes (type expressions, values, calls, alias declarations, references to registered aliases and named types) and damages each (cut off, bits and bytes changed, parts lost, doubled or exchanged, tokens inserted, identifiers replaced by unknown or by other ones), in every fifth run cut at every byte. Each is parsed alone, through one of ten entry points, where a failure of the text may be caught inside of an alias adder: it ends within the step limit with a value or an error, and shared types, aliases, named types and the results of valid texts are the same afterwards. Then 1-4 threads parse them again while others use and create types, and all results are compared with those of the threads alone.`,
		Real: []string{`all packages of dgo, instrumented`}, Stub: []string{`sync (simulated primitives)`, `goroutine scheduling`, `iteration order of Go maps`},
		Gen: genC07, Exec: execC07,
	})
}
