package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"syscall"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C12, C13, C14, C16: streaming

var jsonOpts = genOpts{json: true, types: true, named: true, sens: true, wide: true, bag: true}

// genDup makes a value with parts that occur several times, as equal and as identical values
func genDup(r *Rand, depth int, o genOpts) *Node {
	n := &Node{K: `dup`, M: r.n(6), I: int64(r.n(3))}
	n.C = append(n.C, genNode(r, depth-1, o))
	if r.p(1, 2) {
		n.C = append(n.C, genNode(r, depth-1, o))
	}
	return n
}

func genJSONValue(r *Rand, o genOpts) *Node {
	for {
		var n *Node
		switch r.n(6) {
		case 0, 1:
			n = genDup(r, r.rng(1, 3), o)
		case 2:
			n = genMap(r, r.rng(1, 3), o)
		case 3:
			n = genArr(r, r.rng(1, 3), o)
		default:
			n = genNode(r, r.rng(0, 3), o)
		}
		if n.size() <= 60 {
			if o.wide && n.size() < 12 && r.p(1, 30) {
				n = &Node{K: `deep`, M: r.n(3), I: int64(r.rng(10, 140)), C: []*Node{n}}
			}
			return n
		}
	}
}

// buildDeep puts a value into many arrays and maps
func (n *Node) buildDeep(frozen bool) dgo.Value {
	v := n.C[0].build(frozen)
	for i := int(n.I); i > 0; i-- {
		if n.M == 0 || n.M == 1 && i%3 != 0 {
			v = valuesOf(frozen, v)
		} else {
			v = mapOf(frozen, `k`, v)
		}
	}
	return v
}

func (n *Node) buildDup(frozen bool) dgo.Value {
	v := n.C[0].build(frozen)
	w := v
	if len(n.C) > 1 {
		w = n.C[1].build(frozen)
	}
	if n.I > 0 { // equal, not identical
		w2 := n.C[len(n.C)-1].build(frozen)
		switch n.M {
		case 0:
			return valuesOf(frozen, v, w, v, w2)
		case 1:
			return mapOf(frozen, `a`, v, `b`, w2, `c`, w)
		}
	}
	switch n.M {
	case 0:
		return valuesOf(frozen, v, w, v)
	case 1:
		return mapOf(frozen, `a`, v, `b`, w, `c`, v)
	case 2:
		return valuesOf(frozen, valuesOf(frozen, v), mapOf(frozen, `x`, v, `y`, valuesOf(frozen, v, w)))
	case 3: // keys and values
		return mapOf(frozen, 1, v, 2, w, `a longer string that is a key of a map`, `a longer string that is a key of a map`, `v`, v)
	case 4:
		return valuesOf(frozen, vf.Sensitive(v), w, v, mapOf(frozen, valuesOf(true, 1, 2), v))
	}
	l := vf.String(`a long string that occurs in many places of this value`)
	return mapOf(frozen, l, l, `a`, valuesOf(frozen, l, v, l), 17, valuesOf(frozen, v, w, mapOf(frozen, l, v)))
}

func valuesOf(frozen bool, vs ...interface{}) dgo.Value {
	if frozen {
		return vf.Values(vs...)
	}
	return vf.MutableValues(vs...)
}

func mapOf(frozen bool, vs ...interface{}) dgo.Value {
	if frozen {
		return vf.Map(vs...)
	}
	m := vf.MutableMap()
	for i := 0; i < len(vs); i += 2 {
		m.Put(vs[i], vs[i+1])
	}
	return m
}

var dialects = []streamer.Dialect{streamer.DgoDialect(), pcore.Dialect()}

// streamers shares one streamer per configuration
type streamers [2][3]streamer.Streamer

func newStreamers(rich bool) *streamers {
	s := &streamers{}
	for d := range s {
		for l := range s[d] {
			s[d][l] = streamer.New(nil, &streamer.Options{DedupLevel: streamer.DedupLevel(l), Dialect: dialects[d], RichData: rich})
		}
	}
	return s
}

func (s *streamers) get(cfg int) streamer.Streamer { return s[cfg%2][cfg/2%3] }

// countWriter notes the sizes of the writes
type countWriter struct {
	b bytes.Buffer
	n int
}

func (w *countWriter) Write(p []byte) (int, error) {
	w.n++
	return w.b.Write(p)
}

// types cannot be read back in the pcore dialect (known finding), so they are left to the dgo dialect
func dialectFor(n *Node, cfg int) int {
	if cfg%2 == 1 && n.has(`ty`) {
		return cfg - 1
	}
	return cfg
}

// --- C12

const (
	wfError  = iota // fails, nothing accepted
	wfShort         // accepts a part, fails
	wfSilent        // accepts a part, no error
	wfAll           // accepts everything, fails
	wfPanic
	wfKinds
)

var wfNames = []string{`write-error`, `short-write-with-error`, `short-write-without-error`, `error-after-complete-write`, `writer-panics`}

type writeErr struct {
	kind, at int
}

func (e *writeErr) Error() string {
	return fmt.Sprintf(`injected: no space left on device (%d/%d)`, e.kind, e.at)
}

// errors that writers of the standard library give
var writeErrors = []error{io.ErrShortWrite, io.EOF, io.ErrClosedPipe, syscall.EAGAIN, syscall.EINTR, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, io.ErrNoProgress, syscall.EPIPE}

// faultWriter fails at one write; afterwards it would work again
type faultWriter struct {
	x      *X
	b      bytes.Buffer
	n      int
	at     int
	kind   int
	sticky bool
	err    error
	after  int
	slow   int
	errIx  int // which error, 0 means derived from where and how
}

// stringWriter is a faultWriter that accepts strings and bytes too, such as those of bufio do
type stringWriter struct {
	*faultWriter
}

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w stringWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.n++
	if w.slow > 0 {
		linger(w.slow)
	}
	if w.err != nil {
		w.after++
		if w.sticky {
			return 0, w.err
		}
	}
	if w.n == w.at {
		w.err = &writeErr{w.kind, w.at}
		k := (w.at + 3*w.kind) % 16
		if w.errIx > 0 {
			k = (w.errIx - 1) % 16
		}
		if k < len(writeErrors) && w.kind != wfSilent && w.kind != wfPanic {
			w.err = writeErrors[k]
		}
		w.x.fault(wfNames[w.kind])
		switch w.kind {
		case wfError:
			return 0, w.err
		case wfShort:
			k := len(p) / 2
			w.b.Write(p[:k])
			return k, w.err
		case wfSilent:
			k := len(p) / 2
			w.b.Write(p[:k])
			return k, nil
		case wfAll:
			w.b.Write(p)
			return len(p), w.err
		default:
			panic(w.err)
		}
	}
	return w.b.Write(p)
}

// reports tells if the panic reports the injected error
func reports(pan interface{}, want error) bool {
	e, ok := pan.(error)
	if !ok {
		return false
	}
	return errors.Is(e, want) || strings.Contains(e.Error(), want.Error())
}

func genC12(r *Rand, p *Plan) {
	nv := r.rng(1, 3)
	for i := 0; i < nv; i++ {
		p.Vals = append(p.Vals, genJSONValue(r, jsonOpts))
	}
	nt := []int{1, 1, 2, 3}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(1, 5); i < c; i++ {
			switch r.n(8) {
			case 0:
				ops = append(ops, Op{K: `util`, A: []int{r.n(1000), r.n(24), r.n(wfKinds)}})
			case 1, 2:
				ops = append(ops, Op{K: `sweep`, A: []int{r.n(nv), r.n(6), r.n(100), r.n(2)}})
			case 3:
				ops = append(ops, Op{K: `write`, A: []int{r.n(nv), r.n(6), 0, 0, r.n(2), r.n(8)}})
			default:
				ops = append(ops, Op{K: `write`, A: []int{r.n(nv), r.n(6), 1 + r.n(400), r.n(wfKinds), r.n(2), r.n(8)}})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 3000*nt)
	p.Cfg.MaxSteps = 40000000
}

func execC12(p *Plan, x *X) {
	var vals []dgo.Value
	var fps []string
	docs := make([][6]string, len(p.Vals))
	writes := make([][6]int, len(p.Vals))
	var ss *streamers
	if !x.solo(`documents without faults`, func() {
		ss = newStreamers(true)
		for i, n := range p.Vals {
			v := n.build(true)
			vals = append(vals, v)
			fps = append(fps, fpOf(v))
			for c := 0; c < 6; c++ {
				w := &countWriter{}
				ss.get(c).Stream(v, streamer.JSON(w))
				docs[i][c], writes[i][c] = w.b.String(), w.n
				if !json.Valid(w.b.Bytes()) {
					x.fail(`invalid-json`, "%s is written as %s", dump(v, 0), w.b.String())
					return
				}
			}
		}
	}) || x.failed() {
		return
	}
	one := func(what string, vi, cfg, at, kind int, sticky bool, slow int) bool {
		w := &faultWriter{x: x, at: at, kind: kind, sticky: sticky, slow: slow}
		pan := try(func() { ss.get(cfg).Stream(vals[vi], streamer.JSON(w)) })
		got, want := w.b.String(), docs[vi][cfg]
		switch {
		case w.err == nil && pan != nil:
			x.fail(`unexpected-failure`, "%s: no write failed, but: %s", what, panicText(pan))
		case w.err == nil && got != want:
			x.fail(`incomplete-document`, "%s: wrote %s, expected %s", what, got, want)
		case w.err != nil && pan == nil:
			x.fail(`failure-not-reported`, "%s: %s at write %d of %d; the call returned normally. Written: %s of %s", what, wfNames[kind], at, writes[vi][cfg], got, want)
		case w.err != nil && w.after > 0:
			x.fail(`write-after-failure`, "%s: %s at write %d of %d; %d more writes followed", what, wfNames[kind], at, writes[vi][cfg], w.after)
		case w.err != nil && !strings.HasPrefix(want, got):
			x.fail(`not-a-prefix`, "%s: %s at write %d: what was written, %s, is not the beginning of %s", what, wfNames[kind], at, got, want)
		case w.err != nil && kind != wfSilent && !reports(pan, w.err):
			x.fail(`other-failure-reported`, "%s: %s at write %d: the failure was reported as %s", what, wfNames[kind], at, panicText(pan))
		case w.err != nil && kind == wfSilent && !isPlainError(pan):
			x.fail(`other-failure-reported`, "%s: %s at write %d: the failure was reported as %s", what, wfNames[kind], at, panicText(pan))
		default:
			return true
		}
		return false
	}
	fns := make([]func(), len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				what := fmt.Sprintf("thread %d operation %d", t, oi)
				switch o.K {
				case `write`:
					vi := o.A[0] % len(vals)
					n := writes[vi][o.A[1]]
					at := o.A[2]
					if at > 0 {
						at = 1 + at%n
					}
					if !one(what, vi, o.A[1], at, o.A[3], o.A[4] == 1, o.A[5]) {
						return
					}
				case `sweep`: // a failure at every write in turn
					vi := o.A[0] % len(vals)
					n := writes[vi][o.A[1]]
					for at := 1; at <= n && at <= 60; at++ {
						if !one(what, vi, o.A[1], at, (o.A[2]+at)%wfKinds, o.A[3] == 1, 0) {
							return
						}
					}
				case `util`:
					if !utilWrites(x, what, o.A) {
						return
					}
				}
			}
		}
	}
	if !x.run(`writing JSON`, fns...) {
		return
	}
	x.solo(`after the failures`, func() {
		for i, v := range vals {
			if fp := fpOf(v); fp != fps[i] {
				x.fail(`value-changed`, "the value was %s and is %s", fps[i], fp)
				return
			}
			for c := 0; c < 6; c++ {
				w := &countWriter{}
				ss.get(c).Stream(v, streamer.JSON(w))
				if w.b.String() != docs[i][c] {
					x.fail(`later-document-differs`, "the document was %s and is %s", docs[i][c], w.b.String())
					return
				}
				x.note(docs[i][c])
			}
		}
	})
}

func isPlainError(pan interface{}) bool {
	if _, ok := pan.(runtime.Error); ok {
		return false
	}
	_, ok := pan.(error)
	return ok
}

// utilWrites uses the write helpers on a writer that fails
func utilWrites(x *X, what string, a []int) bool {
	w := &faultWriter{x: x, at: 1 + a[0]%7, kind: a[2], sticky: a[1]/6%2 == 0, errIx: 1 + a[0]/7}
	if w.kind == wfSilent {
		w.kind = wfError // the helpers return the count
	}
	var out io.Writer = w
	if a[0]/7%3 == 0 {
		out = stringWriter{w}
	}
	calls := 0
	want := ``
	pan := try(func() {
		for i := 0; i < 7; i++ {
			calls++
			switch (a[1] + i) % 6 {
			case 0:
				want += `a`
				util.WriteByte(out, 'a')
			case 1:
				want += `b`
				util.WriteRune(out, 'b')
			case 2:
				want += `å`
				util.WriteRune(out, 'å')
			case 3:
				want += `text`
				util.WriteString(out, `text`)
			case 4:
				want += `3-x`
				util.Fprintf(out, `%d-%s`, 3, `x`)
			default:
				want += "line 2\n"
				util.Fprintln(out, `line`, 2)
			}
		}
	})
	switch {
	case pan == nil || !reports(pan, w.err) || calls != w.at:
		x.fail(`util-write`, "%s: the write helper number %d returned although the writer failed with %v; outcome of %d calls: %s", what, (a[1]+w.at-1)%6, w.err, calls, panicText(pan))
	case w.after > 0:
		x.fail(`util-write`, "%s: the write helper number %d has written more after the writer failed with %v", what, (a[1]+w.at-1)%6, w.err)
	case !strings.HasPrefix(want, w.b.String()):
		x.fail(`util-write`, "%s: %q has been written instead of the beginning of %q", what, w.b.String(), want)
	default:
		return true
	}
	return false
}

// --- C13

func genC13(r *Rand, p *Plan) {
	nv := r.rng(1, 3)
	for i := 0; i < nv; i++ {
		p.Vals = append(p.Vals, genJSONValue(r, jsonOpts))
	}
	nt := []int{1, 1, 2, 3}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(2, 8); i < c; i++ {
			switch r.n(10) {
			case 0, 1:
				ops = append(ops, Op{K: `read`, A: []int{r.n(nv), r.n(6)}})
			case 2:
				ops = append(ops, Op{K: `cutall`, A: []int{r.n(nv), r.n(6)}})
			case 3, 4:
				ops = append(ops, Op{K: `cut`, A: []int{r.n(nv), r.n(6), r.n(10000)}})
			default:
				o := Op{K: `damage`, A: []int{r.n(nv), r.n(6)}}
				for j, c := 0, r.rng(1, 3); j < c; j++ {
					o.C = append(o.C, Op{K: r.pick(damages), A: []int{r.n(10000), r.n(10000), r.n(256)}})
				}
				ops = append(ops, o)
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 3000*nt)
	p.Cfg.MaxSteps = 40000000
}

var damages = []string{`flip`, `byte`, `lose`, `dup`, `swap`, `token`, `number`, `ref`, `cutin`}
var jsonTokens = []string{`{"__ref":0}`, `{"__ref":1}`, `{"__ref":-1}`, `{"__ref":9999}`, `{"__ref":2.5}`, `{"__pref":0}`, `null`, `[]`, `{}`, `"__type"`, `"__value"`, `{"__type":"map","__value":[{"__ref":0},1]}`,
	`{"__type":"sensitive","__value":{"__ref":0}}`, `{"__type":"binary","__value":"x"}`, `{"__type":"time"}`, `{"__type":"nope","__value":1}`, `{"__type":"map","__value":[1]}`, `{"__type":"map","__value":"x"}`,
	`{"__type":"[]","__value":1}`, `{"__type":"int["}`, `{"__type":"x=map[string]x"}`, `{"__type":"alias","__value":["damaged","[]int"]}`, `{"__type":"alias","__value":[]}`, `{"__type":5}`, `{"__type":"simPoint","x":1}`,
	`{"__type":"simPoint","__value":{"__ref":0}}`, `{"__ptype":"Hash","__pvalue":[{"__pref":0},{"__pref":0}]}`, `,`, `:`, `1e999`, `99999999999999999999`, `-`, `"`, `\`, "\xff", ` `}

func damage(doc string, ds []Op) string {
	for _, d := range ds {
		if len(doc) == 0 {
			return doc
		}
		a := d.A
		i := a[0] % len(doc)
		n := 1 + a[1]%12
		if i+n > len(doc) {
			n = len(doc) - i
		}
		switch d.K {
		case `flip`:
			doc = doc[:i] + string([]byte{doc[i] ^ 1<<uint(a[2]%8)}) + doc[i+1:]
		case `byte`:
			doc = doc[:i] + string([]byte{byte(a[2])}) + doc[i+1:]
		case `lose`:
			doc = doc[:i] + doc[i+n:]
		case `dup`:
			doc = doc[:i+n] + doc[i:]
		case `swap`:
			j := a[1] % len(doc)
			b := []byte(doc)
			b[i], b[j] = b[j], b[i]
			doc = string(b)
		case `token`:
			// after the start of an element
			if k := strings.IndexAny(doc[i:], `[,:`); k >= 0 {
				i += k + 1
			}
			tk := jsonTokens[a[1]%len(jsonTokens)]
			if a[2]%2 == 0 && (i == 0 || doc[i-1] != 0x3a) {
				tk += `,`
			}
			doc = doc[:i] + tk + doc[i:]
		case `number`:
			if k := strings.IndexAny(doc[i:], `0123456789`); k >= 0 {
				i += k
				doc = doc[:i] + fmt.Sprint(a[2]%12) + doc[i+1:]
			}
		case `ref`: // a string is replaced by a reference
			if k := strings.Index(doc[i:], `"`); k >= 0 {
				if e := strings.Index(doc[i+k+1:], `"`); e >= 0 {
					doc = doc[:i+k] + fmt.Sprintf(`{"%s":%d}`, []string{`__ref`, `__pref`}[a[2]%2], a[1]%15) + doc[i+k+e+2:]
				}
			}
		case `cutin`: // the tail of one document after the head of the other half
			doc = doc[:i] + doc[a[1]%len(doc):]
		}
	}
	return doc
}

// sanity is what can be observed of the state that all share
func sharedState() string {
	return protect(func() string {
		b := &strings.Builder{}
		for _, n := range []string{`simPoint`, `damaged`, `x`, `data`, `richdata`, `dgo`} {
			nt := tf.Named(n)
			if nt == nil {
				b.WriteString(`-`)
			} else {
				b.WriteString(nt.String())
			}
			b.WriteString(` `)
			if at := tf.DefaultAliases().GetType(vf.String(n)); at != nil {
				b.WriteString(at.String())
			}
			b.WriteString(`;`)
		}
		return b.String()
	})
}

// orDefault leaves out the dialect in half of the cases when it is the default one
func orDefault(d streamer.Dialect, k int) streamer.Dialect {
	if k%2 == 1 && d == dialects[0] {
		return nil
	}
	return d
}

func execC13(p *Plan, x *X) {
	docs := make([][6]string, len(p.Vals))
	vals := make([]dgo.Value, len(p.Vals))
	var st string
	readText := func(v dgo.Value) string { return dump(v, dLookup) }
	if !x.solo(`documents`, func() {
		ss := newStreamers(true)
		st = sharedState()
		for i, n := range p.Vals {
			vals[i] = n.build(true)
			for c := 0; c < 6; c++ {
				w := &countWriter{}
				ss.get(dialectFor(n, c)).Stream(vals[i], streamer.JSON(w))
				docs[i][c] = w.b.String()
			}
		}
	}) {
		return
	}
	type dec struct {
		v      dgo.Value
		d      string
		vi     int
		frozen string
	}
	decoded := make([][]dec, len(p.Threads))
	dia := func(vi, cfg, k int) streamer.Dialect { return orDefault(dialects[dialectFor(p.Vals[vi], cfg)%2], k) }
	cut := func(what string, vi, cfg, k int) bool {
		doc := docs[vi][cfg]
		pre := doc[:k]
		if json.Valid([]byte(pre)) {
			return true
		}
		var v dgo.Value
		x.fault(`truncated`)
		pan := try(func() { v = streamer.UnmarshalJSON([]byte(pre), dia(vi, cfg, k)) })
		if pan == nil {
			x.fail(`truncated-accepted`, "%s: the document %s, cut off after %d bytes (%s), was read as %s", what, doc, k, pre, dump(v, 0))
			return false
		}
		if _, ok := pan.(error); !ok {
			x.fail(`not-an-error`, "%s: the document %s, cut off after %d bytes, failed with %v", what, doc, k, pan)
			return false
		}
		return true
	}
	fns := make([]func(), len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				what := fmt.Sprintf("thread %d operation %d", t, oi)
				vi := o.A[0] % len(vals)
				doc := docs[vi][o.A[1]]
				switch o.K {
				case `read`:
					var v dgo.Value
					if pan := try(func() { v = streamer.UnmarshalJSON([]byte(doc), dia(vi, o.A[1], oi+o.A[1]/2)) }); pan != nil {
						x.fail(`intact-refused`, "%s: the intact document %s is refused: %s", what, doc, panicText(pan))
						return
					}
					if !vals[vi].Equals(v) {
						x.fail(`intact-differs`, "%s: %s is read as %s, expected %s", what, doc, dump(v, 0), dump(vals[vi], 0))
						return
					}
					decoded[t] = append(decoded[t], dec{v: v, d: readText(v), vi: vi})
				case `cut`:
					if len(doc) > 0 && !cut(what, vi, o.A[1], o.A[2]%len(doc)) {
						return
					}
				case `cutall`:
					for k := 0; k < len(doc) && k < 400; k++ {
						if !cut(what, vi, o.A[1], k) {
							return
						}
					}
				case `damage`:
					bad := damage(doc, o.C)
					var v dgo.Value
					for _, d := range o.C {
						x.fault(`damaged-` + d.K)
					}
					pan := try(func() { v = streamer.UnmarshalJSON([]byte(bad), dia(vi, o.A[1], oi+o.A[1]/2)) })
					if pan != nil {
						if _, ok := pan.(error); !ok {
							x.fail(`not-an-error`, "%s: the damaged document %s failed with %v", what, bad, pan)
							return
						}
						x.probe(`damage-detected`)
					} else {
						_ = v
						x.probe(`damage-gives-value`)
					}
				}
			}
		}
	}
	if !x.run(`decoding damaged documents`, fns...) {
		return
	}
	x.solo(`after the damage`, func() {
		for _, ds := range decoded {
			for _, d := range ds {
				x.note(d.d)
				if s := readText(d.v); s != d.d {
					x.fail(`decoded-value-changed`, "a value that was decoded as %s is %s", d.d, s)
					return
				}
			}
		}
		if s := sharedState(); s != st {
			x.fail(`shared-state-changed`, "names and aliases were %s and are %s", st, s)
			return
		}
		for i := range vals {
			for c := 0; c < 6; c++ {
				v := streamer.UnmarshalJSON([]byte(docs[i][c]), dia(i, c, i+c/2))
				if !vals[i].Equals(v) {
					x.fail(`later-decoding-differs`, "%s is now read as %s, expected %s", docs[i][c], dump(v, 0), dump(vals[i], 0))
					return
				}
			}
		}
	})
}

// --- C14

// aliasTypes is names and texts of types that a streamer knows
var aliasTypes = []string{`sw_list`, `[]string`, `sw_rec`, `{a:int,b?:string}`, `sw_range`, `1..10`, `sw_a_name_that_is_longer_than_the_threshold`, `{n:{m:1..3},o?:[]int}`}

func (n *Node) hasType(text string) bool {
	if n.K == `ty` && n.S == text {
		return true
	}
	for _, c := range n.C {
		if c.hasType(text) {
			return true
		}
	}
	return false
}

// rebuilder is a consumer that keeps to nothing but the documentation of the interface
type rebuilder struct {
	thresh int
	root   dgo.Value
	values []dgo.Value
	open   []*[]dgo.Value
}

func (c *rebuilder) CanDoBinary() bool         { return true }
func (c *rebuilder) CanDoTime() bool           { return true }
func (c *rebuilder) CanDoComplexKeys() bool    { return true }
func (c *rebuilder) StringDedupThreshold() int { return c.thresh }

func (c *rebuilder) place(v dgo.Value) {
	if len(c.open) == 0 {
		c.root = v
		return
	}
	top := c.open[len(c.open)-1]
	*top = append(*top, v)
}

func (c *rebuilder) Add(v dgo.Value) {
	c.values = append(c.values, v)
	c.place(v)
}

func (c *rebuilder) AddRef(ref int) { c.place(c.values[ref]) }

func (c *rebuilder) collect(v dgo.Value, doer dgo.Doer) []dgo.Value {
	c.Add(v)
	var es []dgo.Value
	c.open = append(c.open, &es)
	doer()
	c.open = c.open[:len(c.open)-1]
	return es
}

func (c *rebuilder) AddArray(_ int, doer dgo.Doer) {
	a := vf.MutableValues()
	for _, e := range c.collect(a, doer) {
		a.Add(e)
	}
}

func (c *rebuilder) AddMap(_ int, doer dgo.Doer) {
	m := vf.MutableMap()
	es := c.collect(m, doer)
	for i := 0; i < len(es); i += 2 {
		m.Put(es[i], es[i+1])
	}
}

func genC14(r *Rand, p *Plan) {
	nv := r.rng(1, 4)
	o := jsonOpts
	o.loader = true
	for i := 0; i < nv; i++ {
		p.Vals = append(p.Vals, genJSONValue(r, o))
	}
	if r.p(1, 40) {
		p.Vals = append(p.Vals, &Node{K: `ty`, S: r.pick([]string{`1..10`, `map[string]int`})})
		p.N[`pcoreType`] = 1
		nv++
	} else if r.p(1, 40) {
		p.Vals = append(p.Vals, &Node{K: `ty`, S: `/\d+/`})
		nv++
	}
	nt := []int{1, 2, 2, 3, 4}[r.n(5)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(1, 6); i < c; i++ {
			ops = append(ops, Op{K: r.pick([]string{`json`, `json`, `json`, `marshal`, `collect`, `own`, `decode`, `alias`, `data`, `cyclic`}), A: []int{r.n(nv), r.n(6), r.n(100)}})
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 2500*nt)
	p.Cfg.MaxSteps = 40000000
}

// plainData tells if a value needs no rich data representation in a collector that can do binaries, times and complex keys
func plainData(n *Node) bool {
	for _, k := range []string{`ty`, `nm`, `nb`, `se`, `ldr`} {
		if n.has(k) {
			return false
		}
	}
	return !(n.K == `dup` && n.M == 4) && allChildren(n, plainData)
}

func allChildren(n *Node, f func(*Node) bool) bool {
	for _, c := range n.C {
		if !f(c) {
			return false
		}
	}
	return true
}

func execC14(p *Plan, x *X) {
	var vals []dgo.Value
	var dumps, fps []string
	var ss *streamers
	var aliases dgo.AliasMap
	if !x.solo(`values`, func() {
		ss = newStreamers(true)
		aliases = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
			for i := 0; i < len(aliasTypes); i += 2 {
				aa.Add(tf.ParseType(aliasTypes[i+1]), vf.String(aliasTypes[i]))
			}
		})
		for i, n := range p.Vals {
			v := n.build(i%2 == 0)
			vals = append(vals, v)
			dumps = append(dumps, dump(v, 0))
			fps = append(fps, fpOf(v))
		}
	}) {
		return
	}
	same := func(what, how string, vi int, v dgo.Value, doc string) bool {
		switch {
		case v == nil:
			x.fail(`round-trip:`+how, "%s: %s gave nothing; %s", what, dumps[vi], doc)
		case !vals[vi].Equals(v) || !v.Equals(vals[vi]):
			x.fail(`round-trip:`+how, "%s: %s came back as %s; %s", what, dumps[vi], dump(v, 0), doc)
		case dump(v, dLookup) != dumps[vi]:
			x.fail(`round-trip-order:`+how, "%s: %s came back as %s; %s", what, dumps[vi], dump(v, dLookup), doc)
		default:
			return true
		}
		return false
	}
	fns := make([]func(), len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				vi := o.A[0] % len(vals)
				n := p.Vals[vi]
				cfg := dialectFor(n, o.A[1])
				if p.n(`pcoreType`) == 1 && vi == len(vals)-1 {
					cfg = o.A[1] | 1
				}
				what := fmt.Sprintf("thread %d operation %d (%s, configuration %d)", t, oi, o.K, cfg)
				s, d := ss.get(cfg), orDefault(dialects[cfg%2], o.A[2]/2)
				how := o.K
				if n.K == `ty` && n.S == `/\d+/` {
					how = `pattern-type`
				}
				if cfg%2 == 1 && n.K == `ty` {
					how = `pcore-type`
				}
				doc := ``
				ok := true
				pan := try(func() {
					switch o.K {
					case `json`:
						w := &countWriter{}
						s.Stream(vals[vi], streamer.JSON(w))
						doc = w.b.String()
						ok = same(what, how, vi, streamer.UnmarshalJSON(w.b.Bytes(), d), doc)
					case `marshal`:
						b := streamer.MarshalJSON(vals[vi], d)
						doc = string(b)
						ok = same(what, how, vi, streamer.UnmarshalJSON(b, d), doc)
					case `collect`:
						if plainData(n) {
							c := streamer.NewCollector()
							s.Stream(vals[vi], c)
							ok = same(what, how, vi, c.Value(), ``)
						}
					case `own`:
						if plainData(n) {
							c := &rebuilder{thresh: []int{0, 5, 20, 1000}[o.A[2]%4]}
							s.Stream(vals[vi], c)
							ok = same(what, how, vi, c.root, ``)
						}
					case `alias`:
						var v dgo.Value
						s = streamer.New(aliases, &streamer.Options{DedupLevel: streamer.DedupLevel(cfg / 2 % 3), Dialect: dialects[cfg%2], RichData: true})
						got := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
							c := streamer.DataDecoder(aa, d)
							if o.A[2]%2 == 0 {
								s.Stream(vals[vi], c)
								v = c.Value()
								return
							}
							dc := streamer.DataCollector()
							s.Stream(vals[vi], dc)
							streamer.New(nil, &streamer.Options{DedupLevel: streamer.DedupLevel(o.A[2] / 2 % 3), Dialect: dialects[cfg%2]}).Stream(dc.Value(), c)
							v = c.Value()
						})
						ok = same(what, how, vi, v, ``)
						for i := 0; i < len(aliasTypes) && ok; i += 2 {
							if !n.hasType(aliasTypes[i+1]) {
								continue
							}
							if t := got.GetType(vf.String(aliasTypes[i])); t == nil || !t.Equals(tf.ParseType(aliasTypes[i+1])) {
								x.fail(`alias-lost`, "%s: %s has the type %s, which the streamer knows as %s. The decoder added %v", what, dumps[vi], aliasTypes[i+1], aliasTypes[i], t)
								ok = false
							}
						}
					case `decode`:
						c := streamer.DataDecoder(nil, d)
						s.Stream(vals[vi], c)
						ok = same(what, how, vi, c.Value(), ``)
					case `data`: // to data only, and from there back
						c := streamer.DataCollector()
						s.Stream(vals[vi], c)
						doc = dump(c.Value(), 0)
						e := streamer.DataDecoder(nil, d)
						ss.get(cfg%2+2*(o.A[2]%3)).Stream(c.Value(), e)
						ok = same(what, how, vi, e.Value(), doc)
					case `cyclic`:
						if how != `pattern-type` {
							ok = cyclicRoundTrip(x, what, s, cfg, d, vals[vi], o.A[2])
						}
					}
				})
				if pan != nil {
					x.fail(`failed:`+how, "%s: %s: %s; %s", what, dumps[vi], panicText(pan), doc)
					return
				}
				if !ok {
					return
				}
				rt.SyncPoint()
			}
		}
	}
	if !x.run(`round trips`, fns...) {
		return
	}
	x.solo(`after the round trips`, func() {
		for i, v := range vals {
			x.note(fps[i])
			if fp := fpOf(v); fp != fps[i] {
				x.fail(`value-changed`, "the value was %s and is %s", fps[i], fp)
				return
			}
		}
	})
}

// cyclicRoundTrip stores a value that contains itself
func cyclicRoundTrip(x *X, what string, s streamer.Streamer, cfg int, d streamer.Dialect, part dgo.Value, a int) bool {
	if cfg/2%3 == 0 {
		return true // without references a cycle cannot be represented
	}
	var c dgo.Value
	switch a % 4 {
	case 0:
		m := vf.MutableMap()
		m.Put(`part`, part)
		m.Put(`self`, m)
		c = m
	case 1:
		m := vf.MutableMap()
		m.Put(`part`, part)
		m.Put(`list`, vf.MutableValues(1, m, part))
		c = m
	case 2:
		m := vf.MutableMap()
		m.Put(17, part)
		m.Put(`self`, m)
		c = m
	default:
		l := vf.MutableValues(part)
		l.Add(l)
		l.Add(part)
		c = l
	}
	var v dgo.Value
	doc := ``
	if a/4%2 == 0 {
		w := &countWriter{}
		s.Stream(c, streamer.JSON(w))
		doc = w.b.String()
		v = streamer.UnmarshalJSON(w.b.Bytes(), d)
	} else {
		dc := streamer.DataDecoder(nil, d)
		s.Stream(c, dc)
		v = dc.Value()
	}
	if !c.Equals(v) || !v.Equals(c) || c.String() != v.String() {
		x.fail(`round-trip:cyclic`, "%s: the value %s, which contains itself, came back as %s; %s", what, c, v, doc)
		return false
	}
	return true
}

func init() {
	register(&Scenario{
		Prop: `C12`, Race: 25, Chunk: 150, FreshPct: 2, Quick: 24000, Thorough: 500000,
		Rule: `Each run draws 1-3 values and 1-3 threads that write them as JSON through shared streamers (3 deduplication levels, 2 dialects) to writers of their own. A fault (error, short write with and without an error, an error after a complete write, a panic) is injected at a drawn write, or at every write in turn (the first 60), either for that write only or for all that follow. Reported, nothing written afterwards, and written bytes a prefix of the document that the same call writes without faults; values and later documents unchanged. The write helpers in util are used in the same way.`,
		Real: []string{`streamer, util and internal packages, instrumented`}, Stub: []string{`io.Writer (simulated, faulty)`, `goroutine scheduling`},
		Gen: genC12, Exec: execC12,
	})
	register(&Scenario{
		Prop: `C13`, Race: 20, Chunk: 100, FreshPct: 2, Quick: 24000, Thorough: 500000,
		Rule: `Each run draws 1-3 values, stores them in 6 configurations, and 1-3 threads that decode the stored documents intact, cut off (at a drawn byte or at each of the first 400), or damaged in 1-3 places (bits, bytes, lost and repeated ranges, exchanged bytes, inserted tokens, changed reference numbers, references instead of strings, joined halves). A cut document that is not complete by itself must be refused with an error; damage must end with a value or error within the step limit; intact documents decode to equal values before, between and after, earlier decoded values, names and aliases stay the same.`,
		Real: []string{`streamer, parser and internal packages, instrumented`, `encoding/json (not instrumented)`}, Stub: []string{`the storage that cuts off and damages documents`, `goroutine scheduling`},
		Gen: genC13, Exec: execC13,
	})
	register(&Scenario{
		Prop: `C14`, Race: 40, Chunk: 100, FreshPct: 3, Quick: 24000, Thorough: 500000,
		Rule: `Each run draws 1-4 values (data and rich data, with parts that occur several times as equal and as identical values, mutable and frozen) and 1-4 threads that write and read them through shared streamers in 6 configurations: JSON text, MarshalJSON, basic collector, a collector of the user's own, decoding collector, streamer and decoder with alias maps, data only and back, and wrapped in values that contain themselves. What comes back is equal in both directions and has the same order.`,
		Real: []string{`streamer, parser and internal packages, instrumented`, `encoding/json (not instrumented)`}, Stub: []string{`goroutine scheduling`},
		Gen: genC14, Exec: execC14,
	})
}

// buildLoader creates a loader, of one of three kinds, that has loaded something
func (n *Node) buildLoader() dgo.Value {
	entries := vf.Map(`k1`, n.I, `a longer key of an entry of a loader`, vf.Values(n.I, `x`))
	finder := func(_ dgo.Loader, name string) interface{} {
		if name == `none` {
			return nil
		}
		return `value of ` + name
	}
	var creator dgo.NsCreator
	creator = func(l dgo.Loader, name string) dgo.Loader { return loader.New(l, name, nil, finder, creator) }
	var l dgo.Loader
	switch n.I {
	case 3:
		l = loader.New(nil, n.S, entries, finder, nil)
		l.Load(`x`)
	case 4:
		l = loader.New(nil, n.S, entries, finder, creator)
		l.Load(`n1/x`)
		l.Load(`n1/n2/y`)
		l.Load(`none`)
	case 5:
		l = loader.New(nil, n.S, entries, nil, nil).NewChild(finder, nil)
		l.Load(`x`)
	case 6:
		l = loader.New(nil, n.S, entries, finder, creator)
		l.Load(`n1/x`)
		l = l.NewChild(finder, creator).NewChild(finder, creator)
		l.Load(`n1/x`)
		l.Load(`n2/x`)
	case 7:
		l = loader.New(nil, n.S, nil, nil, creator)
	default:
		l = loader.New(nil, n.S, entries, nil, nil)
	}
	return l.(dgo.Value)
}
