package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
)

// C16: uses of a streamer, each with a consumer of its own that may fail

// simFaulty has a named type whose extractor fails
type simFaulty struct{ n int64 }

type elemErr struct{ n int64 }

func (e *elemErr) Error() string { return fmt.Sprintf(`injected: cannot extract from %d`, e.n) }

var simFaultyType = tf.NewNamed(`simFaulty`,
	func(v dgo.Value) dgo.Value { return &simFaulty{v.(dgo.Integer).GoInt()} },
	func(v dgo.Value) dgo.Value {
		panic(&elemErr{v.(*simFaulty).n})
	},
	reflect.TypeOf(&simFaulty{}), nil, nil)

func (p *simFaulty) String() string { return fmt.Sprintf(`simFaulty(%d)`, p.n) }
func (p *simFaulty) Type() dgo.Type { return tf.ExactNamed(simFaultyType, p) }
func (p *simFaulty) Equals(o interface{}) bool {
	op, ok := o.(*simFaulty)
	return ok && *p == *op
}
func (p *simFaulty) HashCode() int { return int(p.n * 37) }

const (
	cfError = iota
	cfString
	cfStruct
	cfAfter // fails after it has taken the element (or called the doer)
	cfInner // fails inside of the collection, before the first element
	cfKinds
)

var cfNames = []string{`consumer-panics-with-error`, `consumer-panics-with-string`, `consumer-panics-with-struct`, `consumer-fails-after-the-event`, `consumer-fails-inside-the-collection`}

type consErr struct{ at int }

func (e *consErr) Error() string { return fmt.Sprintf(`injected: consumer failed at event %d`, e.at) }

type consStruct struct{ at, kind int }

// recorder is a consumer that notes its events
type recorder struct {
	x      *X
	caps   int
	thresh int
	events []string
	n      int
	at     int
	kind   int
	slow   int
	inj    interface{}
	after  int
	inner  streamer.Collector
	hook   func(r *recorder)
}

func (c *recorder) CanDoBinary() bool         { return c.caps&1 != 0 }
func (c *recorder) CanDoTime() bool           { return c.caps&2 != 0 }
func (c *recorder) CanDoComplexKeys() bool    { return c.caps&4 != 0 }
func (c *recorder) StringDedupThreshold() int { return c.thresh }

func (c *recorder) throw() {
	c.x.fault(cfNames[c.kind])
	switch c.kind {
	case cfString:
		c.inj = fmt.Sprintf(`injected at event %d`, c.at)
	case cfStruct:
		c.inj = consStruct{c.at, c.kind}
	default:
		c.inj = &consErr{c.at}
	}
	panic(c.inj)
}

// event notes an event and fails if it is time to do so
func (c *recorder) event(s string, doer dgo.Doer) {
	if c.inj != nil {
		c.after++
	}
	c.n++
	here := c.n == c.at
	if here && c.kind <= cfStruct {
		c.throw()
	}
	if c.slow > 0 {
		linger(c.slow)
	}
	c.events = append(c.events, s)
	if c.hook != nil {
		c.hook(c)
	}
	if here && (c.kind == cfInner || doer == nil) {
		c.throw()
	}
	if doer != nil {
		doer()
	}
	if here {
		c.throw()
	}
}

func (c *recorder) end(s string) { c.event(s, nil) }

func (c *recorder) AddArray(n int, doer dgo.Doer) {
	if c.inner != nil {
		c.event(fmt.Sprintf("array %d", n), func() { c.inner.AddArray(n, doer) })
	} else {
		c.event(fmt.Sprintf("array %d", n), doer)
	}
	c.end(`]`)
}

func (c *recorder) AddMap(n int, doer dgo.Doer) {
	if c.inner != nil {
		c.event(fmt.Sprintf("map %d", n), func() { c.inner.AddMap(n, doer) })
	} else {
		c.event(fmt.Sprintf("map %d", n), doer)
	}
	c.end(`}`)
}

func (c *recorder) Add(v dgo.Value) {
	if c.inner != nil {
		c.inner.Add(v)
	}
	c.event(`=`+dump(v, 0), nil)
}

func (c *recorder) AddRef(ref int) {
	if c.inner != nil {
		c.inner.AddRef(ref)
	}
	c.event(fmt.Sprintf("ref %d", ref), nil)
}

// streamable tells if the value that the node describes can be given to a consumer with the capabilities
func streamable(n *Node, rich bool, caps int) bool {
	switch n.K {
	case `na`, `er`, `fn`, `rx`, `me`, `nf`:
		return false
	case `nm`, `ldr`:
		return rich
	case `nb`:
		if !rich {
			return false
		}
	case `se`:
		if !rich {
			return false
		}
	case `b`:
		if caps&1 == 0 && !rich {
			return false
		}
	case `tm`:
		if caps&2 == 0 && !rich {
			return false
		}
	case `st`:
		if caps&1 == 0 && !rich {
			return false // has a binary
		}
	case `m`:
		if caps&4 == 0 && !rich {
			for i := 0; i < len(n.C); i += 2 {
				if n.C[i].K != `s` {
					return false
				}
			}
		}
	case `dup`:
		if !rich && ((n.M == 3 || n.M == 4 || n.M == 5) && n.I == 0 || n.M > 1) && caps&4 == 0 {
			return n.M == 2 && allChildren(n, func(c *Node) bool { return streamable(c, rich, caps) })
		}
		if !rich && n.M == 4 {
			return false // sensitive
		}
	}
	return allChildren(n, func(c *Node) bool { return streamable(c, rich, caps) })
}

func genC16(r *Rand, p *Plan) {
	nv := r.rng(1, 4)
	for i := 0; i < nv; i++ {
		o := jsonOpts
		o.loader = true
		o.strct = true
		if r.p(1, 4) {
			o.native, o.errs, o.fns, o.rx = r.p(1, 2), r.p(1, 2), r.p(1, 2), r.p(1, 2)
		}
		n := genJSONValue(r, o)
		if r.p(1, 6) { // something that cannot be streamed at the very end
			n = &Node{K: `a`, M: 1, C: []*Node{n, genJSONValue(r, jsonOpts), {K: r.pick([]string{`na`, `nf`, `nf`, `fn`, `rx`}), S: `x`}}}
		}
		p.Vals = append(p.Vals, n)
	}
	nt := []int{1, 2, 2, 3, 4}[r.n(5)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(1, 6); i < c; i++ {
			o := Op{K: r.pick([]string{`stream`, `stream`, `stream`, `nested`, `collect`, `decode`, `json`}), A: []int{r.n(nv), r.n(12), r.n(8), []int{0, 5, 20}[r.n(3)], 0, r.n(cfKinds), r.n(4), r.n(8)}}
			if r.p(2, 3) {
				o.A[4] = 1 + r.n(60)
				if r.p(1, 2) {
					o.A[4] = 1 + r.n(12)
				}
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 3000*nt)
	p.Cfg.MaxSteps = 18000000
}

type recording struct {
	events []string
	err    string
	val    string
}

func execC16(p *Plan, x *X) {
	var vals []dgo.Value
	var fps []string
	var ss [2]*streamers
	mk := func(o Op, at int) *recorder {
		c := &recorder{x: x, caps: o.A[2], thresh: o.A[3], at: at, kind: o.A[5], slow: o.A[6]}
		switch o.K {
		case `collect`:
			c.inner = streamer.NewCollector()
		case `decode`:
			c.inner = streamer.DataDecoder(nil, dialects[dialectFor(p.Vals[o.A[0]%len(p.Vals)], o.A[1])%2])
		}
		if c.inner != nil {
			c.caps = 0
			if c.inner.CanDoBinary() {
				c.caps |= 1
			}
			if c.inner.CanDoTime() {
				c.caps |= 2
			}
			if c.inner.CanDoComplexKeys() {
				c.caps |= 4
			}
			c.thresh = c.inner.StringDedupThreshold()
		}
		return c
	}
	get := func(ss *[2]*streamers, o Op) streamer.Streamer {
		return ss[o.A[1]/6%2].get(dialectFor(p.Vals[o.A[0]%len(p.Vals)], o.A[1]%6))
	}
	alone := make([][]recording, len(p.Threads))
	if !x.solo(`undisturbed uses`, func() {
		ss = [2]*streamers{newStreamers(true), newStreamers(false)}
		for _, n := range p.Vals {
			v := n.build(!n.has(`na`))
			vals = append(vals, v)
			fps = append(fps, fpOf(v))
		}
		for t, ops := range p.Threads {
			for oi, o := range ops {
				// a streamer of its own for each
				own := [2]*streamers{newStreamers(true), newStreamers(false)}
				vi := o.A[0] % len(vals)
				if o.K == `json` {
					w := &countWriter{}
					pan := try(func() { get(&own, o).Stream(vals[vi], streamer.JSON(w)) })
					r := recording{val: w.b.String()}
					if pan != nil {
						r.err = panicText(pan)
					}
					alone[t] = append(alone[t], r)
					continue
				}
				c := mk(o, 0)
				c.slow = 0
				pan := try(func() { get(&own, o).Stream(vals[vi], c) })
				r := recording{events: c.events}
				rich := o.A[1]/6%2 == 0
				ok := streamable(p.Vals[vi], rich, c.caps)
				switch {
				case pan != nil && !isPlainError(pan):
					x.fail(`not-an-error`, "thread %d operation %d: %s: %s", t, oi, fps[vi], panicText(pan))
					return
				case pan != nil && ok:
					x.fail(`unexpected-failure`, "thread %d operation %d (%s, configuration %d, capabilities %d): %s: %s", t, oi, o.K, o.A[1], c.caps, fps[vi], panicText(pan))
					return
				case pan == nil && !ok:
					x.fail(`element-lost`, "thread %d operation %d (%s, configuration %d, capabilities %d): %s has a part that cannot be streamed; nothing was reported. Events: %s", t, oi, o.K, o.A[1], c.caps, fps[vi], strings.Join(c.events, ` `))
					return
				case pan != nil:
					r.err = panicText(pan)
					x.fault(`element-cannot-be-streamed`)
				case c.inner != nil:
					r.val = dump(c.inner.Value(), dLookup)
				}
				if p := openedAndClosed(c.events, pan == nil); p != `` {
					x.fail(`unbalanced`, "thread %d operation %d: %s in %s", t, oi, p, strings.Join(c.events, ` `))
					return
				}
				alone[t] = append(alone[t], r)
			}
		}
	}) || x.failed() {
		return
	}
	compare := func(what string, c *recorder, pan interface{}, want recording) bool {
		ev := want.events
		if c.inj != nil {
			k := c.at - 1
			if c.kind > cfStruct {
				k++
			}
			if c.kind == cfAfter && c.at <= len(ev) && (strings.HasPrefix(ev[c.at-1], `array `) || strings.HasPrefix(ev[c.at-1], `map `)) {
				// everything inside of the collection came first
				k = endOf(ev, c.at-1)
			}
			if k > len(ev) {
				k = len(ev)
			}
			ev = ev[:k]
		}
		switch {
		case c.after > 0:
			x.fail(`event-after-failure`, "%s: the consumer failed at event %d and was given %d more: %s", what, c.at, c.after, strings.Join(c.events, ` `))
		case c.inj != nil && pan == nil:
			x.fail(`failure-not-reported`, "%s: the consumer failed at event %d of %s and the call returned", what, c.at, strings.Join(want.events, ` `))
		case c.inj != nil && !sameFailure(pan, c.inj):
			x.fail(`other-failure-reported`, "%s: the consumer failed with %v, the call with %v", what, c.inj, pan)
		case c.inj == nil && want.err == `` && pan != nil:
			x.fail(`unexpected-failure`, "%s: no failure was injected and alone there was none: %s", what, panicText(pan))
		case c.inj == nil && want.err != `` && (pan == nil || panicText(pan) != want.err):
			x.fail(`other-failure-reported`, "%s: alone it fails with %s, now %s", what, want.err, panicText(pan))
		case strings.Join(c.events, "\n") != strings.Join(ev, "\n"):
			x.fail(`other-events`, "%s: the events were %s, expected %s", what, strings.Join(c.events, ` `), strings.Join(ev, ` `))
		case pan == nil && c.inner != nil && dump(c.inner.Value(), dLookup) != want.val:
			x.fail(`other-value`, "%s: collected %s, alone %s", what, dump(c.inner.Value(), dLookup), want.val)
		default:
			return true
		}
		return false
	}
	fns := make([]func(), len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				what := fmt.Sprintf("thread %d operation %d (%s, configuration %d)", t, oi, o.K, o.A[1])
				vi := o.A[0] % len(vals)
				want := alone[t][oi]
				if o.K == `json` {
					w := &faultWriter{x: x, at: o.A[4], kind: wfError, sticky: true}
					pan := try(func() { get(&ss, o).Stream(vals[vi], streamer.JSON(w)) })
					switch {
					case w.err != nil && (pan == nil || w.after > 0):
						x.fail(`failure-not-reported`, "%s: the writer failed at write %d, %d writes followed, outcome %s", what, o.A[4], w.after, panicText(pan))
					case w.err == nil && want.err == `` && pan != nil:
						x.fail(`unexpected-failure`, "%s: %s", what, panicText(pan))
					case w.err == nil && pan == nil && w.b.String() != want.val:
						x.fail(`other-document`, "%s: wrote %s, alone %s", what, w.b.String(), want.val)
					default:
						continue
					}
					return
				}
				c := mk(o, o.A[4])
				bad := false
				if o.K == `nested` {
					// the consumer uses the same streamer while it handles an event
					depth := 0
					c.hook = func(r *recorder) {
						if depth > 0 || (r.n+o.A[7])%5 != 0 {
							return
						}
						depth++
						in := mk(o, 0)
						if o.A[7]%2 == 0 {
							in.at = 1 + (r.n+o.A[7])%9
						}
						in.kind = o.A[7] % 3
						in.slow = 0
						pan := try(func() { get(&ss, o).Stream(vals[vi], in) })
						if !compare(what+`, nested use`, in, pan, want) {
							bad = true
						}
						x.probe(`nested-use`)
						depth--
					}
				}
				pan := try(func() { get(&ss, o).Stream(vals[vi], c) })
				if bad || !compare(what, c, pan, want) {
					return
				}
			}
		}
	}
	if !x.run(`streaming`, fns...) {
		return
	}
	x.solo(`after the failures`, func() {
		for i, v := range vals {
			if fp := fpOf(v); fp != fps[i] {
				x.fail(`value-changed`, "the value was %s and is %s", fps[i], fp)
				return
			}
		}
		for t, ops := range p.Threads {
			for oi, o := range ops {
				if o.K == `json` {
					continue
				}
				what := fmt.Sprintf("afterwards, thread %d operation %d (%s, configuration %d)", t, oi, o.K, o.A[1])
				c := mk(o, 0)
				c.slow = 0
				pan := try(func() { get(&ss, o).Stream(vals[o.A[0]%len(vals)], c) })
				if !compare(what, c, pan, alone[t][oi]) {
					return
				}
				x.note(strings.Join(c.events, "\n"))
			}
		}
	})
}

// sameFailure tells if what the caller gets is what the callback failed with
func sameFailure(pan, inj interface{}) bool {
	if e, ok := inj.(error); ok {
		return reports(pan, e)
	}
	return pan == inj
}

// endOf returns the number of events up to, but not including, the end of the collection that starts at i
func endOf(ev []string, i int) int {
	d := 0
	for k := i; k < len(ev); k++ {
		switch {
		case strings.HasPrefix(ev[k], `array `) || strings.HasPrefix(ev[k], `map `):
			d++
		case ev[k] == `]` || ev[k] == `}`:
			if d--; d == 0 {
				return k
			}
		}
	}
	return len(ev)
}

// openedAndClosed checks the structure of a sequence of events: references lead back, collections end
func openedAndClosed(ev []string, complete bool) string {
	d, top, n := 0, 0, 0
	for i, e := range ev {
		switch {
		case strings.HasPrefix(e, `ref `):
			k := 0
			_, _ = fmt.Sscanf(e, `ref %d`, &k)
			if k < 0 || k >= n {
				return fmt.Sprintf(`reference %d at event %d, there are %d elements`, k, i, n)
			}
		case strings.HasPrefix(e, `array `) || strings.HasPrefix(e, `map `):
			d++
			n++
			continue
		case e == `]` || e == `}`:
			d--
		default:
			n++
		}
		if d == 0 {
			top++
		}
	}
	if complete && (d != 0 || top != 1) {
		return fmt.Sprintf(`%d values, %d collections without end`, top, d)
	}
	return ``
}

func init() {
	register(&Scenario{
		Prop: `C16`, Race: 35, Chunk: 100, FreshPct: 2, Quick: 40000, Thorough: 1000000, Gen: genC16, Exec: execC16,
		Rule: `Each run draws 1-4 values, some with parts that cannot be streamed (functions, natives, regular expressions, entries, named values whose extractor fails) and 1-4 threads that stream them through 12 shared streamers (3 deduplication levels, 2 dialects, rich data or not) to consumers of their own: recorders with drawn capabilities, recorders around the collectors, JSON. A consumer may fail at a drawn event, in five ways, may take its time, and may use the same streamer while it handles an event. The events each gets are compared with those that a new streamer gives alone: the same, or, after a failure, those before it and none after; the failure reaches the caller; values and later uses are not affected. What cannot be streamed must be reported.`,
		Real: []string{`streamer and internal packages, instrumented`}, Stub: []string{`consumers and writers (simulated, faulty)`, `goroutine scheduling`},
	})
}
