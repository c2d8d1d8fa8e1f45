package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"

	"verif.local/sim/rt"
)

// C08, C09 and C10: trees of loaders whose finders and namespace creators are simulated

const (
	nkNil       = iota // no such namespace
	nkFull             // finder and creator
	nkFinder           // finder only
	nkCreator          // creator only
	nkImmutable        // neither
	nkChild            // a child, with finder and creator, of an immutable loader
)

const (
	kkMissing   = iota
	kkSimple    // a new instance for each invocation
	kkGo        // a Go value
	kkGroup     // comes with all others of the group
	kkCallGet   // the finder gets something else from the loader first
	kkCallNs    // the finder uses a namespace of the loader first
	kkCallLoad  // the finder loads a nested name first
	kkPartGroup // one of a group of two
	kkGrant     // comes with one that the finder denies when it is asked for that alone
	kkDenied
)

var loaderKeys = []string{`k0`, `k1`, `k2`, `k3`, `k4`, `k5`, `i0`, `i1`, ``}
var loaderNs = []string{`n0`, `n1`, `n2`}

type lCall struct {
	thread int
	what   string
	op     string
	ld     int
	ns     []string
	key    string
	call   uint32
	ret    uint32
	val    dgo.Value
	pan    interface{}
	faults []string
	must   interface{} // the panic that must reach the caller
	mustIt bool
	nilNs  bool
}

type lFind struct {
	path, key string
	start     uint32
}

type lWorld struct {
	x       *X
	p       *Plan
	salt    uint64
	loaders []dgo.Loader
	parents []int
	paths   []string // the path id of the own loader
	th      [rt.MaxThreads + 1]lThread
	finds   []lFind
	calls   []*lCall
	targets map[string]int         // numbers of targets with faults
	faults  map[string]map[int]int // target -> ordinal -> kind
	variant map[string]bool
	off     bool
	base    uint32 // events of the final phase come after those of the concurrent phase
}

func (w *lWorld) tick() uint32 { return w.base + rt.Tick() }

// lThread is what a thread records
type lThread struct {
	cur     *lCall
	finds   []lFind
	calls   []*lCall
	variant []string
}

func h64(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		_, _ = h.Write([]byte(s))
		_, _ = h.Write([]byte{0})
	}
	return h.Sum64()
}

func (w *lWorld) draw(n int, ss ...string) int {
	return int(mix(w.salt, h64(ss...)) % uint64(n))
}

// nsKind tells what the creator of the loader with the given path does when asked for a namespace
func (w *lWorld) nsKind(path, name string) int {
	if strings.Count(path, `/`) >= w.p.n(`depth`) {
		return nkNil
	}
	switch w.draw(10, `ns`, path, name) {
	case 0:
		return nkNil
	case 1:
		return nkImmutable
	case 2:
		return nkFinder
	case 3:
		return nkCreator
	case 4:
		return nkChild
	}
	return nkFull
}

func (w *lWorld) keyKind(path, key string) int {
	switch key {
	case `k0`, `k1`, `k2`:
		if w.draw(3, `grp`, path) == 0 {
			return kkGroup
		}
	case `k3`, `k4`:
		switch w.draw(9, `grp2`, path) {
		case 0, 1, 2:
			return kkPartGroup
		case 3:
			if key == `k3` {
				return kkGrant
			}
			return kkDenied
		}
	case ``, `i0`, `i1`:
		return kkMissing
	}
	switch w.draw(12, `key`, path, key) {
	case 0, 1:
		return kkMissing
	case 2, 3:
		return kkGo
	case 4:
		return kkCallGet
	case 5:
		return kkCallNs
	case 6:
		return kkCallLoad
	}
	return kkSimple
}

// kindOfPath tells what was created for a path
func (w *lWorld) kindOfPath(path string) int {
	i := strings.LastIndex(path, `/`)
	if i < 0 {
		if path == `r` && w.p.n(`rootKind`) != 0 {
			return w.p.n(`rootKind`)
		}
		return nkFull
	}
	return w.nsKind(path[:i], path[i+1:])
}

// has tells if the loader with the path, on its own, has a value for the key
func (w *lWorld) has(path, key string) bool {
	if key == `i0` || key == `i1` {
		return !isChildPath(path) // children are created without entries
	}
	k := w.kindOfPath(path)
	if k == nkImmutable || k == nkCreator {
		return false
	}
	kk := w.keyKind(path, key)
	return kk != kkMissing && kk != kkDenied
}

func isChildPath(path string) bool { return path[0] == 'c' && !strings.Contains(path, `/`) }

func (w *lWorld) entries(path string, variant bool) dgo.Map {
	m := vf.MutableMap()
	for _, k := range []string{`i0`, `i1`} {
		if variant {
			m.Put(k, vf.Map(`path`, path, `key`, k, `variant`, 1))
		} else {
			m.Put(k, vf.Map(`path`, path, `key`, k))
		}
	}
	return m
}

// newLoader creates a loader, the map that it was made from is used for something else thereafter
func newLoader(parent dgo.Loader, name string, entries dgo.Map, finder dgo.Finder, creator dgo.NsCreator) dgo.Loader {
	l := loader.New(parent, name, entries, finder, creator)
	entries.Put(`i0`, `poison`)
	entries.Put(`k0`, `poison`)
	entries.Remove(`i1`)
	entries.Put(`slot`, slot())
	return l
}

func (w *lWorld) value(path, key string) dgo.Value {
	switch w.draw(4, `val`, path, key) {
	case 0:
		return vf.String(`value of ` + path + `:` + key)
	case 1:
		return vf.MutableValues(path, key)
	}
	return vf.Map(`path`, path, `key`, key)
}

// nextFault counts the invocation of a finder or creator and returns the fault to inject, if any
func (w *lWorld) nextFault(target string) int {
	if w.off {
		return 0
	}
	ix, ok := w.targets[target]
	if !ok {
		return 0
	}
	return w.faults[target][rt.Count(ix)]
}

func slot() int {
	if c := rt.Cur(); c >= 0 {
		return c
	}
	return rt.MaxThreads
}

// linger gives others the opportunity to run
func linger(n int) {
	for i := 0; i < n; i++ {
		rt.SyncPoint()
	}
}

func (w *lWorld) fire(target, kind string, must bool, pan interface{}) {
	w.x.fault(kind)
	if c := w.th[slot()].cur; c != nil {
		c.faults = append(c.faults, kind+`@`+target)
		if must && !c.mustIt {
			c.mustIt = true
			c.must = pan
		}
	}
}

func (w *lWorld) finder(path string) dgo.Finder {
	return func(l dgo.Loader, key string) interface{} {
		target := `find ` + path + ` ` + key
		ft := w.nextFault(target)
		th := &w.th[slot()]
		th.finds = append(th.finds, lFind{path: path, key: key, start: w.th[slot()].cur.call})
		ix := len(th.finds)*10 + slot()
		linger(w.draw(7, `pace`, path, key))
		switch ft {
		case 1:
			e := fmt.Errorf("injected failure %d", ix)
			w.fire(target, `finder-panics-error`, true, e)
			panic(e)
		case 2:
			e := fmt.Sprintf("injected failure %d", ix)
			w.fire(target, `finder-panics-string`, true, e)
			panic(e)
		case 3:
			w.fire(target, `finder-panics-runtime`, true, nil)
			var m map[string]int
			m[key] = 1
		case 4:
			w.fire(target, `finder-lacks-name`, true, nil)
			return loader.Multiple(vf.Map(`other1`, `poison`, `k5x`, `poison`))
		case 5:
			if !isChildPath(path) && w.kindOfPath(path) != nkChild {
				w.fire(target, `finder-conflicts`, true, nil)
				if w.draw(2, `cf`, path, key) == 0 {
					return loader.Multiple(vf.Map(`i0`, `poison`, key, `poison`, `fresh`, `poison`))
				}
				return loader.Multiple(vf.Map(key, `poison`, `fresh`, `poison`, `i0`, `poison`))
			}
		case 6:
			if k := w.keyKind(path, key); k != kkGroup && k != kkPartGroup && k != kkGrant && k != kkDenied {
				th.variant = append(th.variant, target)
				w.fire(target, `finder-varies`, false, nil)
				return vf.Map(`path`, path, `key`, key, `variant`, ix)
			}
		}
		switch w.keyKind(path, key) {
		case kkMissing, kkDenied:
			return nil
		case kkGo:
			return map[string]string{`path`: path, `key`: key}
		case kkGroup:
			w.x.probe(`multiple-entries`)
			return loader.Multiple(vf.Map(`k2`, w.value(path, `k2`), `k0`, w.value(path, `k0`), `k1`, w.value(path, `k1`)))
		case kkPartGroup:
			return loader.Multiple(vf.Map(`k3`, w.value(path, `k3`), `k4`, w.value(path, `k4`)))
		case kkGrant:
			// what was not found before must not be there all of a sudden
			w.x.probe(`grants-what-it-denies`)
			th.variant = append(th.variant, `find `+path+` k3`, `find `+path+` k4`)
			return loader.Multiple(vf.Map(`k4`, w.value(path, `k4`), `k3`, w.value(path, `k3`)))
		case kkCallGet:
			w.x.probe(`finder-calls-back`)
			if key < `k5` {
				l.Get(`k5`)
			} else if w.kindOfPath(path) != nkChild {
				// the finder of a child gets to know the child's own part, without the entries of the parent
				l.Get(`i0`)
			}
		case kkCallNs:
			w.x.probe(`finder-calls-back`)
			l.Namespace(`n2`)
		case kkCallLoad:
			w.x.probe(`finder-calls-back`)
			l.Load(`n1/i0`)
		}
		linger(w.draw(3, `pace2`, path, key))
		return w.value(path, key)
	}
}

func (w *lWorld) creator(path string) dgo.NsCreator {
	return func(l dgo.Loader, name string) dgo.Loader {
		target := `create ` + path + ` ` + name
		ft := w.nextFault(target)
		linger(w.draw(9, `nspace`, path, name))
		variant := false
		switch ft {
		case 1, 5:
			e := errors.New(`injected creator failure`)
			w.fire(target, `creator-panics-error`, true, e)
			panic(e)
		case 2:
			w.fire(target, `creator-panics-string`, true, `injected creator failure`)
			panic(`injected creator failure`)
		case 3, 4:
			w.fire(target, `creator-returns-nil`, false, nil)
			if c := w.th[slot()].cur; c != nil {
				c.nilNs = true
			}
			return nil
		case 6:
			th := &w.th[slot()]
			th.variant = append(th.variant, target)
			w.fire(target, `creator-varies`, false, nil)
			variant = true
		}
		np := path + `/` + name
		k := w.nsKind(path, name)
		switch w.draw(6, `nscall`, path, name) {
		case 0:
			if name < `n2` {
				w.x.probe(`creator-calls-back`)
				l.Namespace(`n2`)
			}
		case 1:
			if w.kindOfPath(path) != nkChild {
				w.x.probe(`creator-calls-back`)
				l.Get(`i1`)
			}
		}
		linger(w.draw(4, `nspace2`, path, name))
		switch k {
		case nkFull:
			return newLoader(l, name, w.entries(np, variant), w.finder(np), w.creator(np))
		case nkChild:
			w.x.probe(`namespace-is-child`)
			return newLoader(l, name, w.entries(np, variant), nil, nil).NewChild(w.finder(np), w.creator(np))
		case nkFinder:
			return newLoader(l, name, w.entries(np, variant), w.finder(np), nil)
		case nkCreator:
			return newLoader(l, name, w.entries(np, variant), nil, w.creator(np))
		case nkImmutable:
			return newLoader(l, name, w.entries(np, variant), nil, nil)
		}
		return nil
	}
}

// owners returns the paths of the loaders that are consulted for a namespace of a loader, parents first
func (w *lWorld) owners(ld int, ns []string) []string {
	var os []string
	if w.parents[ld] >= 0 {
		os = w.owners(w.parents[ld], ns)
	}
	p := w.paths[ld]
	for _, n := range ns {
		if n == `` {
			continue
		}
		k := w.kindOfPath(p)
		if k == nkFinder || k == nkImmutable || w.nsKind(p, n) == nkNil {
			return os
		}
		p += `/` + n
	}
	return append(os, p)
}

func (w *lWorld) build() {
	p := w.p
	root := newLoader(nil, ``, w.entries(`r`, false), w.finder(`r`), w.creator(`r`))
	switch p.n(`rootKind`) {
	case nkFinder:
		root = newLoader(nil, ``, w.entries(`r`, false), w.finder(`r`), nil)
	case nkCreator:
		root = newLoader(nil, ``, w.entries(`r`, false), nil, w.creator(`r`))
	}
	w.loaders = []dgo.Loader{root}
	w.parents = []int{-1}
	w.paths = []string{`r`}
	for i := 1; i <= p.n(`children`); i++ {
		pr := p.n(fmt.Sprintf("parent%d", i))
		if pr >= i {
			pr = 0
		}
		id := fmt.Sprintf("c%d", i)
		w.loaders = append(w.loaders, w.loaders[pr].NewChild(w.finder(id), w.creator(id)))
		w.parents = append(w.parents, pr)
		w.paths = append(w.paths, id)
	}
}

func (w *lWorld) exec(c *lCall) {
	c.call = w.tick()
	w.th[slot()].cur = c
	defer func() { w.th[slot()].cur = nil }()
	ld := w.loaders[c.ld]
	c.pan = try(func() {
		switch c.op {
		case `get`:
			if len(c.ns) == 0 {
				c.val = ld.Get(c.key)
				if v := ld.Get(len(c.key)); v != nil {
					w.x.fail(`loaded-unknown`, `%s: a key that isn't a string gives %s`, c.what, v)
				}
				return
			}
			for _, n := range c.ns {
				if ld = ld.Namespace(n); ld == nil {
					return
				}
			}
			c.val = ld.Get(vf.String(c.key))
		case `load`:
			c.val = ld.Load(strings.Join(append(append([]string{}, c.ns...), c.key), `/`))
		case `ns`:
			for _, n := range c.ns {
				if ld = ld.Namespace(n); ld == nil {
					return
				}
			}
			c.val = ld
		case `eq`:
			if !ld.Equals(ld) {
				w.x.fail(`loader-not-equal-to-itself`, `%s: a loader is not equal to itself`, c.what)
			}
			for _, o := range w.loaders {
				_ = ld.Equals(o)
			}
		case `hash`:
			ld.HashCode()
		case `str`:
			if ld.String() == `` {
				w.x.fail(`loader-string`, `%s: empty string`, c.what)
			}
		case `type`:
			if !ld.Type().Instance(ld) {
				w.x.fail(`loader-type`, `%s: a loader is not an instance of its type`, c.what)
			}
			_ = ld.AbsoluteName() + ld.Name()
		}
	})
	c.ret = w.tick()
}

func (c *lCall) id() string {
	var ns []string
	for _, n := range c.ns {
		if n != `` {
			ns = append(ns, n)
		}
	}
	return fmt.Sprintf("loader %d /%s:%s", c.ld, strings.Join(ns, `/`), c.key)
}

func loaderExec(p *Plan, x *X) {
	w := &lWorld{x: x, p: p, salt: uint64(p.n(`salt`)), targets: map[string]int{}, faults: map[string]map[int]int{}, variant: map[string]bool{}}
	for _, t := range p.Threads {
		for _, o := range t {
			if o.K == `fault` {
				if w.faults[o.S] == nil {
					w.faults[o.S] = map[int]int{}
					w.targets[o.S] = len(w.targets)
				}
				w.faults[o.S][o.A[0]] = o.A[1]
			}
		}
	}
	if !x.solo(`creating loaders`, w.build) {
		return
	}
	rt.ResetCounters()
	var fns []func()
	for ti := range p.Threads {
		ti := ti
		fns = append(fns, func() {
			for oi := range p.Threads[ti] {
				o := &p.Threads[ti][oi]
				if o.K == `fault` {
					continue
				}
				w.one(ti, oi, o)
			}
		})
	}
	if !x.run(`concurrent use of loaders`, fns...) {
		return
	}
	// once the faults have stopped everything is served
	w.off = true
	w.base = 1 << 30
	for i := range w.th {
		w.calls = append(w.calls, w.th[i].calls...)
	}
	n := len(w.calls)
	ok := x.solo(`requests after the faults have stopped`, func() {
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			c := w.calls[i]
			if c.op != `get` && c.op != `load` && c.op != `ns` || seen[c.op+c.id()] {
				continue
			}
			seen[c.op+c.id()] = true
			r := &lCall{thread: rt.MaxThreads, op: c.op, ld: c.ld, ns: c.ns, key: c.key, what: `final ` + c.op + ` ` + c.id()}
			w.calls = append(w.calls, r)
			w.exec(r)
			// and also what must never have been loaded
			if x.p.Prop == `C10` && c.op == `get` && len(c.ns) == 0 {
				w.th[slot()].cur = r
				for _, k := range []string{`fresh`, `other1`} {
					if v := w.loaders[c.ld].Get(k); v != nil && v.Equals(`poison`) {
						x.fail(`failed-request-cached`, `entry %q of a refused finder result was added to loader %d`, k, c.ld)
					}
				}
			}
		}
		for i := range w.loaders {
			for _, op := range []string{`eq`, `hash`, `str`, `type`} {
				r := &lCall{thread: rt.MaxThreads, op: op, ld: i, what: `final ` + op}
				w.exec(r)
				if r.pan != nil {
					x.fail(`unexpected-panic`, `%s of loader %d after all requests: %s`, op, i, panicText(r.pan))
				}
			}
		}
	})
	if !ok {
		return
	}
	for i := range w.th {
		w.finds = append(w.finds, w.th[i].finds...)
		for _, v := range w.th[i].variant {
			w.variant[v] = true
		}
	}
	w.check()
}

func (w *lWorld) one(ti, oi int, o *Op) {
	c := &lCall{thread: ti, op: o.K, ld: o.A[0] % len(w.loaders), what: fmt.Sprintf("thread %d operation %d (%s)", ti, oi, o.K)}
	for i, n := range o.A[1:] {
		if i == len(o.A)-2 {
			c.key = loaderKeys[n%len(loaderKeys)]
		} else {
			c.ns = append(c.ns, loaderNs[n%len(loaderNs)])
		}
	}
	if o.K == `load` && o.A[0]%7 == 3 {
		c.ns = append([]string{``}, c.ns...)
	}
	if o.K == `load` && o.A[0]%7 == 5 && len(c.ns) > 0 {
		// an empty name is that of the namespace itself
		c.ns = append([]string{c.ns[0], ``}, c.ns[1:]...)
	}
	th := &w.th[slot()]
	th.calls = append(th.calls, c)
	w.exec(c)
}

func (w *lWorld) check() {
	x := w.x
	first := map[string]*lCall{}
	type doneAt struct {
		at uint32
		by string
	}
	done := map[string]doneAt{}
	overrideVariants := false
	nsVariants := false
	for k := range w.variant {
		if strings.HasPrefix(k, `find`) {
			overrideVariants = true
		} else {
			nsVariants = true
		}
	}
	for _, c := range w.calls {
		what := c.what + ` ` + c.id()
		x.note(what + dumpOrNil(c.val) + fmt.Sprint(c.pan != nil))
		if c.mustIt {
			switch {
			case c.pan == nil:
				x.fail(`failure-hidden`, "%s returned %s although %v", what, dumpOrNil(c.val), c.faults)
			case c.must != nil && c.must != c.pan:
				x.fail(`failure-replaced`, "%s panicked with %s although %v, which panicked with %v", what, panicText(c.pan), c.faults, c.must)
			}
			continue
		}
		if c.pan != nil {
			t := panicText(c.pan)
			if overrideVariants && strings.Contains(t, `attempt to override`) || nsVariants && strings.Contains(t, `already defined`) {
				x.probe(`conflict-refused`)
				continue
			}
			x.fail(`unexpected-panic`, "%s failed although no finder or creator failed in it: %s (its faults %v)", what, t, c.faults)
			continue
		}
		if c.op != `get` && c.op != `load` && c.op != `ns` || c.nilNs {
			continue
		}
		owners := w.owners(c.ld, c.ns)
		id := c.id()
		if c.op == `ns` {
			id = `ns ` + id[:strings.LastIndex(id, `:`)]
			if (len(owners) == 0) != (c.val == nil) && len(owners) == 0 {
				x.fail(`namespace-unexpected`, "%s gave %s, but no such namespace can be created", what, dumpOrNil(c.val))
			}
			if c.val == nil && len(owners) > 0 {
				x.fail(`namespace-lost`, "%s gave nil, but the namespace exists", what)
			}
			if f := first[id]; f == nil {
				first[id] = c
			} else if len(owners) == 1 && f.val != c.val {
				x.fail(`namespaces-differ`, "%s gave another loader than %s", what, f.what)
			} else if f.val != nil && !f.val.Equals(c.val) {
				x.fail(`namespaces-differ`, "%s gave a loader that is not equal to that of %s: %s and %s", what, f.what, dumpOrNil(c.val), dumpOrNil(f.val))
			}
			continue
		}
		// the value is what the first of the owners that has it supplies
		var want dgo.Value
		path := ``
		varies := false
		for _, o := range owners {
			varies = varies || w.variant[`find `+o+` `+c.key]
			for i := strings.LastIndex(o, `/`); i > 0; i = strings.LastIndex(o[:i], `/`) {
				np := o
				if j := strings.Index(o[i+1:], `/`); j >= 0 {
					np = o[:i+1+j]
				}
				varies = varies || w.variant[`create `+o[:i]+` `+np[i+1:]]
			}
			if w.has(o, c.key) {
				path = o
				break
			}
		}
		if path != `` {
			switch {
			case c.key == `i0` || c.key == `i1`:
				want = vf.Map(`path`, path, `key`, c.key)
			case w.keyKind(path, c.key) == kkGo:
				want = vf.Map(`path`, path, `key`, c.key)
				if w.draw(12, `key`, path, c.key) >= 2 {
					want = vf.Value(map[string]string{`path`: path, `key`: c.key})
				}
			default:
				want = w.value(path, c.key)
			}
		}
		if !varies {
			if want == nil && c.val != nil || want != nil && !want.Equals(c.val) {
				x.fail(`wrong-value`, "%s gave %s, expected %s", what, dumpOrNil(c.val), dumpOrNil(want))
				continue
			}
		} else if c.val != nil && strings.Contains(dump(c.val, 0), `poison`) {
			x.fail(`failed-request-cached`, "%s gave %s, which was part of a refused finder result", what, dumpOrNil(c.val))
		}
		if f := first[id]; f == nil {
			first[id] = c
		} else if !sameLoaded(f.val, c.val) {
			x.fail(`loads-disagree`, "%s gave %s (%p) but %s gave %s (%p)", what, dumpOrNil(c.val), c.val, f.what, dumpOrNil(f.val), f.val)
		}
		for _, o := range owners {
			ks := []string{c.key}
			switch k := w.kindOfPath(o); {
			case k == nkFull || k == nkFinder || k == nkChild:
				switch w.keyKind(o, c.key) {
				case kkGroup:
					ks = []string{`k0`, `k1`, `k2`}
				case kkGrant:
					if c.key == `k3` && c.val != nil {
						ks = []string{`k3`, `k4`}
					}
				case kkPartGroup:
					ks = []string{`k3`, `k4`}
				}
			}
			for _, k := range ks {
				if d, ok := done[o+` `+k]; !ok || c.ret < d.at {
					done[o+` `+k] = doneAt{c.ret, what}
				}
			}
			if w.has(o, c.key) || varies {
				break
			}
		}
	}
	// a child gives what its parent gives
	for _, c := range w.calls {
		if c.thread != rt.MaxThreads || c.op == `ns` || c.pan != nil || w.parents[c.ld] < 0 {
			continue
		}
		for _, pc := range w.calls {
			if pc.thread == rt.MaxThreads && pc.op != `ns` && pc.pan == nil && pc.ld == w.parents[c.ld] && pc.key == c.key && strings.Join(pc.ns, `/`) == strings.Join(c.ns, `/`) && pc.val != nil && !sameLoaded(pc.val, c.val) {
				x.fail(`parent-not-first`, "%s gave %s but its parent gives %s", c.what, dumpOrNil(c.val), dumpOrNil(pc.val))
			}
		}
	}
	for _, f := range w.finds {
		if d, ok := done[f.path+` `+f.key]; ok && f.start > d.at {
			x.fail(`found-again`, "the finder of %s was asked for %q by a request made at event %d although %s had returned at event %d", f.path, f.key, f.start, d.by, d.at)
		}
	}
}

// sameLoaded tells whether two loads gave the same value: the identical one, or, where identity cannot be told apart by a
// user, an equal one
func sameLoaded(a, b dgo.Value) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	switch a.(type) {
	case dgo.String, dgo.Integer, dgo.Float, dgo.Boolean, dgo.Nil:
		return a.Equals(b)
	}
	return false
}

func dumpOrNil(v dgo.Value) string {
	if v == nil {
		return `nothing`
	}
	return dump(v, 0)
}

func genLoader(r *Rand, p *Plan) {
	p.N[`salt`] = r.n(1 << 20)
	p.N[`depth`] = r.rng(1, 3)
	p.N[`children`] = []int{0, 0, 1, 1, 2, 3}[r.n(6)]
	for i := 1; i <= p.N[`children`]; i++ {
		p.N[fmt.Sprintf("parent%d", i)] = r.n(i)
	}
	if r.p(1, 6) {
		p.N[`rootKind`] = nkFinder
		if r.p(1, 2) {
			p.N[`rootKind`] = nkCreator
		}
	}
	nt := r.rng(2, 4)
	// few names, so that the threads meet
	nk := r.rng(1, 4)
	keys := r.ints(nk, len(loaderKeys)-1)
	if r.p(1, 10) {
		keys = append(keys, len(loaderKeys)-1)
	}
	if r.p(1, 2) { // a group
		keys = append(keys, 0, 1)
	}
	nss := r.ints(r.rng(1, 2), len(loaderNs))
	nsW := 3
	if p.Prop == `C09` {
		nsW = 8
	}
	lds := r.rng(1, p.N[`children`]+1)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.rng(1, 6); i < n; i++ {
			a := []int{r.n(lds)}
			if r.p(1, 5) {
				a[0] = r.n(28)
			}
			if r.n(10) < nsW {
				for d := r.rng(1, p.N[`depth`]); d > 0; d-- {
					a = append(a, nss[r.n(len(nss))])
				}
			}
			a = append(a, keys[r.n(len(keys))])
			k := r.n(20)
			switch {
			case k < 7:
				ops = append(ops, Op{K: `get`, A: a})
			case k < 13:
				ops = append(ops, Op{K: `load`, A: a})
			case k < 16 || p.Prop == `C09` && k < 18:
				if len(a) == 2 {
					a = append(a, a[1])
				}
				ops = append(ops, Op{K: `ns`, A: a})
			default:
				ops = append(ops, Op{K: []string{`eq`, `hash`, `str`, `type`}[k%4], A: a})
			}
			if p.Prop == `C10` && r.p(2, 5) {
				// a fault on the way of this request
				path := `r`
				if a[0]%(p.N[`children`]+1) > 0 && r.p(1, 2) {
					path = fmt.Sprintf("c%d", a[0]%(p.N[`children`]+1))
				}
				var tgt string
				ns := a[1 : len(a)-1]
				cut := r.n(len(ns) + 1)
				for _, n := range ns[:cut] {
					path += `/` + loaderNs[n%len(loaderNs)]
				}
				if cut < len(ns) {
					tgt = `create ` + path + ` ` + loaderNs[ns[cut]%len(loaderNs)]
				} else {
					tgt = `find ` + path + ` ` + loaderKeys[a[len(a)-1]]
				}
				ops = append(ops, Op{K: `fault`, S: tgt, A: []int{r.n(3), r.rng(1, 6)}})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 60*nt*3)
}

func init() {
	real := []string{`loader, internal, vf, tf (all of dgo, instrumented)`}
	stub := []string{`finders and namespace creators (simulated, with injected delays, call backs and failures)`, `sync (simulated primitives)`, `goroutine scheduling`}
	register(&Scenario{
		Prop: `C08`, Race: 40, Chunk: 200, FreshPct: 2, Quick: 60000, Thorough: 1500000,
		Rule: `Each run draws a tree of loaders (root, up to three children, namespaces up to three levels), a behaviour of each finder per key (nothing, new equal instance, Go value, several entries, call backs into the loader, a number of steps) and 2-4 threads with 1-6 requests for few names. The recorded history of calls and finder invocations is checked against a write-once register per loader and name.`,
		Real: real, Stub: stub, Gen: genLoader, Exec: loaderExec,
	})
	register(&Scenario{
		Prop: `C09`, Race: 40, Chunk: 200, FreshPct: 2, Quick: 60000, Thorough: 1500000,
		Rule: `As C08, with most requests going through nested namespaces that are created on demand by creators that take any number of steps and call back, and with comparison, hashing and printing of loaders in between. All requests of a namespace must give the same instance, and what is loaded through it is found once.`,
		Real: real, Stub: stub, Gen: genLoader, Exec: loaderExec,
	})
	register(&Scenario{
		Prop: `C10`, Race: 30, Chunk: 200, FreshPct: 2, Quick: 60000, Thorough: 1500000,
		Rule: `As C08, with faults placed on the way of the requests: the nth invocation of a finder or creator panics (error, string, runtime error), returns entries without the requested name, entries that conflict with loaded ones, another value or definition than before, or nothing. Failures must reach exactly their callers, nothing of a refused result may ever be visible, and after the faults all requests are repeated and must be served consistently with everything returned before.`,
		Real: real, Stub: stub, Gen: genLoader, Exec: loaderExec,
	})
}
