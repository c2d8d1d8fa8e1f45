package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// dumpOpt selects what a dump shows
type dumpOpt int

const (
	dFrozen dumpOpt = 1 << iota // the frozen flag of collections
	dLookup                     // check that every entry of a map is found by its key
)

// dump renders everything that can be observed of the content of a value through the public API.
func dump(v dgo.Value, o dumpOpt) string {
	b := &strings.Builder{}
	dumpTo(b, v, o, 0)
	return b.String()
}

func flagTo(b *strings.Builder, v interface{}, o dumpOpt) {
	if o&dFrozen != 0 {
		if f, ok := v.(dgo.Freezable); ok {
			if f.Frozen() {
				b.WriteString(`F`)
			} else {
				b.WriteString(`M`)
			}
		}
	}
}

func dumpTo(b *strings.Builder, v dgo.Value, o dumpOpt, depth int) {
	if depth > 40 {
		b.WriteString(`...`)
		return
	}
	switch v := v.(type) {
	case nil:
		b.WriteString(`<nil>`)
	case dgo.Nil:
		b.WriteString(`nil`)
	case dgo.Type:
		b.WriteString(`type(`)
		b.WriteString(v.String())
		b.WriteString(`)`)
	case dgo.Array:
		flagTo(b, v, o)
		b.WriteString(`[`)
		n := v.Len()
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(`, `)
			}
			dumpTo(b, v.Get(i), o, depth+1)
		}
		c := 0
		v.Each(func(dgo.Value) { c++ })
		if c != n {
			fmt.Fprintf(b, " !iterates over %d of %d", c, n)
		}
		b.WriteString(`]`)
	case dgo.Map:
		flagTo(b, v, o)
		b.WriteString(`{`)
		i := 0
		v.EachEntry(func(e dgo.MapEntry) {
			if i > 0 {
				b.WriteString(`, `)
			}
			i++
			if i > 10000 {
				panic(fmt.Errorf(`map iteration does not end`))
			}
			dumpTo(b, e.Key(), o, depth+1)
			b.WriteString(`: `)
			dumpTo(b, e.Value(), o, depth+1)
			if o&dLookup != 0 {
				g := v.Get(e.Key())
				if g == nil {
					b.WriteString(` !not found by key`)
				} else if _, nat := g.(dgo.Native); nat {
					// cannot be compared when it is the value of an unexported field
					if dump(g, 0) != dump(e.Value(), 0) {
						b.WriteString(` !lookup gives ` + dump(g, 0))
					}
				} else if !g.Equals(e.Value()) {
					b.WriteString(` !lookup gives ` + dump(g, 0))
				}
			}
		})
		if n := v.Len(); n != i {
			fmt.Fprintf(b, " !length %d", n)
		}
		b.WriteString(`}`)
	case dgo.MapEntry:
		flagTo(b, v, o)
		b.WriteString(`<`)
		dumpTo(b, v.Key(), o, depth+1)
		b.WriteString(`: `)
		dumpTo(b, v.Value(), o, depth+1)
		b.WriteString(`>`)
	case dgo.Sensitive:
		flagTo(b, v, o)
		b.WriteString(`sensitive(`)
		dumpTo(b, v.Unwrap(), o, depth+1)
		b.WriteString(`)`)
	case dgo.Binary:
		flagTo(b, v, o)
		b.WriteString(`bin:`)
		b.WriteString(v.Encode())
	case dgo.Native:
		b.WriteString(protect(func() string { return fmt.Sprintf("native(%T)", v.GoValue()) }))
	case dgo.Function:
		b.WriteString(`func(` + v.Type().String() + `)`)
	case dgo.String:
		b.WriteString(strconv.Quote(v.GoString()))
	case dgo.Loader:
		b.WriteString(`loader:` + v.AbsoluteName())
	default:
		fmt.Fprintf(b, "%s", strings.TrimPrefix(fmt.Sprintf("%T", v), `*internal.`)+`:`+v.String())
	}
}

// fingerprint is the dump of a value with its hash code and string form
func fingerprint(v dgo.Value, hash bool) string {
	return protect(func() string {
		s := dump(v, dFrozen|dLookup) + ` str=` + strVal(v)
		if hash && v != nil {
			s += ` hash=` + strconv.Itoa(v.HashCode())
		}
		return s
	})
}

func strVal(v dgo.Value) string {
	if v == nil {
		return ``
	}
	if _, ok := v.(dgo.Native); ok {
		return ``
	}
	return v.String()
}

// protect renders a panic as a result
func protect(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = panicText(r)
		}
	}()
	return f()
}

func panicText(r interface{}) (s string) {
	defer func() {
		// the text of an error may itself fail
		if p := recover(); p != nil {
			s = fmt.Sprintf(`PANIC %T without text`, r)
		}
	}()
	switch r := r.(type) {
	case runtime.Error:
		return `PANIC runtime error: ` + r.Error()
	case error:
		return `PANIC ` + r.Error()
	default:
		return fmt.Sprintf("PANIC %v", r)
	}
}

// try calls f and returns what it panicked with
func try(f func()) (p interface{}) {
	defer func() {
		p = recover()
	}()
	f()
	return nil
}

// unfrozen returns the path to something mutable that is reachable from v, or an empty string
func unfrozen(v dgo.Value) string {
	return unfrozenAt(v, `$`, 0)
}

func unfrozenAt(v dgo.Value, path string, depth int) string {
	if depth > 40 {
		return ``
	}
	switch v := v.(type) {
	case dgo.Native:
		return ``
	case dgo.Type:
		return ``
	case dgo.Array:
		if !v.Frozen() {
			return path
		}
		for i, n := 0, v.Len(); i < n; i++ {
			if p := unfrozenAt(v.Get(i), fmt.Sprintf("%s[%d]", path, i), depth+1); p != `` {
				return p
			}
		}
	case dgo.Map:
		if !v.Frozen() {
			return path
		}
		r := ``
		v.All(func(e dgo.MapEntry) bool {
			if r = unfrozenAt(e.Key(), path+`.key(`+e.Key().String()+`)`, depth+1); r == `` {
				r = unfrozenAt(e.Value(), path+`.`+e.Key().String(), depth+1)
			}
			return r == ``
		})
		return r
	case dgo.MapEntry:
		if p := unfrozenAt(v.Key(), path+`.key`, depth+1); p != `` {
			return p
		}
		return unfrozenAt(v.Value(), path+`.value`, depth+1)
	case dgo.Sensitive:
		return unfrozenAt(v.Unwrap(), path+`.unwrap`, depth+1)
	case dgo.Freezable:
		if !v.Frozen() {
			return path
		}
	}
	return ``
}

var _ = vf.Nil
