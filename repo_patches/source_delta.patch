From 60f8ea563de40cd5f4721f33db35d7443b556ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 01/52] fix: hash code of a string is cached without a data
 race

Strings are immutable and are shared by goroutines, but HashCode wrote its cached value without synchronization.
---
 internal/string.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index f6cd983..a00305a 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -44,7 +45,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr // lazily computed hash code, accessed atomically since strings are shared by goroutines
 	}
 )
 
@@ -589,10 +590,12 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	h := atomic.LoadUintptr(&v.h)
+	if h == 0 {
+		h = uintptr(util.StringHash(v.s))
+		atomic.StoreUintptr(&v.h, h)
 	}
-	return v.h
+	return int(h)
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From 35d74e33faa91bad5bd9d894bab0124204084bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 02/52] fix: pointers reflected from strings and errors no
 longer lead into the value

ReflectTo with a pointer target exposed the internal string of an immutable value, so that it could be modified.
---
 internal/error.go  | 3 ++-
 internal/string.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..2da3e8f 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/string.go b/internal/string.go
index a00305a..41776ea 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -603,7 +603,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 01575182cafe67275c9faa8151e5d1b7c18584b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 03/52] fix: a thawed copy of a map entry leaves the original
 alone

ThawedCopy assigned the thawed value to the receiver, which could be an entry of a frozen map, instead of to the copy.
---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..89362b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From 6c5c2cc43c26d1b15dec9be12d4e0266d8ff1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 04/52] fix: With and its variants never share storage or
 mutable elements with a frozen array

With and WithValues appended to the internal slice, which could overwrite elements of another array that shares the
storage (a slice, for instance), With added a mutable element to a frozen array, and WithAll on a frozen array thawed
all elements although the result is frozen.
---
 internal/array.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..52ed8d9 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1423,19 +1423,26 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	e := Value(vi)
+	if v.frozen {
+		e = frozenCopy(e)
+	}
+	return &array{slice: append(v.copyWithCapacity(1), e), frozen: v.frozen}
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
 		return v
 	}
-	c := v.Copy(false)
+	var c *array
 	if v.frozen {
 		values = values.FrozenCopy().(dgo.Iterable)
+		c = &array{slice: v.copyWithCapacity(values.Len())}
+	} else {
+		c = v.Copy(false).(*array)
 	}
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
+	c.frozen = v.frozen
 	return c
 }
 
@@ -1443,7 +1450,16 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	return &array{slice: append(v.copyWithCapacity(len(values)), valueSlice(values, v.frozen)...), frozen: v.frozen}
+}
+
+// copyWithCapacity returns a copy of the internal slice with capacity for n additional elements. Appending to the
+// internal slice itself might write into storage that it shares with other arrays.
+func (v *array) copyWithCapacity(n int) []dgo.Value {
+	l := len(v.slice)
+	cp := make([]dgo.Value, l, l+n)
+	copy(cp, v.slice)
+	return cp
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From 7f1f2d36e40db0056ecb72c367062d0f1f197baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 05/52] fix: a frozen array holds copies of entries, not the
 entries of a mutable map

The frozen array changed when the value for the key of such an entry was replaced in the map.
---
 internal/array.go | 25 ++++++-------------------
 internal/map.go   |  6 ++++++
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 52ed8d9..a580fbb 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -675,12 +675,10 @@ func Array(value interface{}) dgo.Array {
 		arr := make([]dgo.Value, len(value))
 		for i := range value {
 			e := value[i]
-			if f, ok := e.(dgo.Freezable); ok {
-				e = f.FrozenCopy()
-			} else if e == nil {
+			if e == nil {
 				e = Nil
 			}
-			arr[i] = e
+			arr[i] = frozenCopy(e)
 		}
 		return &array{slice: arr, frozen: true}
 	case reflect.Value:
@@ -696,10 +694,7 @@ func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
 	arr := make([]dgo.Value, size)
 	i := 0
 	each(func(e dgo.Value) {
-		if f, ok := e.(dgo.Freezable); ok {
-			e = f.FrozenCopy()
-		}
-		arr[i] = e
+		arr[i] = frozenCopy(e)
 		i++
 	})
 	return &array{slice: arr, frozen: true}
@@ -746,9 +741,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 
 	if frozen {
 		for i := range arr {
-			if f, ok := arr[i].(dgo.Freezable); ok {
-				arr[i] = f.FrozenCopy()
-			}
+			arr[i] = frozenCopy(arr[i])
 		}
 	}
 	return &array{slice: arr, frozen: frozen}
@@ -790,11 +783,7 @@ func valueSlice(values []interface{}, frozen bool) []dgo.Value {
 	cp := make([]dgo.Value, len(values))
 	if frozen {
 		for i := range values {
-			v := Value(values[i])
-			if f, ok := v.(dgo.Freezable); ok {
-				v = f.FrozenCopy()
-			}
-			cp[i] = v
+			cp[i] = frozenCopy(Value(values[i]))
 		}
 	} else {
 		for i := range values {
@@ -939,9 +928,7 @@ func (v *array) Copy(frozen bool) dgo.Array {
 	cp := util.SliceCopy(v.slice)
 	if frozen {
 		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
+			cp[i] = frozenCopy(cp[i])
 		}
 	} else {
 		for i := range cp {
diff --git a/internal/map.go b/internal/map.go
index 89362b5..1964b40 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -894,6 +894,12 @@ func tableSizeFor(cap int) int {
 }
 
 func frozenCopy(v dgo.Value) dgo.Value {
+	if n, ok := v.(*hashNode); ok {
+		// The node belongs to a map, and if that map is mutable, then the value of the node may be replaced.
+		c := &hashNode{mapEntry: mapEntry{key: n.key, value: n.value}}
+		c.copyFreeze()
+		return c
+	}
 	if f, ok := v.(dgo.Freezable); ok {
 		v = f.FrozenCopy()
 	}
-- 
2.43.0


From c05744a236fa305a61530af4067fd39e2360453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 06/52] fix: ToMap and ToMapFromEntries create maps of their
 own

The maps got duplicate keys when a key occurred twice and used keys that could be mutated, and ToMapFromEntries moved
the nodes of another, possibly frozen, map into the new map, which damaged both.
---
 internal/array.go | 52 +++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index a580fbb..c624ec1 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1300,9 +1300,7 @@ func (v *array) ToMap() dgo.Map {
 	if top%2 != 0 {
 		ts++
 	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
+	m := MapWithCapacity(ts).(*hashMap)
 
 	for i := 0; i < top; {
 		mk := ms[i]
@@ -1312,53 +1310,31 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
+	m := MapWithCapacity(len(ms)).(*hashMap)
 
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
+		switch e := ms[i].(type) {
+		case *hashNode:
+			// The node itself cannot be used. It belongs to another map
+			m.Put(e.key, e.value)
+		case *array:
+			if len(e.slice) != 2 {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+			m.Put(e.slice[0], e.slice[1])
+		default:
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From 3938394ea369123a897ddc44ac064a2c670c9b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 07/52] fix: PutAll leaves a consistent map behind when it
 fails

The length was set at the end only and did not match the entries when a key could not be frozen.
---
 internal/map.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 1964b40..fcd9754 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -642,8 +642,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 		panic(frozenMap(`PutAll`))
 	}
 
-	l := g.len
-	if float64(l+al) > float64(l)*loadFactor {
+	if float64(g.len+al) > float64(g.len)*loadFactor {
 		g.resize(g, al)
 	}
 	tbl := g.table
@@ -666,9 +665,8 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 		}
 		g.last = nd
 		tbl[hk] = nd
-		l++
+		g.len++
 	})
-	g.len = l
 }
 
 func (g *hashMap) ReflectTo(value reflect.Value) {
-- 
2.43.0


From 99da01284bff57dc2d942df3b651142a4297bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 08/52] fix: what is put into the result of a derivation from a
 frozen collection is frozen

---
 internal/array.go  | 6 +++++-
 internal/map.go    | 9 +++++++++
 internal/struct.go | 9 ++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index c624ec1..98a07f7 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1128,7 +1128,11 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	a := v.slice
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
-		vs[i] = Value(mapper(a[i]))
+		e := Value(mapper(a[i]))
+		if v.frozen {
+			e = frozenCopy(e)
+		}
+		vs[i] = e
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
diff --git a/internal/map.go b/internal/map.go
index fcd9754..5c0f89f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -573,6 +573,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.copyFreeze()
+		}
 	}
 	return c
 }
@@ -585,6 +588,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -792,6 +798,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..1706dce 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -229,6 +229,9 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := v.toHashMap()
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if v.frozen {
+			e.copyFreeze()
+		}
 	}
 	c.frozen = v.frozen
 	return c
@@ -308,7 +311,11 @@ func (v *structVal) Values() dgo.Array {
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
 	c := v.toHashMap()
-	c.Put(key, value)
+	val := Value(value)
+	if v.frozen {
+		val = frozenCopy(val)
+	}
+	c.Put(key, val)
 	c.frozen = v.frozen
 	return c
 }
-- 
2.43.0


From 7bb43deb56e7181c070516979b752154aed8b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 09/52] fix: a mutable copy of a struct map shares no mutable
 values with the original

---
 internal/struct.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/struct.go b/internal/struct.go
index 1706dce..6289fca 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -80,9 +80,19 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
+	// Thaw: Perform a by-value copy of the struct
 	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
 	rs.Set(v.rs)                          // copy v.rs to the zero value
+
+	for i, n := 0, rs.NumField(); i < n; i++ {
+		ef := rs.Field(i)
+		switch ev := ValueFromReflected(ef).(type) {
+		case dgo.Native:
+			// has no thawed copy
+		case dgo.Freezable:
+			ReflectTo(ev.ThawedCopy(), ef)
+		}
+	}
 	return &structVal{rs: rs, frozen: false}
 }
 
-- 
2.43.0


From c9d1f2f70730a520526850bed73d74609a7c35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 10/52] fix: GoStruct of a frozen struct map returns a pointer
 to a copy

---
 internal/struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/struct.go b/internal/struct.go
index 6289fca..f19f9cd 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -117,6 +117,12 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		rs := reflect.New(v.rs.Type()) // create pointer to a zero value
+		rs.Elem().Set(v.rs)            // copy v.rs to the zero value
+		return rs.Interface()
+	}
 	return v.rs.Addr().Interface()
 }
 
-- 
2.43.0


From ad516fb78451e32563f7e226883db7cc1a5164a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 11/52] fix: a Freeze that fails leaves everything mutable

---
 internal/array.go     | 24 +++++++++++++++++-------
 internal/map.go       | 23 ++++++++++++++++++++++-
 internal/sensitive.go |  8 ++++++++
 internal/struct.go    | 19 ++++++++++++++-----
 internal/value.go     | 43 +++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 104 insertions(+), 13 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 98a07f7..337d2b0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1043,18 +1043,28 @@ func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
 }
 
 func (v *array) Freeze() {
-	if v.frozen {
-		return
+	if !v.frozen {
+		assertFreezable(v)
+		v.freeze()
 	}
-	v.frozen = true
-	a := v.slice
-	for i := range a {
-		if f, ok := a[i].(dgo.Freezable); ok {
-			f.Freeze()
+}
+
+func (v *array) freeze() {
+	if !v.frozen {
+		v.frozen = true
+		a := v.slice
+		for i := range a {
+			freeze(a[i])
 		}
 	}
 }
 
+func (v *array) eachMutable(actor dgo.Consumer) {
+	if !v.frozen {
+		v.Each(actor)
+	}
+}
+
 func (v *array) Frozen() bool {
 	return v.frozen
 }
diff --git a/internal/map.go b/internal/map.go
index 5c0f89f..2c0d2a0 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -115,6 +115,14 @@ func (v *mapEntry) Freeze() {
 	}
 }
 
+func (v *mapEntry) freeze() {
+	freeze(v.value)
+}
+
+func (v *mapEntry) eachMutable(actor dgo.Consumer) {
+	actor(v.value)
+}
+
 func (v *mapEntry) Frozen() bool {
 	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
 		return false
@@ -481,14 +489,27 @@ func (g *hashMap) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 }
 
 func (g *hashMap) Freeze() {
+	if !g.frozen {
+		assertFreezable(g)
+		g.freeze()
+	}
+}
+
+func (g *hashMap) freeze() {
 	if !g.frozen {
 		g.frozen = true
 		for e := g.first; e != nil; e = e.next {
-			e.Freeze()
+			e.freeze()
 		}
 	}
 }
 
+func (g *hashMap) eachMutable(actor dgo.Consumer) {
+	if !g.frozen {
+		g.EachValue(actor)
+	}
+}
+
 func (g *hashMap) Frozen() bool {
 	return g.frozen
 }
diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..6a3e000 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -129,6 +129,14 @@ func (v *sensitive) Freeze() {
 	}
 }
 
+func (v *sensitive) freeze() {
+	freeze(v.value)
+}
+
+func (v *sensitive) eachMutable(actor dgo.Consumer) {
+	actor(v.value)
+}
+
 func (v *sensitive) Frozen() bool {
 	if f, ok := v.value.(dgo.Freezable); ok {
 		return f.Frozen()
diff --git a/internal/struct.go b/internal/struct.go
index f19f9cd..1f62066 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -150,15 +150,24 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
+	if !v.frozen {
+		assertFreezable(v)
+		v.freeze()
+	}
+}
+
+func (v *structVal) freeze() {
 	// Perform a shallow copy of the struct
 	if !v.frozen {
 		v.frozen = true
 		v.rs = reflect.ValueOf(v.rs.Interface())
-		v.EachValue(func(e dgo.Value) {
-			if f, ok := e.(dgo.Freezable); ok {
-				f.Freeze()
-			}
-		})
+		v.EachValue(freeze)
+	}
+}
+
+func (v *structVal) eachMutable(actor dgo.Consumer) {
+	if !v.frozen {
+		v.EachValue(actor)
 	}
 }
 
diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..ee7d42a 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -168,3 +168,46 @@ var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
 }
+
+// freezableContainer is implemented by values that contain other values and freeze those along with themselves
+type freezableContainer interface {
+	dgo.Value
+	dgo.Freezable
+
+	// freeze freezes the container and its values. The values are known to be freezable
+	freeze()
+
+	// eachMutable calls the actor with the contained values unless the container is frozen
+	eachMutable(actor dgo.Consumer)
+}
+
+// freeze freezes the given value if it is freezable
+func freeze(v dgo.Value) {
+	switch v := v.(type) {
+	case freezableContainer:
+		v.freeze()
+	case dgo.Freezable:
+		v.Freeze()
+	}
+}
+
+// assertFreezable panics if something that cannot be frozen is found in the given container. Called before anything
+// is frozen to ensure that a failing Freeze leaves everything mutable.
+func assertFreezable(c freezableContainer) {
+	seen := make(map[dgo.Value]bool)
+	var check dgo.Consumer
+	check = func(v dgo.Value) {
+		switch v := v.(type) {
+		case freezableContainer:
+			if !seen[v] {
+				seen[v] = true
+				v.eachMutable(check)
+			}
+		case *native:
+			v.Freeze()
+		case *alias:
+			v.Freeze()
+		}
+	}
+	check(c)
+}
-- 
2.43.0


From 9b292275d21a84a02ac5b110622d62b8de39ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 12/52] fix: a frozen map created from a Go map of mutable
 values holds frozen copies of them

---
 internal/map.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 2c0d2a0..68d253c 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -295,7 +295,11 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
-		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
+		k, v := ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))
+		if frozen {
+			k, v = frozenUnlessNative(k), frozenUnlessNative(v)
+		}
+		se[i] = [2]dgo.Value{k, v}
 	}
 
 	// Sort by key to always get predictable order
@@ -934,6 +938,13 @@ func frozenCopy(v dgo.Value) dgo.Value {
 	return v
 }
 
+func frozenUnlessNative(v dgo.Value) dgo.Value {
+	if _, ok := v.(dgo.Native); ok {
+		return v
+	}
+	return frozenCopy(v)
+}
+
 func hash(h int) int {
 	return h ^ (h >> 16)
 }
-- 
2.43.0


From 7bd662c81513d1f129d426305444ef49437d4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 13/52] fix: the key of a map entry is frozen

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 68d253c..ead2b2f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -74,7 +74,7 @@ func (t *exactEntryType) TypeIdentifier() dgo.TypeIdentifier {
 
 // NewMapEntry returns a new MapEntry instance with the given key and value
 func NewMapEntry(key, value interface{}) dgo.MapEntry {
-	return &mapEntry{Value(key), Value(value)}
+	return &mapEntry{frozenCopy(Value(key)), Value(value)}
 }
 
 func (t *exactEntryType) ExactValue() dgo.Value {
-- 
2.43.0


From cd822c257fa3709fdbf88c0c0a6645f8ec5039d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 14/52] fix: the order of entries created from a Go map with
 mixed keys is always the same

---
 internal/map.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index ead2b2f..3ab1ce9 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -303,16 +303,7 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	}
 
 	// Sort by key to always get predictable order
-	sort.Slice(se, func(i, j int) bool {
-		less := false
-		if cm, ok := se[i][0].(dgo.Comparable); ok {
-			var c int
-			if c, ok = cm.CompareTo(se[j][0]); ok {
-				less = c < 0
-			}
-		}
-		return less
-	})
+	sort.Slice(se, func(i, j int) bool { return keyLess(se[i][0], se[j][0]) })
 
 	m := &hashMap{table: tbl, len: top, frozen: frozen}
 	for i := range se {
@@ -331,6 +322,40 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	return m
 }
 
+// keyLess is a total ordering of keys. Keys that are comparable have their natural order, others are ordered by type and
+// then by what they look like.
+func keyLess(a, b dgo.Value) bool {
+	ta, tb := keyOrder(a), keyOrder(b)
+	if ta != tb {
+		return ta < tb
+	}
+	if ac, ok := a.(dgo.Comparable); ok {
+		if c, ok := ac.CompareTo(b); ok {
+			return c < 0
+		}
+	}
+	if an, ok := a.(dgo.Native); ok {
+		if bn, ok := b.(dgo.Native); ok {
+			return fmt.Sprintf(`%#v`, an.GoValue()) < fmt.Sprintf(`%#v`, bn.GoValue())
+		}
+	}
+	return a.String() < b.String()
+}
+
+func keyOrder(k dgo.Value) dgo.TypeIdentifier {
+	switch k.(type) {
+	case dgo.Nil:
+		return -1
+	case dgo.Integer, dgo.Float:
+		// numbers are comparable regardless of type
+		return dgo.TiInteger
+	case dgo.Boolean:
+		return dgo.TiBoolean
+	default:
+		return k.Type().TypeIdentifier()
+	}
+}
+
 // FromReflectedStruct creates a frozen Map from the exported fields of a go struct. It panics if rm's kind is not
 // reflect.Struct.
 func FromReflectedStruct(rv reflect.Value) dgo.Struct {
-- 
2.43.0


From 346b4f39427964e259e5d34eae6279ae488f078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 15/52] fix: a loader adds all entries from a finder or none,
 and returns the value that it keeps

---
 loader/loader.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..f32bffe 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -189,24 +189,30 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
-	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
-			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
-			panic(fmt.Errorf(`attempt to override entry %q`, key))
-		}
-	}
-
 	if m, ok := value.(multipleEntries); ok {
-		value = m.Get(key)
-		if value == nil {
+		if m.Get(key) == nil {
 			panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
 		}
-		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })
+		// Ensure that nothing is added unless everything can be added
+		m.EachEntry(func(e dgo.MapEntry) { l.assertNoOverride(e.Key(), e.Value()) })
+		m.EachEntry(func(e dgo.MapEntry) { l.addEntry(e.Key(), e.Value()) })
 	} else {
-		addEntry(key, value)
+		l.assertNoOverride(key, value)
+		l.addEntry(key, value)
+	}
+	return l.entries.Get(key)
+}
+
+func (l *loader) assertNoOverride(key, value dgo.Value) {
+	if old := l.entries.Get(key); !(old == nil || old.Equals(value)) {
+		panic(fmt.Errorf(`attempt to override entry %q`, key))
+	}
+}
+
+func (l *loader) addEntry(key, value dgo.Value) {
+	if l.entries.Get(key) == nil {
+		l.entries.Put(key, value)
 	}
-	return value
 }
 
 func (l *loader) Equals(other interface{}) bool {
-- 
2.43.0


From cb691389028c7f647e84eaee0eab80b7a447a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 16/52] fix: the type of the parented loader is registered with
 its own implementation type

---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index f32bffe..3c0f9e5 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -306,7 +306,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From cceea14fcd0dce67de4858dece09012748a2711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 17/52] fix: a loader can be compared, hashed, and printed
 while others use it

---
 loader/loader.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 3c0f9e5..dfc4bd5 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -180,11 +180,27 @@ func (l *loader) init(im dgo.Map) {
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	entries, namespaces := l.snapshot()
+	m := vf.MapWithCapacity(5)
+	m.Put(`name`, l.name)
+	m.Put(`entries`, entries)
+	m.Put(`namespaces`, namespaces)
 	return m
 }
 
+// snapshot returns maps with what has been loaded so far
+func (l *loader) snapshot() (entries, namespaces dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return shallowCopy(l.entries), shallowCopy(l.namespaces)
+}
+
+func shallowCopy(m dgo.Map) dgo.Map {
+	c := vf.MapWithCapacity(m.Len())
+	c.PutAll(m)
+	return c
+}
+
 func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
@@ -217,13 +233,19 @@ func (l *loader) addEntry(key, value dgo.Value) {
 
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		entries, namespaces := l.snapshot()
+		oEntries, oNamespaces := ov.snapshot()
+		return entries.Equals(oEntries) && namespaces.Equals(oNamespaces)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	entries, namespaces := l.snapshot()
+	return entries.HashCode()*31 + namespaces.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
-- 
2.43.0


From d6ccaa732ed692382c16877f675c9e86f75ef039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 18/52] fix: concurrent requests for a namespace that is
 already in use are served the existing one

---
 loader/loader.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index dfc4bd5..09c887a 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -25,6 +25,7 @@ type (
 	loader struct {
 		mapLoader
 		lock       sync.RWMutex
+		defined    dgo.Map // the entries that the loader was created with
 		namespaces dgo.Map
 		finder     dgo.Finder
 		nsCreator  dgo.NsCreator
@@ -73,6 +74,7 @@ func New(parentNs dgo.Loader, name string, entries dgo.Map, finder dgo.Finder, n
 	}
 	return &loader{
 		mapLoader:  mapLoader{parentNs: parentNs, name: name, entries: entries.Copy(finder == nil)},
+		defined:    entries.FrozenCopy().(dgo.Map),
 		namespaces: namespaces,
 		finder:     finder,
 		nsCreator:  nsCreator}
@@ -176,6 +178,7 @@ var MutableType = tf.NewNamed(`loader`,
 
 func (l *loader) init(im dgo.Map) {
 	l.mapLoader.init(im)
+	l.defined = l.entries.FrozenCopy().(dgo.Map)
 	l.namespaces = im.Get(`namespaces`).(dgo.Map)
 }
 
@@ -295,7 +298,7 @@ func (l *loader) Namespace(name string) dgo.Loader {
 		if nil != old {
 			// Either the nsCreator did something wrong that resulted in the creation of this
 			// namespace or a another one has been created from another go routine.
-			if !old.Equals(ns) {
+			if !sameDefinition(old.(dgo.Loader), ns) {
 				panic(fmt.Errorf(`namespace %q is already defined`, name))
 			}
 
@@ -306,6 +309,21 @@ func (l *loader) Namespace(name string) dgo.Loader {
 	return ns
 }
 
+// sameDefinition returns true if the given loaders were created equal, regardless of what they have loaded since then
+func sameDefinition(a, b dgo.Loader) bool {
+	switch a := a.(type) {
+	case *loader:
+		if ob, ok := b.(*loader); ok {
+			return a.defined.Equals(ob.defined)
+		}
+	case *childLoader:
+		if ob, ok := b.(*childLoader); ok {
+			return sameDefinition(a.Loader, ob.Loader) && sameDefinition(a.parent, ob.parent)
+		}
+	}
+	return a.Equals(b)
+}
+
 func (l *loader) NewChild(finder dgo.Finder, nsCreator dgo.NsCreator) dgo.Loader {
 	return loaderWithParent(l, finder, nsCreator)
 }
-- 
2.43.0


From 4ac8982da1c06663349af552cd62401e38a4e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 19/52] fix: resolving references leaves types that have none,
 and may be shared, alone

---
 internal/alias.go     | 22 +++++++++++++++++++++-
 internal/array.go     | 20 ++++++++------------
 internal/map.go       | 18 +++++++++---------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  6 +++---
 internal/not.go       |  6 +++---
 internal/ternary.go   | 15 +++------------
 7 files changed, 49 insertions(+), 50 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..5dec8d2 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -5,6 +5,7 @@ import (
 	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -20,6 +21,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		resolving  []dgo.Value
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -216,7 +218,25 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		// Types may be self referencing
+		n := len(a.resolving)
+		if !util.RecursionHit(a.resolving, t.(dgo.Value)) {
+			a.resolving = append(a.resolving, t.(dgo.Value))
+			defer func() { a.resolving = a.resolving[:n] }()
+			t.Resolve(a)
+		}
 	}
 	return t
 }
+
+// replaceAlias returns the replacement for the given value and true if the value is a reference. If not, the references
+// that the value contains are replaced. Types that contain no references are never written to since they may be shared.
+func replaceAlias(ap dgo.AliasAdder, v dgo.Value) (dgo.Value, bool) {
+	switch v.(type) {
+	case *deferredCall, dgo.Alias:
+		return ap.Replace(v), true
+	case dgo.AliasContainer:
+		ap.Replace(v)
+	}
+	return v, false
+}
diff --git a/internal/array.go b/internal/array.go
index 337d2b0..f77ed94 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -255,9 +255,9 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	if r, ok := replaceAlias(ap, t.elementType); ok {
+		t.elementType = r.(dgo.Type)
+	}
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -637,10 +637,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1227,10 +1224,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1467,6 +1461,8 @@ func frozenArray(f string) error {
 
 func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
 	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
+		if r, ok := replaceAlias(ap, ts[i]); ok {
+			ts[i] = r
+		}
 	}
 }
diff --git a/internal/map.go b/internal/map.go
index 3ab1ce9..5f357b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -827,7 +827,9 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	for e := g.first; e != nil; e = e.next {
-		e.value = ap.Replace(e.value)
+		if r, ok := replaceAlias(ap, e.value); ok {
+			e.value = r
+		}
 	}
 }
 
@@ -1176,14 +1178,12 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	if r, ok := replaceAlias(ap, t.keyType); ok {
+		t.keyType = r.(dgo.Type)
+	}
+	if r, ok := replaceAlias(ap, t.valueType); ok {
+		t.valueType = r.(dgo.Type)
+	}
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..3ce203a 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -325,16 +325,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..b185fb5 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,9 +111,9 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
-	tp := t.tp
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
+	if r, ok := replaceAlias(ap, t.tp); ok {
+		t.tp = r.(dgo.Type)
+	}
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..3515f7f 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -88,9 +88,9 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	if r, ok := replaceAlias(ap, t.negated); ok {
+		t.negated = r.(dgo.Type)
+	}
 }
 
 func (t *notType) String() string {
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..0225120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -126,10 +126,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -338,10 +335,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -461,10 +455,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 3872acf55f7df7edda598de2ec81cb57cbb8524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 20/52] fix: alias maps are read while holding the lock that
 protects them

---
 internal/alias.go | 29 +++++++++++++++++++----------
 tf/type.go        |  3 ++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 5dec8d2..c1e10a2 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -36,7 +36,7 @@ func BuiltInAliases() dgo.AliasMap {
 	return builtinAliases
 }
 
-var defaultLock = sync.Mutex{}
+var defaultLock = sync.RWMutex{}
 
 // AddDefaultAliases adds the new aliases to the default alias map by passing an AliasAdder to the function
 // The function is safe from a concurrency perspective.
@@ -48,19 +48,25 @@ func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is locked when the appointed AliasMap is read, but it is not held when the adder function is called. No
+// swap will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		rs := am.resolvedTypes()
 		lock.Lock()
 		defer lock.Unlock()
-		*mapToReplace = (*mapToReplace).(*aliasMap).update(am)
+		*mapToReplace = (*mapToReplace).(*aliasMap).update(rs)
 	}
 }
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
+	defaultLock.RLock()
+	defer defaultLock.RUnlock()
 	return defaultAliases
 }
 
@@ -69,6 +75,8 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	defaultAliases = builtinAliases
 }
 
@@ -153,22 +161,18 @@ func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 	am := &aliasAdder{backingMap: a}
 	adder(am)
 	if am.namedTypes.Len() > 0 {
-		return a.update(am)
+		return a.update(am.resolvedTypes())
 	}
 	return a
 }
 
-func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
+func (a *aliasMap) update(rs dgo.Map) dgo.AliasMap {
 	// Create a new alias map with enough room to fit the new entries
 	c := &aliasMap{}
-	ns := am.namedTypes
-	na := ns.Len()
+	na := rs.Len()
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
 
-	// Resolve the added entries
-	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-
 	// Add entries to the new alias map
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
@@ -208,6 +212,11 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	return a.backingMap.GetType(n)
 }
 
+// resolvedTypes returns the added entries after resolving them
+func (a *aliasAdder) resolvedTypes() dgo.Map {
+	return a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+}
+
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
diff --git a/tf/type.go b/tf/type.go
index f6abf9b..bb997c9 100644
--- a/tf/type.go
+++ b/tf/type.go
@@ -45,7 +45,8 @@ func AddDefaultAliases(adderFunc func(aliasAdder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is locked when the appointed AliasMap is read, but it is not held when the adder function is called. No
+// swap will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
 	internal.AddAliases(mapToReplace, lock, adder)
 }
-- 
2.43.0


From 155aaa616c44b70dfe87162407b49c3eb13e8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:56 +0000
Subject: [PATCH 21/52] fix: the type that validates struct type maps is
 created once, without a data race

---
 internal/mapstruct.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 3ce203a..3bafce8 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -75,20 +76,21 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmTypeOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmTypeOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
 // StructMapTypeFromMap returns a new type built from a map[string](dgo|type|{type:dgo|type,required?:bool,...})
 func StructMapTypeFromMap(additional bool, entries dgo.Map) dgo.StructMapType {
 	if !StructFromMapType().Instance(entries) {
-		panic(IllegalAssignment(sfmType, entries))
+		panic(IllegalAssignment(StructFromMapType(), entries))
 	}
 	l := entries.Len()
 	keys := make([]dgo.Value, l)
-- 
2.43.0


From b6ef695873135359ca9fcd617741071834b5de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 22/52] fix: the Go structs that implement values are not
 exposed as struct maps

---
 internal/map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 5f357b5..0dacb2f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -252,6 +252,11 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			return m
 		}
 		rm := reflect.ValueOf(a0)
+		switch a0.(type) {
+		case dgo.String, dgo.Array, dgo.Map, dgo.MapEntry, dgo.Binary, dgo.Sensitive, dgo.Time, dgo.Regexp, dgo.Native, dgo.Function, dgo.Type:
+			// the Go struct that implements the value is internal and must not be exposed
+			rm = reflect.Value{}
+		}
 		switch rm.Kind() {
 		case reflect.Map:
 			return FromReflectedMap(rm, frozen).(dgo.Map)
-- 
2.43.0


From bc96e550013495a3216f848f26657fbd94420f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 23/52] fix: types that have no alias are streamed also when
 there is an alias map

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..1744ad8 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -185,10 +185,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From 86f6d145bfbbbd3caf4af73f716351c675b9bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 24/52] fix: a float without fraction is a float also when read
 back from JSON

---
 streamer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..cde5a12 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -227,6 +227,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
 		v, err = json.Marshal(e.GoFloat())
+		if err == nil && !bytes.ContainsAny(v, `.eE`) {
+			// retain the fact that this is a float
+			v = append(v, '.', '0')
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From 1f019242a531effdf391712c8d21cb33ee9c352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 25/52] fix: MarshalJSON writes references using the given
 dialect

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index cde5a12..97083dd 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From 6ccf9d3f1932bc9492bb5915b18262f464ddd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 26/52] fix: references to rich data give the decoded value

---
 streamer/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..8b6520a 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,14 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	ref := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		d.Values.Set(ref, v)
 	}
 }
 
-- 
2.43.0


From 92a0f7c9755d30ea9428afdab95546131983054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 27/52] fix: a decoded map that contains a cycle is searched
 for itself only once

---
 streamer/decoder.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 8b6520a..669e26e 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -60,7 +60,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		nm := mv.(dgo.Array).ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
-		replaceInstance(m, nm, nm)
+		replaceInstance(m, nm, nm, make(map[dgo.Value]bool))
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
@@ -88,7 +88,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]bool) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
@@ -97,21 +97,29 @@ func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
 
 	switch iv := in.(type) {
 	case dgo.Map:
+		if seen[iv] {
+			break
+		}
+		seen[iv] = true
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
+			if re, rh := replaceInstance(orig, repl, v.Value(), seen); rh {
 				replaceHappened = true
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
+		if seen[iv] {
+			break
+		}
+		seen[iv] = true
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
+			if re, rh := replaceInstance(orig, repl, v, seen); rh {
 				replaceHappened = true
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
+		if rw, rh := replaceInstance(orig, repl, iv.Unwrap(), seen); rh {
 			replaceHappened = true
 			in = vf.Sensitive(rw)
 		}
-- 
2.43.0


From 27920d52bee53c86cd513669ce5811b58fb69706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 28/52] fix: named values without entries or with keys that are
 not strings can be read back

---
 streamer/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1744ad8..14f9d59 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -127,7 +127,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if vm, ok := v.(dgo.Map); ok && vm.Len() > 0 && vm.StringKeys() {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
-- 
2.43.0


From bb9ffcebc649947f1941363561ae8f9614cf1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 29/52] fix: a refused argument to Map is described by its
 type, and errors are refused too

---
 internal/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 0dacb2f..f0fc9b2 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -253,7 +253,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		}
 		rm := reflect.ValueOf(a0)
 		switch a0.(type) {
-		case dgo.String, dgo.Array, dgo.Map, dgo.MapEntry, dgo.Binary, dgo.Sensitive, dgo.Time, dgo.Regexp, dgo.Native, dgo.Function, dgo.Type:
+		case dgo.String, dgo.Array, dgo.Map, dgo.MapEntry, dgo.Binary, dgo.Sensitive, dgo.Time, dgo.Regexp, dgo.Native, dgo.Function, dgo.Type, error:
 			// the Go struct that implements the value is internal and must not be exposed
 			rm = reflect.Value{}
 		}
@@ -268,7 +268,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		case reflect.Struct:
 			return FromReflectedStruct(rm)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(fmt.Errorf(`illegal argument: %T is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 76ac1c20a3eeb7d7fb94d2ec76f649f64271f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 30/52] fix: With adds an association to nil also when the map
 does not have the key

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index f0fc9b2..b28bc7e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -861,7 +861,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if old := g.Get(key); old != nil && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From 3278929414175295a8cfa31fa430280bb1c7762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 31/52] fix: ContainsAll finds the elements of a shorter
 iterable wherever they are

---
 internal/array.go   | 17 ++++++-----------
 internal/ternary.go |  2 +-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index f77ed94..014c64d 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -951,23 +951,18 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 		return true
 	}
 
-	var vs []dgo.Value
-	if oa, ok := other.(*array); ok {
-		vs = util.SliceCopy(oa.slice)
-	} else {
-		vs = sliceFromIterable(other)
-	}
-
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
+	as := util.SliceCopy(a)
+	vs := sliceFromIterable(other)
 	for i := range vs {
-		ea := a[i]
+		be := vs[i]
 		f := false
-		for j := range vs {
-			if be := vs[j]; be != nil {
+		for j := range as {
+			if ea := as[j]; ea != nil {
 				if equals(seen, be, ea) {
-					vs[j] = nil
+					as[j] = nil
 					f = true
 					break
 				}
diff --git a/internal/ternary.go b/internal/ternary.go
index 0225120..0739d16 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -150,7 +150,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From e71deaefdda2343fe9722b56626c44d0308b0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 32/52] fix: a short write is reported when a value is written
 as JSON

---
 streamer/json.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/streamer/json.go b/streamer/json.go
index 97083dd..7d74c5d 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -152,19 +152,19 @@ type jsonEncoder struct {
 func (j *jsonEncoder) AddArray(_ int, doer dgo.Doer) {
 	j.delimit(func() {
 		j.state = firstInArray
-		assertOk(j.out.Write([]byte{'['}))
+		j.emit([]byte{'['})
 		doer()
-		assertOk(j.out.Write([]byte{']'}))
+		j.emit([]byte{']'})
 		j.state = afterElement
 	})
 }
 
 func (j *jsonEncoder) AddMap(_ int, doer dgo.Doer) {
 	j.delimit(func() {
-		assertOk(j.out.Write([]byte{'{'}))
+		j.emit([]byte{'{'})
 		j.state = firstInObject
 		doer()
-		assertOk(j.out.Write([]byte{'}'}))
+		j.emit([]byte{'}'})
 		j.state = afterElement
 	})
 }
@@ -177,7 +177,7 @@ func (j *jsonEncoder) Add(element dgo.Value) {
 
 func (j *jsonEncoder) AddRef(ref int) {
 	j.delimit(func() {
-		assertOk(fmt.Fprintf(j.out, `{"%s":%d}`, j.dialect.RefKey(), ref))
+		j.emit([]byte(fmt.Sprintf(`{"%s":%d}`, j.dialect.RefKey(), ref)))
 	})
 }
 
@@ -206,15 +206,15 @@ func (j *jsonEncoder) delimit(doer dgo.Doer) {
 		doer()
 		j.state = afterKey
 	case afterKey:
-		assertOk(j.out.Write([]byte{':'}))
+		j.emit([]byte{':'})
 		doer()
 		j.state = afterValue
 	case afterValue:
-		assertOk(j.out.Write([]byte{','}))
+		j.emit([]byte{','})
 		doer()
 		j.state = afterKey
 	default: // Element
-		assertOk(j.out.Write([]byte{','}))
+		j.emit([]byte{','})
 		doer()
 	}
 }
@@ -238,11 +238,18 @@ func (j *jsonEncoder) write(e dgo.Value) {
 	default:
 		v = []byte(`null`)
 	}
-	assertOk(0, err)
-	assertOk(j.out.Write(v))
+	if err != nil {
+		panic(err)
+	}
+	j.emit(v)
 }
 
-func assertOk(_ int, err error) {
+// emit writes the given bytes and panics unless all of them were written
+func (j *jsonEncoder) emit(b []byte) {
+	n, err := j.out.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 53ebc2e5cf7f33dc8b2ac0a8bc0422bd514ea3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 33/52] fix: the JSON consumer writes references using the
 dialect of the streamer

---
 streamer/streamer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 14f9d59..c22da2b 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -75,6 +75,10 @@ func (t *rdSerializer) Stream(value dgo.Value, consumer Consumer) {
 	if c.dedupLevel >= MaxDedup && !consumer.CanDoComplexKeys() {
 		c.dedupLevel = NoKeyDedup
 	}
+	if jc, ok := consumer.(*jsonEncoder); ok && t.Dialect != nil {
+		// references must be written using the same dialect as everything else
+		jc.dialect = t.Dialect
+	}
 	c.emitData(value)
 }
 
-- 
2.43.0


From ea801a94fa536bab305411dd707cd816fb4bfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:06 +0000
Subject: [PATCH 34/52] fix: a decoded map key that contains itself is refused
 instead of exhausting the stack

---
 streamer/decoder.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 669e26e..366ca90 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -57,7 +57,11 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		nm := mv.(dgo.Array).ToMap()
+		a := mv.(dgo.Array)
+		for i := 0; i < a.Len(); i += 2 {
+			assertAcyclic(a.Get(i), make(map[dgo.Value]bool))
+		}
+		nm := a.ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
 		replaceInstance(m, nm, nm, make(map[dgo.Value]bool))
@@ -88,6 +92,27 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
+// assertAcyclic panics if the given value, which will be used as a key and hence must be copied, contains itself
+func assertAcyclic(v dgo.Value, parents map[dgo.Value]bool) {
+	var each func(dgo.Consumer)
+	switch v := v.(type) {
+	case dgo.Map:
+		each = v.EachValue
+	case dgo.Array:
+		each = v.Each
+	case dgo.Sensitive:
+		each = func(actor dgo.Consumer) { actor(v.Unwrap()) }
+	default:
+		return
+	}
+	if parents[v] {
+		panic(fmt.Errorf(`unable to decode a map key that contains itself`))
+	}
+	parents[v] = true
+	each(func(e dgo.Value) { assertAcyclic(e, parents) })
+	delete(parents, v)
+}
+
 func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]bool) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
-- 
2.43.0


From 4e42d85741ff2ce662af076251054b2792203bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 35/52] fix: ParseFile without an alias map recognizes the
 default aliases and evaluates calls

---
 parser/parser.go         | 11 +++++++++--
 streamer/pcore/parser.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..042bbf7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -137,8 +137,15 @@ func Parse(content string) (result dgo.Value) {
 }
 
 // ParseFile parses the given content into a dgo.Type. Aliases are added to the given AliasAdder. The filename
-// is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+// is used in error messages. If the given AliasAdder is nil, then the default aliases are recognized and aliases declared
+// within the content are known there only.
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		internal.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &parser{NewParserBase(am, nextToken, content)}
 	return DoParse(p, fileName)
 }
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..06c4bf0 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -74,8 +74,15 @@ func ParseType(content string) dgo.Type {
 	return typ.AsType(Parse(content))
 }
 
-// ParseFile parses the given content into a dgo.Type. The filename is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+// ParseFile parses the given content into a dgo.Type. The filename is used in error messages. If the given AliasAdder is
+// nil, then the default aliases are recognized and aliases declared within the content are known there only.
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		tf.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &pcoreParser{parser.NewParserBase(am, nextToken, content)}
 	return parser.DoParse(p, fileName)
 }
-- 
2.43.0


From a447b606eb1e3db61e28817f0b899995ff9c3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 36/52] fix: the pcore dialect adds no aliases to the default
 aliases when a value is decoded

---
 streamer/pcore/pcoredialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/pcore/pcoredialect.go b/streamer/pcore/pcoredialect.go
index cc42c65..8e22e4e 100644
--- a/streamer/pcore/pcoredialect.go
+++ b/streamer/pcore/pcoredialect.go
@@ -58,5 +58,5 @@ func (d pcoreDialect) TimeTypeName() dgo.String {
 }
 
 func (d pcoreDialect) ParseType(aliasMap dgo.AliasAdder, typeString dgo.String) (dt dgo.Type) {
-	return typ.AsType(Parse(typeString.GoString()))
+	return typ.AsType(ParseFile(aliasMap, ``, typeString.GoString()))
 }
-- 
2.43.0


From 906f1e817be4ea4e3ec9146ef2947af4462b5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 37/52] fix: the named type for an implementation type does not
 depend on the order of the registry

---
 internal/named.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..08a722a 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -97,17 +97,20 @@ func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
 }
 
 // NamedTypeFromReflected returns the named type for the reflected implementation type from the global type
-// registry. The function returns nil if no such type has been registered.
+// registry. The function returns nil if no such type has been registered. If several types are registered for the same
+// implementation type, then the one with the name that sorts first is returned.
 func NamedTypeFromReflected(rt reflect.Type) dgo.NamedType {
-	var t dgo.NamedType
+	var t *named
 	namedTypes.Range(func(k, v interface{}) bool {
 		nt := v.(*named)
-		if rt == nt.implType {
+		if rt == nt.implType && (t == nil || nt.name < t.name) {
 			t = nt
-			return false
 		}
 		return true
 	})
+	if t == nil {
+		return nil
+	}
 	return t
 }
 
-- 
2.43.0


From cf739a39481bb6765b8f4f9013ea14638f76969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 38/52] fix: a parse that fails adds nothing to the given alias
 adder

---
 internal/alias.go        | 17 ++++++++++++++++-
 parser/parser.go         |  9 ++++++---
 streamer/pcore/parser.go |  8 ++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index c1e10a2..333f23d 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -20,10 +20,15 @@ type (
 
 	aliasAdder struct {
 		namedTypes hashMap
-		backingMap dgo.AliasMap
+		backingMap typeGetter
 		resolving  []dgo.Value
 	}
 
+	// typeGetter is what an aliasAdder needs from the AliasMap or AliasAdder that it is backed by
+	typeGetter interface {
+		GetType(dgo.String) dgo.Type
+	}
+
 	dType        = dgo.Type // To avoid collision with method named Type
 	deferredCall struct {
 		dType
@@ -63,6 +68,16 @@ func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder d
 	}
 }
 
+// AddTentatively calls the given function with an AliasAdder that is backed by the given one. What the function adds is
+// added to the given AliasAdder when the function returns. Nothing is added if it panics.
+func AddTentatively(ap dgo.AliasAdder, adder func(adder dgo.AliasAdder)) {
+	am := &aliasAdder{backingMap: ap}
+	adder(am)
+	am.namedTypes.EachEntry(func(e dgo.MapEntry) {
+		ap.Add(e.Value().(dgo.Type), e.Key().(dgo.String))
+	})
+}
+
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
 	defaultLock.RLock()
diff --git a/parser/parser.go b/parser/parser.go
index 042bbf7..3178a92 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -137,7 +137,7 @@ func Parse(content string) (result dgo.Value) {
 }
 
 // ParseFile parses the given content into a dgo.Type. Aliases are added to the given AliasAdder. The filename
-// is used in error messages. If the given AliasAdder is nil, then the default aliases are recognized and aliases declared
+// is used in error messages. Nothing is added if the parsing fails. If the given AliasAdder is nil, then the default aliases are recognized and aliases declared
 // within the content are known there only.
 func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
 	if am == nil {
@@ -146,8 +146,11 @@ func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
 		})
 		return
 	}
-	p := &parser{NewParserBase(am, nextToken, content)}
-	return DoParse(p, fileName)
+	internal.AddTentatively(am, func(a dgo.AliasAdder) {
+		p := &parser{NewParserBase(a, nextToken, content)}
+		result = DoParse(p, fileName)
+	})
+	return
 }
 
 // DoParse performs the actual parsing and returns the result
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 06c4bf0..af2e367 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/internal"
 	"github.com/lyraproj/dgo/parser"
 	"github.com/lyraproj/dgo/tf"
 	"github.com/lyraproj/dgo/typ"
@@ -83,8 +84,11 @@ func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
 		})
 		return
 	}
-	p := &pcoreParser{parser.NewParserBase(am, nextToken, content)}
-	return parser.DoParse(p, fileName)
+	internal.AddTentatively(am, func(a dgo.AliasAdder) {
+		p := &pcoreParser{parser.NewParserBase(a, nextToken, content)}
+		result = parser.DoParse(p, fileName)
+	})
+	return
 }
 
 type pcoreParser struct {
-- 
2.43.0


From d05b3ad4fa739b2c48112888c7d129f068b4cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 39/52] fix: comparing and hashing negations and meta types
 that refer to themselves ends

---
 internal/meta.go | 17 +++++++++++------
 internal/not.go  | 12 ++++++++++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index b185fb5..85cdbe5 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,24 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
-		if t.tp == nil {
-			return mt.tp == nil
-		}
-		return t.tp.Equals(mt.tp)
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
+		return equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/not.go b/internal/not.go
index 3515f7f..15b4f8a 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,14 +23,22 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
-- 
2.43.0


From fc1e2086776d3451c0ab305d3b27322607d22c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 40/52] fix: keys of a Go map that are equal as values become
 one entry, in a fixed order

---
 internal/map.go | 50 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index b28bc7e..ced4581 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -297,25 +297,32 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(ic)/loadFactor)))
 	hl := len(tbl) - 1
-	se := make([][2]dgo.Value, len(keys))
+	se := make([]reflectedEntry, len(keys))
 	for i := range keys {
 		key := keys[i]
 		k, v := ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))
 		if frozen {
 			k, v = frozenUnlessNative(k), frozenUnlessNative(v)
 		}
-		se[i] = [2]dgo.Value{k, v}
+		se[i] = reflectedEntry{key: k, value: v, goKey: key}
 	}
 
 	// Sort by key to always get predictable order
-	sort.Slice(se, func(i, j int) bool { return keyLess(se[i][0], se[j][0]) })
+	sort.Slice(se, func(i, j int) bool { return se[i].less(&se[j]) })
 
-	m := &hashMap{table: tbl, len: top, frozen: frozen}
+	m := &hashMap{table: tbl, frozen: frozen}
+nextEntry:
 	for i := range se {
-		e := se[i]
-		k := e[0]
+		k, v := se[i].key, se[i].value
 		hk := hl & hash(k.HashCode())
-		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
+		for e := tbl[hk]; e != nil; e = e.hashNext {
+			if k.Equals(e.key) {
+				// Go keys of different types can be equal when they are converted
+				e.value = v
+				continue nextEntry
+			}
+		}
+		hn := &hashNode{mapEntry: mapEntry{key: k, value: v}, hashNext: tbl[hk], prev: m.last}
 		if m.last == nil {
 			m.first = hn
 		} else {
@@ -323,10 +330,39 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		}
 		m.last = hn
 		tbl[hk] = hn
+		m.len++
 	}
 	return m
 }
 
+type reflectedEntry struct {
+	key   dgo.Value
+	value dgo.Value
+	goKey reflect.Value
+}
+
+// less orders entries by key. Keys that are equal in that order, such as an integer and a float with the same value, are
+// ordered by type, and then by Go type.
+func (e *reflectedEntry) less(o *reflectedEntry) bool {
+	if keyLess(e.key, o.key) {
+		return true
+	}
+	if keyLess(o.key, e.key) {
+		return false
+	}
+	if te, to := e.key.Type().TypeIdentifier(), o.key.Type().TypeIdentifier(); te != to {
+		return te < to
+	}
+	return goTypeName(e.goKey) < goTypeName(o.goKey)
+}
+
+func goTypeName(v reflect.Value) string {
+	if v.Kind() == reflect.Interface && !v.IsNil() {
+		v = v.Elem()
+	}
+	return v.Type().String()
+}
+
 // keyLess is a total ordering of keys. Keys that are comparable have their natural order, others are ordered by type and
 // then by what they look like.
 func keyLess(a, b dgo.Value) bool {
-- 
2.43.0


From cff1aa0d97746e0ce494eae33c47ba952957a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 41/52] fix: the native type has a hash code, and types that
 contain it can be printed

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..abbdf89 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
-- 
2.43.0


From 518df87be8f510fe44b04d6080c73711f3d9f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 42/52] fix: an Arguments value is equal to itself and to the
 array that it represents

---
 internal/arguments.go | 11 +++++++++++
 internal/array.go     | 12 ++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/arguments.go b/internal/arguments.go
index 71c078f..8e38522 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -33,3 +33,14 @@ func (a *arguments) Arg(funcName string, n int, typ dgo.Type) dgo.Value {
 	}
 	panic(illegalArgument(funcName, typ, a.InterfaceSlice(), n))
 }
+
+// asArray returns the array that the given value is, or, when it is an Arguments, the array that it consists of
+func asArray(value interface{}) (*array, bool) {
+	switch v := value.(type) {
+	case *array:
+		return v, true
+	case *arguments:
+		return &v.array, true
+	}
+	return nil, false
+}
diff --git a/internal/array.go b/internal/array.go
index 014c64d..6f6d9b0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -235,7 +235,7 @@ func (t *sizedArrayType) Instance(value interface{}) bool {
 }
 
 func (t *sizedArrayType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
-	if ov, ok := value.(*array); ok {
+	if ov, ok := asArray(value); ok {
 		l := len(ov.slice)
 		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)
 	}
@@ -562,7 +562,7 @@ func (t *tupleType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bo
 }
 
 func tupleInstance(guard dgo.RecursionGuard, t dgo.TupleType, value interface{}) bool {
-	ov, ok := value.(*array)
+	ov, ok := asArray(value)
 	if !ok {
 		return false
 	}
@@ -884,7 +884,7 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
+	ov, ok := asArray(other)
 	if !ok {
 		return 0, false
 	}
@@ -994,7 +994,7 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	if ov, ok := asArray(other); ok {
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
@@ -1013,7 +1013,7 @@ func (v *array) Find(finder dgo.Mapper) interface{} {
 func (v *array) Flatten() dgo.Array {
 	a := v.slice
 	for i := range a {
-		if _, ok := a[i].(*array); ok {
+		if _, ok := asArray(a[i]); ok {
 			fs := make([]dgo.Value, i, len(a)*2)
 			copy(fs, a)
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
@@ -1025,7 +1025,7 @@ func (v *array) Flatten() dgo.Array {
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
 	for i := range elements {
 		e := elements[i]
-		if a, ok := e.(*array); ok {
+		if a, ok := asArray(e); ok {
 			receiver = flattenElements(a.slice, receiver)
 		} else {
 			receiver = append(receiver, e)
-- 
2.43.0


From 033fbecc488ac0584e19c9279c0554b2b341cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 43/52] fix: a frozen array does not share its slice with
 others

---
 internal/array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 6f6d9b0..6aa2224 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1044,7 +1044,8 @@ func (v *array) Freeze() {
 func (v *array) freeze() {
 	if !v.frozen {
 		v.frozen = true
-		a := v.slice
+		a := util.SliceCopy(v.slice) // the original may be known to others
+		v.slice = a
 		for i := range a {
 			freeze(a[i])
 		}
-- 
2.43.0


From f7d326f5490b24beaf53b8bdb2f8a5bdac28cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 44/52] fix: a frozen struct map does not share slices, maps,
 or pointers with others

---
 internal/struct.go | 89 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 18 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 1f62066..f8ac3f8 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -119,9 +119,7 @@ func (v *structVal) Equals(other interface{}) bool {
 func (v *structVal) GoStruct() interface{} {
 	if v.frozen {
 		// Don't expose pointer to frozen struct
-		rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-		rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-		return rs.Interface()
+		return detachedStruct(v.rs).Addr().Interface()
 	}
 	return v.rs.Addr().Interface()
 }
@@ -157,10 +155,10 @@ func (v *structVal) Freeze() {
 }
 
 func (v *structVal) freeze() {
-	// Perform a shallow copy of the struct
+	// Perform a copy of the struct that includes everything but the values that it contains
 	if !v.frozen {
 		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
+		v.rs = detachedStruct(v.rs)
 		v.EachValue(freeze)
 	}
 }
@@ -180,10 +178,7 @@ func (v *structVal) FrozenCopy() dgo.Value {
 		return v
 	}
 
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
+	rs := detachedStruct(v.rs)
 	for i, n := 0, rs.NumField(); i < n; i++ {
 		ef := rs.Field(i)
 		ev := ValueFromReflected(ef)
@@ -209,6 +204,66 @@ func (v *structVal) ThawedCopy() dgo.Value {
 	return &structVal{rs: rs, frozen: false}
 }
 
+// detachedStruct returns an addressable by-value copy of the given struct that doesn't share slices, maps, or pointers
+// to something other than structs with the original.
+func detachedStruct(sv reflect.Value) reflect.Value {
+	rs := reflect.New(sv.Type()).Elem() // create and dereference pointer to a zero value
+	rs.Set(sv)                          // copy sv to the zero value
+	for i, n := 0, rs.NumField(); i < n; i++ {
+		if ef := rs.Field(i); ef.CanSet() {
+			ef.Set(detached(ef))
+		}
+	}
+	return rs
+}
+
+// detached returns a copy of everything in the given value that can be modified without using a dgo.Value. Values found
+// in slices and maps are frozen, just like they are when the slice or map is converted into a dgo.Value.
+func detached(rv reflect.Value) reflect.Value {
+	switch rv.Kind() {
+	case reflect.Slice:
+		if !rv.IsNil() {
+			n := rv.Len()
+			c := reflect.MakeSlice(rv.Type(), n, n)
+			for i := 0; i < n; i++ {
+				c.Index(i).Set(detachedElement(rv.Index(i)))
+			}
+			return c
+		}
+	case reflect.Map:
+		if !rv.IsNil() {
+			c := reflect.MakeMapWithSize(rv.Type(), rv.Len())
+			for _, k := range rv.MapKeys() {
+				c.SetMapIndex(k, detachedElement(rv.MapIndex(k)))
+			}
+			return c
+		}
+	case reflect.Interface:
+		if !rv.IsNil() {
+			if _, ok := rv.Interface().(dgo.Value); !ok {
+				return detached(rv.Elem())
+			}
+		}
+	case reflect.Ptr:
+		if _, ok := rv.Interface().(dgo.Value); !(ok || rv.IsNil() || rv.Elem().Kind() == reflect.Struct) {
+			c := reflect.New(rv.Type().Elem())
+			c.Elem().Set(detached(rv.Elem()))
+			return c
+		}
+	}
+	return rv
+}
+
+func detachedElement(rv reflect.Value) reflect.Value {
+	if v, ok := rv.Interface().(dgo.Value); ok {
+		if c := reflect.ValueOf(frozenUnlessNative(v)); c.Type().AssignableTo(rv.Type()) {
+			return c
+		}
+		return rv
+	}
+	return detached(rv)
+}
+
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 	rv := v.rs
 	rt := rv.Type()
@@ -293,18 +348,16 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	rs := v.rs
+	if v.frozen {
+		// Don't expose pointer to frozen struct, nor the slices and maps that it contains
+		rs = detachedStruct(rs)
+	}
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(rs.Addr())
 	} else {
 		// copy struct by value
-		value.Set(v.rs)
+		value.Set(rs)
 	}
 }
 
-- 
2.43.0


From 0796b3435483ee1b405dab42d8df940cf3974e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 45/52] fix: the string form of a time in a zone with seconds
 in its offset denotes the same time

---
 internal/time.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/time.go b/internal/time.go
index 6176d89..2fc4adc 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -176,7 +176,11 @@ func (v *timeVal) ReflectTo(value reflect.Value) {
 }
 
 func (v *timeVal) String() string {
-	return (*time.Time)(v).Format(time.RFC3339Nano)
+	t := v.GoTime()
+	if _, offset := t.Zone(); offset%60 != 0 {
+		t = t.UTC() // the format has no seconds in the offset
+	}
+	return t.Format(time.RFC3339Nano)
 }
 
 func (v *timeVal) Type() dgo.Type {
-- 
2.43.0


From ef4db0778ff5d2851b9d6e1b65903fb2a39c4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 46/52] fix: the type of nil is an exact type, tuples, arrays,
 and maps of it can be created

---
 internal/nil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..6e51a74 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,10 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From fb0d208e5aca43d144ea93e62d7fcaf11990d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 47/52] fix: the element type of an array and the value type of
 a map can be a negation or a case insensitive string

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3178a92..2a86515 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -530,7 +530,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -718,7 +718,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 450f5db65fbc88447bd7af8ed9a5f737f4eabd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 48/52] fix: parsing a float range without upper bound does not
 skip the token that follows it

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2a86515..110b8bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -665,7 +665,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From bca7df2f78ae0cbd4ca9a4b0b7077a76d55bc175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 49/52] fix: the string form of a function type in an
 expression, or with a ternary result, denotes the same type

---
 stringer/typestring.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..19f8622 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -225,17 +225,27 @@ func (sb *typeBuilder) meta(typ dgo.Type, prio int) {
 
 func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	ft := typ.(dgo.FunctionType)
+	if prio >= orPrio {
+		util.WriteByte(sb, '(')
+	}
 	util.WriteString(sb, `func`)
 	sb.writeTupleArgs(ft.In(), '(', ')')
 	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
+		ternary := false
 		if out.Len() == 1 && !out.Variadic() {
-			sb.buildTypeString(out.Element(0), prio)
+			_, ternary = out.Element(0).(dgo.TernaryType)
+		}
+		if out.Len() == 1 && !out.Variadic() && !ternary {
+			sb.buildTypeString(out.Element(0), commaPrio)
 		} else {
 			sb.writeTupleArgs(ft.Out(), '(', ')')
 		}
 	}
+	if prio >= orPrio {
+		util.WriteByte(sb, ')')
+	}
 }
 
 func (sb *typeBuilder) errorExact(typ dgo.Type, _ int) {
-- 
2.43.0


From 0444178a50adbc2c1bc0f5069293fe0439368f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 50/52] fix: the negation of a negation can be parsed

---
 parser/parser.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 110b8bd..80ac777 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -484,12 +484,13 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
-	ciString := false
 	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
+		p.unary(p.NextToken())
+		p.Append(internal.NotType(p.PopLastType()))
+		return
 	}
+
+	ciString := false
 	if t.Type == '~' {
 		ciString = true
 		t = p.NextToken()
@@ -504,10 +505,6 @@ func (p *parser) unary(t *Token) {
 			panic(badSyntax(t, exStringLiteral))
 		}
 	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
-	}
 }
 
 func (p *parser) mapExpression() dgo.Value {
-- 
2.43.0


From ed0d674f4e677314fd4cecba3f0947cd8daffdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 51/52] fix: let a parameterized named type keep a frozen copy
 of its parameters

---
 internal/named.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 08a722a..cb70c57 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -91,9 +91,9 @@ func NamedType(name string) dgo.NamedType {
 	return nil
 }
 
-// ParameterizedType returns the named type amended with the given parameters.
+// ParameterizedType returns the named type amended with a frozen copy of the given parameters.
 func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
-	return &parameterized{named, params}
+	return &parameterized{named, params.FrozenCopy().(dgo.Array)}
 }
 
 // NamedTypeFromReflected returns the named type for the reflected implementation type from the global type
-- 
2.43.0


From 82b39584714fac345fe4478a75de1398b99dd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 52/52] fix: let the default AllOf, AnyOf and OneOf types be
 frozen

---
 internal/ternary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 0739d16..bf1a968 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -17,13 +17,13 @@ type (
 )
 
 // DefaultAllOfType is the unconstrained AllOf type
-var DefaultAllOfType = &allOfType{}
+var DefaultAllOfType = &allOfType{frozen: true}
 
 // DefaultAnyOfType is the unconstrained AnyOf type
-var DefaultAnyOfType = &anyOfType{}
+var DefaultAnyOfType = &anyOfType{frozen: true}
 
 // DefaultOneOfType is the unconstrained OneOf type
-var DefaultOneOfType = &oneOfType{}
+var DefaultOneOfType = &oneOfType{frozen: true}
 
 // AllOfType returns a type that represents all values that matches all of the included types
 func AllOfType(types []interface{}) dgo.Type {
-- 
2.43.0

