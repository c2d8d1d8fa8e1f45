#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the statements stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))

p('C01', 'Frozen values never change',
  'Once a value reports that it is frozen, nothing anybody does through the library changes what can be observed of it: its elements, entries, order, length, lookups, hash code, equality and string form stay what they were. '
  'Calling a mutating method on it panics, and working with anything obtained from it (elements, entries, slices, copies, thawed copies, derived collections, Go slices, bytes or struct pointers that the library hands out) leaves it untouched. (An entry obtained from a mutable map is a view of that map and follows it.) '
  'Arrays derived from a frozen array are themselves frozen, except for an explicit mutable or thawed copy.',
  ['histories', 'schedules'], 'every sequence, by any number of goroutines, of operations of arrays, maps, entries, binaries, sensitives, struct maps and what is derived from them',
  'The tests check single calls on single receivers; aliasing between a frozen value and something derived from it shows only after a chain of operations on both.',
  ['internal/array.go', 'internal/map.go', 'internal/struct.go', 'internal/binary.go', 'internal/sensitive.go', 'dgo/array.go', 'README.md'],
  [('frozen flag tested in each mutator', 'internal/array.go, internal/map.go, internal/struct.go, internal/binary.go'), ('copying of internal slices and nodes before they are handed out', 'util/slice.go, internal/map.go resize')],
  [('frozen', 'true when the value may no longer change', 'internal/array.go array.frozen, internal/map.go hashMap.frozen')],
  ['public methods of dgo.Array, dgo.Map, dgo.MapEntry, dgo.Binary, dgo.Sensitive, dgo.Struct'])

p('C02', 'Frozen values can be shared by goroutines without synchronisation',
  'Any number of goroutines may use the same frozen value at the same time, without synchronising, for anything that does not mutate it: read, iterate, search, compare, hash, print, convert, copy, derive new values, call functions, and use it as a key. '
  'There is no data race, no goroutine can make another fail or hang, and every call returns what it would have returned had the goroutine been alone.',
  ['schedules', 'histories'], 'every interleaving, at statement granularity, of every combination of non-mutating operations on shared frozen values of all kinds',
  'No test in the repository starts a goroutine; hidden mutation on a read path (a cache, a scratch buffer, lazy initialisation) is invisible to a single-threaded test.',
  ['internal/string.go', 'internal/array.go', 'internal/map.go', 'internal/value.go', 'internal/struct.go', 'internal/regexp.go', 'internal/time.go', 'internal/function.go', 'internal/sensitive.go', 'internal/binary.go', 'util/indenter.go', 'util/erpindenter.go'],
  [('immutability of frozen values', 'internal/*.go'), ('per call state instead of shared state', 'internal/compare.go seen slices, util/indenter.go')],
  [('cached string hash', 'hash code computed on first use', 'internal/string.go hstring.h')],
  ['return values of the public methods', 'the Go race detector under the simulated schedule'])

p('C03', 'Types can be shared by goroutines, also while types are parsed',
  'Types are immutable and may be used by any number of goroutines at the same time without synchronising: instance and assignability checks, equality, hash codes, printing, reflection, creating values from them and obtaining further types. '
  'Parsing type expressions or values, in either supported syntax, at the same time as such use, including expressions that refer to the predefined or registered aliases and to named types, neither races with it nor changes any result of it, and itself gives what it would give alone.',
  ['schedules', 'histories'], 'every interleaving of type operations, type construction and parsing over shared types, including the package level default types and the first use of lazily created ones',
  'The tests are single threaded and most run after package level state has been initialised; a type that is temporarily inconsistent while something else refers to it never shows.',
  ['internal/alias.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/ternary.go', 'internal/meta.go', 'internal/named.go', 'parser/parser.go', 'streamer/pcore/parser.go', 'stringer/typestring.go', 'typ/defaults.go'],
  [('types are never modified after construction', 'internal/*.go'), ('in place resolution of alias references', 'internal/alias.go aliasAdder.Replace and the Resolve methods')],
  [('default alias map', 'names of predefined and registered types', 'internal/alias.go'), ('struct map meta schema', 'parsed on first use', 'internal/mapstruct.go')],
  ['public methods of dgo.Type implementations', 'tf.ParseType, pcore.ParseType, tf.* constructors', 'the Go race detector under the simulated schedule'])

p('C04', 'Frozen means deeply frozen, and a failed freeze freezes nothing',
  'When a collection or other freezable value reports that it is frozen, everything reachable from it is immutable, however it was produced: by freezing, by a frozen copy, by a constructor that returns frozen values, or by deriving it from a frozen value (Go natives that the caller placed inside are the caller\'s own). '
  'Making a frozen copy never changes or freezes the original, and a mutable or thawed copy shares no mutable state with its original. '
  'A freeze or frozen copy that fails because something inside cannot be frozen leaves every collection involved mutable, usable and with its contents unchanged.',
  ['histories', 'fault_sequences'], 'all nestings of freezable values, all ways to derive one collection from another, and an unfreezable element at any position',
  'The tests freeze a few flat or doubly nested values and never look at the state left behind by a freeze that panics.',
  ['internal/array.go', 'internal/map.go', 'internal/struct.go', 'internal/sensitive.go', 'internal/native.go', 'internal/alias.go', 'dgo/array.go', 'README.md'],
  [('recursive Freeze and FrozenCopy', 'internal/array.go, internal/map.go, internal/struct.go, internal/sensitive.go')],
  [('frozen', 'the flag that Frozen() reports', 'internal/array.go, internal/map.go, internal/struct.go')],
  ['Freezable methods', 'vf constructors', 'With, WithAll, WithValues, Merge, Map, Select, Copy'])

p('C05', 'Mutable collections keep to their sequential meaning, failures included',
  'A mutable array behaves as a plain list and a mutable map as an insertion ordered dictionary, for every sequence of operations: contents, order, length, lookups, return values and derived collections agree with that model, and updates made to one collection never show in another. '
  'When an operation fails half way (a callback panics, an index is out of range, a key cannot be frozen, the collection is frozen) the collection remains structurally consistent and contains what it contained before, or, for an operation that adds or removes several elements, that with some prefix of the change applied.',
  ['histories', 'fault_sequences'], 'all operation sequences over arrays and maps of any size, with a failure injected into any callback or element',
  'The tests use short scripted sequences without failing callbacks; index structures that drift from the entry list, or a count that drifts from both, need a history.',
  ['internal/array.go', 'internal/map.go', 'dgo/array.go', 'dgo/map.go'],
  [('hash table threaded by a doubly linked entry list', 'internal/map.go hashMap, hashNode'), ('copying of slices', 'internal/array.go')],
  [('table, first, last, len', 'the redundant parts of a map that must agree', 'internal/map.go hashMap')],
  ['public methods of dgo.Array and dgo.Map'])

p('C06', 'Alias registration is atomic and loses nothing',
  'When goroutines add aliases to the default alias map, or to a map of their own with their own lock, concurrently, every alias whose registration returned normally is visible to all lookups that start later, together with all the others: no update is lost, and registrations of one call become visible together. '
  'A registration that fails (the callback panics, or a reference cannot be resolved) adds nothing, keeps no lock, and leaves the map usable, and a map obtained earlier never changes. '
  'Lookups, printing and parsing may run at the same time without data races.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of registrations, lookups, resets and parsing, with failures injected at any point of a registration',
  'The tests register from one goroutine; a lost update needs two registrations that overlap, and a leaked lock needs a failure inside one.',
  ['internal/alias.go', 'tf/type.go', 'parser/parser.go', 'streamer/pcore/parser.go', 'stringer/typestring.go'],
  [('copy on write and swap under a lock', 'internal/alias.go AddAliases, aliasMap.update')],
  [('default alias map', 'the current immutable snapshot', 'internal/alias.go defaultAliases'), ('lock', 'serialises updates', 'internal/alias.go defaultLock')],
  ['tf.AddDefaultAliases, tf.AddAliases, tf.DefaultAliases, tf.ParseType, AliasMap.GetType, AliasMap.GetName, AliasMap.Collect'])

p('C07', 'A failed parse has no lasting effect',
  'Parsing text that is cut off at any byte, has bytes damaged, or refers to types that do not exist either yields a value or fails with an error, after a bounded amount of work. '
  'A parse that fails registers no alias and changes no existing type or alias: everything that could be parsed, printed or checked before gives the same result afterwards.',
  ['crash_points', 'inputs', 'fault_sequences'], 'every truncation point and damaged byte of type expressions and values in both syntaxes, interleaved with successful parses and with use of the types involved',
  'The tests contain a fixed list of syntax errors and look only at the message, never at what the failed parse left behind.',
  ['parser/parser.go', 'parser/lexer.go', 'streamer/pcore/parser.go', 'streamer/pcore/lexer.go', 'internal/alias.go', 'util/reader.go'],
  [('aliases are collected in an adder and applied when the parse is done', 'internal/alias.go, parser/parser.go DoParse'), ('recover and rethrow as an error with position', 'parser/parser.go DoParse')],
  [], ['tf.Parse, tf.ParseType, tf.ParseFile, pcore.Parse, pcore.ParseType'])

p('C08', 'Concurrent loads agree on one cached value per name',
  'Loading is linearizable: goroutines that load the same name from the same loader, directly, through namespaces or through child loaders, all get the same value, and once a load has returned, found or not found, no later load of that name gives anything else or asks the finder again. '
  'A finder that supplies several entries at once makes all of them available, a value that is already loaded is never replaced, and concurrent loads fail only if a finder fails or supplies a value that conflicts with one that is loaded. '
  'A child loader consults its parent first.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of Get and Load calls on a tree of loaders, with finders that take any number of steps, call back into the loader, return nothing, several entries or conflicting entries',
  'The loader tests are single threaded, so the window between a lookup that misses and the insertion of the found value is never entered by a second caller.',
  ['loader/loader.go', 'dgo/loader.go'],
  [('read lock for lookup, write lock for insertion with a check for an existing entry', 'loader/loader.go Get, add')],
  [('entries', 'loaded values by name', 'loader/loader.go mapLoader.entries'), ('lock', 'guards entries and namespaces', 'loader/loader.go loader.lock')],
  ['Loader.Get, Loader.Load, finder invocations'])

p('C09', 'Concurrent namespace requests share one loader',
  'Goroutines that request the same namespace from the same loader, at any time and however far others have already used it, all obtain the one loader that was created for it first (through a child loader, an equal view of it), so that what one of them loads through it is cached for all. '
  'A request fails only if the creator fails or supplies a different definition for an existing namespace, and comparing, hashing or printing a loader while others use it is safe.',
  ['schedules', 'histories'], 'every interleaving of Namespace, Load, Equals, HashCode and String calls over nested namespaces with creators that take any number of steps and may call back into the loader',
  'A second creator that finishes after the first namespace has been put to use is an interleaving that no single threaded test reaches.',
  ['loader/loader.go'],
  [('check of existing namespace under the write lock', 'loader/loader.go loader.Namespace')],
  [('namespaces', 'created namespaces by name', 'loader/loader.go loader.namespaces')],
  ['Loader.Namespace, Loader.Load, Loader.Equals, Loader.HashCode, Loader.String'])

p('C10', 'A failing finder or namespace creator does not damage the loader',
  'When a finder or namespace creator panics, a creator returns nothing, or a finder returns entries that lack the requested name, or returns entries that conflict with loaded ones, the failure reaches only the callers of that request. '
  'No lock is kept, nothing is cached for the failed request, other goroutines and later requests proceed, a retry that succeeds is served, and everything that was loaded before is still there.',
  ['fault_sequences', 'schedules', 'histories'], 'every point at which a finder or creator invoked by any of several goroutines can fail, in every interleaving, followed by retries',
  'The tests check that some of these failures panic, in one goroutine, and end there.',
  ['loader/loader.go'],
  [('callbacks are invoked outside of the lock; deferred unlock', 'loader/loader.go Get, add, Namespace')],
  [], ['Loader.Get, Loader.Load, Loader.Namespace after a failed call'])

p('C11', 'The named type registry has one winner per name',
  'When goroutines register a named type under the same name at the same time exactly one of them succeeds and all others fail, and from then on every lookup by name or by implementation type, and everything derived from values of that type, sees the winner. '
  'Registrations, removals and lookups of different names do not disturb each other, no lookup returns a type that was not registered when it ran, and the outcome never depends on the order in which the registry happens to be traversed.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of registration, removal and lookup, and every traversal order of the underlying concurrent map',
  'Registration is tested from one goroutine, and traversal order of a concurrent map varies between processes in a way no test controls.',
  ['internal/named.go', 'internal/value.go', 'tf/named.go', 'loader/loader.go'],
  [('sync.Map LoadOrStore and Range', 'internal/named.go')],
  [('namedTypes', 'global registry', 'internal/named.go')],
  ['tf.NewNamed, tf.Named, tf.NamedFromReflected, tf.RemoveNamed, loader types'])

p('C12', 'A failing writer is always reported when a value is written as JSON',
  'When a value is written as JSON to a writer that fails at any write, or accepts only part of one, the failure is reported to the caller, nothing more is written, and what was written is a prefix of the complete document. '
  'A call that returns normally has written the complete document, and a failure affects neither the value nor any other or later use of the same streamer, options or dialect. The write helpers of util report a failing writer too.',
  ['fault_sequences', 'crash_points', 'schedules'], 'a write error or short write at every write of every document, permanent or transient, also while other goroutines stream the same value',
  'The tests write to memory buffers that never fail.',
  ['streamer/json.go', 'streamer/streamer.go', 'util/write.go'],
  [('assertOk turns a write error into a panic', 'streamer/json.go'), ('write helpers that panic on error', 'util/write.go')],
  [], ['streamer.New(...).Stream(value, streamer.JSON(writer))', 'util.WriteString, util.WriteRune, util.Fprintf'])

p('C13', 'Incomplete or damaged JSON is never taken for a complete value',
  'Decoding a JSON document that has been cut off before its end reports an error, whatever the point at which it was cut, unless what remains is itself a complete document (a top level number with fewer digits). '
  'Decoding damaged bytes ends after a bounded amount of work with either a value or an error, and neither outcome affects values decoded earlier, later decoding, the alias maps or the registered types.',
  ['crash_points', 'inputs', 'fault_sequences'], 'every truncation point and every flipped, lost or duplicated byte range of stored documents in both dialects, between and concurrent with successful decodes',
  'The tests have a handful of hand written malformed documents.',
  ['streamer/json.go', 'streamer/decoder.go', 'streamer/basiccollector.go', 'streamer/dialect.go', 'streamer/pcore/pcoredialect.go'],
  [('unexpected end of input is an error', 'streamer/json.go nextToken'), ('checks of the reference and type keys', 'streamer/json.go decodeCollection, streamer/decoder.go decode')],
  [], ['streamer.UnmarshalJSON'])

p('C14', 'What is stored as JSON or streamed to a collector comes back equal',
  'A value made of data and rich data (nil, booleans, finite numbers, strings of valid UTF-8, arrays, maps with any keys other than those that the dialect reserves, binaries, times of the years 0 to 9999, sensitives, types that have a parsable string form, named types and loaders of values) that is written as JSON and read back in the same dialect, or streamed to a collector, gives an equal value with the same order of entries. '
  'This holds at every deduplication level, also when equal or identical parts occur many times, and also when streamers and dialects are shared by goroutines that write and read at the same time.',
  ['schedules', 'configurations', 'histories', 'inputs'], 'all sharing patterns inside the value, all deduplication levels and dialects, chained write and read generations, and all interleavings of users of one streamer',
  'The tests round trip hand picked values, seldom with references to anything but strings, from one goroutine.',
  ['streamer/streamer.go', 'streamer/json.go', 'streamer/decoder.go', 'streamer/basiccollector.go', 'streamer/datacollector.go', 'streamer/pcore/pcoredialect.go'],
  [('reference numbers counted identically by writer and reader', 'streamer/streamer.go context, streamer/basiccollector.go Values')],
  [('values, refIndex', 'what has been emitted and under which number', 'streamer/streamer.go context')],
  ['streamer.MarshalJSON, streamer.UnmarshalJSON, streamer.New(...).Stream with streamer.JSON, streamer.DataDecoder, streamer.NewCollector'])

p('C15', 'A binary read from a reader holds all of its bytes or none',
  'A binary created from a reader contains exactly the bytes that the reader delivered, whatever the sizes of the individual reads and whether the end of the stream comes with or after the last bytes, and is frozen. '
  'If the reader fails at any point the failure is reported and no binary is produced.',
  ['fault_sequences', 'crash_points'], 'every sequence of short reads, empty reads, data together with end of stream, and errors at any byte, for content of any length',
  'The tests read from a byte buffer and from one reader that fails at once.',
  ['internal/binary.go', 'vf/binary.go'],
  [('read to the end, error becomes a panic', 'internal/binary.go BinaryFromData')],
  [], ['vf.BinaryFromData'])

p('C16', 'Streamers survive failures and can be shared',
  'A streamer keeps no state between or across uses: any number of goroutines may stream through the same streamer to consumers of their own, and each consumer receives exactly the sequence of events that it would receive alone. '
  'When a consumer fails at any event, or an element cannot be streamed, that use of the streamer ends with that failure, no further event is delivered to the consumer, and neither the streamed value nor any other use is affected.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of concurrent uses of a streamer, with a failure of any consumer at any event',
  'The tests use each streamer once and with consumers that do not fail.',
  ['streamer/streamer.go', 'streamer/consumer.go', 'streamer/basiccollector.go', 'streamer/datacollector.go', 'streamer/decoder.go'],
  [('per call context', 'streamer/streamer.go Stream')],
  [], ['Streamer.Stream', 'Consumer events'])

p('C17', 'A callback that fails interrupts an operation cleanly',
  'When a function passed to an iterating, searching, mapping, sorting, reducing, validating or calling operation panics, the caller gets exactly that panic, the function is not called again, and each call made before was for the next element in order, once. '
  'The value operated on, and everything else, remains unchanged and fully usable, and the error catching helper returns errors (and messages given as strings) and lets everything else through.',
  ['fault_sequences', 'histories', 'schedules'], 'a panic with an error or other value in any invocation of any callback of any operation, also while other goroutines use the same value',
  'The tests pass callbacks that return.',
  ['internal/array.go', 'internal/map.go', 'internal/struct.go', 'internal/function.go', 'internal/mapstruct.go', 'internal/named.go', 'util/catch.go'],
  [('no recovery in the iterating operations', 'internal/array.go, internal/map.go, internal/struct.go'), ('recover of errors only', 'util/catch.go')],
  [], ['callback taking methods of dgo.Array, dgo.Map, dgo.Struct, dgo.StructMapType, dgo.Function, tf.NewNamed callbacks, util.Catch'])

p('C18', 'Results do not depend on the iteration order of Go maps',
  'Go iterates its maps in an order that varies from one iteration to the next; nothing that the library produces from the same input depends on it. '
  'A map created from a Go map with comparable keys always has its entries in the natural order of the keys, and its string form, hash code, type, JSON document and copies, and everything parsed or printed, are the same in every process and on every call.',
  ['configurations', 'inputs'], 'all iteration orders and hash seeds of the Go maps that are converted and of the Go maps that the library uses internally',
  'A test sees one order per run that it cannot choose, and with a few keys the order is right by chance often enough.',
  ['internal/map.go', 'internal/value.go', 'streamer/streamer.go', 'stringer/typestring.go', 'parser/parser.go', 'streamer/pcore/parser.go'],
  [('entries are sorted by key', 'internal/map.go FromReflectedMap')],
  [], ['vf.Map, vf.Value, vf.FromReflectedMap with Go maps; String, HashCode, MarshalJSON of the result'])

# properties that are pure functions of their input: listed, but not claimed (see MANIFEST not_applicable)
def n(id, title, statement, files, why='The tests sample a few inputs of an unbounded space.'):
    p(id, title, statement, ['inputs'], 'all values and types', why, files, [('implementation', files[0])])
n('N01', 'Assignability is sound with respect to instances', 'If a type is assignable to another, every instance of it is an instance of the other, and assignability is reflexive and transitive.', ['internal/type.go', 'internal/ternary.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go'])
n('N02', 'Printing a type and parsing the result gives an equal type', 'The string form of every type, in the native syntax, is parsed to an equal type.', ['stringer/typestring.go', 'parser/parser.go'])
n('N03', 'Equal values have equal hash codes', 'Equality is an equivalence relation, agrees in both directions and implies equal hash codes, over values of all kinds and nesting, including self referencing ones.', ['internal/compare.go', 'internal/array.go', 'internal/map.go'])
n('N04', 'Comparison is an ordering', 'Comparison of comparable values is antisymmetric and transitive, agrees with equality, and sorting is stable with respect to it.', ['internal/compare.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go'])
n('N05', 'Conversion to and from Go values is lossless', 'A Go value that is converted and reflected back into a variable of its type is deeply equal to the original, and values that do not fit are refused.', ['internal/value.go', 'internal/struct.go', 'vf/value.go'])
n('N06', 'Creating a value from a type yields an instance or an error', 'Creating a value from a type and an argument either fails or yields an instance of that type.', ['internal/value.go', 'internal/named.go', 'internal/integer.go'])
n('N07', 'Struct validation agrees with the instance check', 'Validating a map against a struct type reports no error exactly if the map is an instance of the type, and verbose validation gives the same verdict.', ['internal/mapstruct.go'])
n('N08', 'Every value is an instance of its own type and of its generic type', 'The exact type of a value has the value as its only instance up to equality, and the generic form of the type accepts it too.', ['internal/exact.go', 'typ/utils.go'])
n('N09', 'Function calls are checked against the declared types', 'Calling a function with arguments that are not instances of its parameter types fails, and with others passes them unchanged.', ['internal/function.go'])
n('N10', 'Logical types follow boolean algebra', 'A value is an instance of a negation, union, intersection or exclusive union exactly if its operands say so.', ['internal/ternary.go', 'internal/not.go'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
