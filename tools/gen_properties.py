#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text stays readable)."""
import json,os
A="stabby-abi/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m.strip().rstrip("."),where=files[0]) for m in mech.split(";")],state=[dict(name=n,meaning=m) for n,m in state],observe_at=list(observe),hook_needed=(hook or None))))
p("C01","Growable arrays and boxed slices behave like the standard library's",
 "After any sequence of operations (push, pop, insertions by extending or copying, removal, swap-removal, truncation, draining from either end, iteration, conversion to and from boxed or shared slices, comparison, hashing, formatting, byte-stream writing), a stabby vector, boxed slice or single-or-many vector holds exactly the elements, in exactly the order, that the standard library's vector would hold after the same operations, and every value returned along the way is the same. Lengths never exceed capacities, reserving capacity makes room for that many elements and changes no content, and an out-of-range request is refused (error, none or panic) exactly where it is documented to be.",
 ["histories","inputs"],"all operation sequences, all element types (zero-sized, one byte, word, over-aligned, destructor-bearing), all allocators, all lengths and ranges",
 "The vector tests push a random number of words and read them back, and drain is never called with a valid range; no test runs an operation sequence against a reference.",
 [A+"alloc/vec.rs",A+"alloc/single_or_vec.rs",A+"alloc/boxed.rs",A+"alloc/sync.rs"],
 "Raw three-pointer representation (start, end, capacity) with pointer-difference lengths that special-case zero-sized elements; drain shifts the tail in its destructor; boxed slices stash the capacity in the allocation prefix.",
 [("start/end/capacity pointers","length and capacity are pointer differences")],["return values, as_slice(), len(), capacity(), iterators"])
p("C02","Every owned value is destroyed exactly once",
 "Every value handed to a stabby container, smart pointer, sum type, trait object or iterator is destroyed exactly once, or handed back to the caller exactly once: never twice, never used after its destruction, and never leaked once the last owner is gone. This stays true when iterators and drains are abandoned half-way, when ownership moves between container kinds, and no value is ever destroyed twice when an element's own destructor, clone or an extending iterator panics.",
 ["histories","fault_sequences"],"all operation sequences over all owning types, with a panic injected at any user callback (destructor, clone, iterator step, comparison, closure)",
 "Tests mostly use integers, whose double destruction or leak is invisible; no test counts destructions, abandons an iterator, or panics in a callback.",
 [A+"alloc/vec.rs",A+"alloc/boxed.rs",A+"alloc/sync.rs",A+"alloc/single_or_vec.rs",A+"alloc/collections/arc_btree.rs",A+"result.rs",A+"option.rs",A+"fatptr.rs",A+"closure.rs"],
 "Manual ptr::read/ptr::write/mem::forget ownership transfers in every container; drop guards on the stack for matching on sum types.",
 [],["destructor calls of uniquely identified values","live bytes of the global allocator"])
p("C03","Only allocated memory is touched; the allocator contract is honoured",
 "Whatever operations run, on any allocator and any element size or alignment, the library only reads and writes memory inside blocks it obtained (reading nothing it has not initialised), places every element at an address aligned for its type, and returns every block exactly once to the allocator instance that produced it. Reallocation requests describe the existing block truthfully, and the bundled allocators honour size, alignment and content preservation for every legal layout.",
 ["histories","inputs","configurations"],"all operation sequences, all element sizes and alignments (including zero-sized and over-aligned), bundled and user-written allocators",
 "Tests only use word-aligned elements with the default allocator and observe no out-of-bounds access that does not crash; no user-written or libc allocator is exercised by the stable tests.",
 [A+"alloc/mod.rs",A+"alloc/allocators/rust_alloc.rs",A+"alloc/allocators/libc_alloc.rs",A+"alloc/vec.rs",A+"alloc/boxed.rs",A+"alloc/sync.rs"],
 "Every allocation is prefixed by counters, the capacity and the allocator itself; the data pointer is found by aligning past the prefix and the prefix by stepping back from the data.",
 [("allocation prefix","strong/weak counts, capacity, origin pointer, allocator")],["monitoring allocator (redzones, ledger)","AddressSanitizer, Miri"])
p("C04","Allocation failure is reported and loses nothing",
 "When the allocator refuses a request, every fallible operation (try_push, try_reserve, try_new, try_clone, try_copy_extend and their kin) reports the failure, gives back the value it was offered, and leaves the container exactly as it was: same contents, still usable, nothing leaked or destroyed twice. Infallible operations panic rather than continue with a null or undersized block, and sizes that cannot be represented are treated as failed allocations.",
 ["fault_sequences","histories"],"a refusal injected at any single allocation or reallocation (or all from some point on) of any operation sequence, and any requested size up to the maximum of the address space",
 "No test ever makes an allocation fail, so none of the error paths has ever run.",
 [A+"alloc/vec.rs",A+"alloc/boxed.rs",A+"alloc/sync.rs",A+"alloc/single_or_vec.rs",A+"alloc/string.rs",A+"alloc/allocators/rust_alloc.rs",A+"alloc/allocators/libc_alloc.rs"],
 "Null-pointer returns from the allocator interface are turned into Err/panic; reallocation must not invalidate the old block on failure.",
 [],["results of try_ operations under a fault-injecting allocator"])
p("C05","Shared pointers keep their value alive exactly as long as it is owned",
 "Under every interleaving of clones, drops, downgrades, upgrades and unique-access requests by any number of threads, a shared pointer's value (single value, slice or string) stays intact while at least one strong owner exists, is destroyed once when the last one goes, and its memory is released once after the last weak owner goes; an upgrade succeeds if and only if the value is still alive, and reported owner counts at rest equal the number of owners. Mutable access is granted only to a sole owner, copy-on-write never alters what other owners see, and everything done to the value by an owner that has gone happens before its destruction.",
 ["schedules","histories"],"all thread interleavings and weak-memory behaviours, all operation histories, all value sizes",
 "The tests use shared pointers from a single thread only; no schedule and no weak-memory behaviour is ever explored.",
 [A+"alloc/sync.rs",A+"fatptr.rs"],
 "Atomic strong and weak counters in the allocation prefix; the weak count's top bit is used as a transient lock during upgrade.",
 [("strong","number of strong owners"),("weak","number of weak owners plus one while strong owners exist")],["strong_count/weak_count, get_mut/make_mut/upgrade results, payload destructor"])
p("C06","An atomic shared cell is a linearizable register that owns its content",
 "Concurrent loads, stores and compare-and-exchanges on an atomic shared-pointer cell are linearizable: each takes effect once, a load returns the most recently installed value, and a compare-and-exchange succeeds exactly when the cell held the expected pointer, returning the value it replaced, and otherwise returns what the cell held. A value is never destroyed or altered while the cell or any reader owns it, dropping the cell releases what it holds, and values offered to or returned from compare-and-exchange are released exactly once by their last owner.",
 ["schedules","histories"],"all interleavings of operations by any number of threads, on cells whose values have at least one other owner while they may be concurrently replaced, all histories",
 "The cell has no test of its own; it is only used inside the vtable registry.",
 [A+"alloc/sync.rs"],
 "A raw pointer in an AtomicPtr that owns one strong reference; loads increment the count after reading the pointer.",
 [("ptr","raw pointer owning one strong reference, or null")],["results of load/store/compare_exchange and destructor of payloads"])
p("C07","Compact sum types hold exactly what was put in",
 "For every pair of payload types and every payload value, a stabby Result or Option built from a standard one (or by its constructors) reports the same variant, gives back the same value unchanged through every accessor, by reference, by mutable reference and by value, and behaves under mapping, chaining, unwrapping, replacing, cloning, comparison, hashing and formatting as the standard type does. Writing through a mutable borrow of one variant never turns it into another.",
 ["inputs","programs","histories"],"all payload type pairs (all niche, padding, alignment and size relations between the two sides) and all payload values, nested arbitrarily",
 "Tests cover a handful of type pairs with a few values each; which byte or bit distinguishes the variants is computed per type pair, so each pair is its own algorithm.",
 [A+"result.rs",A+"option.rs",A+"enums/mod.rs",A+"enums/err_non_empty.rs",A+"enums/err_size_0.rs"],
 "The variant is encoded in forbidden values, unused bits or an appended tag chosen by type-level computation, after possibly shifting the smaller payload.",
 [("determinant","encoded variant")],["accessors, match_ functions, conversions to std types"])
p("C08","Annotated types keep the meaning of their declaration",
 "A struct, union or enum declared with the stabby annotation (sum types in compact or explicit-tag representation, with or without data, generics, explicit discriminants) can be constructed, matched by reference, mutable reference or value, cloned, mutated and dropped as the plain declaration would be, for every variant and payload. Its fields hold the values written to them, whatever else (padding-based variant encoding, optimised layout assertion) the annotation adds, and wrapping it in further stabby sum types changes none of this.",
 ["programs","inputs"],"all declarations accepted by the annotation, all variants, all payload values, arbitrary nesting in other sum types",
 "Each declaration expands to different code; tests check one enum of four variants with fixed values.",
 ["stabby-macros/src/enums.rs","stabby-macros/src/structs.rs","stabby-macros/src/unions.rs",A+"enums/mod.rs",A+"result.rs",A+"lib.rs"],
 "Macro-generated nesting of binary sum types, generated accessors and generated layout descriptions.",
 [],["generated constructors and match_ functions"])
p("C09","Reported layouts are true",
 "For every type the library declares stable, the size and alignment it computes equal the real ones; the values it declares forbidden are never the representation of a valid value and the bits it declares unused are never significant: overwriting them changes nothing about the value. Where it declares that one compact optional adds no size, the optional really has the size of its payload, and its empty state is distinguishable from every payload.",
 ["programs","inputs"],"all stable types (primitives, pointers, tuples, arrays, annotated structs and enums, sum types, containers), all valid values",
 "Sizes of a fixed list of types are asserted; no test perturbs the bits declared unused, or checks forbidden values against actual values.",
 [A+"istable.rs",A+"stable_impls/mod.rs",A+"typenum2/mod.rs",A+"typenum2/unsigned.rs",A+"enums/mod.rs",A+"result.rs","stabby-macros/src/structs.rs","stabby-macros/src/tyops.rs"],
 "Type-level arithmetic computing size, alignment, forbidden values and unused-bit masks of products and unions.",
 [],["layout reports of each type; behaviour of values after declared-unused bits are overwritten"])
p("C10","Trait objects dispatch to the right code and keep ownership",
 "Calling any method through a stabby trait object (owned, shared, borrowed, mutable, for any number of combined traits, with arguments, generics and results of any stable type) runs the implementation of the concrete type it was made from, on that very value, exactly once, in whichever order traits were combined and however many objects and types are alive. Upcasting keeps this, downcasting succeeds exactly for the original concrete type and never yields another, cloning, weak references and dropping act on the underlying owner as they would on the plain pointer.",
 ["programs","histories","schedules"],"all combinations of traits, pointer kinds, concrete types and call sequences, from any thread",
 "Tests call a few methods on two or three types with one fixed combination and order of traits.",
 [A+"vtable/mod.rs",A+"fatptr.rs","stabby-macros/src/traits.rs"],
 "Generated method tables nested per trait combination, located through a global registry; type-erased data pointers with a recorded destructor and layout report.",
 [("vtable","table of function pointers")],["method results, downcast results, destructor runs"])
p("C11","The method-table registry is unique, complete and race-free",
 "However many threads request method tables at the same time, each request returns a table whose content is the requested one, stays valid and unchanged for the life of the program, and is the same table for every later or concurrent request with equal content. Concurrent insertion into the registry or the lock-free set behind it loses no entry and is free of data races.",
 ["schedules","histories"],"all interleavings of table requests and insertions by any number of threads, all table contents and sizes",
 "One test fills the registry from a few threads under the native scheduler without checking uniqueness under contention or memory ordering.",
 [A+"vtable/mod.rs",A+"alloc/collections/arc_btree.rs",A+"alloc/sync.rs"],
 "A copy-on-write tree (or growing vector) of table references behind an atomic shared cell, updated by compare-and-exchange loops.",
 [("VTABLES","global registry")],["pointers returned by the registry and their pointees; set membership"])
p("C12","Futures and wakers cross the boundary intact",
 "A future exposed through a stabby trait object produces exactly the output and the poll sequence of the wrapped future, wakes the task whose context it was last polled with, and releases everything it captured exactly once whether it completes or is abandoned at any await point. Every waker clone delivered to a future stays usable from any thread for as long as it is held, wakes its task each time it is used, and releases the original waker exactly once per clone.",
 ["schedules","histories"],"all poll/wake/drop histories, wakers cloned, woken by value or reference and dropped in any order from any thread",
 "Tests drive one async function to completion on one executor; no test drops a pending future, counts wakes or moves wakers between threads.",
 [A+"future.rs",A+"vtable/mod.rs"],
 "Wakers are wrapped in an allocated shared pointer and a function table, or passed through when layouts agree.",
 [("StableWaker","waker handle and its function table")],["poll results, wake counts, clone/drop counts of the original waker"])
p("C13","Shared ordered sets and maps behave like ordered sets, and clones are snapshots",
 "After any sequence of insertions and look-ups with any key order, a shared ordered set or map contains exactly the keys (and last values) a standard ordered set or map would, reports the replaced entry on insertion, and renders its entries in increasing order, with the right length. A clone never observes insertions made after it was taken, through any chain of clones, and dropping any subset of the clones affects none of the others.",
 ["histories","inputs"],"all insertion/look-up/clone/drop histories, all key sequences, all replacement policies, all sizes crossing several levels of node splits",
 "One test inserts random bytes in one set and compares membership; snapshots, maps and replaced values are not compared.",
 [A+"alloc/collections/arc_btree.rs"],
 "Nodes with up to five entries shared by reference counting and copied on write; splits propagate upward.",
 [("node","up to 2*capacity+1 entries and as many children")],["insert/get/iter/len results of all live clones"])
p("C14","Strings are always valid text and equal to the standard string's",
 "After any sequence of construction, appending, formatting, conversion (to and from standard, boxed and shared strings) and borrowing, a stabby string is valid UTF-8 and equal, byte for byte, to what the same operations give on the standard library's string; comparison, ordering, hashing and formatting agree with it. Serialising any stabby text, byte slice, vector or sum type produces the same external form as its standard counterpart, and reading that back yields an equal value wherever the standard counterpart can be read back.",
 ["histories","inputs"],"all operation sequences and all texts (multi-byte, empty, long), all conversions",
 "Only a formatting call and a conversion on fixed ASCII text are tested.",
 [A+"alloc/string.rs",A+"str.rs",A+"slice.rs",A+"stable_impls/mod.rs",A+"alloc/boxed.rs",A+"alloc/sync.rs"],
 "A byte vector whose content is only ever changed by appending valid text.",
 [],["as_str(), conversions, fmt, serde"])
p("C15","Restricted numbers accept exactly their range and compute exactly",
 "For every width and bound, constructing a restricted integer (non-maximum, non-specific-value or narrow-width signed or unsigned) from a primitive succeeds exactly when the value is in the type's range, and converting back gives the same number. Constants, comparison, ordering, hashing, formatting, parsing-like conversions and arithmetic or bitwise operators agree with the primitive of the same value; a result outside of the type's range overflows as it would on a primitive (panic or wrap-around), and no operation ever stores a representation that is out of the type's range.",
 ["inputs"],"all widths and all primitive values",
 "Only a few exhaustive tests on sub-byte unsigned widths exist; signed and wide types are not compared with their mathematical values.",
 [A+"num.rs",A+"stable_impls/mod.rs"],
 "Niche-carrying enumerations transmuted from primitives; masks and shifts per width.",
 [],["conversions, MIN/MAX, operators, comparison"])
p("C16","Type descriptions tell compatible types from incompatible ones",
 "Two type descriptions are declared compatible only if they describe the same kind (with its representation, tag and requested alignment), name, module, version and, in order and number, fields or variants (with their explicit discriminants) of compatible types, and any description is compatible with an identically written one from another compilation. Equal types always get the same identifier and description, types that differ in any of those respects get different descriptions, and rendering a description mentions every field and variant once, in an order fixed by the declaration.",
 ["programs","inputs"],"all pairs of stable types, including structural near-misses (missing, extra, renamed, reordered or retyped fields)",
 "Tests print descriptions but no test compares descriptions of near-miss types.",
 [A+"report.rs","stabby-macros/src/structs.rs","stabby-macros/src/enums.rs","stabby-macros/src/unions.rs",A+"stable_impls/mod.rs"],
 "Statically built linked lists of fields compared recursively; a hash of the description is the identifier.",
 [("TypeReport","name, module, version, kind, fields")],["is_compatible, equality, Display, IDs"])
p("C17","Dynamic imports hand out a symbol only when its type matches",
 "Loading a symbol from a shared library through the checked interface succeeds exactly when the library exports it with a description equal to the one requested, and through the canary interface exactly when the library carries every required compiler and optimisation canary; the symbol obtained is callable and behaves like the exported function. A mismatch or absence yields an error that describes what was found, and checked static imports give the same verdict to every thread at every access.",
 ["configurations","programs","schedules"],"all exported and requested signature pairs, all libraries with or without descriptions or canaries, any number of threads performing the first access",
 "The loading path is only exercised by an example program; no test loads a library with a mismatching symbol.",
 ["stabby/src/libloading.rs",A+"checked_import.rs","stabby-macros/src/functions.rs",A+"report.rs"],
 "The export macro emits a report function beside each symbol; the loader resolves and compares it first.",
 [("checked","whether a static import has been verified")],["results of get_stabbied/get_canaried on a purpose-built shared library; checked imports"])
p("C18","Times and durations convert and compute like the standard ones",
 "Durations, instants and system times built from standard ones (system times from the epoch on; earlier ones are clamped to it) convert back to the same value, and their construction from seconds, milli- and microseconds or floating point, addition, comparison, ordering, hashing and accessors agree with the standard ones, overflow being refused rather than wrapped. An atomic duration or instant gives back what was put in, rounded towards zero to its microsecond resolution, for every value up to its documented maximum and either sign; under concurrent loads, stores and exchanges it behaves as a single register that neither tears nor loses a value, and the requested memory orderings publish what was written before.",
 ["inputs","schedules"],"all representable durations and instants, signs and extreme values included, all interleavings of atomic loads, stores and exchanges",
 "No test exercises the time types.",
 ["stabby/src/time.rs"],
 "A second and nanosecond pair, or a fixed-point signed 64-bit second count.",
 [],["conversions, operators, atomic operations"])
p("C19","Borrowed views, callbacks and converters show exactly the original",
 "A borrowed slice, mutable slice or text view exposes exactly the elements of the data it was made from, for every length including empty, in both directions of conversion, and writes through a mutable view reach the original. Wrapped closures receive exactly the arguments given and return exactly the result of the wrapped closure, wrapped iterators yield the same items in the same order, tuples and borrowed or mutable conversion guards show (and write back) the converted value.",
 ["inputs","histories"],"all lengths, element types, closures of every supported arity, iterators and guard lifetimes",
 "Views, closures and conversion guards have no dedicated tests.",
 [A+"slice.rs",A+"str.rs",A+"closure.rs",A+"iter.rs",A+"as_mut.rs","stabby-macros/src/gen_closures.rs"],
 "Pointer-and-length pairs; generated traits per arity; bitwise reinterpretation guarded by destructors.",
 [],["contents observed through the view, closure results"])
p("C20","Thread-safety markers are never stronger than the contents allow",
 "A stabby type is transferable to or shareable with another thread only if the values it owns or refers to are. In particular a trait object is transferable or shareable only if that was requested when it was made.",
 ["programs"],"all types and trait combinations",
 "Absence of an implementation is a compile-time fact that no test observes.",
 [A+"vtable/mod.rs",A+"fatptr.rs",A+"alloc/sync.rs",A+"checked_import.rs",A+"slice.rs"],
 "Unsafe marker implementations with hand-written bounds.",[],["which programs type-check"])
p("C21","References stay valid and exclusive for as long as their types say",
 "Every reference, guard, iterator item, view or trait object that a stabby value hands out stays usable for as long as its type allows: together with the others handed out, after the iterator or closure it came from is gone, and, if exclusive, overlapping none. A value with interior mutability keeps it, and one that refers to itself may go on doing so, wherever stabby puts it: in a Result, Option or annotated enum, a collection, or behind a trait object. What is written through a reference is what the owner then holds, however the program was optimised.",
 ["histories"],"any interleaving of uses of references that the types let a program hold at the same time, any content",
 "Violations are undefined behaviour that an unoptimised test does not show: they appear when the compiler relies on what it was told.",
 [A+"result.rs",A+"fatptr.rs",A+"alloc/single_or_vec.rs",A+"alloc/vec.rs",A+"slice.rs",A+"future.rs","stabby-macros/src/traits.rs"],
 "Contents erased to `()` or to raw storage; guards that restore a determinant; iterators that hand out several exclusive references.",
 [],["contents read through the reference and through its owner"])
p("C22","Compile-time layout arithmetic, masks and plain-data claims are exact",
 "Every operation on type-level numbers, bits, masks of unused bits and sets of forbidden values (including expressions of `tyeval!`, exported names, alignments, paddings and arrays) gives the mathematically right result, in the form that bears its name. Taking bits from a mask yields each of its bits once; a forbidden value selected within a mask lies within its free bytes and is forbidden, and one is found whenever one fits. `is_invalid` says so of memory that holds a forbidden value, and of no other. A type is said to hold a pointer, and denied to be plain data, exactly if it or a part of it is or holds one.",
 ["inputs","programs"],"all numbers up to 127 bits, all masks and forbidden sets, all memory contents, all compositions of types",
 "A few dozen small numbers are tested; masks, forbidden values and plain-data claims only through the layouts of a few types.",
 [A+"typenum2/unsigned.rs",A+"istable.rs","stabby-macros/src/tyops.rs",A+"stable_impls/mod.rs",A+"lib.rs"],
 "Arithmetic by recursive types; layouts, sums and safety of reading foreign bytes rest on it.",
 [],["associated constants and types of the numbers, masks and layouts; is_invalid"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: 
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
