#!/usr/bin/env python3
"""Writes checks.json: per property the suite, the budgets, and the texts of manifest and evidence."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = dict(asan=6000, miri=20000, tasan=120000, tmiri=240000)
C = {}
M = dict(c01="vec", c02="vec btree ptr sum", c03="vec btree ptr rawalloc", c04="vec btree ptr string", c07="sum", c08="sum", c09="layout", c10="dyn",
         c13="btree", c14="string", c17="plug")
def add(i, bin, rule, technique, note, features=(), **kw):
    d = dict(bin=bin, features=list(features) + ["m_" + m for m in M.get(bin, "").split()], **T)
    d.update(kw)
    d.update(rule=rule, technique=technique, note=note)
    C[i] = {k: v for k, v in d.items() if v is not None}
add("C01", "c01",
    "Each case builds a stabby vector, boxed slice, shared slice or single-or-many vector of one element and allocator type and applies up to 40 random operations, comparing every result and the whole content with a std vector of keys after each; a case is non-trivial when it applied at least one operation.",
    "differential monitor against std models over random histories, under AddressSanitizer and Miri",
    "Random operation histories on the real containers; every result and the whole content compared with std after each operation; memory errors caught by AddressSanitizer (stable) and Miri (nightly).")
add("C02", "c02",
    "Each case is a random history over containers, smart pointers, sum types or ordered sets of uniquely numbered values, part of them with destructors, clones or comparisons that panic at a random call; a case is non-trivial when it applied at least one operation.",
    "ownership ledger (each value's construction and destruction recorded) over random histories with injected panics, under AddressSanitizer and Miri",
    "Every value carries an identity; a ledger sees each destruction and flags double drops, reads of dead values and, except after an injected panic, values never destroyed.")
add("C03", "c03",
    "Each case is a random history of raw allocator requests, of the allocation helpers, or of containers over one of five allocators and element sizes 0-112 and alignments 1-64 (raw: up to 4096), every block bracketed by red zones; a case is non-trivial when it made at least one request.",
    "auditing allocators (red zones, layout and owner checks) and byte-pattern monitors over random histories, under AddressSanitizer and Miri",
    "Auditing allocators check each request, release and reallocation; patterns written to blocks are verified; the global allocator's ledger must return to its start; AddressSanitizer and Miri watch every access.")
add("C04", "c04",
    "Each case is a random history during which the allocator (or the global allocator under the bundled one) refuses requests at random points, or asks for sizes that cannot be represented; contents, given-back values, owner ledger and books are compared after each refusal; a case is non-trivial when it applied at least one operation.",
    "allocation fault injection with std-model, ownership and allocator monitors, under AddressSanitizer and Miri",
    "Allocation faults injected at random requests of random histories; state compared with the model after each.")
add("C13", "c13",
    "Each case is a random history of insertions, look-ups, clones and drops over shared ordered sets or maps for one key type, node size, replacement mode and allocator, every clone compared entry by entry with its own std ordered map; a case is non-trivial when it inserted at least one entry.",
    "differential monitor against one std ordered map per clone over random histories, under AddressSanitizer and Miri",
    "Random histories over families of clones, each compared with its own std ordered map after each step.")
add("C15", "c15",
    "Each case draws values of one restricted number type (boundary values of the type and of the carrier first, then random ones) and compares every conversion, operator, ordering, hash, format and parse with the primitive of the same value, results outside of the range being required to panic or wrap into the range; a case is non-trivial when it compared at least one value.",
    "differential monitor against the primitives over boundary and random values, with representation monitor, under AddressSanitizer and Miri",
    "Boundary and random values of each restricted number type; every operation compared with the primitive; the stored representation must stay in range.", features=("serde",))
add("C07", "c07",
    "Each case builds a stabby Result or Option of one payload pair from a standard one and applies up to 24 random operations (accessors by reference, mutable borrow and value, mapping, chaining, unwrapping, replacing, cloning, comparing, hashing, formatting, arrays of neighbours), comparing with the standard one after each; a case is non-trivial when it applied at least one operation.",
    "differential monitor against the standard sum types over random histories and payload shapes, with ownership ledger, under AddressSanitizer and Miri",
    "116 payload pairs and 48 optional payloads covering every niche shape (forbidden values, unused bits, padding at every place, zero-sized and over-aligned payloads, nested sums); every accessor compared with the standard type.")
add("C08", "c08",
    "Each case builds a value of one annotated enum, struct or union and applies up to 24 random operations (matches by reference, mutable reference and value with and without context, in-place alteration, overwriting, cloning, panicking closures, arrays), or wraps it in stabby sums and applies theirs, comparing with the plain declaration after each; a case is non-trivial when it applied at least one operation.",
    "differential monitor against plain mirror declarations over random histories, with ownership ledger, under AddressSanitizer and Miri",
    "12 compact enums, 17 explicit-tag enums of every tag type, 7 struct and union declarations, each also wrapped in stabby sums; every match compared with a plain mirror type.")
add("C09", "c09",
    "Each case takes one stable type: its claimed size, alignment, unused bits and compiler-known niches are compared with the actual ones, then up to 24 random values of it have the bits declared unused overwritten (also before, within and after being wrapped in compact sums) and must remain the same value, never be declared invalid, and stay distinguishable from the empty state; a case is non-trivial when it altered or wrapped at least one value, or compared a list of claims.",
    "layout monitor: claims compared with actual sizes and niches, unused bits of live values overwritten and the values audited, under AddressSanitizer and Miri",
    "220 claims on primitives, pointers, arrays, containers and core sums, 90 on types whose stability is optional, and 120 value types (48 generated field lists, three requested-alignment spellings) with their compact sums.",
    borrows=False)
add("C05", "c05",
    "Each case gives two to four threads random strong and weak owners of one or two shared values (single value, slice, string, trait object), which they clone, drop, downgrade, upgrade, alter and take at the same time for up to 24 steps in up to 24 rounds; counts, liveness and content are compared at rest; a case is non-trivial when it applied at least one operation.",
    "runtime monitor of owners, destruction and accesses over racing threads (side-ledger without synchronisation), under AddressSanitizer, Miri with random preemption and ThreadSanitizer",
    "Racing threads over each kind of shared pointer; the payload detects torn, late, repeated destruction and unsynchronised accesses; owner counts compared at rest.",
    opt=1, asan_procs=3, miriflags="-Zmiri-preemption-rate=0.1", tsan=8000, ttsan=120000, tsan_procs=3)
add("C06", "c06",
    "Each case lets two to four threads load, store, compare and compare-and-exchange on up to 24 atomic cells, up to 30 operations each, part of them recording call and return stamps of every operation; recorded histories must have a linear order that a register allows, and owner counts and liveness are compared at rest; a case is non-trivial when it applied at least one operation.",
    "offline linearizability checker over recorded histories and ownership monitor over racing threads, under AddressSanitizer, Miri with random preemption and ThreadSanitizer",
    "Histories of racing threads on the real cell are checked for linearizability; every value's owners and destruction are compared at rest; unrecorded races run under the race detectors.",
    opt=1, asan_procs=3, miriflags="-Zmiri-preemption-rate=0.1", tsan=8000, ttsan=120000, tsan_procs=3)
add("C11", "c11",
    "Each case lets two to four threads request overlapping method tables at the same time from a fresh registry of one kind (lock-free set of two node sizes, vector), from the program's own registry (144 table types), or edit and read one lock-free set; answers are compared with the requested content during the race and with each other and later requests at rest; a case is non-trivial when at least one request was made.",
    "runtime monitor of registry answers and offline comparison of every thread's answers over racing threads, under AddressSanitizer, Miri with random preemption and ThreadSanitizer",
    "Racing requests on fresh registries and on the program's own; uniqueness, content, permanence and completeness compared at rest.",
    opt=1, asan_procs=3, miriflags="-Zmiri-preemption-rate=0.1", tsan=8000, ttsan=120000, tsan_procs=3)
add("C10", "c10",
    "Each case is a random history over a pool of trait objects (30 combinations and orders of traits, six concrete types, boxed, shared, weak, borrowed and mutably borrowed): calls with arguments of every kind, upcasts, downcasts to every type, clones, weak references, drops; each call must leave exactly one record, by the right type's method, on the right address, with the right arguments, and give the modelled answer; a case is non-trivial when it applied at least one operation.",
    "online monitor of dispatch records against a per-object model, with ownership ledger, over random histories, under AddressSanitizer and Miri",
    "Every method of every concrete type records its calls; each call through a trait object is matched with exactly one record of the modelled type, method, address and arguments.")
add("C12", "c12",
    "Each case drives a few stable futures (scripted, nested in async blocks, wrapped up to three times, boxed, borrowed, every marker combination, 11 output types) through random polls, wakes, waker clones and drops, moves and abandonment, or runs them on one to three racing threads or under an executor that loses a task whose wake is lost; polls, outputs, wakes received and handles of the original waker are compared with the script after each step; a case is non-trivial when it polled at least once.",
    "runtime monitor of polls, wakes and waker handles against scripted futures over random and racing histories, under AddressSanitizer, Miri with random preemption and ThreadSanitizer",
    "Scripted futures record each poll and keep wakers; counted raw wakers record every clone, wake and drop; both compared with the script after each step.",
    opt=1, miriflags="-Zmiri-preemption-rate=0.1", ttsan=120000, tsan_procs=3)
add("C14", "c14",
    "Each case applies up to 50 random operations (construction, appending, formatting, byte-level edits and validation, case changes, conversion between owned, boxed, shared, borrowed and standard strings) to a string of one allocator, or serialises texts, byte slices, sequences and sums and their standard counterparts to tokens and JSON, compares, and reads them back, also altered, from deserializers that lend, copy or give the text; a case is non-trivial when it applied at least one operation.",
    "differential monitor against std strings and std external forms over random histories, with auditing allocators, under AddressSanitizer and Miri",
    "Random histories compared byte by byte with std strings; token streams and JSON of stabby and std values compared, and read back in several styles.", features=("serde",))
add("C18", "c18",
    "Each case draws boundary and random durations, system times or instants, builds them in every way, and compares every accessor, sum, order, hash and conversion with the standard ones; or puts up to 40 values in an atomic duration or instant; or lets two to four threads exchange values on up to 16 of them, checking that a register explains the recorded history, or publish data through them; a case is non-trivial when it compared at least one value.",
    "differential monitor against the standard time types, offline linearizability checker over recorded histories of racing threads, under AddressSanitizer, Miri with random preemption (wrapping arithmetic, as in release builds) and ThreadSanitizer",
    "Boundary and random values compared with the standard types; racing exchanges explained by a register; data published through the cells watched by the race detectors.",
    opt=1, wrap=["miri"], miriflags="-Zmiri-preemption-rate=0.1", tsan=5000, ttsan=60000, tsan_procs=3)
add("C19", "c19",
    "Each case calls up to 8 wrapped closures of 0-9 arguments (12 kinds: called many times, in place, once, shared, borrowed, wrapped again, dropped uncalled; 7 result types), or drives a wrapped iterator with any hint, or converts and compares stabby and standard tuples of up to 32 fields, or takes up to 10 views of random parts of a slice or text and writes through them, or opens conversion guards; a case is non-trivial when it made at least one call, comparison or view.",
    "differential monitor of arguments, results, items, addresses and contents against the wrapped originals, with ownership ledger, under AddressSanitizer and Miri",
    "Every argument carries content or an identity recorded by the callee; views compared with the original in content and address; guards compared before, during and after.")
add("C16", "c16",
    "Each case builds a random description (up to five levels) and up to 24 copies of it, altered in one or two random places anywhere (name, module, version, kind, tag, field missing, extra, renamed, exchanged, retyped, wrapped), or compares pairs of 92 near-miss declarations, of 460 built-in and composed types, or of 23 trait objects (Miri: the built-in ones and a fourth of the composed); a case is non-trivial when it compared at least one pair that should differ.",
    "differential monitor of compatibility, equality, identifiers, hashes and renderings against a plain model of the descriptions, under AddressSanitizer and Miri",
    "Compatibility both ways, equality, identifiers, hashes and renderings of random altered descriptions, near-miss declarations and built-in types, compared with a model.")
add("C17", "c17",
    "Each case requests functions of a purpose-built Rust library (53 exports) as any of 99 types (their own, near-misses, 18 re-declarations of a shared struct), or names that are not exported, or functions of generated C libraries with every choice and with near-misses of the canaries, from one or several threads; or makes racing threads access a static import for the first time; verdicts, messages and the functions' answers are compared with the tables the libraries were made from; a case is non-trivial when it requested or accessed at least one symbol.",
    "differential monitor of verdicts, messages and answers against the tables the libraries were generated from, ownership ledger of imported values over racing threads, under AddressSanitizer, Miri with random preemption and ThreadSanitizer",
    "Every export requested as every type; every subset of canaries; racing first accesses of static imports; functions handed out are called and compared with the exported ones.",
    features=("libloading",), opt=1, extra=[["--example", "plugin"]], miriflags="-Zmiri-preemption-rate=0.1", tsan=6000, ttsan=60000, tsan_procs=3)
add("C20", "c20",
    "Each case takes one of some 600 composed types (owner, shared owner, sum, tuple, annotated type, import, slice, iterator, guard, trait object of every pointer and marker combination, upcast trait object, closure, future) over contents and allocators that are transferable and shareable, only one of these, or neither; where the compiler says the library makes it transferable or shareable, a value is moved or lent to another thread, used and destroyed there while other handles are used here, and every access to its contents is checked for the thread it came from; a case is non-trivial when something was moved or lent.",
    "runtime monitor of which threads see, alter and destroy contents that must stay on one, over every transfer and sharing that the library's marker implementations let a program do, natively and under Miri",
    "Composed types over contents and allocators of all four kinds; the claims are the compiler's, and each claim is acted on with real threads.")
add("C21", "c21",
    "Each case takes several references, guards, iterator items, views or trait objects from one or two owners (8 element types and 8 sequences, 12 sums, annotated enums, 16 holders of 4 kinds of interior mutability, 11 ways to an object, 6 self-referential futures, raw parts, clones of ordered maps), uses them in a random interleaving while the others are held, also past the iterator or closure they came from, and compares them and the owner with a plain model; a case is non-trivial when at least one reference was used.",
    "borrow monitor (Miri's Tree Borrows) and differential monitor against a plain model over references held together, also optimised as in release builds and under AddressSanitizer",
    "References held together are used in random interleavings under Tree Borrows, and with the optimiser relying on what the types promise; owners compared with a model.",
    borrows=True, native=6000, tnative=60000, optimised=True)
add("C22", "c22",
    "Each case draws from the computed numbers (1500 pairs, 700 with powers of two, products, successors, names), masks (300, with every extraction chain), forbidden values (150 sets, 160 selections), paddings, arrays, alignments, compile-time expressions (280) and claims of plain data (170 types), each computed by the library at compile time, and compares what the program then observes (values, identities of types, sizes, verdicts on memory close to forbidden values) with ordinary arithmetic; a case is non-trivial when it compared at least one.",
    "differential monitor of compile-time results observed at run time against ordinary arithmetic, and of verdicts on random memory, under AddressSanitizer and Miri",
    "Computed numbers, masks, forbidden values, paddings and claims observed at run time and compared with ordinary arithmetic; memory near forbidden values judged by both.",
    asan=3000, miri=8000, tasan=30000, tmiri=60000, asan_procs=3, miri_procs=3)
json.dump(C, open(os.path.join(here, "checks.json"), "w"), indent=1)
