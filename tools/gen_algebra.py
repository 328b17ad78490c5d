#!/usr/bin/env python3
"""Writes harness/src/models/algebra_cases.rs: numbers, masks, forbidden values and expressions of the type-level algebra,
each with the value that ordinary arithmetic gives. Always writes the same file."""
import os, random
R = random.Random(20231)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["// Written by tools/gen_algebra.py."]
def lit(n):
    s = "UTerm"
    for b in bin(n)[2:] if n else "":
        s = f"UInt<{s}, B{b}>"
    return s
def t(n):
    return f"t::U{n}" if n <= 1000 else L(n)
large = {}
def L(n):
    if n not in large:
        large[n] = f"L{len(large)}"
        out.append(f"pub type {large[n]} = {lit(n)};")
    return large[n]
def emit(name, ty, items):
    out.append(f"pub static {name}: &[{ty}] = &[\n    " + ",\n    ".join(items) + ",\n];")
# --- numbers
emit("NAMES", "fn() -> Name", [f"n::<t::U{i}, t::Ux{i:X}, t::Ub{i:b}, {lit(i)}>" for i in list(range(0, 66)) + [100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 729, 998, 999, 1000]])
small = [(i, TN) for i in range(1001) for TN in [f"t::U{i}"]]
emit("IDS", "fn() -> (u128, TypeId)", [f"id::<t::U{i}>" for i in range(1001)])
emit("TENS", "fn() -> (u128, TypeId, TypeId)", [f"same::<t::U10pow{i}, {lit(10 ** i)}>" for i in range(39)])
emit("TWOS", "fn() -> (u128, TypeId, TypeId)", [f"same::<t::U2pow{i}, {lit(2 ** i)}>" for i in range(128)])
pairs = [(a, b) for a in range(24) for b in range(24)]
edge = [25, 31, 32, 33, 47, 63, 64, 65, 85, 127, 128, 170, 254, 255, 256, 257, 511, 512, 513, 683, 960, 999, 1000]
pairs += [(a, b) for a in edge for b in edge if R.random() < .5]
pairs += [(R.choice(edge), R.randrange(1001)) for _ in range(120)] + [(R.randrange(1001), R.choice(edge)) for _ in range(120)]
pairs += [(R.randrange(1001), R.randrange(1001)) for _ in range(200)]
big = [R.getrandbits(R.choice([11, 16, 31, 32, 33, 48, 63, 64, 65, 90, 120, 127])) for _ in range(30)] + [2 ** 64 - 1, 2 ** 64, 2 ** 127 - 1, 2 ** 126, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, 65535, 65536]
big = [b for b in big if b > 1000]
for a in big:
    pairs += [(a, a), (a, R.choice(big)), (a, R.choice(big)), (a, R.randrange(1001)), (R.randrange(1001), a), (a, a ^ (1 << R.randrange(a.bit_length())))]
pairs = sorted({p for p in pairs})
emit("PAIRS", "fn() -> Pair", [f"pair::<{t(a)}, {t(b)}>" for a, b in pairs])
powers = [1 << i for i in range(17)] + [1 << 20, 1 << 31, 1 << 32, 1 << 63, 1 << 100]
pw = [(a, p) for a in list(range(40)) + edge for p in (1, 2, 4, 8, 16, 64)]
pw += [(R.choice(edge + big), R.choice(powers)) for _ in range(250)]
pw = sorted({(a, p) for a, p in pw if a + p < 2 ** 127})
emit("POWERS", "fn() -> Pow", [f"pow::<{t(a)}, {t(p)}, {t(q)}>" for a, p in pw for q in [R.choice(powers)]])
muls = [(a, b) for a in range(17) for b in range(17)] + [(R.randrange(1001), R.randrange(1001)) for _ in range(120)] + [(R.choice(big), R.randrange(1001)) for _ in range(20)]
muls = sorted({(a, b) for a, b in muls if a * b < 2 ** 127})
emit("MULS", "fn() -> Mul", [f"mul::<{t(a)}, {t(b)}>" for a, b in muls])
ones = list(range(130)) + edge + big
emit("ONES", "fn() -> One", [f"one::<{t(a)}>" for a in sorted(set(ones))])
emit("NONZERO", "fn() -> NZ", [f"nz::<{t(a)}>" for a in sorted(set(ones)) if a])
pads = list(range(70)) + [96, 100, 127, 128, 129, 200, 255, 256]
emit("PADS", "fn() -> Pad", [f"pad::<{t(a)}>" for a in pads])
arrs = list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 1000]
elems = ["u8", "u16", "u64", "(u8, u16)", "[u8; 3]", "()", "u128", "Align32"]
el = [e for e in elems if not e.startswith("(u8")]
emit("ARRAYS", "fn() -> Arr", [f"arr::<{t(a)}, {e}, {a}>" for a in arrs for e in R.sample(el, 3)])
al = [1 << i for i in range(17)]
emit("ALIGNS", "fn() -> Al", [f"al::<{t(a)}, {t(b)}>" for a in al for b in al])
# --- masks
def mask(m):
    s = "End"
    for o, v in reversed(m):
        s = f"Array<{t(o)}, {t(v)}, {s}>"
    return s
def rmask(offs):
    m = []
    for o in offs:
        m.append((o, R.choice([255, 255, 1, 2, 3, 128, 0xF0, 0x0F, 0xFE, 0x7F, 0xAA, R.randrange(1, 256)])))
    return m
masks = [[]] + [[(o, v)] for o in (0, 1, 7) for v in (1, 2, 128, 254, 255)]
for _ in range(44):
    offs = R.sample(range(12), R.randrange(1, 6))
    if R.random() < .6: offs.sort()
    masks.append(rmask(offs))
for i, m in enumerate(masks):
    out.append(f"pub type M{i} = {mask(m)};")
def mm(m): return "&[" + ", ".join(f"({o}, {v})" for o, v in m) + "]"
items = [f'("M{i}", mask::<M{i}>, {mm(m)})' for i, m in enumerate(masks)]
for _ in range(50):
    i, k = R.randrange(len(masks)), R.choice([0, 1, 2, 3, 8, 11])
    items.append(f'("M{i} shifted by {k}", mask::<<M{i} as IBitMask>::Shift<{t(k)}>>, {mm([(o + k, v) for o, v in masks[i]])})')
n = 0
while n < 60:
    i, j = R.randrange(len(masks)), R.randrange(len(masks))
    if {o for o, _ in masks[i]} & {o for o, _ in masks[j]}: continue
    n += 1
    items.append(f'("M{i} or M{j}", mask::<<M{i} as IBitMask>::BitOr<M{j}>>, {mm(masks[i] + masks[j])})')
n = 0
while n < 90:
    i, j = R.randrange(len(masks)), R.randrange(len(masks))
    if n % 3 and not {o for o, _ in masks[i]} & {o for o, _ in masks[j]}: continue
    n += 1
    dj = dict(masks[j])
    r = [(o, v & dj.get(o, 0)) for o, v in masks[i] if v & dj.get(o, 0)]
    items.append(f'("M{i} and M{j}", mask::<<M{i} as IBitMask>::BitAnd<M{j}>>, {mm(r)})')
for k in list(range(18)):
    items.append(f'("padding of {k}", mask::<<{t(k)} as IUnsignedBase>::PaddingBitMask>, {mm([(o, 255) for o in range(k)])})')
emit("MASKS", "(&str, fn() -> Mask, &[(usize, u128)])", items)
items = []
for i, m in enumerate(masks):
    k = sum(bin(v).count("1") for _, v in m)
    if not 0 < k <= 20: continue
    x, steps = f"M{i}", []
    for _ in range(k):
        steps.append(f"bit::<{x}>")
        x = f"X<{x}>"
    items.append(f'("M{i}", &[{", ".join(steps)}], is_end::<{x}>, {mm(m)})')
emit("CHAINS", "(&str, &[fn() -> (usize, u128)], fn() -> bool, &[(usize, u128)])", items)
# --- forbidden values: a set is a list of alternatives, an alternative a list of (offset, low, high) that must all match
def forb(alts):
    def one(a):
        if a[0] == "range":
            _, o, lo, hi = a
            return f"ForbiddenRange<{t(lo)}, {t(hi)}, {t(o)}>"
        s = "End"
        for o, v in reversed(a[1]): s = f"Array<{t(o)}, {t(v)}, {s}>"
        return s
    if not alts: return "End"
    if len(alts) == 1: return one(alts[0])
    k = R.randrange(1, len(alts))
    return f"Or<{forb(alts[:k])}, {forb(alts[k:])}>"
def ralt(base):
    if R.random() < .5:
        lo = R.choice([0, 1, 2, 3, 100, 254]); hi = R.choice([x for x in (1, 2, 3, 5, 101, 254, 255) if x > lo])
        return ("range", R.randrange(base, base + 4), lo, hi)
    return ("all", [(o, R.choice([0, 0, 1, 2, 127, 128, 255])) for o in sorted(R.sample(range(base, base + 5), R.randrange(1, 4)))])
sets = [[], [("range", 0, 2, 255)], [("all", [(0, 0)])], [("all", [(i, 0) for i in range(8)])], [("all", [(0, 0), (1, 0)])]]
for _ in range(35):
    sets.append([ralt(R.choice([0, 0, 3, 6])) for _ in range(R.randrange(1, 4))])
for i, s in enumerate(sets):
    out.append(f"pub type F{i} = {forb(s)};")
def fm(s):
    return "&[" + ", ".join("&[" + ", ".join(f"({o}, {lo}, {hi})" for o, lo, hi in ([a[1:]] if a[0] == "range" else [(o, v, v) for o, v in a[1]])) + "]" for a in s) + "]"
def sh(s, k):
    return [("range", a[1] + k, a[2], a[3]) if a[0] == "range" else ("all", [(o + k, v) for o, v in a[1]]) for a in s]
items = [f'("F{i}", forbidden::<F{i}>, {fm(s)})' for i, s in enumerate(sets)]
for _ in range(50):
    i, k = R.randrange(len(sets)), R.choice([0, 1, 2, 5, 8])
    items.append(f'("F{i} shifted by {k}", forbidden::<<F{i} as IForbiddenValues>::Shift<{t(k)}>>, {fm(sh(sets[i], k))})')
for _ in range(60):
    i, j = R.randrange(len(sets)), R.randrange(len(sets))
    items.append(f'("F{i} or F{j}", forbidden::<<F{i} as IForbiddenValues>::Or<F{j}>>, {fm(sets[i] + sets[j])})')
emit("FORBIDDEN", "(&str, fn(*const u8) -> bool, &[&[(usize, u8, u8)]])", items)
items = []
for _ in range(160):
    i = R.randrange(len(sets)); a = [x for x in sets[i]]
    offs = set(R.sample(range(11), R.randrange(0, 7)))
    if a and R.random() < .7:
        c = R.choice(a)
        offs |= {c[1]} if c[0] == "range" else {o for o, _ in c[1]}
        if R.random() < .3: offs.discard(R.choice(sorted(offs)))
    m = [(o, 255 if R.random() < .9 else R.choice([254, 127, 15])) for o in sorted(offs)]
    items.append(f'("F{i} within {m}", select::<<F{i} as IForbiddenValues>::SelectFrom<{mask(m)}>>, forbidden::<F{i}>, {mm(m)}, {fm(sets[i])})')
emit("SELECT", "(&str, fn() -> Option<Vec<(usize, u128)>>, fn(*const u8) -> bool, &[(usize, u128)], &[&[(usize, u8, u8)]])", items)
# --- expressions of tyeval!
def ex(d):
    """(text, value) of a random numeric expression"""
    if d == 0 or R.random() < .15:
        n = R.choice([0, 1, 2, 3, 5, 7, 8, 16, 21, 64, 100, 255, 256, 1000])
        return f"t::U{n}", n
    k = R.randrange(6)
    (a, x), (b, y) = ex(d - 1), ex(d - 1)
    a, b = par(a), par(b)
    if k == 0: return f"{a} + {b}", x + y
    if k == 1: return f"{a} - {b}", abs(x - y)
    if k == 2:
        p = R.choice([1, 2, 4, 8, 16, 128])
        return f"{a} % t::U{p}", x % p
    if k == 3: return f"{a} | {b}", x | y
    if k == 4: return f"{a} & {b}", x & y
    c, z = cond(d - 1)
    return f"{par(c)} ? {a} : {b}", x if z else y
def cond(d):
    (a, x), (b, y) = ex(d), ex(d)
    if R.random() < .4: a, x = b, y
    c, v = f"{par(a)} == {par(b)}", x == y
    if R.random() < .3: c, v = f"!({c})", not v
    return c, v
def par(s): return f"({s})" if " " in s or s[0] == "!" else s
items = []
for _ in range(220):
    s, v = ex(R.choice([1, 2, 2, 3, 3]))
    items.append(f'({s!r}, num::<tyeval!({s})>, {v})'.replace("'", '"'))
for _ in range(60):
    s, v = cond(R.choice([0, 1, 2]))
    items.append(f'({s!r}, boolean::<tyeval!({s})>, {int(v)})'.replace("'", '"'))
emit("EXPRESSIONS", "(&str, fn() -> u128, u128)", items)
with open(os.path.join(here, "harness/src/models/algebra_cases.rs"), "w") as f:
    f.write("\n".join(out) + "\n")
