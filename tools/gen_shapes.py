#!/usr/bin/env python3
"""Writes harness/src/models/shapes.rs: annotated structs of pseudo-random field lists (fixed seed)."""
import random, os
R = random.Random(20240917)
LEAF = ["u8", "u16", "u32", "u64", "u128", "bool", "NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64",
        "i8", "i64", "core::cmp::Ordering", "&'static u32", "[u8; 3]", "[u16; 5]", "[u32; 1]", "[u64; 0]", "()", "Small", "Signed",
        "SString", "Str<'static>", "VecU8", "BoxU", "ArcT", "crate::track::Tracked",
        "SO<bool>", "SO<NonZeroU8>", "SR<u8, u8>", "SR<u32, u16>", "SO<PadTail>", "SR<PadMid, u8>", "SO<u64>", "SR<SString, u8>",
        "PadTail", "PadMid4", "Flags", "NzPad", "NmU16", "core::option::Option<NonZeroU16>"]
W = [4 if not ("S" in l[:2] and "<" in l) else 1 for l in LEAF]
out = ["//! Generated by tools/gen_shapes.py: annotated structs of pseudo-random field lists.",
       "use super::payloads::*;", "use super::sum::Payload;", "use crate::{st, Rng};", "use core::num::*;",
       "use stabby::option::Option as SO;", "use stabby::result::Result as SR;", "use stabby::str::Str;", "use stabby::string::String as SString;",
       "st! {"]
names = []
aligned = []
for i in range(48):
    n = R.randint(1, 5)
    fs = R.choices(LEAF, W, k=n)
    # at most one generated struct inside another, not nested deeper
    if i >= 30 and R.random() < .6:
        fs[R.randrange(n)] = f"Q{R.randrange(20)}"
    attr = ""
    if i % 6 == 5:
        a = f"align({R.choice([2, 4, 8, 16, 32])})"
        attr = ["#[repr(C, %s)] ", "#[repr(%s)] ", "#[repr(C)] #[repr(%s)] "][i // 6 % 3] % a
    names.append(f"Q{i}")
    out.append(f"    {attr}Q{i} {{ " + ", ".join(f"f{j}: {t}" for j, t in enumerate(fs)) + " }")
out.append("}")
out.append("/// Calls `$m!` with every shape.")
out.append("#[macro_export]\nmacro_rules! for_shapes {\n    ($m:ident) => {\n        $m!(" + ", ".join(names) + ")\n    };\n}")
p = os.path.join(os.path.dirname(__file__), "../harness/src/models/shapes.rs")
open(p, "w").write("\n".join(out) + "\n")
