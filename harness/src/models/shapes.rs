//! Generated by tools/gen_shapes.py: annotated structs of pseudo-random field lists.
use super::payloads::*;
use super::sum::Payload;
use crate::{st, Rng};
use core::num::*;
use stabby::option::Option as SO;
use stabby::result::Result as SR;
use stabby::str::Str;
use stabby::string::String as SString;
st! {
    Q0 { f0: NonZeroU64 }
    Q1 { f0: NonZeroU8, f1: NmU16, f2: PadMid4 }
    Q2 { f0: SString, f1: NonZeroU16, f2: Signed, f3: u64 }
    Q3 { f0: crate::track::Tracked, f1: (), f2: SString }
    Q4 { f0: PadTail, f1: PadTail, f2: SString }
    #[repr(C, align(4))] Q5 { f0: crate::track::Tracked }
    Q6 { f0: SO<NonZeroU8>, f1: core::option::Option<NonZeroU16>, f2: bool, f3: u16, f4: [u8; 3] }
    Q7 { f0: NonZeroU32 }
    Q8 { f0: u32, f1: Str<'static> }
    Q9 { f0: SR<u8, u8> }
    Q10 { f0: bool, f1: NonZeroU8 }
    #[repr(align(2))] Q11 { f0: SO<bool>, f1: u8, f2: SR<PadMid, u8>, f3: u128, f4: PadTail }
    Q12 { f0: [u64; 0], f1: u8, f2: core::cmp::Ordering, f3: Small, f4: u32 }
    Q13 { f0: Small, f1: Signed, f2: NonZeroU64 }
    Q14 { f0: &'static u32 }
    Q15 { f0: [u64; 0], f1: i8, f2: bool, f3: Signed, f4: [u8; 3] }
    Q16 { f0: Small, f1: BoxU, f2: Flags }
    #[repr(C)] #[repr(align(32))] Q17 { f0: u32, f1: [u32; 1], f2: u16, f3: &'static u32, f4: [u16; 5] }
    Q18 { f0: NonZeroU32, f1: &'static u32 }
    Q19 { f0: SO<PadTail>, f1: [u32; 1] }
    Q20 { f0: NmU16, f1: PadTail }
    Q21 { f0: NzPad, f1: ArcT, f2: [u32; 1], f3: Small }
    Q22 { f0: NonZeroU32, f1: crate::track::Tracked, f2: [u8; 3] }
    #[repr(C, align(32))] Q23 { f0: SR<u32, u16> }
    Q24 { f0: Flags, f1: NonZeroU32, f2: u16, f3: NzPad }
    Q25 { f0: core::cmp::Ordering, f1: [u64; 0], f2: SR<SString, u8> }
    Q26 { f0: crate::track::Tracked }
    Q27 { f0: Str<'static>, f1: NmU16, f2: PadTail, f3: core::cmp::Ordering, f4: NonZeroU32 }
    Q28 { f0: Small, f1: NonZeroU64, f2: Flags }
    #[repr(align(16))] Q29 { f0: NonZeroU32, f1: bool, f2: u64 }
    Q30 { f0: Q15, f1: (), f2: u128 }
    Q31 { f0: SO<PadTail>, f1: Q8, f2: u128 }
    Q32 { f0: NzPad, f1: Q7 }
    Q33 { f0: core::option::Option<NonZeroU16>, f1: VecU8, f2: core::cmp::Ordering }
    Q34 { f0: Flags, f1: Q0 }
    #[repr(C)] #[repr(align(2))] Q35 { f0: (), f1: Q10, f2: Flags, f3: u8, f4: () }
    Q36 { f0: u8, f1: u8, f2: Small, f3: VecU8 }
    Q37 { f0: Q18, f1: i64, f2: i64, f3: () }
    Q38 { f0: SO<u64>, f1: SString }
    Q39 { f0: Q12 }
    Q40 { f0: (), f1: Q8, f2: [u8; 3] }
    #[repr(C, align(32))] Q41 { f0: SR<u8, u8>, f1: Q6, f2: [u32; 1] }
    Q42 { f0: [u16; 5], f1: Q11, f2: [u64; 0], f3: crate::track::Tracked }
    Q43 { f0: NonZeroU8, f1: NmU16, f2: i64, f3: [u16; 5], f4: [u32; 1] }
    Q44 { f0: Small, f1: Q18 }
    Q45 { f0: i8, f1: Q14, f2: u32 }
    Q46 { f0: NonZeroU8, f1: Q13 }
    #[repr(align(4))] Q47 { f0: crate::track::Tracked, f1: PadMid4, f2: &'static u32, f3: BoxU, f4: NmU16 }
}
/// Calls `$m!` with every shape.
#[macro_export]
macro_rules! for_shapes {
    ($m:ident) => {
        $m!(Q0, Q1, Q2, Q3, Q4, Q5, Q6, Q7, Q8, Q9, Q10, Q11, Q12, Q13, Q14, Q15, Q16, Q17, Q18, Q19, Q20, Q21, Q22, Q23, Q24, Q25, Q26, Q27, Q28, Q29, Q30, Q31, Q32, Q33, Q34, Q35, Q36, Q37, Q38, Q39, Q40, Q41, Q42, Q43, Q44, Q45, Q46, Q47)
    };
}
