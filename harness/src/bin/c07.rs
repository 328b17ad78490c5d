//! Results and Options of every niche shape against the standard ones.
use core::cmp::Ordering;
use core::num::*;
use harness::models::payloads::*;
use harness::models::sum::{option, result};
use harness::track::*;
use harness::Group;
use stabby::option::Option as SO;
use stabby::result::Result as SR;
use stabby::str::Str;
use stabby::string::String as SString;
use std::option::Option as CO;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn main() {
    let groups: &[Group] = &[
        ("u8/u8", 1, |c| result::<u8, u8>(c)),
        ("u8/()", 1, |c| result::<u8, ()>(c)),
        ("()/u8", 1, |c| result::<(), u8>(c)),
        ("()/()", 1, |c| result::<(), ()>(c)),
        ("bool/bool", 1, |c| result::<bool, bool>(c)),
        ("bool/()", 1, |c| result::<bool, ()>(c)),
        ("bool/u8", 1, |c| result::<bool, u8>(c)),
        ("u8/bool", 1, |c| result::<u8, bool>(c)),
        ("u64/bool", 1, |c| result::<u64, bool>(c)),
        ("bool/u64", 1, |c| result::<bool, u64>(c)),
        ("u128/u8", 1, |c| result::<u128, u8>(c)),
        ("u8/u128", 1, |c| result::<u8, u128>(c)),
        ("NonZeroU8/()", 1, |c| result::<NonZeroU8, ()>(c)),
        ("()/NonZeroU8", 1, |c| result::<(), NonZeroU8>(c)),
        ("NonZeroU8/u8", 1, |c| result::<NonZeroU8, u8>(c)),
        ("u8/NonZeroU8", 1, |c| result::<u8, NonZeroU8>(c)),
        ("NonZeroU64/u32", 1, |c| result::<NonZeroU64, u32>(c)),
        ("u32/NonZeroU64", 1, |c| result::<u32, NonZeroU64>(c)),
        ("NonZeroU8/NonZeroU8", 1, |c| result::<NonZeroU8, NonZeroU8>(c)),
        ("NonZeroU128/u64", 1, |c| result::<NonZeroU128, u64>(c)),
        ("NonZeroI32/NonZeroU64", 1, |c| result::<NonZeroI32, NonZeroU64>(c)),
        ("&'static_u32/u8", 1, |c| result::<&'static u32, u8>(c)),
        ("u32/&'static_u32", 1, |c| result::<u32, &'static u32>(c)),
        ("&'static_u32/&'static_u32", 1, |c| result::<&'static u32, &'static u32>(c)),
        ("Str<'static>/u64", 1, |c| result::<Str<'static>, u64>(c)),
        ("u64/Str<'static>", 1, |c| result::<u64, Str<'static>>(c)),
        ("SString/u8", 1, |c| result::<SString, u8>(c)),
        ("SString/SString", 1, |c| result::<SString, SString>(c)),
        ("VecU8/u32", 1, |c| result::<VecU8, u32>(c)),
        ("VecT/Tracked", 1, |c| result::<VecT, Tracked>(c)),
        ("BoxU/u16", 1, |c| result::<BoxU, u16>(c)),
        ("BoxT/()", 1, |c| result::<BoxT, ()>(c)),
        ("ArcT/BoxT", 1, |c| result::<ArcT, BoxT>(c)),
        ("ArcSl/u8", 1, |c| result::<ArcSl, u8>(c)),
        ("BoxSl/Sl", 1, |c| result::<BoxSl, Sl>(c)),
        ("Sl/bool", 1, |c| result::<Sl, bool>(c)),
        ("NmU8/()", 1, |c| result::<NmU8, ()>(c)),
        ("NmU8/u8", 1, |c| result::<NmU8, u8>(c)),
        ("u8/NmU16", 1, |c| result::<u8, NmU16>(c)),
        ("NmU64/u32", 1, |c| result::<NmU64, u32>(c)),
        ("NmU128/NmU8", 1, |c| result::<NmU128, NmU8>(c)),
        ("Ordering/()", 1, |c| result::<Ordering, ()>(c)),
        ("Ordering/u8", 1, |c| result::<Ordering, u8>(c)),
        ("u16/Ordering", 1, |c| result::<u16, Ordering>(c)),
        ("CO<&'static_u32>/u8", 1, |c| result::<CO<&'static u32>, u8>(c)),
        ("CO<NonZeroU16>/()", 1, |c| result::<CO<NonZeroU16>, ()>(c)),
        ("[u8;3]/u32", 1, |c| result::<[u8;3], u32>(c)),
        ("[bool;4]/u8", 1, |c| result::<[bool;4], u8>(c)),
        ("[NonZeroU8;5]/[u8;3]", 1, |c| result::<[NonZeroU8;5], [u8;3]>(c)),
        ("[u64;0]/u8", 1, |c| result::<[u64;0], u8>(c)),
        ("u8/[u64;0]", 1, |c| result::<u8, [u64;0]>(c)),
        ("[u32;3]/u64", 1, |c| result::<[u32;3], u64>(c)),
        ("u64/[u32;3]", 1, |c| result::<u64, [u32;3]>(c)),
        ("[u16;5]/u32", 1, |c| result::<[u16;5], u32>(c)),
        ("[u8;9]/u64", 1, |c| result::<[u8;9], u64>(c)),
        ("[u8;9]/PadTail", 1, |c| result::<[u8;9], PadTail>(c)),
        ("PadTail/u8", 1, |c| result::<PadTail, u8>(c)),
        ("u8/PadTail", 1, |c| result::<u8, PadTail>(c)),
        ("PadTail/PadTail", 1, |c| result::<PadTail, PadTail>(c)),
        ("PadMid/PadTail", 1, |c| result::<PadMid, PadTail>(c)),
        ("PadTail/PadMid", 1, |c| result::<PadTail, PadMid>(c)),
        ("PadMid4/u8", 1, |c| result::<PadMid4, u8>(c)),
        ("PadMid4/PadMid4", 1, |c| result::<PadMid4, PadMid4>(c)),
        ("PadTwice/u64", 1, |c| result::<PadTwice, u64>(c)),
        ("PadTwice/PadMid", 1, |c| result::<PadTwice, PadMid>(c)),
        ("PadNest/u16", 1, |c| result::<PadNest, u16>(c)),
        ("PadNest/PadTwice", 1, |c| result::<PadNest, PadTwice>(c)),
        ("Flags/u8", 1, |c| result::<Flags, u8>(c)),
        ("u16/Flags", 1, |c| result::<u16, Flags>(c)),
        ("FlagWide/u64", 1, |c| result::<FlagWide, u64>(c)),
        ("u64/FlagWide", 1, |c| result::<u64, FlagWide>(c)),
        ("FlagWide/PadMid", 1, |c| result::<FlagWide, PadMid>(c)),
        ("Full/u8", 1, |c| result::<Full, u8>(c)),
        ("Full/Full", 1, |c| result::<Full, Full>(c)),
        ("Full8/Flags", 1, |c| result::<Full8, Flags>(c)),
        ("Owner/u8", 1, |c| result::<Owner, u8>(c)),
        ("Owner/Owner", 1, |c| result::<Owner, Owner>(c)),
        ("OwnerBox/PadTail", 1, |c| result::<OwnerBox, PadTail>(c)),
        ("OwnerBox/OwnerBox", 1, |c| result::<OwnerBox, OwnerBox>(c)),
        ("Wide/u8", 1, |c| result::<Wide, u8>(c)),
        ("Wide/Wide", 1, |c| result::<Wide, Wide>(c)),
        ("u64/Wide", 1, |c| result::<u64, Wide>(c)),
        ("RefPad/PadMid", 1, |c| result::<RefPad, PadMid>(c)),
        ("RefPad/u64", 1, |c| result::<RefPad, u64>(c)),
        ("NzPad/u32", 1, |c| result::<NzPad, u32>(c)),
        ("NzPad/PadMid4", 1, |c| result::<NzPad, PadMid4>(c)),
        ("Small/u8", 1, |c| result::<Small, u8>(c)),
        ("Small/()", 1, |c| result::<Small, ()>(c)),
        ("Small/Small", 1, |c| result::<Small, Small>(c)),
        ("Signed/u8", 1, |c| result::<Signed, u8>(c)),
        ("Signed/u16", 1, |c| result::<Signed, u16>(c)),
        ("Tu2/u8", 1, |c| result::<Tu2, u8>(c)),
        ("Tu3/u64", 1, |c| result::<Tu3, u64>(c)),
        ("Tu3/Tu3", 1, |c| result::<Tu3, Tu3>(c)),
        ("SR<u8,u8>/u8", 1, |c| result::<SR<u8,u8>, u8>(c)),
        ("SR<u8,u8>/()", 1, |c| result::<SR<u8,u8>, ()>(c)),
        ("SR<u8,bool>/u16", 1, |c| result::<SR<u8,bool>, u16>(c)),
        ("SR<bool,()>/()", 1, |c| result::<SR<bool,()>, ()>(c)),
        ("SR<PadTail,u8>/u8", 1, |c| result::<SR<PadTail,u8>, u8>(c)),
        ("SR<Tracked,u8>/Tracked", 1, |c| result::<SR<Tracked,u8>, Tracked>(c)),
        ("SR<SString,PadMid>/PadTail", 1, |c| result::<SR<SString,PadMid>, PadTail>(c)),
        ("SO<bool>/()", 1, |c| result::<SO<bool>, ()>(c)),
        ("SO<u32>/u8", 1, |c| result::<SO<u32>, u8>(c)),
        ("SO<SO<bool>>/()", 1, |c| result::<SO<SO<bool>>, ()>(c)),
        ("SO<SO<SO<bool>>>/u8", 1, |c| result::<SO<SO<SO<bool>>>, u8>(c)),
        ("SR<SR<u8,u16>,u32>/SR<u8,u8>", 1, |c| result::<SR<SR<u8,u16>,u32>, SR<u8,u8>>(c)),
        ("SR<NonZeroU8,()>/u8", 1, |c| result::<SR<NonZeroU8,()>, u8>(c)),
        ("u8/SR<u64,u8>", 1, |c| result::<u8, SR<u64,u8>>(c)),
        ("SO<PadTail>/SO<PadMid>", 1, |c| result::<SO<PadTail>, SO<PadMid>>(c)),
        ("SR<Ordering,()>/()", 1, |c| result::<SR<Ordering,()>, ()>(c)),
        ("SR<PadTail,PadTail>/PadTail", 1, |c| result::<SR<PadTail,PadTail>, PadTail>(c)),
        ("()/SO<bool>", 1, |c| result::<(), SO<bool>>(c)),
        ("u64/SO<u32>", 1, |c| result::<u64, SO<u32>>(c)),
        ("Tracked/Tracked", 1, |c| result::<Tracked, Tracked>(c)),
        ("Tracked/TrackedWide", 1, |c| result::<Tracked, TrackedWide>(c)),
        ("Tracked/BoxElem", 1, |c| result::<Tracked, BoxElem>(c)),
        ("Option/u8", 1, |c| option::<u8>(c)),
        ("Option/bool", 1, |c| option::<bool>(c)),
        ("Option/()", 1, |c| option::<()>(c)),
        ("Option/NonZeroU8", 1, |c| option::<NonZeroU8>(c)),
        ("Option/u128", 1, |c| option::<u128>(c)),
        ("Option/&'static_u32", 1, |c| option::<&'static u32>(c)),
        ("Option/Str<'static>", 1, |c| option::<Str<'static>>(c)),
        ("Option/SString", 1, |c| option::<SString>(c)),
        ("Option/VecU8", 1, |c| option::<VecU8>(c)),
        ("Option/VecT", 1, |c| option::<VecT>(c)),
        ("Option/BoxT", 1, |c| option::<BoxT>(c)),
        ("Option/ArcT", 1, |c| option::<ArcT>(c)),
        ("Option/ArcSl", 1, |c| option::<ArcSl>(c)),
        ("Option/BoxSl", 1, |c| option::<BoxSl>(c)),
        ("Option/Sl", 1, |c| option::<Sl>(c)),
        ("Option/NmU8", 1, |c| option::<NmU8>(c)),
        ("Option/NmU16", 1, |c| option::<NmU16>(c)),
        ("Option/Ordering", 1, |c| option::<Ordering>(c)),
        ("Option/CO<&'static_u32>", 1, |c| option::<CO<&'static u32>>(c)),
        ("Option/[u8;3]", 1, |c| option::<[u8;3]>(c)),
        ("Option/[bool;4]", 1, |c| option::<[bool;4]>(c)),
        ("Option/PadTail", 1, |c| option::<PadTail>(c)),
        ("Option/PadMid4", 1, |c| option::<PadMid4>(c)),
        ("Option/PadNest", 1, |c| option::<PadNest>(c)),
        ("Option/Flags", 1, |c| option::<Flags>(c)),
        ("Option/FlagWide", 1, |c| option::<FlagWide>(c)),
        ("Option/Full", 1, |c| option::<Full>(c)),
        ("Option/Owner", 1, |c| option::<Owner>(c)),
        ("Option/OwnerBox", 1, |c| option::<OwnerBox>(c)),
        ("Option/Wide", 1, |c| option::<Wide>(c)),
        ("Option/RefPad", 1, |c| option::<RefPad>(c)),
        ("Option/NzPad", 1, |c| option::<NzPad>(c)),
        ("Option/Small", 1, |c| option::<Small>(c)),
        ("Option/Signed", 1, |c| option::<Signed>(c)),
        ("Option/Tu2", 1, |c| option::<Tu2>(c)),
        ("Option/Tu3", 1, |c| option::<Tu3>(c)),
        ("Option/SO<u8>", 1, |c| option::<SO<u8>>(c)),
        ("Option/SO<bool>", 1, |c| option::<SO<bool>>(c)),
        ("Option/SO<SO<bool>>", 1, |c| option::<SO<SO<bool>>>(c)),
        ("Option/SO<SO<SO<bool>>>", 1, |c| option::<SO<SO<SO<bool>>>>(c)),
        ("Option/SO<SO<SO<u8>>>", 1, |c| option::<SO<SO<SO<u8>>>>(c)),
        ("Option/SO<&'static_u32>", 1, |c| option::<SO<&'static u32>>(c)),
        ("Option/SR<u8,u8>", 1, |c| option::<SR<u8,u8>>(c)),
        ("Option/SR<bool,PadTail>", 1, |c| option::<SR<bool,PadTail>>(c)),
        ("Option/SO<SR<bool,PadTail>>", 1, |c| option::<SO<SR<bool,PadTail>>>(c)),
        ("Option/SO<Tracked>", 1, |c| option::<SO<Tracked>>(c)),
        ("Option/Tracked", 1, |c| option::<Tracked>(c)),
        ("Option/BoxElem", 1, |c| option::<BoxElem>(c)),
    ];
    harness::run_suite(groups, &[]);
}
