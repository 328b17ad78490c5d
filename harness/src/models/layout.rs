//! What a type claims about its layout, against its actual layout and values.
use super::sum::Payload;
use crate::{must, same, track, viol, Case};
use core::fmt::Debug;
use core::hash::{Hash, Hasher};
use core::mem::{align_of, size_of, MaybeUninit};
use stabby::abi::istable::{IBitMask, IForbiddenValues, ISaturatingAdd, SaturatingAddValue};
use stabby::abi::typenum2::Unsigned;
use stabby::abi::{IDeterminantProvider, IStable};
use stabby::option::Option as SO;
use stabby::result::Result as SR;
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn name<T>() -> &'static str {
    core::any::type_name::<T>()
}
/// The (offset, mask) pairs of a bit mask.
pub fn bits<M: IBitMask>() -> Vec<(usize, u8)> {
    let mut out = Vec::new();
    let text = format!("{:?}", M::TUPLE);
    let nums: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    for p in nums.chunks(2) {
        must!("mask-shape", p.len() == 2 && p[1] < 256, "{text}");
        out.push((p[0], p[1] as u8));
    }
    out
}
/// Claims that don't need a value.
pub fn claims<T: IStable>() -> u64 {
    let n = name::<T>();
    same!("size", <T::Size as Unsigned>::USIZE, size_of::<T>(), "{n}");
    same!("align", <T::Align as Unsigned>::USIZE, align_of::<T>(), "{n}");
    same!("size()", T::size(), size_of::<T>(), "{n}");
    same!("align()", T::align(), align_of::<T>(), "{n}");
    for (o, m) in bits::<T::UnusedBits>() {
        must!("unused-bit-outside", o < size_of::<T>() && m != 0, "{n}: unused bits {m:#x} at {o}, of {} bytes", size_of::<T>());
    }
    let o1 = size_of::<core::option::Option<T>>();
    let o2 = size_of::<core::option::Option<core::option::Option<T>>>();
    match <T::HasExactlyOneNiche as ISaturatingAdd>::VALUE {
        SaturatingAddValue::B0 => must!("niche-count", o1 > size_of::<T>(), "{n} claims that the compiler knows no niche in it, yet Option<{n}> is as small"),
        SaturatingAddValue::B1 => {
            must!("niche-count", o1 == size_of::<T>(), "{n} claims one niche, yet Option<{n}> takes {o1} bytes");
            must!("niche-count", o2 > size_of::<T>(), "{n} claims exactly one niche, yet it has more")
        }
        SaturatingAddValue::Saturator => {}
    }
    crate::mix(size_of::<T>() as u64, align_of::<T>() as u64)
}
/// A slot whose bytes can be altered independently of the value in it.
struct Slot<T>(Box<MaybeUninit<T>>);
impl<T: Payload> Slot<T> {
    fn new(v: T) -> Self {
        Slot(Box::new(MaybeUninit::new(v)))
    }
    fn get(&self) -> &T {
        unsafe { self.0.assume_init_ref() }
    }
    fn bytes(&mut self) -> *mut u8 {
        self.0.as_mut_ptr().cast()
    }
    /// Overwrites the bits that `T` declares unused.
    fn scramble(&mut self, r: &mut crate::Rng) -> usize {
        let p = self.bytes();
        let style = r.below(4);
        let mut n = 0;
        for (o, m) in bits::<T::UnusedBits>() {
            let v = match style {
                0 => 0xff,
                1 => 0,
                _ => r.next() as u8,
            };
            n += m.count_ones() as usize;
            unsafe {
                if m == 0xff {
                    p.add(o).write(v)
                } else {
                    p.add(o).write(p.add(o).read() & !m | v & m)
                }
            }
        }
        n
    }
}
impl<T> Drop for Slot<T> {
    fn drop(&mut self) {
        unsafe { self.0.as_mut_ptr().drop_in_place() }
    }
}
/// Claims on the values of `T`.
pub fn values<T: Payload>(c: &mut Case) {
    track::reset();
    c.ev(claims::<T>());
    c.log(|| format!("{}:", name::<T>()));
    let rounds = c.scale(12, 3);
    for _ in 0..rounds {
        let mut v = Slot::new(T::gen(&mut c.rng));
        must!("forbidden-valid", !unsafe { T::is_invalid(v.bytes()) }, "{}: {:?} is declared invalid", name::<T>(), v.get());
        let copy = v.get().clone();
        let n = v.scramble(&mut c.rng);
        c.ev(n as u64);
        c.nontrivial |= n > 0;
        track::check();
        v.get().audit();
        must!("unused-bits", *v.get() == copy, "{}: {:?} became {:?} by altering its unused bits", name::<T>(), copy, v.get());
        same!("unused-bits-hash", h(v.get()), h(&copy));
        must!("forbidden-valid", !unsafe { T::is_invalid(v.bytes()) }, "{}: {:?} is declared invalid once its unused bits are altered", name::<T>(), v.get());
        // changes made to the value still work with its unused bits in that state
        let mut m = copy;
        let r = c.rng.fork();
        m.alter(&mut r.clone());
        unsafe { v.0.assume_init_mut() }.alter(&mut r.clone());
        must!("unused-bits-alter", *v.get() == m, "{}: {m:?} vs {:?}", name::<T>(), v.get());
        v.get().audit();
        c.log(|| format!("{:?}/{n}b", m));
    }
    track::check();
}
fn end<T>() -> bool {
    name::<T>().ends_with("istable::End")
}
/// Claims on the compact sum types over `T`.
pub fn compact<T: Payload + IDeterminantProvider<()> + IDeterminantProvider<u8> + IDeterminantProvider<T>>(c: &mut Case)
where
    (): IDeterminantProvider<T>,
{
    values::<T>(c);
    let n = name::<T>();
    claims::<SO<T>>();
    claims::<SR<T, u8>>();
    claims::<SR<(), T>>();
    claims::<SR<T, T>>();
    // A type that declares room for an empty state gets one for free.
    let room = !bits::<T::UnusedBits>().is_empty() || !end::<<T::ForbiddenValues as IForbiddenValues>::SelectOne>();
    if room {
        same!("compact", size_of::<SO<T>>(), size_of::<T>(), "{n} declares niches, yet Option<{n}> is larger");
        same!("compact", size_of::<SR<(), T>>(), size_of::<T>(), "{n} declares niches, yet Result<(), {n}> is larger");
    }
    c.ev(room as u64);
    let none: SO<T> = SO::None();
    must!("none-is-some", none.is_none() && !none.is_some(), "{n}");
    for _ in 0..c.scale(12, 3) {
        // None, from a value with scrambled unused bits, and out of it
        let mut v = Slot::new(T::gen(&mut c.rng));
        v.scramble(&mut c.rng);
        let mut m = v.get().clone();
        let raw = unsafe { v.bytes().cast::<T>().read() };
        let v = core::mem::ManuallyDrop::new(v);
        drop(unsafe { core::ptr::read(&v.0) });
        let mut s = SO::Some(raw);
        must!("some-is-none", s.is_some() && !s.is_none(), "{n}: Some({m:?}) is none");
        s.match_ref(|x| must!("some-value", *x == m, "{n}: Some({m:?}) holds {x:?}"), || viol!("some-none", "{n}: Some({m:?})"));
        if c.rng.bool() {
            let r = c.rng.fork();
            m.alter(&mut r.clone());
            s.match_mut_ctx(r, |mut r, mut x| x.alter(&mut r), |_| viol!("some-none", "{n}: Some({m:?})"));
            s.match_ref(|x| must!("some-value", *x == m, "{n}: Some({m:?}) holds {x:?}"), || viol!("some-none", "{n}: altered Some({m:?})"));
        }
        let none: SO<T> = SO::None();
        must!("none-is-some", none.is_none(), "{n}");
        // the empty state of a compact optional is none of the values of the payload
        if size_of::<SO<T>>() == size_of::<T>() && c.rng.bool() {
            let e: SR<(), T> = SR::Err(m.clone());
            must!("err-is-ok", e.is_err(), "{n}: Err({m:?})");
            let o: SR<(), T> = SR::Ok(());
            must!("ok-is-err", o.is_ok(), "{n}: Ok(())");
        }
        let back: core::option::Option<T> = s.into();
        must!("some-back", back == Some(m.clone()), "{n}: Some({m:?}) came back as {back:?}");
        c.ev(h(&m));
    }
    c.nontrivial = true;
    track::check();
}
/// Claims on core sum types that the library declares stable: size, and values through a stable field.
pub fn core_sum<T: IStable + Debug>(c: &mut Case) {
    c.ev(claims::<T>());
    c.nontrivial = true;
}
