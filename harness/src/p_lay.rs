//! Memory safety (C19): trees over entries and bounds of many layouts, under a
//! checking allocator, and under AddressSanitizer and Miri where the same
//! cases are run by `vexec`.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::eng::Val;
use crate::ensure;
use crate::inst::Inst;
use crate::p_mem::forest;
use crate::raw::{Kind, RBox, RKey};
use crate::world::{World, CB, CW};
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use std::fmt::Debug;
use std::num::NonZeroU8;
use std::rc::Rc;

/// A one-dimensional interval that some bounds type stores in its own way.
trait Store: Clone + Debug + 'static {
    fn put(lo: i64, hi: i64) -> Self;
    fn lo(&self) -> i64;
    fn hi(&self) -> i64;
}

#[derive(Clone, Debug)]
struct SB<S>(S);
impl<S: Store> SB<S> {
    fn none(&self) -> bool {
        self.0.lo() > self.0.hi()
    }
}
impl<S: Store> Contains<SB<S>> for SB<S> {
    fn contains(&self, o: &SB<S>) -> bool {
        o.none() || (self.0.lo() <= o.0.lo() && o.0.hi() <= self.0.hi())
    }
}
impl<S: Store> Intersects<SB<S>> for SB<S> {
    fn intersects(&self, o: &SB<S>) -> bool {
        !self.none() && !o.none() && self.0.lo() <= o.0.hi() && o.0.lo() <= self.0.hi()
    }
}
impl<S: Store> Bounds for SB<S> {
    fn empty() -> Self {
        SB(S::put(1, 0))
    }
    fn union(l: &Self, r: &Self) -> Self {
        if l.none() {
            r.clone()
        } else if r.none() {
            l.clone()
        } else {
            SB(S::put(l.0.lo().min(r.0.lo()), l.0.hi().max(r.0.hi())))
        }
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        bounds
            .into_iter()
            .fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl<S: Store> Volume for SB<S> {
    fn volume(&self) -> N64 {
        n64((self.0.hi() - self.0.lo()) as f64)
    }
}

/// Bounds without any size: everything is everywhere.
#[derive(Clone, Debug)]
struct Nowhere;
impl Store for Nowhere {
    fn put(_: i64, _: i64) -> Self {
        Nowhere
    }
    fn lo(&self) -> i64 {
        -1000
    }
    fn hi(&self) -> i64 {
        1000
    }
}
#[derive(Clone, Debug)]
struct Bytes(i8, i8);
impl Store for Bytes {
    fn put(lo: i64, hi: i64) -> Self {
        Bytes(lo as i8, hi as i8)
    }
    fn lo(&self) -> i64 {
        self.0 as i64
    }
    fn hi(&self) -> i64 {
        self.1 as i64
    }
}
#[derive(Clone, Debug)]
struct Heap(Box<i64>, Vec<i64>);
impl Store for Heap {
    fn put(lo: i64, hi: i64) -> Self {
        Heap(Box::new(lo), vec![hi])
    }
    fn lo(&self) -> i64 {
        *self.0
    }
    fn hi(&self) -> i64 {
        self.1[0]
    }
}
#[derive(Clone, Debug)]
#[repr(align(64))]
struct Wide(i64, i64, [u8; 3]);
impl Store for Wide {
    fn put(lo: i64, hi: i64) -> Self {
        Wide(lo, hi, [7; 3])
    }
    fn lo(&self) -> i64 {
        self.0
    }
    fn hi(&self) -> i64 {
        self.1 + self.2[0] as i64 - 7
    }
}

/// A key type: how it stores a number.
trait KStore: Clone + Eq + Debug + 'static {
    type S: Store;
    const LO: i64;
    const HI: i64;
    fn put(x: i64) -> Self;
    fn x(&self) -> i64;
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct KB<K>(K);
impl<K: KStore> Bounded<SB<K::S>> for KB<K> {
    fn bounds(&self) -> SB<K::S> {
        SB(K::S::put(self.0.x(), self.0.x()))
    }
}

struct LayW<K>(std::marker::PhantomData<K>);
impl<K: KStore> World for LayW<K> {
    const D: usize = 1;
    const KIND: Kind = Kind::Point;
    const TIGHT: bool = false;
    type B = SB<K::S>;
    type K = KB<K>;
    type Q = KB<K>;
    fn name() -> String {
        std::any::type_name::<K>().to_string()
    }
    fn range(_: u32) -> (i64, i64) {
        (K::LO, K::HI)
    }
    fn key(op: &Op, idx: usize, d: u32) -> RKey {
        // the key as it will be read back
        let (lo, hi) = Self::range(d);
        Self::raw(&Self::mk(&crate::raw::key_of(
            op,
            idx,
            1,
            Kind::Point,
            d,
            lo,
            hi,
        )))
    }
    fn mk(k: &RKey) -> KB<K> {
        KB(K::put(k.a[0]))
    }
    fn raw(k: &KB<K>) -> RKey {
        let mut r = RKey {
            a: [0; MD],
            b: [0; MD],
            tag: 0,
        };
        r.a[0] = k.0.x();
        r.b[0] = r.a[0];
        r
    }
    fn rb(b: &SB<K::S>) -> RBox {
        let mut r = RBox {
            lo: [0; MD],
            hi: [0; MD],
        };
        r.lo[0] = b.0.lo();
        r.hi[0] = b.0.hi();
        r
    }
}

macro_rules! kstore {
    ($($t:ty, $s:ty, $lo:expr, $hi:expr, |$x:ident| $put:expr, |$k:ident| $get:expr;)*) => {$(
        impl KStore for $t {
            type S = $s;
            const LO: i64 = $lo;
            const HI: i64 = $hi;
            fn put($x: i64) -> Self { $put }
            fn x(&self) -> i64 { let $k = self; $get }
        }
    )*};
}
/// Zero-sized, but aligned.
#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(align(32))]
struct ZeroAligned;
#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(align(128))]
struct KAligned(i64);
#[derive(Clone, PartialEq, Eq, Debug)]
struct KLarge([i64; 33]);
#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(C, packed)]
struct KPacked(u8, i64);
impl KPacked {
    fn get(&self) -> i64 {
        let v = self.1;
        v
    }
}
kstore! {
    (), Nowhere, 0, 0, |_x| (), |_k| 0;
    ZeroAligned, Heap, 0, 0, |_x| ZeroAligned, |_k| 0;
    i8, Bytes, -100, 100, |x| x as i8, |k| *k as i64;
    i64, Heap, -10000, 10000, |x| x, |k| *k;
    KAligned, Wide, -10000, 10000, |x| KAligned(x), |k| k.0;
    KLarge, Bytes, -100, 100, |x| KLarge([x; 33]), |k| if k.0.iter().all(|y| *y == k.0[0]) { k.0[32] } else { 999999 };
    KPacked, Wide, -10000, 10000, |x| KPacked(3, x), |k| k.get();
    Box<i64>, Heap, -10000, 10000, |x| Box::new(x), |k| **k;
    String, Heap, -10000, 10000, |x| format!("key {x}"), |k| k[4..].parse().unwrap();
    Rc<i64>, Bytes, -100, 100, |x| Rc::new(x), |k| **k;
    Option<Box<i64>>, Heap, -10000, 10000, |x| if x == 0 { None } else { Some(Box::new(x)) }, |k| k.as_ref().map_or(0, |b| **b);
}

macro_rules! val {
    ($($t:ty, $ids:expr, |$n:ident| $norm:expr, |$x:ident| $mk:expr, |$v:ident| $get:expr;)*) => {$(
        impl Val for $t {
            const IDS: bool = $ids;
            fn norm($n: u32) -> u32 { $norm }
            fn mk($x: u32) -> Self { $mk }
            fn id(&self) -> u32 { let $v = self; $get }
            fn set(&mut self, id: u32) { *self = Self::mk(id); }
        }
    )*};
}
#[derive(Clone, Debug)]
#[repr(align(64))]
struct VAligned(u8);
#[derive(Clone, Debug)]
#[repr(align(1024))]
struct VPage(u32);
#[derive(Clone, Debug)]
#[repr(align(16))]
struct VZero;
#[derive(Clone, Debug)]
struct VLarge([u32; 77]);
#[derive(Clone, Debug)]
enum VEnum {
    A(Box<u32>),
    B(String, u8),
    C,
}
val! {
    (), false, |_n| 0, |_x| (), |_v| 0;
    VZero, false, |_n| 0, |_x| VZero, |_v| 0;
    u8, false, |n| n % 256, |x| x as u8, |v| *v as u32;
    NonZeroU8, false, |n| n % 255 + 1, |x| NonZeroU8::new(x as u8).unwrap(), |v| v.get() as u32;
    VAligned, false, |n| n % 256, |x| VAligned(x as u8), |v| v.0 as u32;
    VPage, true, |n| n, |x| VPage(x), |v| v.0;
    VLarge, true, |n| n, |x| VLarge([x; 77]), |v| if v.0.iter().all(|y| *y == v.0[0]) { v.0[76] } else { u32::MAX };
    String, true, |n| n, |x| x.to_string(), |v| v.parse().unwrap();
    Box<u32>, true, |n| n, |x| Box::new(x), |v| **v;
    Vec<String>, true, |n| n, |x| vec![x.to_string(); x as usize % 3 + 1], |v| v[0].parse().unwrap();
    VEnum, false, |n| if n % 3 == 0 { 0 } else { n }, |x| match x % 3 {
        0 => VEnum::C,
        1 => VEnum::A(Box::new(x)),
        _ => VEnum::B(x.to_string(), 1),
    }, |v| match v {
        VEnum::A(b) => **b,
        VEnum::B(s, _) => s.parse().unwrap(),
        VEnum::C => 0,
    };
}

pub const NLAYOUTS: u32 = 16;

/// C19
#[cfg(any(feature = "c19"))]
pub fn layouts(case: &Case, st: &mut Stats) -> Res {
    crate::alloc::take_error();
    let before = crate::alloc::live();
    let l = case.par[0] % NLAYOUTS;
    let r = match l {
        0 => forest::<LayW<()>, ()>(case, st, false),
        1 => forest::<LayW<ZeroAligned>, VZero>(case, st, false),
        2 => forest::<LayW<()>, VPage>(case, st, false),
        3 => forest::<LayW<i64>, ()>(case, st, false),
        4 => forest::<LayW<i8>, u8>(case, st, false),
        5 => forest::<LayW<KAligned>, NonZeroU8>(case, st, false),
        6 => forest::<LayW<Box<i64>>, String>(case, st, false),
        7 => forest::<LayW<KLarge>, VAligned>(case, st, false),
        8 => forest::<LayW<KPacked>, VLarge>(case, st, false),
        9 => forest::<LayW<String>, Vec<String>>(case, st, false),
        10 => forest::<LayW<Rc<i64>>, Box<u32>>(case, st, false),
        11 => forest::<LayW<Option<Box<i64>>>, VEnum>(case, st, false),
        12 => forest::<LayW<i8>, VPage>(case, st, false),
        13 => forest::<LayW<ZeroAligned>, Box<u32>>(case, st, false),
        14 => forest::<Inst<CW>, u32>(case, st, false),
        _ => forest::<CW, String>(case, st, false),
    };
    let nt = st.nontrivial;
    st.when(nt && l < 2, "nontrivial_cases_of_zero_sized_entries");
    st.when(
        nt && [2, 5, 7, 12].contains(&l),
        "nontrivial_cases_of_over_aligned_entries",
    );
    st.when(
        nt && [6, 9, 10, 11, 13].contains(&l),
        "nontrivial_cases_of_entries_owning_memory",
    );
    if l == 14 {
        // the registry of instances is kept on the heap
        crate::inst::reset();
    }
    r?;
    crate::alloc::check_held();
    if let Some(x) = crate::alloc::take_error() {
        return Err(x.to_string());
    }
    let after = crate::alloc::live();
    ensure!(
        l == 14 || after == before,
        "{} allocations are left after everything was dropped",
        after - before
    );
    let _ = CB::empty();
    Ok(())
}
