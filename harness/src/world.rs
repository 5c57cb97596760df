//! Key and bounds types that the checks are run over.
use crate::case::{Op, MD};
use crate::raw::{dist, key_of, query_box, Kind, RBox, RKey};
use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::geom::line::Line;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Sub};

/// A coordinate type. `of` and `to` map between raw integers and coordinates;
/// floats are raw eighths.
pub trait Coord:
    Clone
    + Copy
    + Ord
    + Debug
    + num_traits::Bounded
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Into<f64>
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    /// Range in which differences are representable.
    const LO: i64;
    const HI: i64;
    /// Full range.
    const FLO: i64;
    const FHI: i64;
    /// Raw units per coordinate unit.
    const UNIT: i64;
    const UNSIGNED: bool;
    fn of(v: i64) -> Self;
    fn to(&self) -> i64;
}

macro_rules! int_coord {
    ($($t:ident $lo:expr, $hi:expr, $u:expr;)*) => {$(
        impl Coord for $t {
            const NAME: &'static str = stringify!($t);
            const LO: i64 = $lo;
            const HI: i64 = $hi;
            const FLO: i64 = $t::MIN as i64;
            const FHI: i64 = $t::MAX as i64;
            const UNIT: i64 = 1;
            const UNSIGNED: bool = $u;
            fn of(v: i64) -> Self { $t::try_from(v).unwrap() }
            fn to(&self) -> i64 { *self as i64 }
        }
    )*};
}
int_coord! {
    i8 -60, 60, false;
    i16 -10000, 10000, false;
    i32 -10000, 10000, false;
    u8 0, 120, true;
    u16 0, 20000, true;
    u32 0, 20000, true;
}
impl Coord for N32 {
    const NAME: &'static str = "N32";
    const LO: i64 = -1000;
    const HI: i64 = 1000;
    const FLO: i64 = -(1 << 22);
    const FHI: i64 = 1 << 22;
    const UNIT: i64 = 8;
    const UNSIGNED: bool = false;
    fn of(v: i64) -> Self {
        n32(v as f32 * 0.125)
    }
    fn to(&self) -> i64 {
        let v = self.raw() as f64 * 8.0;
        v as i64
    }
}
impl Coord for N64 {
    const NAME: &'static str = "N64";
    const LO: i64 = -20000;
    const HI: i64 = 20000;
    const FLO: i64 = -(1 << 50);
    const FHI: i64 = 1 << 50;
    const UNIT: i64 = 8;
    const UNSIGNED: bool = false;
    fn of(v: i64) -> Self {
        n64(v as f64 * 0.125)
    }
    fn to(&self) -> i64 {
        let v = self.raw() * 8.0;
        v as i64
    }
}

/// Floats whose volumes are beyond the range of `f64`, or below it: whole
/// numbers times 2^970, or times 2^-1074.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Scaled<const HUGE: bool>(N64);
pub type Huge = Scaled<true>;
pub type Tiny = Scaled<false>;
impl<const HUGE: bool> Scaled<HUGE> {
    fn step() -> f64 {
        // 2^970, and the least positive number
        f64::from_bits(if HUGE { (970 + 1023) << 52 } else { 1 })
    }
}
impl<const HUGE: bool> num_traits::Bounded for Scaled<HUGE> {
    fn min_value() -> Self {
        Scaled(N64::min_value())
    }
    fn max_value() -> Self {
        Scaled(N64::max_value())
    }
}
impl<const HUGE: bool> From<Scaled<HUGE>> for f64 {
    fn from(x: Scaled<HUGE>) -> f64 {
        x.0.raw()
    }
}
impl<const HUGE: bool> Add for Scaled<HUGE> {
    type Output = Self;
    fn add(self, r: Self) -> Self {
        Scaled(self.0 + r.0)
    }
}
impl<const HUGE: bool> Sub for Scaled<HUGE> {
    type Output = Self;
    fn sub(self, r: Self) -> Self {
        Scaled(self.0 - r.0)
    }
}
impl<const HUGE: bool> Mul for Scaled<HUGE> {
    type Output = Self;
    fn mul(self, r: Self) -> Self {
        Scaled(self.0 * r.0)
    }
}
impl<const HUGE: bool> Coord for Scaled<HUGE> {
    const NAME: &'static str = if HUGE { "huge" } else { "tiny" };
    const LO: i64 = -(1 << 40);
    const HI: i64 = 1 << 40;
    const FLO: i64 = -(1 << 53) + 1;
    const FHI: i64 = (1 << 53) - 1;
    const UNIT: i64 = 1;
    const UNSIGNED: bool = false;
    fn of(v: i64) -> Self {
        Scaled(n64(v as f64 * Self::step()))
    }
    fn to(&self) -> i64 {
        (self.0.raw() / Self::step()) as i64
    }
}

pub fn sv<N: Coord, const D: usize>(p: &[i64; MD]) -> SVec<N, D> {
    SVec(std::array::from_fn(|i| N::of(p[i])))
}
pub fn unsv<N: Coord, const D: usize>(p: &SVec<N, D>) -> [i64; MD] {
    let mut r = [0; MD];
    for i in 0..D {
        r[i] = p.0[i].to();
    }
    r
}
pub fn bx<N: Coord, const D: usize>(b: &RBox) -> SAABB<N, D> {
    AABB {
        min: sv(&b.lo),
        max: sv(&b.hi),
    }
}
pub fn unbx<N: Coord, const D: usize>(b: &SAABB<N, D>) -> RBox {
    RBox {
        lo: unsv(&b.min),
        hi: unsv(&b.max),
    }
}

pub trait World: 'static {
    const D: usize;
    const KIND: Kind;
    /// Whether the bounds of a union are minimal.
    const TIGHT: bool;
    type B: Bounds + Volume + Clone + Debug + 'static;
    type K: Bounded<Self::B> + Eq + Clone + Debug + Borrow<Self::Q> + 'static;
    type Q: ?Sized + Eq + Bounded<Self::B> + 'static;
    fn name() -> String;
    fn range(d: u32) -> (i64, i64);
    /// Raw units per coordinate unit.
    fn unit() -> i64 {
        1
    }
    fn mk(k: &RKey) -> Self::K;
    fn raw(k: &Self::K) -> RKey;
    fn rb(b: &Self::B) -> RBox;

    fn key(op: &Op, idx: usize, d: u32) -> RKey {
        let (lo, hi) = Self::range(d);
        key_of(op, idx, Self::D, Self::KIND, d, lo, hi)
    }
    fn qbox(op: &Op, idx: usize, d: u32) -> RBox {
        let (lo, hi) = Self::range(d);
        query_box(op, idx, Self::D, d, lo, hi)
    }
}

fn nrange<N: Coord>(d: u32) -> (i64, i64) {
    if d == dist::FULL {
        (N::FLO, N::FHI)
    } else {
        (N::LO, N::HI)
    }
}

/// Points.
pub struct PW<N, const D: usize>(PhantomData<N>);
/// Boxes.
pub struct BW<N, const D: usize>(PhantomData<N>);
/// Segments.
pub struct LW<N, const D: usize>(PhantomData<N>);

impl<N: Coord, const D: usize> World for PW<N, D> {
    const D: usize = D;
    const KIND: Kind = Kind::Point;
    const TIGHT: bool = true;
    type B = SAABB<N, D>;
    type K = SVec<N, D>;
    type Q = SVec<N, D>;
    fn name() -> String {
        format!("point{}<{}>", D, N::NAME)
    }
    fn unit() -> i64 {
        N::UNIT
    }
    fn range(d: u32) -> (i64, i64) {
        nrange::<N>(d)
    }
    fn mk(k: &RKey) -> Self::K {
        sv(&k.a)
    }
    fn raw(k: &Self::K) -> RKey {
        let p = unsv(k);
        RKey { a: p, b: p, tag: 0 }
    }
    fn rb(b: &Self::B) -> RBox {
        unbx(b)
    }
}

impl<N: Coord, const D: usize> World for BW<N, D> {
    const D: usize = D;
    const KIND: Kind = Kind::Box;
    const TIGHT: bool = true;
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    type Q = SAABB<N, D>;
    fn name() -> String {
        format!("box{}<{}>", D, N::NAME)
    }
    fn unit() -> i64 {
        N::UNIT
    }
    fn range(d: u32) -> (i64, i64) {
        nrange::<N>(d)
    }
    fn mk(k: &RKey) -> Self::K {
        bx(&RBox { lo: k.a, hi: k.b })
    }
    fn raw(k: &Self::K) -> RKey {
        let b = unbx(k);
        RKey {
            a: b.lo,
            b: b.hi,
            tag: 0,
        }
    }
    fn rb(b: &Self::B) -> RBox {
        unbx(b)
    }
}

impl<N: Coord, const D: usize> World for LW<N, D> {
    const D: usize = D;
    const KIND: Kind = Kind::Line;
    const TIGHT: bool = true;
    type B = SAABB<N, D>;
    type K = Line<SVec<N, D>>;
    type Q = Line<SVec<N, D>>;
    fn name() -> String {
        format!("line{}<{}>", D, N::NAME)
    }
    fn unit() -> i64 {
        N::UNIT
    }
    fn range(d: u32) -> (i64, i64) {
        nrange::<N>(d)
    }
    fn mk(k: &RKey) -> Self::K {
        Line(sv(&k.a), sv(&k.b))
    }
    fn raw(k: &Self::K) -> RKey {
        RKey {
            a: unsv(&k.0),
            b: unsv(&k.1),
            tag: 0,
        }
    }
    fn rb(b: &Self::B) -> RBox {
        unbx(b)
    }
}

/// Boxes in many dimensions. Only the last three of them vary; every box is
/// one unit wide in each of the others.
pub struct WW<N, const D: usize>(PhantomData<N>);
const WIDE: usize = 3;
impl<N: Coord, const D: usize> WW<N, D> {
    fn all(p: &[i64; MD], pad: i64) -> SVec<N, D> {
        SVec(std::array::from_fn(|i| {
            N::of(if i < D - WIDE { pad } else { p[i + WIDE - D] })
        }))
    }
    fn last(b: &SAABB<N, D>) -> RBox {
        let mut r = RBox {
            lo: [0; MD],
            hi: [0; MD],
        };
        for i in 0..WIDE {
            r.lo[i] = b.min.0[D - WIDE + i].to();
            r.hi[i] = b.max.0[D - WIDE + i].to();
        }
        let empty = (0..D).any(|i| b.min.0[i] > b.max.0[i]);
        let padded = (0..D - WIDE).all(|i| b.min.0[i].to() == 0 && b.max.0[i].to() == N::UNIT);
        assert!(empty || padded, "of boxes in [0, 1] came {b:?}");
        r
    }
}
impl<N: Coord, const D: usize> World for WW<N, D> {
    const D: usize = WIDE;
    const KIND: Kind = Kind::Box;
    const TIGHT: bool = true;
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    type Q = SAABB<N, D>;
    fn name() -> String {
        format!("wide{}<{}>", D, N::NAME)
    }
    fn unit() -> i64 {
        N::UNIT
    }
    fn range(d: u32) -> (i64, i64) {
        nrange::<N>(d)
    }
    fn mk(k: &RKey) -> Self::K {
        AABB {
            min: Self::all(&k.a, 0),
            max: Self::all(&k.b, N::UNIT),
        }
    }
    fn raw(k: &Self::K) -> RKey {
        let b = Self::last(k);
        RKey {
            a: b.lo,
            b: b.hi,
            tag: 0,
        }
    }
    fn rb(b: &Self::B) -> RBox {
        Self::last(b)
    }
}

/// Points with a tag that takes part in equality but not in the bounds.
pub struct TW;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TKey {
    pub p: SVec<i32, 2>,
    pub tag: u16,
}
impl Bounded<SAABB<i32, 2>> for TKey {
    fn bounds(&self) -> SAABB<i32, 2> {
        SAABB {
            min: self.p,
            max: self.p,
        }
    }
}
impl World for TW {
    const D: usize = 2;
    const KIND: Kind = Kind::Tagged;
    const TIGHT: bool = true;
    type B = SAABB<i32, 2>;
    type K = TKey;
    type Q = TKey;
    fn name() -> String {
        "tagged2<i32>".into()
    }
    fn range(d: u32) -> (i64, i64) {
        nrange::<i32>(d)
    }
    fn mk(k: &RKey) -> TKey {
        TKey {
            p: sv(&k.a),
            tag: k.tag,
        }
    }
    fn raw(k: &TKey) -> RKey {
        let p = unsv(&k.p);
        RKey {
            a: p,
            b: p,
            tag: k.tag,
        }
    }
    fn rb(b: &Self::B) -> RBox {
        unbx(b)
    }
}

/// User-defined bounds: one-dimensional intervals whose unions are rounded
/// outwards, as the documentation of `Bounds` permits.
#[derive(Clone, Debug, PartialEq)]
pub struct CB {
    pub lo: i64,
    pub hi: i64,
}
impl CB {
    fn is_empty(&self) -> bool {
        self.lo > self.hi
    }
}
impl Contains<CB> for CB {
    fn contains(&self, o: &CB) -> bool {
        o.is_empty() || (self.lo <= o.lo && o.hi <= self.hi)
    }
}
impl Intersects<CB> for CB {
    fn intersects(&self, o: &CB) -> bool {
        !self.is_empty() && !o.is_empty() && self.lo <= o.hi && o.lo <= self.hi
    }
}
impl Bounds for CB {
    fn empty() -> Self {
        CB { lo: 1, hi: 0 }
    }
    fn union(l: &Self, r: &Self) -> Self {
        if l.is_empty() {
            r.clone()
        } else if r.is_empty() {
            l.clone()
        } else {
            CB {
                lo: l.lo.min(r.lo).div_euclid(4) * 4,
                hi: (l.hi.max(r.hi) + 3).div_euclid(4) * 4,
            }
        }
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        bounds
            .into_iter()
            .fold(CB::empty(), |a, b| CB::union(&a, &b))
    }
}
impl Volume for CB {
    fn volume(&self) -> N64 {
        n64((self.hi - self.lo) as f64)
    }
}
fn cb_rb(b: &CB) -> RBox {
    let mut r = RBox {
        lo: [0; MD],
        hi: [0; MD],
    };
    r.lo[0] = b.lo;
    r.hi[0] = b.hi;
    r
}

pub struct CW;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CKey {
    pub lo: i64,
    pub hi: i64,
}
impl Bounded<CB> for CKey {
    fn bounds(&self) -> CB {
        CB {
            lo: self.lo,
            hi: self.hi,
        }
    }
}
impl World for CW {
    const D: usize = 1;
    const KIND: Kind = Kind::Box;
    const TIGHT: bool = false;
    type B = CB;
    type K = CKey;
    type Q = CKey;
    fn name() -> String {
        "coarse1".into()
    }
    fn range(_: u32) -> (i64, i64) {
        (-10000, 10000)
    }
    fn mk(k: &RKey) -> CKey {
        CKey {
            lo: k.a[0],
            hi: k.b[0],
        }
    }
    fn raw(k: &CKey) -> RKey {
        let mut r = RKey {
            a: [0; MD],
            b: [0; MD],
            tag: 0,
        };
        r.a[0] = k.lo;
        r.b[0] = k.hi;
        r
    }
    fn rb(b: &CB) -> RBox {
        cb_rb(b)
    }
}

/// Strings looked up as `str`; a string's bounds are its leading number.
pub struct SW;
fn str_raw(s: &str) -> RKey {
    let (n, t) = s.split_once('#').unwrap();
    let mut r = RKey {
        a: [0; MD],
        b: [0; MD],
        tag: t.parse().unwrap(),
    };
    r.a[0] = n.parse().unwrap();
    r.b[0] = r.a[0];
    r
}
impl Bounded<CB> for str {
    fn bounds(&self) -> CB {
        let k = str_raw(self);
        CB {
            lo: k.a[0],
            hi: k.b[0],
        }
    }
}
impl Bounded<CB> for String {
    fn bounds(&self) -> CB {
        self.as_str().bounds()
    }
}
impl World for SW {
    const D: usize = 1;
    const KIND: Kind = Kind::Tagged;
    const TIGHT: bool = false;
    type B = CB;
    type K = String;
    type Q = str;
    fn name() -> String {
        "string".into()
    }
    fn range(_: u32) -> (i64, i64) {
        (-10000, 10000)
    }
    fn mk(k: &RKey) -> String {
        format!("{}#{}", k.a[0], k.tag)
    }
    fn raw(k: &String) -> RKey {
        str_raw(k)
    }
    fn rb(b: &CB) -> RBox {
        cb_rb(b)
    }
}

/// Runs a generic function for the world with the given index.
#[macro_export]
macro_rules! with_world {
    ($idx:expr, $f:ident ( $($a:expr),* )) => {{
        use $crate::world::*;
        use noisy_float::types::{N32, N64};
        match $idx % $crate::world::NWORLDS {
            0 => $f::<BW<i32, 2>>($($a),*),
            1 => $f::<PW<i32, 2>>($($a),*),
            2 => $f::<LW<i32, 2>>($($a),*),
            3 => $f::<BW<i32, 1>>($($a),*),
            4 => $f::<PW<N64, 3>>($($a),*),
            5 => $f::<BW<N32, 3>>($($a),*),
            6 => $f::<BW<u32, 2>>($($a),*),
            7 => $f::<PW<i16, 4>>($($a),*),
            8 => $f::<TW>($($a),*),
            9 => $f::<CW>($($a),*),
            10 => $f::<SW>($($a),*),
            11 => $f::<WW<i16, 13>>($($a),*),
            _ => $f::<BW<i8, 5>>($($a),*),
        }
    }};
}
pub const NWORLDS: u32 = 13;

/// The same for checks whose code is large: fewer worlds.
#[macro_export]
macro_rules! with_few_worlds {
    ($idx:expr, $f:ident ( $($a:expr),* )) => {{
        use $crate::world::*;
        match $idx % $crate::world::NFEW {
            0 => $f::<BW<i32, 2>>($($a),*),
            1 => $f::<PW<i32, 2>>($($a),*),
            2 => $f::<TW>($($a),*),
            3 => $f::<CW>($($a),*),
            _ => $f::<BW<noisy_float::types::N64, 3>>($($a),*),
        }
    }};
}
pub const NFEW: u32 = 5;

/// (max_children, min_children)
pub const CONFIGS: [(usize, usize); 28] = [
    (4, 2),
    (2, 1),
    (3, 1),
    (3, 2),
    (4, 1),
    (5, 3),
    (5, 2),
    (6, 3),
    (6, 2),
    (7, 4),
    (8, 4),
    (8, 1),
    (9, 5),
    (10, 4),
    (12, 6),
    (16, 8),
    (16, 2),
    (32, 16),
    (64, 20),
    (200, 100),
    // with many entries only
    (100, 3),
    (128, 64),
    (255, 128),
    (256, 20),
    (257, 129),
    (300, 7),
    (1000, 400),
    (70_000, 2),
];
