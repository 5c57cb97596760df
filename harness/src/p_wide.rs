//! Boxes and distances over coordinates that do not convert to f64 (64 and 128
//! bits wide), and over a vector type of the user's own whose dimensions have
//! different types.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::{ensure, fail};
use rusty_rtree::bounds::{Bounded, Bounds, AABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::{SVec, Vector};
use std::fmt::Debug;

struct R(u64);
impl R {
    fn of(op: &Op) -> R {
        let mut h = op.s as u64 | (op.k as u64) << 16;
        for i in 0..MD {
            for v in [op.c[i], op.e[i]] {
                h = (h ^ v as u16 as u64).wrapping_mul(0x9e3779b97f4a7c15);
                h ^= h >> 31;
            }
        }
        R(h | 1)
    }
    fn next(&mut self) -> u64 {
        self.0 = self
            .0
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        self.0 >> 31 ^ self.0 << 33
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 20) % n
    }
}

/// Whole numbers as positions: mapped to coordinates in order.
pub trait Wide: Copy + Ord + Debug {
    const MIN: i128;
    const MAX: i128;
    fn of(x: i128) -> Self;
}
macro_rules! wide {
    ($($t:ident)*) => {$(
        impl Wide for $t {
            // u128 above the largest i128 is left out
            const MIN: i128 = $t::MIN as i128;
            const MAX: i128 = if $t::MAX as u128 > i128::MAX as u128 { i128::MAX } else { $t::MAX as i128 };
            fn of(x: i128) -> Self { $t::try_from(x).unwrap() }
        }
    )*};
}
wide!(i8 u16 i64 u64 i128 u128 isize usize);

/// A vector type and the range of every dimension.
trait V: Vector + Clone + PartialEq + Debug {
    const D: usize;
    fn range(i: usize) -> (i128, i128);
    fn of(p: &[i128; 4]) -> Self;
}
macro_rules! svecs {
    ($($t:ident $d:literal;)*) => {$(
        impl V for SVec<$t, $d> {
            const D: usize = $d;
            fn range(_: usize) -> (i128, i128) { (<$t as Wide>::MIN, <$t as Wide>::MAX) }
            fn of(p: &[i128; 4]) -> Self { SVec(std::array::from_fn(|i| <$t as Wide>::of(p[i]))) }
        }
    )*};
}
svecs! { i64 1; i64 2; i64 3; u64 2; u64 4; i128 2; i128 3; u128 2; isize 3; usize 2; }

/// Dimensions of different types, as a user might define them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mixed {
    a: i8,
    b: u16,
    c: i64,
    d: bool,
}
impl Vector for Mixed {
    fn min_value() -> Self {
        Mixed {
            a: i8::MIN,
            b: 0,
            c: i64::MIN,
            d: false,
        }
    }
    fn max_value() -> Self {
        Mixed {
            a: i8::MAX,
            b: u16::MAX,
            c: i64::MAX,
            d: true,
        }
    }
    fn all_le(&self, r: &Self) -> bool {
        self.a <= r.a && self.b <= r.b && self.c <= r.c && self.d <= r.d
    }
    fn all_ge(&self, r: &Self) -> bool {
        self.a >= r.a && self.b >= r.b && self.c >= r.c && self.d >= r.d
    }
    fn componentwise_min(&self, r: &Self) -> Self {
        Mixed {
            a: self.a.min(r.a),
            b: self.b.min(r.b),
            c: self.c.min(r.c),
            d: self.d.min(r.d),
        }
    }
    fn componentwise_max(&self, r: &Self) -> Self {
        Mixed {
            a: self.a.max(r.a),
            b: self.b.max(r.b),
            c: self.c.max(r.c),
            d: self.d.max(r.d),
        }
    }
}
impl V for Mixed {
    const D: usize = 4;
    fn range(i: usize) -> (i128, i128) {
        match i {
            0 => (i8::MIN as i128, i8::MAX as i128),
            1 => (0, u16::MAX as i128),
            2 => (i64::MIN as i128, i64::MAX as i128),
            _ => (0, 1),
        }
    }
    fn of(p: &[i128; 4]) -> Self {
        Mixed {
            a: p[0] as i8,
            b: p[1] as u16,
            c: p[2] as i64,
            d: p[3] == 1,
        }
    }
}
/// The distance in another unit than the coordinates.
impl PointDistance<Mixed, i128> for Mixed {
    fn dist_sq(&self, o: &Mixed) -> i128 {
        let f = |x: i128| x * x;
        f(self.a as i128 - o.a as i128)
            + f(self.b as i128 - o.b as i128)
            + f((self.c / 1024) as i128 - (o.c / 1024) as i128)
            + f(self.d as i128 - o.d as i128)
    }
}

fn number(r: &mut R, near: i128, (lo, hi): (i128, i128)) -> i128 {
    let small = r.below(7) as i128 - 3;
    match r.below(9) {
        0 => lo.saturating_add(small.abs()),
        1 => hi.saturating_sub(small.abs()),
        2 => small.saturating_add(if lo == 0 { hi / 2 } else { 0 }),
        3 => {
            let w = ((r.next() as u128) << 64 | r.next() as u128) as i128;
            if lo == 0 {
                (w & i128::MAX) % hi.max(1)
            } else {
                w % hi
            }
        }
        _ => near.saturating_add(small),
    }
    .clamp(lo, hi)
}

fn point<T: V>(r: &mut R, near: &[i128; 4]) -> [i128; 4] {
    let mut p = [0; 4];
    for i in 0..T::D {
        p[i] = number(r, near[i], T::range(i));
    }
    p
}

struct B {
    lo: [i128; 4],
    hi: [i128; 4],
}
fn box_<T: V>(r: &mut R, near: &[i128; 4]) -> B {
    let (p, q) = (point::<T>(r, near), point::<T>(r, near));
    B {
        lo: std::array::from_fn(|i| p[i].min(q[i])),
        hi: std::array::from_fn(|i| p[i].max(q[i])),
    }
}
fn real<T: V>(b: &B) -> AABB<T> {
    AABB {
        min: T::of(&b.lo),
        max: T::of(&b.hi),
    }
}

fn algebra<T: V>(case: &Case, st: &mut Stats) -> Res {
    let name = std::any::type_name::<T>();
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = R::of(op);
        let near = point::<T>(&mut r, &[0; 4]);
        let (a, b) = (box_::<T>(&mut r, &near), box_::<T>(&mut r, &near));
        let near_corner = if r.below(2) == 0 { a.lo } else { b.hi };
        let p = point::<T>(&mut r, &near_corner);
        let (xa, xb, xp) = (real::<T>(&a), real::<T>(&b), T::of(&p));
        let ctx = || format!("op {i} ({name}): a {xa:?} b {xb:?} p {xp:?}");
        let all = |f: &dyn Fn(usize) -> bool| (0..T::D).all(f);
        let isect = all(&|j| a.lo[j] <= b.hi[j] && b.lo[j] <= a.hi[j]);
        let (ab, ba) = (
            all(&|j| a.lo[j] <= b.lo[j] && b.hi[j] <= a.hi[j]),
            all(&|j| b.lo[j] <= a.lo[j] && a.hi[j] <= b.hi[j]),
        );
        let checks = [
            (
                "a.intersects(b)",
                Intersects::<AABB<T>>::intersects(&xa, &xb),
                isect,
            ),
            (
                "b.intersects(a)",
                Intersects::<AABB<T>>::intersects(&xb, &xa),
                isect,
            ),
            ("a.contains(b)", Contains::<AABB<T>>::contains(&xa, &xb), ab),
            ("b.contains(a)", Contains::<AABB<T>>::contains(&xb, &xa), ba),
            (
                "a.contains(p)",
                Contains::<T>::contains(&xa, &xp),
                all(&|j| a.lo[j] <= p[j] && p[j] <= a.hi[j]),
            ),
            (
                "b.intersects(p)",
                Intersects::<T>::intersects(&xb, &xp),
                all(&|j| b.lo[j] <= p[j] && p[j] <= b.hi[j]),
            ),
        ];
        for (what, got, exp) in checks {
            ensure!(got == exp, "{}: {what} should be {exp}", ctx());
        }
        let u = real::<T>(&B {
            lo: std::array::from_fn(|j| a.lo[j].min(b.lo[j])),
            hi: std::array::from_fn(|j| a.hi[j].max(b.hi[j])),
        });
        let copy = |x: &AABB<T>| AABB {
            min: x.min.clone(),
            max: x.max.clone(),
        };
        let e = AABB::<T>::empty();
        let same = [
            ("union(a, b)", AABB::union(&xa, &xb), &u),
            ("union(b, a)", AABB::union(&xb, &xa), &u),
            (
                "union_all([b, a])",
                AABB::union_all([copy(&xb), copy(&xa)]),
                &u,
            ),
            (
                "union_all([a, b, a])",
                AABB::union_all([copy(&xa), copy(&xb), copy(&xa)]),
                &u,
            ),
            ("union(empty, a)", AABB::union(&e, &xa), &xa),
            ("union(b, empty)", AABB::union(&xb, &e), &xb),
            ("union_all([])", AABB::union_all([]), &e),
        ];
        for (what, got, exp) in &same {
            ensure!(
                &got == exp,
                "{}: {what} is {got:?}, should be {exp:?}",
                ctx()
            );
        }
        ensure!(
            !Contains::<T>::contains(&e, &xp),
            "{}: the empty box contains p",
            ctx()
        );
        let pb: AABB<T> = Bounded::bounds(&xp);
        ensure!(
            pb.min == xp && pb.max == xp,
            "{}: the bounds of p are {pb:?}",
            ctx()
        );
        st.hit("wide_pairs_of_boxes");
        st.nontrivial |= isect && xa != xb;
    }
    Ok(())
}

fn distances_of<T, N>(
    case: &Case,
    st: &mut Stats,
    span: i128,
    exact: impl Fn(&[i128; 4], &[i128; 4]) -> i128,
) -> Res
where
    T: V + PointDistance<T, N>,
    N: Ord + Copy + Debug + TryInto<i128>,
{
    let name = std::any::type_name::<T>();
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = R::of(op);
        // the point is nowhere above the box, for unsigned types, and
        // distances are representable
        let p = point::<T>(&mut r, &[0; 4]);
        let mut b = B { lo: p, hi: p };
        let s = match r.below(3) {
            0 => 4,
            1 => span.min(1000),
            _ => span,
        };
        let mut q = p;
        let mut near = p;
        for j in 0..T::D {
            let top = T::range(j).1;
            let mut up = |x: i128| -> i128 {
                let room = top.saturating_sub(x).min(s);
                x + if room <= 0 {
                    0
                } else {
                    r.next() as i128 % (room + 1)
                }
            };
            let x = up(p[j]);
            let y = up(x);
            // inside the box in this dimension, or below it
            b.lo[j] = if op.e[j] % 3 == 0 { p[j] } else { x };
            b.hi[j] = y;
            q[j] = y;
            near[j] = p[j].max(b.lo[j]);
        }
        let (xp, xq, xb) = (T::of(&p), T::of(&q), real::<T>(&b));
        let ctx = || format!("op {i} ({name}): p {xp:?} q {xq:?} box {xb:?}");
        let num = |n: N| -> Result<i128, String> {
            n.try_into()
                .map_err(|_| "a distance is too large".to_string())
        };
        let exp = exact(&q, &p);
        ensure!(
            num(xq.dist_sq(&xp))? == exp,
            "{}: q.dist_sq(p) is {:?}, should be {exp}",
            ctx(),
            xq.dist_sq(&xp)
        );
        let exp = exact(&near, &p);
        let got = PointDistance::<T, N>::dist_sq(&xb, &xp);
        ensure!(
            num(got)? == exp,
            "{}: box.dist_sq(p) is {got:?}, should be {exp}",
            ctx()
        );
        let rank = EuclideanDistanceRanking::<T, N>::new(T::of(&p));
        let (got, key) = (
            Ranking::<AABB<T>, T>::bounds_min(&rank, &xb),
            Ranking::<AABB<T>, T>::rank_key(&rank, &xq),
        );
        if num(got)? != exp || num(key)? != exact(&q, &p) {
            fail!(
                "{}: the ranking of the box is {got:?} and of q {key:?}",
                ctx()
            );
        }
        st.hit("wide_distances");
        st.nontrivial |= exp > 0;
    }
    Ok(())
}

pub fn boxes(case: &Case, st: &mut Stats) -> Res {
    match case.par[0] % 12 {
        0 => algebra::<SVec<i64, 1>>(case, st),
        1 => algebra::<SVec<i64, 2>>(case, st),
        2 => algebra::<SVec<i64, 3>>(case, st),
        3 => algebra::<SVec<u64, 2>>(case, st),
        4 => algebra::<SVec<u64, 4>>(case, st),
        5 => algebra::<SVec<i128, 2>>(case, st),
        6 => algebra::<SVec<i128, 3>>(case, st),
        7 => algebra::<SVec<u128, 2>>(case, st),
        8 => algebra::<SVec<isize, 3>>(case, st),
        9 => algebra::<SVec<usize, 2>>(case, st),
        _ => algebra::<Mixed>(case, st),
    }
}

pub fn distances(case: &Case, st: &mut Stats) -> Res {
    let plain = |d: usize| {
        move |p: &[i128; 4], q: &[i128; 4]| -> i128 { (0..d).map(|j| (p[j] - q[j]).pow(2)).sum() }
    };
    match case.par[0] % 8 {
        0 => distances_of::<SVec<i64, 1>, i64>(case, st, 1_400_000_000, plain(1)),
        1 => distances_of::<SVec<i64, 3>, i64>(case, st, 800_000_000, plain(3)),
        2 => distances_of::<SVec<u64, 2>, u64>(case, st, 1_500_000_000, plain(2)),
        3 => distances_of::<SVec<i128, 2>, i128>(case, st, 1 << 61, plain(2)),
        4 => distances_of::<SVec<u128, 2>, u128>(case, st, 1 << 61, plain(2)),
        5 => distances_of::<SVec<usize, 2>, usize>(case, st, 1_500_000_000, plain(2)),
        _ => distances_of::<Mixed, i128>(case, st, 1 << 60, |p, q| {
            let c = |x: i128| x / 1024;
            (p[0] - q[0]).pow(2)
                + (p[1] - q[1]).pow(2)
                + (c(p[2]) - c(q[2])).pow(2)
                + (p[3] - q[3]).pow(2)
        }),
    }
}
