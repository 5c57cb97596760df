//! Boxes, shapes, distances and the built-in filters, against exact integer
//! and rational arithmetic. The operations of a case are independent samples,
//! except for the built-in filters and rankings, which need trees.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::eng::*;
use crate::raw::{coord, dist, extent, RBox, RKey};
use crate::world::*;
use crate::{ensure, fail};
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::line::Line;
use rusty_rtree::geom::ray::Ray;
use rusty_rtree::geom::sphere::Sphere;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::{SVec, Vector};
use std::cmp::Ordering;

pub type P = [i64; MD];

/// Calls a function for one of the coordinate types and dimensions.
macro_rules! types {
    ($idx:expr, $f:ident ( $($a:expr),* )) => {{
        match $idx % 40 {
            0 => $f::<i32, 2>($($a),*), 1 => $f::<i32, 3>($($a),*),
            2 => $f::<N64, 2>($($a),*), 3 => $f::<N64, 3>($($a),*),
            4 => $f::<i8, 1>($($a),*), 5 => $f::<i8, 2>($($a),*), 6 => $f::<i8, 3>($($a),*),
            7 => $f::<i8, 4>($($a),*), 8 => $f::<i8, 6>($($a),*),
            9 => $f::<i16, 1>($($a),*), 10 => $f::<i16, 2>($($a),*), 11 => $f::<i16, 3>($($a),*),
            12 => $f::<i16, 5>($($a),*), 13 => $f::<i16, 6>($($a),*),
            14 => $f::<i32, 1>($($a),*), 15 => $f::<i32, 4>($($a),*), 16 => $f::<i32, 5>($($a),*),
            17 => $f::<i32, 6>($($a),*),
            18 => $f::<u8, 1>($($a),*), 19 => $f::<u8, 2>($($a),*), 20 => $f::<u8, 3>($($a),*),
            21 => $f::<u8, 5>($($a),*),
            22 => $f::<u16, 1>($($a),*), 23 => $f::<u16, 2>($($a),*), 24 => $f::<u16, 4>($($a),*),
            25 => $f::<u16, 6>($($a),*),
            26 => $f::<u32, 1>($($a),*), 27 => $f::<u32, 2>($($a),*), 28 => $f::<u32, 3>($($a),*),
            29 => $f::<u32, 5>($($a),*),
            30 => $f::<N32, 1>($($a),*), 31 => $f::<N32, 2>($($a),*), 32 => $f::<N32, 3>($($a),*),
            33 => $f::<N32, 4>($($a),*), 34 => $f::<N32, 6>($($a),*),
            35 => $f::<N64, 1>($($a),*), 36 => $f::<N64, 4>($($a),*), 37 => $f::<N64, 5>($($a),*),
            38 => $f::<N64, 6>($($a),*),
            _ => $f::<i32, 2>($($a),*),
        }
    }};
}

/// A cheap generator for the details of one sample.
struct Rnd(u64);
impl Rnd {
    fn of(op: &Op) -> Rnd {
        let mut h = op.s as u64 | (op.k as u64) << 16;
        for i in 0..MD {
            h = h.wrapping_mul(0x9e3779b97f4a7c15) ^ (op.e[i] as u16 as u64) << 7;
            h ^= h >> 29;
        }
        Rnd(h | 1)
    }
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self
            .0
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.next(n) == 0
    }
}

fn random_box<N: Coord, const D: usize>(op: &Op, d: u32, lo: i64, hi: i64) -> RBox {
    let mut b = RBox {
        lo: [0; MD],
        hi: [0; MD],
    };
    for i in 0..D {
        b.lo[i] = coord(d, op.c[i], 0, lo, hi);
        b.hi[i] = b.lo[i].saturating_add(extent(d, op.e[i], lo, hi)).min(hi);
    }
    b
}

/// A box in some relation to the first: equal, touching, a step apart, nested,
/// overlapping, degenerate or unrelated, separately in every dimension.
fn related<const D: usize>(a: &RBox, r: &mut Rnd, lo: i64, hi: i64) -> RBox {
    let mut b = *a;
    let mode = r.next(4);
    for i in 0..D {
        let len = a.hi[i] as i128 - a.lo[i] as i128;
        let inside = |r: &mut Rnd| -> i64 {
            if len == 0 {
                a.lo[i]
            } else {
                (a.lo[i] as i128 + (r.next(1 << 30) as i128 * (len + 1) >> 30)) as i64
            }
        };
        // mostly overlapping, so that the other dimensions decide
        let how = match mode {
            0 => r.next(4),
            1 => {
                if r.one_in(3) {
                    4 + r.next(6)
                } else {
                    r.next(4)
                }
            }
            _ => r.next(10),
        };
        let (x, y) = match how {
            0 => (a.lo[i], a.hi[i]),
            1 => {
                let (p, q) = (inside(r), inside(r));
                (p.min(q), p.max(q))
            }
            2 => {
                let p = inside(r);
                (p, p)
            }
            3 => (
                a.lo[i].saturating_sub(r.next(4) as i64),
                a.hi[i].saturating_add(r.next(4) as i64),
            ),
            4 => (a.hi[i], a.hi[i].saturating_add(r.next(9) as i64)),
            5 => (a.lo[i].saturating_sub(r.next(9) as i64), a.lo[i]),
            6 => (
                a.hi[i].saturating_add(1),
                a.hi[i].saturating_add(1 + r.next(9) as i64),
            ),
            7 => (
                a.lo[i].saturating_sub(1 + r.next(9) as i64),
                a.lo[i].saturating_sub(1),
            ),
            8 => (lo, hi),
            _ => {
                let p = inside(r);
                (p, p.saturating_add(r.next(20) as i64))
            }
        };
        b.lo[i] = x.clamp(lo, hi);
        b.hi[i] = y.clamp(lo, hi).max(b.lo[i]);
    }
    b
}

fn corner<const D: usize>(b: &RBox, r: &mut Rnd, lo: i64, hi: i64) -> P {
    let mut p = [0; MD];
    let step = r.next(3);
    for i in 0..D {
        let v = match r.next(5) {
            0 => b.lo[i],
            1 => b.hi[i],
            2 => b.lo[i] + ((b.hi[i] as i128 - b.lo[i] as i128) / 2) as i64,
            _ if step == 0 => b.hi[i].saturating_add(1),
            _ if step == 1 => b.lo[i].saturating_sub(1),
            _ => b.hi[i],
        };
        p[i] = v.clamp(lo, hi);
    }
    p
}

fn has_point<const D: usize>(b: &RBox, p: &P) -> bool {
    (0..D).all(|i| b.lo[i] <= p[i] && p[i] <= b.hi[i])
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

fn show<const D: usize>(b: &RBox) -> String {
    format!("{:?}..{:?}", &b.lo[..D], &b.hi[..D])
}

// ---------------------------------------------------------------- C06

fn boxes_of<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    let (lo, hi) = (N::FLO, N::FHI);
    let d = case.par[2];
    let name = format!("{}^{}", N::NAME, D);
    let mut all: Vec<RBox> = Vec::new();
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = Rnd::of(op);
        let a = random_box::<N, D>(op, d, lo, hi);
        let b = if r.one_in(5) && !all.is_empty() {
            all[r.next(all.len() as u64) as usize]
        } else {
            related::<D>(&a, &mut r, lo, hi)
        };
        let p = corner::<D>(&b, &mut r, lo, hi);
        let (xa, xb): (SAABB<N, D>, SAABB<N, D>) = (bx(&a), bx(&b));
        let xp: SVec<N, D> = sv(&p);
        let ctx = || {
            format!(
                "op {i} ({name}): a {} b {} p {:?}",
                show::<D>(&a),
                show::<D>(&b),
                &p[..D]
            )
        };
        let isect = a.intersects(&b, D);
        let cont = a.contains(&b, D);
        ensure!(
            Intersects::<SAABB<N, D>>::intersects(&xa, &xb) == isect,
            "{}: a.intersects(b) should be {isect}",
            ctx()
        );
        ensure!(
            Intersects::<SAABB<N, D>>::intersects(&xb, &xa) == isect,
            "{}: b.intersects(a) should be {isect}",
            ctx()
        );
        ensure!(
            Contains::<SAABB<N, D>>::contains(&xa, &xb) == cont,
            "{}: a.contains(b) should be {cont}",
            ctx()
        );
        let back = b.contains(&a, D);
        ensure!(
            Contains::<SAABB<N, D>>::contains(&xb, &xa) == back,
            "{}: b.contains(a) should be {back}",
            ctx()
        );
        for (n, x, q) in [("a", &xa, &a), ("b", &xb, &b)] {
            let inside = has_point::<D>(q, &p);
            ensure!(
                Contains::<SVec<N, D>>::contains(x, &xp) == inside,
                "{}: {n}.contains(p) should be {inside}",
                ctx()
            );
            ensure!(
                Intersects::<SVec<N, D>>::intersects(x, &xp) == inside,
                "{}: {n}.intersects(p) should be {inside}",
                ctx()
            );
            ensure!(
                Intersects::<SAABB<N, D>>::intersects(&xp, x) == inside,
                "{}: p.intersects({n}) should be {inside}",
                ctx()
            );
        }
        // bounds
        let pb: SAABB<N, D> = Bounded::bounds(&xp);
        ensure!(
            unbx(&pb) == RBox { lo: p, hi: p },
            "{}: the bounds of p are {:?}",
            ctx(),
            pb
        );
        let ab: SAABB<N, D> = Bounded::<SAABB<N, D>>::bounds(&xa);
        ensure!(unbx(&ab) == a, "{}: the bounds of a are {ab:?}", ctx());
        // union
        let u = a.union(&b, D);
        for (n, x) in [
            ("union(a, b)", SAABB::union(&xa, &xb)),
            ("union(b, a)", SAABB::union(&xb, &xa)),
            ("union_all([a, b])", SAABB::union_all([xa, xb])),
            ("union_all([b, a, b])", SAABB::union_all([xb, xa, xb])),
        ] {
            ensure!(
                unbx(&x) == u,
                "{}: {n} is {x:?}, should be {}",
                ctx(),
                show::<D>(&u)
            );
        }
        let e = SAABB::<N, D>::empty();
        for (n, x) in [
            ("union(empty, a)", SAABB::union(&e, &xa)),
            ("union(a, empty)", SAABB::union(&xa, &e)),
            ("union_all([a])", SAABB::union_all([xa])),
            (
                "union(a, union_all([]))",
                SAABB::union(&xa, &SAABB::union_all([])),
            ),
        ] {
            ensure!(unbx(&x) == a, "{}: {n} is {x:?}", ctx());
        }
        ensure!(
            !Contains::<SVec<N, D>>::contains(&e, &xp),
            "{}: the empty box contains p",
            ctx()
        );
        all.push(b);
        if all.len() > 2 {
            let from = r.next(all.len() as u64 - 1) as usize;
            let mut exp = all[from];
            for x in &all[from..] {
                exp = exp.union(x, D);
            }
            let got = SAABB::<N, D>::union_all(all[from..].iter().map(bx));
            ensure!(
                unbx(&got) == exp,
                "op {i} ({name}): union_all of {} boxes is {got:?}, should be {}",
                all.len() - from,
                show::<D>(&exp)
            );
        }
        // volume
        let unit = N::UNIT as f64;
        let vol: f64 = (0..D)
            .map(|j| (a.hi[j] as i128 - a.lo[j] as i128) as f64 / unit)
            .product();
        let got = xa.volume().raw();
        ensure!(
            close(got, vol),
            "{}: the volume of a is {got}, should be {vol}",
            ctx()
        );
        st.hit("pairs_of_boxes");
        st.when(isect && !cont && !back, "pairs_partly_overlapping");
        st.when(cont || back, "pairs_nested");
        st.when(!isect, "pairs_disjoint");
        st.when(
            isect && (0..D).any(|j| a.lo[j] == b.hi[j] || a.hi[j] == b.lo[j]),
            "pairs_touching",
        );
        st.when(
            (0..D).any(|j| a.hi[j] as i128 - a.lo[j] as i128 > (hi as i128) / 2),
            "pairs_with_a_huge_box",
        );
        st.nontrivial |= isect && a != b;
    }
    Ok(())
}
#[cfg(any(feature = "c06"))]
pub fn boxes(case: &Case, st: &mut Stats) -> Res {
    types!(case.par[0], boxes_of(case, st))
}

// ---------------------------------------------------------------- C07

/// A non-negative denominator fraction.
#[derive(Clone, Copy, Debug)]
struct Frac(i128, i128);
fn cmp(a: Frac, b: Frac) -> Ordering {
    (a.0 * b.1).cmp(&(b.0 * a.1))
}
impl Frac {
    fn f(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hit {
    Yes,
    No,
    /// a miss so narrow that double precision need not tell
    Narrow,
}

/// Does {p + t d, 0 <= t (<= 1)} meet the box?
pub fn meets<const D: usize>(p: &P, dir: &P, b: &RBox, ray: bool) -> Hit {
    let mut t0 = Frac(0, 1);
    let mut t1 = if ray { None } else { Some(Frac(1, 1)) };
    for i in 0..D {
        let (lo, hi) = (
            b.lo[i] as i128 - p[i] as i128,
            b.hi[i] as i128 - p[i] as i128,
        );
        let d = dir[i] as i128;
        if d == 0 {
            if lo > 0 || hi < 0 {
                return Hit::No;
            }
            continue;
        }
        let (x, y) = if d > 0 {
            (Frac(lo, d), Frac(hi, d))
        } else {
            (Frac(-hi, -d), Frac(-lo, -d))
        };
        if cmp(x, t0) == Ordering::Greater {
            t0 = x;
        }
        t1 = match t1 {
            Some(t) if cmp(t, y) != Ordering::Greater => Some(t),
            _ => Some(y),
        };
    }
    match t1 {
        Some(t) if cmp(t0, t) == Ordering::Greater => {
            let (a, b) = (t0.f(), t.f());
            if (a - b).abs() <= 1e-11 * a.abs().max(b.abs()) {
                Hit::Narrow
            } else {
                Hit::No
            }
        }
        _ => Hit::Yes,
    }
}

fn agree(hit: Hit, got: bool) -> bool {
    match hit {
        Hit::Yes => got,
        Hit::No => !got,
        Hit::Narrow => true,
    }
}

/// A direction: axis-parallel, diagonal, zero or arbitrary.
fn direction<N: Coord, const D: usize>(op: &Op, r: &mut Rnd, d: u32) -> P {
    let (lo, hi) = (N::FLO, N::FHI);
    let mut v = [0; MD];
    let how = r.next(8);
    let axis = r.next(D as u64) as usize;
    let unit = 1 + r.next(6) as i64;
    for i in 0..D {
        let x = extent(d, op.e[i] | 1, lo, hi);
        let sign = if r.one_in(2) && !N::UNSIGNED { -1 } else { 1 };
        v[i] = sign
            * match how {
                0 => 0,
                1 => {
                    if i == axis {
                        x.max(1)
                    } else {
                        0
                    }
                }
                2 => unit,
                3 => {
                    if r.one_in(2) {
                        0
                    } else {
                        x
                    }
                }
                4 => r.next(5) as i64,
                5 => unit * r.next(4) as i64,
                _ => x,
            };
        // full range directions reach to the limits
        if d == dist::FULL && r.one_in(6) {
            v[i] = if sign < 0 { lo } else { hi };
        }
        v[i] = v[i].clamp(lo, hi);
    }
    v
}

/// Moves the origin so that origin and end are representable.
fn fit<N: Coord, const D: usize>(p: &mut P, v: &P) {
    for i in 0..D {
        let (lo, hi) = (N::FLO as i128, N::FHI as i128);
        let end = p[i] as i128 + v[i] as i128;
        if end < lo {
            p[i] = (lo - v[i] as i128) as i64;
        } else if end > hi {
            p[i] = (hi - v[i] as i128) as i64;
        }
    }
}

/// A box in an interesting position: on, around, touching or just missing a
/// point of the line, or a box of its own.
fn target<N: Coord, const D: usize>(op: &Op, r: &mut Rnd, d: u32, p: &P, v: &P, ray: bool) -> RBox {
    let (lo, hi) = (N::FLO, N::FHI);
    if r.one_in(5) {
        let mut o = *op;
        for i in 0..MD {
            o.c[i] = o.c[i].rotate_left(5) ^ o.e[i];
            o.e[i] = o.e[i].rotate_left(3) ^ op.c[i];
        }
        return random_box::<N, D>(&o, d, lo, hi);
    }
    // a representable point of the line: a whole multiple of v divided by the
    // gcd of its components
    let mut g = 0i64;
    for i in 0..D {
        let (mut a, mut b) = (g, v[i].unsigned_abs().min(i64::MAX as u64) as i64);
        while b != 0 {
            (a, b) = (b, a % b);
        }
        g = a;
    }
    let g = g.max(1);
    let mut m = match r.next(6) {
        0 => 0,
        1 => g as i128,
        2 => g as i128 + 1 + r.next(3) as i128,
        3 => -1 - r.next(3) as i128,
        _ => (r.next(1 << 20) as i128 * (g as i128 + 1)) >> 20,
    };
    if ray && r.one_in(3) {
        m = m * 3 + r.next(7) as i128;
    }
    let mut b = RBox {
        lo: [0; MD],
        hi: [0; MD],
    };
    let style = r.next(5);
    for i in 0..D {
        let q = (p[i] as i128 + v[i] as i128 / g as i128 * m).clamp(lo as i128, hi as i128) as i64;
        let size = match r.next(4) {
            0 => 0,
            1 => 1 + r.next(3) as i64,
            _ => extent(d, (r.next(1 << 16) as i64 - 32768) as i16, lo, hi),
        };
        let (x, y) = match if style == 4 { r.next(4) } else { style } {
            // a corner of the box is on the point
            0 => {
                if r.one_in(2) {
                    (q, q.saturating_add(size))
                } else {
                    (q.saturating_sub(size), q)
                }
            }
            // the point is inside
            1 => (q.saturating_sub(size), q.saturating_add(size)),
            // the box is the point, in this dimension
            2 => (q, q),
            // a step away
            _ => {
                if r.one_in(4) {
                    (q.saturating_add(1), q.saturating_add(1 + size))
                } else if r.one_in(3) {
                    (q.saturating_sub(1 + size), q.saturating_sub(1))
                } else {
                    (q.saturating_sub(size), q.saturating_add(size))
                }
            }
        };
        b.lo[i] = x.clamp(lo, hi);
        b.hi[i] = y.clamp(lo, hi).max(b.lo[i]);
    }
    b
}

/// Is the point within the radius?
pub fn within<const D: usize>(c: &P, radius: i64, p: &P) -> Hit {
    let sq: i128 = (0..D)
        .map(|i| {
            let x = c[i] as i128 - p[i] as i128;
            x * x
        })
        .sum();
    let r2 = radius as i128 * radius as i128;
    if sq == r2 {
        // sums beyond 53 bits are rounded
        if sq < 1 << 53 {
            Hit::Yes
        } else {
            Hit::Narrow
        }
    } else if sq >= 1 << 53 && ((sq - r2) as f64).abs() <= 1e-12 * sq as f64 {
        Hit::Narrow
    } else if sq < r2 {
        Hit::Yes
    } else {
        Hit::No
    }
}

fn shapes_of<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    let (lo, hi) = (N::FLO, N::FHI);
    let d = case.par[2];
    let name = format!("{}^{}", N::NAME, D);
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = Rnd::of(op);
        let mut p = [0; MD];
        for j in 0..D {
            p[j] = coord(d, op.c[j], 0, lo, hi);
        }
        match op.k % 3 {
            0 => {
                let v = direction::<N, D>(op, &mut r, d);
                fit::<N, D>(&mut p, &v);
                let mut q = [0; MD];
                for j in 0..D {
                    q[j] = p[j] + v[j];
                }
                let b = target::<N, D>(op, &mut r, d, &p, &v, false);
                let (x, l): (SAABB<N, D>, Line<SVec<N, D>>) = (bx(&b), Line(sv(&p), sv(&q)));
                let hit = meets::<D>(&p, &v, &b, false);
                let ctx = || {
                    format!(
                        "op {i} ({name}): line {:?} to {:?}, box {}",
                        &p[..D],
                        &q[..D],
                        show::<D>(&b)
                    )
                };
                let got = Intersects::<SAABB<N, D>>::intersects(&l, &x);
                ensure!(
                    agree(hit, got),
                    "{}: line.intersects(box) is {got}, exactly: {hit:?}",
                    ctx()
                );
                let got2 = Intersects::<Line<SVec<N, D>>>::intersects(&x, &l);
                ensure!(
                    got2 == got,
                    "{}: line.intersects(box) is {got}, box.intersects(line) is {got2}",
                    ctx()
                );
                // the same segment the other way round
                if !N::UNSIGNED && (0..D).all(|j| v[j] > lo) {
                    let l2: Line<SVec<N, D>> = Line(sv(&q), sv(&p));
                    let got = l2.intersects(&x);
                    // how narrow a miss is depends on where it is measured from
                    let hit = meets::<D>(&q, &v.map(|x| -x), &b, false);
                    ensure!(
                        agree(hit, got),
                        "{}: the reversed line.intersects(box) is {got}, exactly: {hit:?}",
                        ctx()
                    );
                }
                st.hit("lines");
                st.when(hit == Hit::Yes, "lines_hitting");
                st.when((0..D).any(|j| v[j] == 0), "lines_parallel_to_an_axis");
                st.when((0..D).all(|j| v[j] == 0), "lines_of_length_zero");
                st.when((0..D).any(|j| b.lo[j] == b.hi[j]), "lines_with_flat_boxes");
                st.when(hit == Hit::Narrow, "lines_missing_too_narrowly");
                st.nontrivial |= hit == Hit::Yes && !has_point::<D>(&b, &p);
            }
            1 => {
                let v = direction::<N, D>(op, &mut r, d);
                let b = target::<N, D>(op, &mut r, d, &p, &v, true);
                let x: SAABB<N, D> = bx(&b);
                let ray = Ray::<N, D> {
                    origin: sv(&p),
                    n: sv(&v),
                };
                let hit = meets::<D>(&p, &v, &b, true);
                let ctx = || {
                    format!(
                        "op {i} ({name}): ray from {:?} along {:?}, box {}",
                        &p[..D],
                        &v[..D],
                        show::<D>(&b)
                    )
                };
                let got = Intersects::<SAABB<N, D>>::intersects(&ray, &x);
                ensure!(
                    agree(hit, got),
                    "{}: ray.intersects(box) is {got}, exactly: {hit:?}",
                    ctx()
                );
                let got2 = Intersects::<Ray<N, D>>::intersects(&x, &ray);
                ensure!(
                    got2 == got,
                    "{}: ray.intersects(box) is {got}, box.intersects(ray) is {got2}",
                    ctx()
                );
                st.hit("rays");
                st.when(hit == Hit::Yes, "rays_hitting");
                st.when(
                    hit == Hit::No
                        && meets::<D>(&p, &v.map(|x| x.saturating_neg()), &b, true) == Hit::Yes,
                    "rays_with_the_box_behind",
                );
                st.when(hit == Hit::Narrow, "rays_missing_too_narrowly");
                st.nontrivial |= hit == Hit::Yes && !has_point::<D>(&b, &p);
            }
            _ => {
                let radius = match r.next(4) {
                    0 => r.next(4) as i64,
                    1 => 5 * r.next(5) as i64,
                    _ => extent(d, op.e[D % MD] | 1, lo, hi),
                }
                .min(hi);
                // a point near the surface: exactly on it along an axis or by a
                // Pythagorean triple, or a step off
                let mut q = p;
                let axis = r.next(D as u64) as usize;
                let sign = |r: &mut Rnd| if r.one_in(2) { 1 } else { -1 };
                match r.next(4) {
                    0 => q[axis] = q[axis].saturating_add(sign(&mut r) * radius),
                    1 if D > 1 => {
                        let (a, b) = (radius / 5 * 3, radius / 5 * 4);
                        q[axis] = q[axis].saturating_add(sign(&mut r) * a);
                        let o = (axis + 1) % D;
                        q[o] = q[o].saturating_add(sign(&mut r) * b);
                    }
                    2 => {
                        q[axis] = q[axis].saturating_add(sign(&mut r) * radius.saturating_add(1));
                    }
                    _ => {
                        for j in 0..D {
                            q[j] = q[j].saturating_add(
                                sign(&mut r) * (r.next(radius.max(1) as u64 + 2) as i64),
                            );
                        }
                    }
                }
                for j in 0..D {
                    q[j] = q[j].clamp(lo, hi);
                }
                let s = Sphere::<N, D> {
                    center: sv(&p),
                    radius: N::of(radius),
                };
                let x: SVec<N, D> = sv(&q);
                let hit = within::<D>(&p, radius, &q);
                let ctx = || {
                    format!(
                        "op {i} ({name}): sphere at {:?} of radius {radius}, point {:?}",
                        &p[..D],
                        &q[..D]
                    )
                };
                let got = Intersects::<SVec<N, D>>::intersects(&s, &x);
                ensure!(
                    agree(hit, got),
                    "{}: sphere.intersects(point) is {got}, exactly: {hit:?}",
                    ctx()
                );
                let got2 = Intersects::<Sphere<N, D>>::intersects(&x, &s);
                ensure!(
                    got2 == got,
                    "{}: sphere.intersects(point) is {got}, point.intersects(sphere) is {got2}",
                    ctx()
                );
                st.hit("spheres");
                st.when(hit == Hit::Yes, "spheres_hitting");
                st.nontrivial |= hit == Hit::Yes && p != q;
            }
        }
    }
    Ok(())
}
#[cfg(any(feature = "c07"))]
pub fn shapes(case: &Case, st: &mut Stats) -> Res {
    types!(case.par[0], shapes_of(case, st))
}

// ---------------------------------------------------------------- C11

/// The largest difference whose squares can be summed in the type.
fn reach<N: Coord>(d: usize) -> i64 {
    let max: f64 = match N::NAME {
        "N32" => (1u64 << 24) as f64,
        "N64" => (1u64 << 53) as f64,
        _ => N::FHI as f64,
    };
    ((max / d as f64).sqrt() as i64).max(1)
}

fn distances_of<N: Coord + std::ops::AddAssign, const D: usize>(
    case: &Case,
    st: &mut Stats,
) -> Res {
    let name = format!("{}^{}", N::NAME, D);
    let (flo, fhi) = (N::FLO, N::FHI);
    let unit = N::UNIT as f64;
    let u2 = unit * unit;
    let span = reach::<N>(D);
    let d = case.par[2];
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = Rnd::of(op);
        // two points whose differences stay within the reach
        let mut p = [0; MD];
        let mut q = [0; MD];
        for j in 0..D {
            // anywhere, as long as both are representable
            p[j] = coord(d, op.c[j], 0, flo + span, fhi - span);
            let mut x = coord(d, op.e[j], 0, flo, fhi).clamp(-span, span);
            if r.one_in(4) {
                x = span - r.next(2) as i64;
            }
            if N::UNSIGNED {
                x = x.abs();
            } else if r.one_in(2) {
                x = -x;
            }
            q[j] = p[j] + x;
        }
        let (xp, xq): (SVec<N, D>, SVec<N, D>) = (sv(&p), sv(&q));
        let sq: i128 = (0..D).map(|j| (p[j] as i128 - q[j] as i128).pow(2)).sum();
        let ctx = || format!("op {i} ({name}): p {:?} q {:?}", &p[..D], &q[..D]);
        let eq = |what: &str, got: f64, exp: f64| -> Res {
            ensure!(got == exp, "{}: {what} is {got}, should be {exp}", ctx());
            Ok(())
        };
        // q is not below p in any dimension of an unsigned type
        eq("q.dist_sq(p)", xq.dist_sq(&xp).into(), sq as f64 / u2)?;
        if !N::UNSIGNED {
            eq("p.dist_sq(q)", xp.dist_sq(&xq).into(), sq as f64 / u2)?;
        }
        let rank = EuclideanDistanceRanking::<SVec<N, D>, N>::new(xp);
        let m: N = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&rank, &xq);
        eq("rank_key(q)", m.into(), sq as f64 / u2)?;
        // a box of which q is a corner or not
        let mut b = RBox { lo: q, hi: q };
        for j in 0..D {
            let e = r.next(span as u64 + 1) as i64 / (1 + r.next(3) as i64);
            match r.next(4) {
                0 => {}
                1 => b.hi[j] = (q[j] + e).min(fhi),
                2 => {
                    b.lo[j] = (q[j] - e).max(flo);
                }
                _ => {
                    b.lo[j] = (q[j] - e).max(flo);
                    b.hi[j] = (q[j] + e).min(fhi);
                }
            }
        }
        // q is in the box, so the box is within reach
        let exp = b.min_dist(&p, D);
        let xb: SAABB<N, D> = bx(&b);
        let cb = || format!("{}; box {}", ctx(), show::<D>(&b));
        if !N::UNSIGNED || (0..D).all(|j| p[j] <= b.hi[j]) {
            let got: f64 = PointDistance::<SVec<N, D>, N>::dist_sq(&xb, &xp).into();
            ensure!(
                got == exp as f64 / u2,
                "{}: box.dist_sq(p) is {got}, should be {}",
                cb(),
                exp as f64 / u2
            );
            let got: N = Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&rank, &xb);
            ensure!(
                got.into() == exp as f64 / u2,
                "{}: bounds_min(box) is {got:?}, should be {}",
                cb(),
                exp as f64 / u2
            );
            st.hit("distances_to_boxes");
        }
        // boxes with any corners
        let a = random_box::<N, D>(op, d, flo, fhi);
        let o = if r.one_in(3) {
            b
        } else {
            related::<D>(&a, &mut r, flo, fhi)
        };
        let (xa, xo): (SAABB<N, D>, SAABB<N, D>) = (bx(&a), bx(&o));
        let gap = a.gap(&o, D) as f64 / u2;
        let (g1, g2) = (xa.sq_dist_to(&xo).raw(), xo.sq_dist_to(&xa).raw());
        ensure!(
            close(g1, gap) && g1 == g2,
            "op {i} ({name}): the squared gap of {} and {} is {g1} and {g2}, should be {gap}",
            show::<D>(&a),
            show::<D>(&o)
        );
        ensure!(
            (g1 == 0.0) == a.intersects(&o, D),
            "op {i} ({name}): the squared gap of {} and {} is {g1}",
            show::<D>(&a),
            show::<D>(&o)
        );
        // vectors
        let add = |u: &SVec<N, D>, v: &SVec<N, D>| *u + *v;
        let mut s = [0; MD];
        let mut t = [0; MD];
        for j in 0..D {
            // halves of the range can be added
            s[j] = p[j] / 2;
            t[j] = coord(d, op.e[j], 1, flo, fhi) / 2;
        }
        let (xs, xt): (SVec<N, D>, SVec<N, D>) = (sv(&s), sv(&t));
        let mut sum = [0; MD];
        for j in 0..D {
            sum[j] = s[j] + t[j];
        }
        ensure!(
            unsv(&add(&xs, &xt)) == sum,
            "op {i} ({name}): {xs:?} + {xt:?} is {:?}",
            add(&xs, &xt)
        );
        let mut acc = xs;
        acc += xt;
        ensure!(
            unsv(&acc) == sum,
            "op {i} ({name}): {xs:?} += {xt:?} is {acc:?}"
        );
        ensure!(
            acc - xt == xs,
            "op {i} ({name}): {acc:?} - {xt:?} is {:?}",
            acc - xt
        );
        for j in 0..D {
            ensure!(
                xq[j] == N::of(q[j]) && xq.0[j] == xq[j],
                "op {i} ({name}): component {j} of q is {:?}",
                xq[j]
            );
        }
        let mut w = xq;
        w[op.s as usize % D] = N::of(p[op.s as usize % D]);
        let mut wr = q;
        wr[op.s as usize % D] = p[op.s as usize % D];
        ensure!(
            unsv(&w) == wr,
            "op {i} ({name}): assigning a component gives {w:?}"
        );
        ensure!(
            xp.zip(&xq)
                .map(|(a, b)| (a.to(), b.to()))
                .collect::<Vec<_>>()
                == (0..D).map(|j| (p[j], q[j])).collect::<Vec<_>>(),
            "op {i} ({name}): zip"
        );
        let mut order = Vec::new();
        let mapped: SVec<i64, D> = xq.into_map(|x| {
            order.push(x.to());
            x.to()
        });
        ensure!(
            mapped.0[..] == q[..D] && order[..] == q[..D],
            "op {i} ({name}): into_map gives {mapped:?}"
        );
        let mut diff = [0; MD];
        for j in 0..D {
            diff[j] = q[j] - p[j];
        }
        let xd: SVec<N, D> = sv(&diff);
        eq(
            "sq_mag of the difference",
            xd.sq_mag().into(),
            sq as f64 / u2,
        )?;
        ensure!(xq - xp == xd, "{}: q - p is {:?}", ctx(), xq - xp);
        let l = Line(xp, xq);
        ensure!(l.delta() == xd, "{}: delta is {:?}", ctx(), l.delta());
        eq("sq_len", l.sq_len(), sq as f64 / u2)?;
        let len = (sq as f64 / u2).sqrt();
        ensure!(
            close(l.len(), len),
            "{}: len is {}, should be {len}",
            ctx(),
            l.len()
        );
        let (mn, mx) = (xp.componentwise_min(&xt), xp.componentwise_max(&xt));
        for j in 0..D {
            ensure!(
                mn[j].to() == p[j].min(t[j]) && mx[j].to() == p[j].max(t[j]),
                "op {i} ({name}): componentwise min and max of {xp:?} and {xt:?} are {mn:?} and {mx:?}"
            );
        }
        let (le, ge) = ((0..D).all(|j| p[j] <= t[j]), (0..D).all(|j| p[j] >= t[j]));
        ensure!(
            xp.all_le(&xt) == le && xp.all_ge(&xt) == ge,
            "op {i} ({name}): all_le and all_ge of {xp:?} and {xt:?} are {} and {}",
            xp.all_le(&xt),
            xp.all_ge(&xt)
        );
        // comparisons, also of vectors and boxes that differ in one component
        let xu = if op.s & 0x10 == 0 { xt } else { w };
        let ru = if op.s & 0x10 == 0 { &t } else { &wr };
        ensure!(
            (xq == xu) == (q[..D] == ru[..D])
                && xq.partial_cmp(&xu) == q[..D].partial_cmp(&ru[..D])
                && xq == xq.clone(),
            "op {i} ({name}): comparing {xq:?} and {xu:?} gives {} and {:?}",
            xq == xu,
            xq.partial_cmp(&xu)
        );
        let mut b2 = b;
        let side = op.s as usize / 32 % (2 * D);
        let at = if side < D {
            &mut b2.lo[side]
        } else {
            &mut b2.hi[side - D]
        };
        *at = if *at > flo { *at - 1 } else { *at + 1 };
        let xb2: SAABB<N, D> = bx(&b2);
        ensure!(
            xb == xb.clone()
                && xb != xb2
                && Line(xp, xq) == l.clone()
                && (xq == xu || Line(xp, xu) != l),
            "op {i} ({name}): comparing boxes {xb:?} and {xb2:?}, or lines {l:?}"
        );
        let (lo, hi) = (SVec::<N, D>::min_value(), SVec::<N, D>::max_value());
        ensure!(
            lo.all_le(&xt) && hi.all_ge(&xt),
            "op {i} ({name}): min_value and max_value are {lo:?} and {hi:?}"
        );
        // the line's bounds
        let lb: SAABB<N, D> = l.bounds();
        ensure!(
            unbx(&lb) == RKey { a: p, b: q, tag: 0 }.rbox(),
            "{}: the bounds of the line are {lb:?}",
            ctx()
        );
        st.hit("samples");
        st.when(exp > 0, "points_outside_their_box");
        st.when(gap > 0.0, "boxes_apart");
        st.nontrivial |= exp > 0 && sq > 0;
    }
    Ok(())
}
#[cfg(any(feature = "c11"))]
pub fn distances(case: &Case, st: &mut Stats) -> Res {
    types!(case.par[0], distances_of(case, st))
}

// ---------------------------------------------------------------- C08

fn raw_box_pred<const D: usize>(k: &RKey, b: &RBox, contained: bool) -> bool {
    let kb = k.rbox();
    if contained {
        b.contains(&kb, D)
    } else {
        b.intersects(&kb, D)
    }
}

fn compare<W: World, F: SpatialFilter<W::B, W::K>>(
    e: &mut Eng<W, u32>,
    make: impl Fn() -> F,
    what: &str,
    pred: impl Fn(&RKey) -> Hit,
    st: &mut Stats,
) -> Res {
    let mut sure = Vec::new();
    let mut narrow = Vec::new();
    for x in &e.m.ents {
        match pred(&x.0) {
            Hit::Yes => sure.push(*x),
            Hit::Narrow => narrow.push(*x),
            Hit::No => {}
        }
    }
    let n = e.m.len();
    let got: Vec<Ent> = drain(what, e.tree.filter_iter::<W::K, _>(make()), n)?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .filter(|x| !narrow.contains(x))
        .collect();
    same(what, got, sure.clone())?;
    let got: Vec<Ent> = drain(what, e.tree.filter_iter_mut::<W::K, _>(make()), n)?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .filter(|x| !narrow.contains(x))
        .collect();
    same(&format!("{what} (mut)"), got, sure.clone())?;
    st.hit("filtered_queries");
    st.when(
        !sure.is_empty() && sure.len() < n,
        "filtered_queries_matching_some",
    );
    Ok(())
}

/// A join filter to make spatial filters of: the keys' boxes overlap.
#[derive(Clone)]
struct Overlap<const D: usize>;
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>>
    JoinFilter<SAABB<N, D>, SAABB<N, D>, K, SAABB<N, D>> for Overlap<D>
{
    fn test_bounds(&self, l: &SAABB<N, D>, r: &SAABB<N, D>) -> bool {
        unbx(l).intersects(&unbx(r), D)
    }
    fn test_key(&self, l: &K, r: &SAABB<N, D>) -> bool {
        unbx(&l.bounds()).intersects(&unbx(r), D)
    }
}

fn near_box<W: World, N: Coord, const D: usize>(
    e: &Eng<W, u32>,
    op: &Op,
    i: usize,
    r: &mut Rnd,
) -> RBox {
    let (lo, hi) = W::range(e.dist);
    match (e.existing(op), r.next(3)) {
        (Some(k), 0) => related::<D>(&k.rbox(), r, lo, hi),
        (Some(k), 1) => {
            let mut b = related::<D>(&k.rbox(), r, lo, hi);
            let g = extent(e.dist, op.e[0], lo, hi);
            for j in 0..D {
                b.lo[j] = b.lo[j].saturating_sub(g).max(lo);
                b.hi[j] = b.hi[j].saturating_add(g).min(hi);
            }
            b
        }
        _ => W::qbox(op, i, e.dist),
    }
}

/// A line or ray near the entries, representable and with a representable
/// direction.
fn near_line<W: World, N: Coord, const D: usize>(
    e: &Eng<W, u32>,
    op: &Op,
    i: usize,
    r: &mut Rnd,
) -> (P, P) {
    let b = near_box::<W, N, D>(e, op, i, r);
    let (lo, hi) = W::range(e.dist);
    let p = match r.next(3) {
        0 => corner::<D>(&b, r, lo, hi),
        1 => b.lo,
        _ => W::qbox(op, i, e.dist).hi,
    };
    let mut v = direction::<N, D>(op, r, e.dist);
    // aimed at a corner of another entry
    let mut o = *op;
    o.s = o.s.rotate_left(7);
    if let (Some(k), true) = (e.existing(&o), r.one_in(2)) {
        let t = corner::<D>(&k.rbox(), r, lo, hi);
        for j in 0..D {
            v[j] = t[j] - p[j];
        }
    }
    for j in 0..D {
        if N::UNSIGNED {
            v[j] = v[j].max(0);
        }
        v[j] = v[j].clamp(N::FLO, N::FHI);
    }
    (p, v)
}

fn filters_box<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    type W<N, const D: usize> = BW<N, D>;
    let mut e = Eng::<W<N, D>, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if op.k < code::QUERY && i + 4 <= last {
            continue;
        }
        let mut r = Rnd::of(op);
        good |= e.m.len() > e.cfg.max_children;
        query_boxes::<N, D>(&mut e, op, i, &mut r, st)?;
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

fn query_boxes<N: Coord, const D: usize>(
    e: &mut Eng<BW<N, D>, u32>,
    op: &Op,
    i: usize,
    r: &mut Rnd,
    st: &mut Stats,
) -> Res {
    type W<N, const D: usize> = BW<N, D>;
    {
        let q = near_box::<W<N, D>, N, D>(e, op, i, r);
        let x: SAABB<N, D> = bx(&q);
        let w = |s: &str| format!("op {i}: {s} over boxes, query {}", show::<D>(&q));
        let isect = |k: &RKey| {
            if raw_box_pred::<D>(k, &q, false) {
                Hit::Yes
            } else {
                Hit::No
            }
        };
        let inside = |k: &RKey| {
            if raw_box_pred::<D>(k, &q, true) {
                Hit::Yes
            } else {
                Hit::No
            }
        };
        compare(
            e,
            || IntersectsFilter::new(x),
            &w("IntersectsFilter(box)"),
            isect,
            st,
        )?;
        compare(
            e,
            || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(x),
            &w("BoundedIntersectsFilter(box)"),
            isect,
            st,
        )?;
        compare(
            e,
            || ContainsFilter::new(x),
            &w("ContainsFilter(box)"),
            inside,
            st,
        )?;
        compare(
            e,
            || BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(x),
            &w("BoundedContainsFilter(box)"),
            inside,
            st,
        )?;
        let p = corner::<D>(&q, r, N::FLO, N::FHI);
        let xp: SVec<N, D> = sv(&p);
        let on = |k: &RKey| {
            if has_point::<D>(&k.rbox(), &p) {
                Hit::Yes
            } else {
                Hit::No
            }
        };
        let w = |s: &str| format!("op {i}: {s} over boxes, point {:?}", &p[..D]);
        compare(
            e,
            || IntersectsFilter::new(xp),
            &w("IntersectsFilter(point)"),
            on,
            st,
        )?;
        compare(
            e,
            || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(xp),
            &w("BoundedIntersectsFilter(point)"),
            on,
            st,
        )?;
        let (mut lp, lv) = near_line::<W<N, D>, N, D>(e, op, i, r);
        let ray = || Ray::<N, D> {
            origin: sv(&lp),
            n: sv(&lv),
        };
        let w = |s: &str| {
            format!(
                "op {i}: {s} over boxes, {:?} along {:?}",
                &lp[..D],
                &lv[..D]
            )
        };
        compare(
            e,
            || IntersectsFilter::new(ray()),
            &w("IntersectsFilter(ray)"),
            |k| meets::<D>(&lp, &lv, &k.rbox(), true),
            st,
        )?;
        fit::<N, D>(&mut lp, &lv);
        let mut lq = [0; MD];
        for j in 0..D {
            lq[j] = lp[j] + lv[j];
        }
        let line = || Line::<SVec<N, D>>(sv(&lp), sv(&lq));
        let w = |s: &str| format!("op {i}: {s} over boxes, {:?} to {:?}", &lp[..D], &lq[..D]);
        let cross = |k: &RKey| meets::<D>(&lp, &lv, &k.rbox(), false);
        compare(
            e,
            || IntersectsFilter::new(line()),
            &w("IntersectsFilter(line)"),
            cross,
            st,
        )?;
        compare(
            e,
            || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(line()),
            &w("BoundedIntersectsFilter(line)"),
            // the bounded form decides on the line's box first
            cross,
            st,
        )?;
        compare(
            e,
            || NoFilter,
            &format!("op {i}: NoFilter"),
            |_| Hit::Yes,
            st,
        )?;
        let w = |s: &str| format!("op {i}: {s} over boxes, key {}", show::<D>(&q));
        compare(
            e,
            || JoiningFilter::new(&x, Overlap::<D>),
            &w("JoiningFilter(box)"),
            isect,
            st,
        )?;
    }
    Ok(())
}

fn filters_point<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    type W<N, const D: usize> = PW<N, D>;
    let mut e = Eng::<W<N, D>, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if op.k < code::QUERY && i + 4 <= last {
            continue;
        }
        let mut r = Rnd::of(op);
        good |= e.m.len() > e.cfg.max_children;
        query_points::<N, D>(&mut e, op, i, &mut r, st)?;
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

fn query_points<N: Coord, const D: usize>(
    e: &mut Eng<PW<N, D>, u32>,
    op: &Op,
    i: usize,
    r: &mut Rnd,
    st: &mut Stats,
) -> Res {
    type W<N, const D: usize> = PW<N, D>;
    let q = near_box::<W<N, D>, N, D>(e, op, i, r);
    let x: SAABB<N, D> = bx(&q);
    let w = |s: &str| format!("op {i}: {s} over points, query {}", show::<D>(&q));
    let inside = |k: &RKey| {
        if has_point::<D>(&q, &k.a) {
            Hit::Yes
        } else {
            Hit::No
        }
    };
    compare(
        e,
        || IntersectsFilter::new(x),
        &w("IntersectsFilter(box)"),
        inside,
        st,
    )?;
    compare(
        e,
        || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(x),
        &w("BoundedIntersectsFilter(box)"),
        inside,
        st,
    )?;
    compare(
        e,
        || ContainsFilter::new(x),
        &w("ContainsFilter(box)"),
        inside,
        st,
    )?;
    compare(
        e,
        || BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(x),
        &w("BoundedContainsFilter(box)"),
        inside,
        st,
    )?;
    compare(
        e,
        || NoFilter,
        &format!("op {i}: NoFilter"),
        |_| Hit::Yes,
        st,
    )?;
    // a sphere whose bounds are representable
    let mut c = corner::<D>(&q, r, N::FLO, N::FHI);
    let (flo, fhi) = (N::FLO as i128, N::FHI as i128);
    let mut radius = match r.next(4) {
        0 => 0,
        1 => 5 * r.next(5) as i64,
        _ => extent(
            e.dist,
            op.e[0] | 1,
            W::<N, D>::range(e.dist).0,
            W::<N, D>::range(e.dist).1,
        ),
    };
    if let (Some(k), true) = (e.existing(op), r.one_in(3)) {
        // an entry lies exactly on it, along an axis
        let axis = r.next(D as u64) as usize;
        c = k.a;
        c[axis] = (c[axis] as i128 - radius as i128).max(flo) as i64;
        radius = (k.a[axis] as i128 - c[axis] as i128).min(fhi) as i64;
    }
    radius = (radius as i128).min((fhi - flo) / 2).min(fhi) as i64;
    for j in 0..D {
        c[j] = (c[j] as i128)
            .max(flo + radius as i128)
            .min(fhi - radius as i128) as i64;
    }
    let sphere = || Sphere::<N, D> {
        center: sv(&c),
        radius: N::of(radius),
    };
    let sb: SAABB<N, D> = sphere().bounds();
    let mut exp = RBox { lo: c, hi: c };
    for j in 0..D {
        exp.lo[j] -= radius;
        exp.hi[j] += radius;
    }
    let w = |s: &str| {
        format!(
            "op {i}: {s} over points, centre {:?}, radius {radius}",
            &c[..D]
        )
    };
    ensure!(
        unbx(&sb) == exp,
        "{}: {sb:?}, should be {}",
        w("bounds of a sphere"),
        show::<D>(&exp)
    );
    compare(
        e,
        || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(sphere()),
        &w("BoundedIntersectsFilter(sphere)"),
        |k| within::<D>(&c, radius, &k.a),
        st,
    )?;
    Ok(())
}

fn filters_line<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    type W<N, const D: usize> = LW<N, D>;
    let mut e = Eng::<W<N, D>, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if op.k < code::QUERY && i + 4 <= last {
            continue;
        }
        let mut r = Rnd::of(op);
        good |= e.m.len() > e.cfg.max_children;
        let q = near_box::<W<N, D>, N, D>(&e, op, i, &mut r);
        let x: SAABB<N, D> = bx(&q);
        let w = |s: &str| format!("op {i}: {s} over lines, query {}", show::<D>(&q));
        let cross = |k: &RKey| {
            let mut v = [0; MD];
            for j in 0..D {
                v[j] = k.b[j] - k.a[j];
            }
            meets::<D>(&k.a, &v, &q, false)
        };
        compare(
            &mut e,
            || IntersectsFilter::new(x),
            &w("IntersectsFilter(box)"),
            cross,
            st,
        )?;
        compare(
            &mut e,
            || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(x),
            &w("BoundedIntersectsFilter(box)"),
            cross,
            st,
        )?;
        compare(
            &mut e,
            || NoFilter,
            &format!("op {i}: NoFilter"),
            |_| Hit::Yes,
            st,
        )?;
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

#[cfg(any(feature = "c08"))]
pub fn filters(case: &Case, st: &mut Stats) -> Res {
    // narrow misses are only left out where coordinates are large
    let mut c = case.clone();
    match case.par[0] % 20 {
        0 => filters_box::<i32, 2>(case, st),
        1 => filters_point::<i32, 2>(case, st),
        2 => {
            if c.par[2] == dist::FULL {
                c.par[2] = dist::WIDE;
            }
            filters_line::<i32, 2>(&c, st)
        }
        3 => filters_box::<N64, 3>(case, st),
        4 => filters_point::<N64, 3>(case, st),
        5 => {
            if c.par[2] == dist::FULL {
                c.par[2] = dist::WIDE;
            }
            filters_line::<N64, 3>(&c, st)
        }
        6 => filters_box::<i8, 2>(case, st),
        7 => filters_point::<i8, 3>(case, st),
        8 => filters_box::<u16, 3>(case, st),
        9 => filters_point::<u8, 2>(case, st),
        10 => filters_box::<i32, 1>(case, st),
        11 => filters_point::<N32, 1>(case, st),
        12 => filters_box::<N32, 4>(case, st),
        13 => filters_point::<u32, 4>(case, st),
        14 => filters_box::<u32, 2>(case, st),
        15 => filters_point::<i16, 5>(case, st),
        16 => filters_box::<i16, 5>(case, st),
        17 => {
            if c.par[2] == dist::FULL {
                c.par[2] = dist::WIDE;
            }
            filters_line::<i16, 1>(&c, st)
        }
        18 => filters_box::<i32, 2>(case, st),
        _ => filters_point::<i32, 2>(case, st),
    }
}

// ------------------------------------------------- C09, built-in ranking

fn euclid_of<W: World<B = SAABB<N, D>>, N: Coord, const D: usize>(
    case: &Case,
    st: &mut Stats,
    lim: i64,
) -> Res
where
    W::K: PointDistance<SVec<N, D>, N>,
{
    let mut e = Eng::<W, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        // keys whose squared distances the type can hold
        let k = e.target(op);
        if let Some(mut k) = k {
            let cl = |v: i64| {
                if N::UNSIGNED {
                    v % (lim + 1)
                } else {
                    v.rem_euclid(2 * lim + 1) - lim
                }
            };
            for j in 0..D {
                let (x, y) = (cl(k.a[j]), cl(k.b[j]));
                k.a[j] = x.min(y);
                k.b[j] = x.max(y);
            }
            if W::KIND == crate::raw::Kind::Point {
                k.b = k.a;
            }
            match op.k {
                code::INSERT | code::INSERT_DUP => e.insert(k),
                code::UNIQUE | code::UNIQUE_DUP => e.insert_unique(k).map_err(at)?,
                _ => {
                    let k = e.existing(op).unwrap_or(k);
                    e.remove(k).map_err(at)?
                }
            }
        }
        if op.k < code::QUERY && i + 4 <= last {
            continue;
        }
        nearest::<W, N, D>(&mut e, op, i, lim, st)?;
        good |= e.m.len() > e.cfg.max_children;
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

fn nearest<W: World<B = SAABB<N, D>>, N: Coord, const D: usize>(
    e: &mut Eng<W, u32>,
    op: &Op,
    i: usize,
    lim: i64,
    st: &mut Stats,
) -> Res
where
    W::K: PointDistance<SVec<N, D>, N>,
{
    let mut p = [0; MD];
    if !N::UNSIGNED {
        for j in 0..D {
            p[j] = (op.c[j] as i64).rem_euclid(2 * lim + 1) - lim;
        }
    }
    let rank = || EuclideanDistanceRanking::<SVec<N, D>, N>::new(sv(&p));
    let n = e.m.len();
    let metric = |k: &RKey| k.rbox().min_dist(&p, D);
    for mutable in [false, true] {
        let what = format!(
            "op {i}: iter_asc_by{} with EuclideanDistanceRanking({:?}) over {}",
            if mutable { "_mut" } else { "" },
            &p[..D],
            W::name()
        );
        let got: Vec<Ent> = if mutable {
            drain(&what, e.tree.iter_asc_by_mut(rank()), n)?
                .into_iter()
                .map(|(k, v)| (W::raw(k), *v))
                .collect()
        } else {
            drain(&what, e.tree.iter_asc_by(rank()), n)?
                .into_iter()
                .map(|(k, v)| (W::raw(k), *v))
                .collect()
        };
        for w in got.windows(2) {
            ensure!(
                metric(&w[0].0) <= metric(&w[1].0),
                "{what}: {:?} comes before {:?}",
                w[0].0,
                w[1].0
            );
        }
        same(&what, got, e.m.ents.clone())?;
    }
    let min = e.m.ents.iter().map(|(k, _)| metric(k)).min();
    let got = e.tree.min_by(rank()).map(|(k, _)| metric(&W::raw(k)));
    if got != min {
        fail!("op {i}: min_by with EuclideanDistanceRanking gives {got:?}, the minimum is {min:?}");
    }
    st.hit("nearest_neighbour_queries");
    Ok(())
}

#[cfg(any(feature = "c09"))]
pub fn euclid(case: &Case, st: &mut Stats) -> Res {
    match case.par[0] % 8 {
        0 => euclid_of::<PW<i32, 2>, i32, 2>(case, st, 10000),
        1 => euclid_of::<BW<i32, 2>, i32, 2>(case, st, 10000),
        2 => euclid_of::<PW<N64, 3>, N64, 3>(case, st, 20000),
        3 => euclid_of::<BW<N64, 2>, N64, 2>(case, st, 20000),
        4 => euclid_of::<BW<N32, 3>, N32, 3>(case, st, 1000),
        5 => euclid_of::<PW<i16, 4>, i16, 4>(case, st, 45),
        6 => euclid_of::<PW<u32, 2>, u32, 2>(case, st, 20000),
        _ => euclid_of::<BW<i8, 1>, i8, 1>(case, st, 5),
    }
}

// ---------------------------------------- C23, built-in queries when empty

/// All built-in filters, shapes and rankings on a tree that is new, or was
/// filled and emptied.
#[cfg(any(feature = "c23"))]
pub fn builtin_empty(case: &Case, st: &mut Stats) -> Res {
    fn go<N: Coord, const D: usize>(case: &Case, st: &mut Stats) -> Res {
        let mut b = Eng::<BW<N, D>, u32>::of(case);
        let mut p = Eng::<PW<N, D>, u32>::of(case);
        let none = Op::default();
        for round in 0..2 {
            for (i, op) in case.ops.iter().take(4).chain([&none]).enumerate() {
                let mut r = Rnd::of(op);
                let at = |m: String| format!("round {round}: {m}");
                query_boxes::<N, D>(&mut b, op, i, &mut r, st).map_err(at)?;
                query_points::<N, D>(&mut p, op, i, &mut r, st).map_err(at)?;
                nearest::<BW<N, D>, N, D>(&mut b, op, i, 3, st).map_err(at)?;
                nearest::<PW<N, D>, N, D>(&mut p, op, i, 3, st).map_err(at)?;
            }
            if round == 0 {
                for op in &case.ops {
                    b.step(op)?;
                    p.step(op)?;
                }
                st.nontrivial = b.max_len > b.cfg.max_children;
                while let Some((k, _)) = b.m.ents.last().copied() {
                    b.remove(k)?;
                }
                while let Some((k, _)) = p.m.ents.first().copied() {
                    p.remove(k)?;
                }
                b.check_len()?;
                p.check_len()?;
            }
        }
        st.hit("builtin_queries_on_empty_trees");
        Ok(())
    }
    match case.par[0] % 6 {
        0 => go::<i32, 2>(case, st),
        1 => go::<N64, 3>(case, st),
        2 => go::<i8, 1>(case, st),
        3 => go::<u32, 2>(case, st),
        4 => go::<N32, 2>(case, st),
        _ => go::<i16, 4>(case, st),
    }
}
