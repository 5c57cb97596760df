//! Boxes, shapes and distances in 7 to 100 dimensions, over small whole
//! coordinates, where all of the arithmetic is exact.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::ensure;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::geom::line::Line;
use rusty_rtree::geom::ray::Ray;
use rusty_rtree::geom::sphere::Sphere;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::SVec;

pub trait Small: crate::world::Coord + std::ops::AddAssign {
    fn small(x: i64) -> Self;
}
macro_rules! small {
    ($($t:ident)*) => {$( impl Small for $t { fn small(x: i64) -> Self { x as $t } } )*};
}
small!(i16 i32 u32);
impl Small for N64 {
    fn small(x: i64) -> Self {
        noisy_float::types::n64(x as f64)
    }
}
impl Small for N32 {
    fn small(x: i64) -> Self {
        noisy_float::types::n32(x as f32)
    }
}

macro_rules! dims {
    ($case:expr, $f:ident ( $($a:expr),* )) => {
        match $case.par[0] % 16 {
            0 => $f::<i32, 7>($($a),*),
            1 => $f::<N64, 8>($($a),*),
            2 => $f::<i32, 9>($($a),*),
            3 => $f::<N32, 9>($($a),*),
            4 => $f::<i16, 10>($($a),*),
            5 => $f::<u32, 11>($($a),*),
            6 => $f::<N64, 12>($($a),*),
            7 => $f::<i32, 13>($($a),*),
            8 => $f::<i16, 15>($($a),*),
            9 => $f::<N32, 16>($($a),*),
            10 => $f::<i32, 17>($($a),*),
            11 => $f::<N64, 24>($($a),*),
            12 => $f::<i32, 32>($($a),*),
            13 => $f::<u32, 33>($($a),*),
            14 => $f::<i32, 65>($($a),*),
            _ => $f::<N64, 100>($($a),*),
        }
    };
}

struct R(u64);
impl R {
    fn of(op: &Op) -> R {
        let mut h = op.s as u64 | (op.k as u64) << 16;
        for i in 0..MD {
            for v in [op.c[i], op.e[i]] {
                h = (h ^ v as u16 as u64).wrapping_mul(0x9e3779b97f4a7c15);
                h ^= h >> 31;
            }
        }
        R(h | 1)
    }
    fn below(&mut self, n: u64) -> i64 {
        self.0 = self
            .0
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n) as i64
    }
}

type Pt<const D: usize> = [i64; D];
#[derive(Clone, Copy, PartialEq, Debug)]
struct Bx<const D: usize> {
    lo: Pt<D>,
    hi: Pt<D>,
}
impl<const D: usize> Bx<D> {
    fn holds(&self, p: &Pt<D>) -> bool {
        (0..D).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
    }
    fn contains(&self, o: &Bx<D>) -> bool {
        (0..D).all(|i| self.lo[i] <= o.lo[i] && o.hi[i] <= self.hi[i])
    }
    fn meets(&self, o: &Bx<D>) -> bool {
        (0..D).all(|i| self.lo[i] <= o.hi[i] && o.lo[i] <= self.hi[i])
    }
    fn union(&self, o: &Bx<D>) -> Bx<D> {
        Bx {
            lo: std::array::from_fn(|i| self.lo[i].min(o.lo[i])),
            hi: std::array::from_fn(|i| self.hi[i].max(o.hi[i])),
        }
    }
}
fn vec<N: Small, const D: usize>(p: &Pt<D>) -> SVec<N, D> {
    SVec(p.map(N::small))
}
fn real<N: Small, const D: usize>(b: &Bx<D>) -> SAABB<N, D> {
    SAABB {
        min: vec(&b.lo),
        max: vec(&b.hi),
    }
}

/// A box, and one that is like it in all but a few dimensions.
fn pair<const D: usize>(r: &mut R, far: i64) -> (Bx<D>, Bx<D>) {
    let mut a = Bx {
        lo: [0; D],
        hi: [0; D],
    };
    for i in 0..D {
        a.lo[i] = far + r.below(40);
        // products of powers of two are exact
        a.hi[i] = a.lo[i] + [1, 2, 4, 1, 2, 4, 8, 1][r.below(8) as usize];
    }
    if r.below(8) == 0 {
        let i = r.below(D as u64) as usize;
        a.hi[i] = a.lo[i];
    }
    let mut b = a;
    let inner = r.below(2) == 0;
    for i in 0..D {
        if inner || r.below(3) == 0 {
            b.lo[i] += r.below((a.hi[i] - a.lo[i]) as u64 + 1);
            b.hi[i] -= r.below((b.hi[i] - b.lo[i]) as u64 + 1);
        }
    }
    for _ in 0..r.below(3) {
        // often one of the last
        let i = match r.below(3) {
            0 => D - 1 - r.below(3) as usize,
            _ => r.below(D as u64) as usize,
        };
        (b.lo[i], b.hi[i]) = match r.below(7) {
            0 => (a.hi[i], a.hi[i] + r.below(3)),
            1 => (a.lo[i] - r.below(3), a.lo[i]),
            2 => (a.hi[i] + 1, a.hi[i] + 1 + r.below(3)),
            3 => (a.lo[i] - 2, a.lo[i] - 1),
            4 => (a.lo[i] - 1, a.hi[i]),
            5 => (a.lo[i], a.hi[i] + 1),
            _ => (a.lo[i] - 1, a.hi[i] + 1),
        };
    }
    (a, b)
}
fn near<const D: usize>(r: &mut R, b: &Bx<D>) -> Pt<D> {
    let mut p: Pt<D> = std::array::from_fn(|i| b.lo[i] + r.below((b.hi[i] - b.lo[i]) as u64 + 1));
    for _ in 0..r.below(3) {
        let i = match r.below(3) {
            0 => D - 1 - r.below(3) as usize,
            _ => r.below(D as u64) as usize,
        };
        p[i] = [b.lo[i], b.hi[i], b.lo[i] - 1, b.hi[i] + 1][r.below(4) as usize];
    }
    p
}

fn boxes_of<N: Small, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    let mut all: Vec<Bx<D>> = Vec::new();
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = R::of(op);
        let (a, b) = pair::<D>(&mut r, 20);
        let p = near(&mut r, &b);
        let (xa, xb): (SAABB<N, D>, SAABB<N, D>) = (real(&a), real(&b));
        let xp: SVec<N, D> = vec(&p);
        macro_rules! same {
            ($what:expr, $got:expr, $exp:expr) => {
                ensure!(
                    ($got) == ($exp),
                    "op {i} ({}^{D}): a {a:?} b {b:?} p {p:?}: {} is {:?}, should be {:?}",
                    N::NAME,
                    $what,
                    $got,
                    $exp
                )
            };
        }
        same!(
            "a.intersects(b)",
            Intersects::<SAABB<N, D>>::intersects(&xa, &xb),
            a.meets(&b)
        );
        same!(
            "b.intersects(a)",
            Intersects::<SAABB<N, D>>::intersects(&xb, &xa),
            a.meets(&b)
        );
        same!(
            "a.contains(b)",
            Contains::<SAABB<N, D>>::contains(&xa, &xb),
            a.contains(&b)
        );
        same!(
            "b.contains(a)",
            Contains::<SAABB<N, D>>::contains(&xb, &xa),
            b.contains(&a)
        );
        for (n, x, y) in [("a", &xa, &a), ("b", &xb, &b)] {
            let exp = y.holds(&p);
            same!(
                format!("{n}.contains(p)"),
                Contains::<SVec<N, D>>::contains(x, &xp),
                exp
            );
            same!(
                format!("{n}.intersects(p)"),
                Intersects::<SVec<N, D>>::intersects(x, &xp),
                exp
            );
            same!(
                format!("p.intersects({n})"),
                Intersects::<SAABB<N, D>>::intersects(&xp, x),
                exp
            );
        }
        let u: SAABB<N, D> = real(&a.union(&b));
        let e = SAABB::<N, D>::empty();
        same!("union(a, b)", SAABB::union(&xa, &xb), u);
        same!("union(b, a)", SAABB::union(&xb, &xa), u);
        same!("union_all([a, b, a])", SAABB::union_all([xa, xb, xa]), u);
        same!("union(empty, a)", SAABB::union(&e, &xa), xa);
        same!("union_all([a])", SAABB::union_all([xa]), xa);
        same!(
            "empty.contains(p)",
            Contains::<SVec<N, D>>::contains(&e, &xp),
            false
        );
        let pb: SAABB<N, D> = Bounded::bounds(&xp);
        same!("p.bounds()", pb, SAABB { min: xp, max: xp });
        all.push(b);
        let exp = all.iter().skip(1).fold(all[0], |x, y| x.union(y));
        same!(
            format!("union_all of {} boxes", all.len()),
            SAABB::<N, D>::union_all(all.iter().map(real)),
            real::<N, D>(&exp)
        );
        let vol: f64 = (0..D).map(|j| (a.hi[j] - a.lo[j]) as f64).product();
        same!("the volume of a", xa.volume().raw(), vol);
        st.hit("pairs_of_boxes_of_many_dimensions");
        st.nontrivial |= a.meets(&b) && a != b;
    }
    Ok(())
}

/// Whether a point between parameters 0 and 1 (or at 0 and more) is in the box.
fn hits<const D: usize>(p: &Pt<D>, v: &Pt<D>, b: &Bx<D>, ray: bool) -> bool {
    // of the form n / d with d > 0
    let mut from = (0i64, 1i64);
    let mut to = (1i64, i64::from(!ray));
    for i in 0..D {
        if v[i] == 0 {
            if p[i] < b.lo[i] || p[i] > b.hi[i] {
                return false;
            }
            continue;
        }
        let (x, y) = if v[i] > 0 {
            ((b.lo[i] - p[i], v[i]), (b.hi[i] - p[i], v[i]))
        } else {
            ((p[i] - b.hi[i], -v[i]), (p[i] - b.lo[i], -v[i]))
        };
        if x.0 * from.1 > from.0 * x.1 {
            from = x;
        }
        if y.0 * to.1 < to.0 * y.1 {
            to = y;
        }
    }
    from.0 * to.1 <= to.0 * from.1
}

fn shapes_of<N: Small, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = R::of(op);
        let (_, b) = pair::<D>(&mut r, 100);
        let x: SAABB<N, D> = real(&b);
        // through, or close to, a point of the box, at a parameter that f64
        // has exactly
        let q = near(&mut r, &b);
        let mut v: Pt<D> = [0; D];
        let flat = r.below(3);
        for j in 0..D {
            if r.below(3) >= flat {
                v[j] = [1, -1, 2, -2, 4, -4][r.below(6) as usize];
            }
        }
        if N::UNSIGNED {
            v = v.map(|x| x.abs());
        }
        let t = r.below(7) - 2;
        let scale = [1, 2, 4][r.below(3) as usize];
        // a segment of length `scale` in units of v, or a ray
        let p: Pt<D> = std::array::from_fn(|j| q[j] - t * v[j]);
        let end: Pt<D> = std::array::from_fn(|j| p[j] + scale * v[j]);
        let whole: Pt<D> = std::array::from_fn(|j| scale * v[j]);
        macro_rules! same {
            ($what:expr, $got:expr, $exp:expr) => {
                ensure!(
                    ($got) == ($exp),
                    "op {i} ({}^{D}): {} with {p:?} {v:?} {end:?} {b:?} is {:?}, should be {:?}",
                    N::NAME,
                    $what,
                    $got,
                    $exp
                )
            };
        }
        let exp = hits(&p, &whole, &b, false);
        let l: Line<SVec<N, D>> = Line(vec(&p), vec(&end));
        same!(
            "line.intersects(box)",
            Intersects::<SAABB<N, D>>::intersects(&l, &x),
            exp
        );
        same!(
            "box.intersects(line)",
            Intersects::<Line<SVec<N, D>>>::intersects(&x, &l),
            exp
        );
        let lb: SAABB<N, D> = l.bounds();
        same!(
            "line.bounds()",
            lb,
            real::<N, D>(&Bx { lo: p, hi: p }.union(&Bx { lo: end, hi: end }))
        );
        let along = hits(&p, &v, &b, true);
        let ray = Ray::<N, D> {
            origin: vec(&p),
            n: vec(&v),
        };
        same!(
            "ray.intersects(box)",
            Intersects::<SAABB<N, D>>::intersects(&ray, &x),
            along
        );
        same!(
            "box.intersects(ray)",
            Intersects::<Ray<N, D>>::intersects(&x, &ray),
            along
        );
        // a sphere about the end of the segment, and its start
        let sq: i64 = (0..D).map(|j| (whole[j]).pow(2)).sum();
        let mut radius = (sq as f64).sqrt() as i64 + r.below(3) - 1;
        if r.below(3) == 0 {
            radius = r.below(20);
        }
        let radius = radius.max(0);
        let s = Sphere::<N, D> {
            center: vec(&end),
            radius: N::small(radius),
        };
        let inside = sq <= radius * radius;
        let xp: SVec<N, D> = vec(&p);
        same!(
            "sphere.intersects(point)",
            Intersects::<SVec<N, D>>::intersects(&s, &xp),
            inside
        );
        same!(
            "point.intersects(sphere)",
            Intersects::<Sphere<N, D>>::intersects(&xp, &s),
            inside
        );
        st.hit("shapes_of_many_dimensions");
        st.when(exp, "lines_of_many_dimensions_hitting");
        st.when(along, "rays_of_many_dimensions_hitting");
        st.nontrivial |= exp && !b.holds(&p);
    }
    Ok(())
}

fn distances_of<N: Small, const D: usize>(case: &Case, st: &mut Stats) -> Res {
    for (i, op) in case.ops.iter().enumerate() {
        let mut r = R::of(op);
        let (a, b) = pair::<D>(&mut r, 20);
        // p is below the corners, so that unsigned types can subtract it
        let mut p: Pt<D> = std::array::from_fn(|j| a.lo[j].min(b.lo[j]) - r.below(3));
        let q = near(&mut r, &b);
        for j in 0..D {
            p[j] = p[j].min(q[j]);
        }
        if !N::UNSIGNED && r.below(2) == 0 {
            p = near(&mut r, &a);
        }
        let (xp, xq): (SVec<N, D>, SVec<N, D>) = (vec(&p), vec(&q));
        let (xa, xb): (SAABB<N, D>, SAABB<N, D>) = (real(&a), real(&b));
        macro_rules! same {
            ($what:expr, $got:expr, $exp:expr) => {
                ensure!(
                    ($got) == ($exp),
                    "op {i} ({}^{D}): a {a:?} b {b:?} p {p:?} q {q:?}: {} is {:?}, should be {:?}",
                    N::NAME,
                    $what,
                    $got,
                    $exp
                )
            };
        }
        let sq: i64 = (0..D).map(|j| (p[j] - q[j]).pow(2)).sum();
        same!("q.dist_sq(p)", xq.dist_sq(&xp), N::small(sq));
        same!("(q - p).sq_mag()", (xq - xp).sq_mag(), N::small(sq));
        let l = Line(xp, xq);
        same!(
            "line.delta()",
            l.delta(),
            vec::<N, D>(&std::array::from_fn(|j| q[j] - p[j]))
        );
        same!("line.sq_len()", l.sq_len(), sq as f64);
        same!("line.len()", l.len(), (sq as f64).sqrt());
        let gap = |x: i64, lo: i64, hi: i64| (lo - x).max(x - hi).max(0);
        let far: i64 = (0..D).map(|j| gap(p[j], b.lo[j], b.hi[j]).pow(2)).sum();
        same!(
            "b.dist_sq(p)",
            PointDistance::<SVec<N, D>, N>::dist_sq(&xb, &xp),
            N::small(far)
        );
        let rank = EuclideanDistanceRanking::<SVec<N, D>, N>::new(xp);
        same!(
            "bounds_min(b)",
            Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&rank, &xb),
            N::small(far)
        );
        same!(
            "rank_key(q)",
            Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&rank, &xq),
            N::small(sq)
        );
        let apart: i64 = (0..D)
            .map(|j| (a.lo[j] - b.hi[j]).max(b.lo[j] - a.hi[j]).max(0).pow(2))
            .sum();
        same!("a.sq_dist_to(b)", xa.sq_dist_to(&xb).raw(), apart as f64);
        same!("b.sq_dist_to(a)", xb.sq_dist_to(&xa).raw(), apart as f64);
        let sum: Pt<D> = std::array::from_fn(|j| p[j] + q[j]);
        same!("p + q", xp + xq, vec::<N, D>(&sum));
        let mut acc = xp;
        acc += xq;
        same!("p += q", acc, vec::<N, D>(&sum));
        same!("p + q - p", acc - xp, xq);
        same!("p.map(x + x)", xp.into_map(|x| x + x), xp + xp);
        same!("p == q", xp == xq, p == q);
        same!("a == b", xa == xb, a == b);
        same!("p.partial_cmp(q)", xp.partial_cmp(&xq), p.partial_cmp(&q));
        let mut last = xp;
        last[D - 1] = xq[D - 1];
        same!("p with the last of q", last[D - 1], N::small(q[D - 1]));
        same!(
            "p with the last of q == p",
            last == xp,
            p[D - 1] == q[D - 1]
        );
        same!(
            "p.zip(q)",
            xp.zip(&xq).filter(|(a, b)| a == b).count(),
            (0..D).filter(|j| p[*j] == q[*j]).count()
        );
        st.hit("distances_in_many_dimensions");
        st.nontrivial |= apart > 0 || far > 0;
    }
    Ok(())
}

#[cfg(feature = "c06")]
pub fn boxes(case: &Case, st: &mut Stats) -> Res {
    dims!(case, boxes_of(case, st))
}
#[cfg(feature = "c07")]
pub fn shapes(case: &Case, st: &mut Stats) -> Res {
    dims!(case, shapes_of(case, st))
}
#[cfg(feature = "c11")]
pub fn distances(case: &Case, st: &mut Stats) -> Res {
    dims!(case, distances_of(case, st))
}
