//! C22: coordinates of any magnitude, sign and type.
use crate::case::{Case, Res, Stats, MD};
use crate::eng::*;
use crate::ensure;
use crate::p_model;
use crate::raw::{dist, RBox, RKey};
use crate::world::*;
use noisy_float::types::{N32, N64};

/// Full range histories over one world.
fn full(case: &Case, st: &mut Stats) -> Res {
    match case.par[0] % 21 {
        0 => p_model::coordinates::<BW<i8, 2>>(case, st),
        1 => p_model::coordinates::<BW<i16, 3>>(case, st),
        2 => p_model::coordinates::<BW<i32, 2>>(case, st),
        3 => p_model::coordinates::<BW<u8, 2>>(case, st),
        4 => p_model::coordinates::<BW<u16, 3>>(case, st),
        5 => p_model::coordinates::<BW<u32, 1>>(case, st),
        6 => p_model::coordinates::<BW<N32, 2>>(case, st),
        7 => p_model::coordinates::<BW<N64, 4>>(case, st),
        8 => p_model::coordinates::<PW<i8, 3>>(case, st),
        9 => p_model::coordinates::<PW<i32, 6>>(case, st),
        10 => p_model::coordinates::<PW<u8, 5>>(case, st),
        11 => p_model::coordinates::<PW<u32, 2>>(case, st),
        12 => p_model::coordinates::<PW<i16, 1>>(case, st),
        13 => p_model::coordinates::<PW<u16, 4>>(case, st),
        14 => p_model::coordinates::<LW<i32, 3>>(case, st),
        15 => p_model::coordinates::<BW<Huge, 2>>(case, st),
        16 => p_model::coordinates::<PW<Huge, 3>>(case, st),
        17 => p_model::coordinates::<PW<Huge, 6>>(case, st),
        18 => p_model::coordinates::<BW<Tiny, 3>>(case, st),
        19 => p_model::coordinates::<PW<Tiny, 1>>(case, st),
        _ => p_model::coordinates::<LW<u8, 2>>(case, st),
    }
}

/// A transformation of coordinates: axis permutation, mirroring, translation.
#[derive(Clone, Copy)]
struct Tr {
    perm: [usize; MD],
    mirror: [bool; MD],
    shift: [i64; MD],
}
impl Tr {
    fn point(&self, p: &[i64; MD]) -> [i64; MD] {
        let mut r = [0; MD];
        for i in 0..MD {
            let v = p[self.perm[i]];
            r[i] = if self.mirror[i] { -v } else { v } + self.shift[i];
        }
        r
    }
    fn rbox(&self, b: &RBox) -> RBox {
        let (x, y) = (self.point(&b.lo), self.point(&b.hi));
        let mut r = RBox { lo: x, hi: y };
        for i in 0..MD {
            r.lo[i] = x[i].min(y[i]);
            r.hi[i] = x[i].max(y[i]);
        }
        r
    }
    fn key(&self, k: &RKey, is_box: bool) -> RKey {
        if is_box {
            let b = self.rbox(&k.rbox());
            RKey {
                a: b.lo,
                b: b.hi,
                tag: k.tag,
            }
        } else {
            RKey {
                a: self.point(&k.a),
                b: self.point(&k.b),
                tag: k.tag,
            }
        }
    }
}

/// The same history in world `A`, and transformed in world `B`; every result
/// must correspond. Coordinates are small whole numbers that every type holds.
fn moved<A: World, B: World>(case: &Case, st: &mut Stats, unsigned: bool) -> Res {
    let d = A::D;
    let mut t = Tr {
        perm: std::array::from_fn(|i| i),
        mirror: [false; MD],
        shift: [0; MD],
    };
    let sel = case.par[4];
    for i in 0..d {
        let j = (sel >> (2 * i)) as usize % (d - i) + i;
        t.perm.swap(i, j);
        t.mirror[i] = (sel >> (12 + i)) & 1 == 1;
        let s = ((sel >> (18 + i)) & 7) as i64;
        // everything stays within 0..=127, or -128..=127
        t.shift[i] = if unsigned {
            if t.mirror[i] {
                52 + s
            } else {
                s * 9
            }
        } else if t.mirror[i] {
            s * 20 - 76
        } else {
            s * 20 - 128
        };
    }
    let small = |k: RKey| -> RKey {
        // coordinates 0..=51
        let f = |v: i64| v.rem_euclid(52);
        let mut k = k;
        for i in 0..d {
            k.a[i] = f(k.a[i]);
            k.b[i] = f(k.b[i]);
            if A::KIND != crate::raw::Kind::Line && k.a[i] > k.b[i] {
                let x = k.a[i];
                k.a[i] = k.b[i];
                k.b[i] = x;
            }
        }
        if A::KIND == crate::raw::Kind::Point {
            k.b = k.a;
        }
        k
    };
    let is_box = A::KIND == crate::raw::Kind::Box;
    // worlds with fractional raw units take whole numbers times eight
    let (ua, ub) = (A::unit(), B::unit());
    let scale = |k: &RKey, u: i64| {
        let mut k = *k;
        for i in 0..d {
            k.a[i] *= u;
            k.b[i] *= u;
        }
        k
    };
    let scale_box = |b: &RBox, u: i64| {
        let mut b = *b;
        for i in 0..d {
            b.lo[i] *= u;
            b.hi[i] *= u;
        }
        b
    };
    let mut ea = Eng::<A, u32>::of(case);
    let mut eb = Eng::<B, u32>::of(case);
    let mut queries = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let k = small(match op.k {
            code::INSERT | code::UNIQUE | code::REMOVE_KEY => ea.op_key(op),
            _ => match ea.existing(op) {
                Some(k) => {
                    let mut k = k;
                    for j in 0..d {
                        k.a[j] /= ua;
                        k.b[j] /= ua;
                    }
                    k
                }
                None => ea.op_key(op),
            },
        });
        let (ka, kb) = (scale(&k, ua), scale(&t.key(&k, is_box), ub));
        let at = |m: String| format!("op {i}: {m}");
        match op.k {
            code::INSERT | code::INSERT_DUP => {
                ea.insert(ka);
                eb.insert(kb);
            }
            code::UNIQUE | code::UNIQUE_DUP => {
                ea.insert_unique(ka).map_err(at)?;
                eb.insert_unique(kb).map_err(at)?;
            }
            code::REMOVE | code::REMOVE_KEY | code::REMOVE_END => {
                // the same number of entries with the key stays behind
                ea.remove(ka).map_err(at)?;
                eb.remove(kb).map_err(at)?;
            }
            _ => {
                let mut q = A::qbox(op, i, case.par[2]);
                for j in 0..d {
                    let (x, y) = (q.lo[j].rem_euclid(52), q.hi[j].rem_euclid(52));
                    q.lo[j] = x.min(y);
                    q.hi[j] = x.max(y);
                }
                let tq = t.rbox(&q);
                let keys = |got: Vec<RKey>, u: i64| -> Vec<RKey> {
                    let mut v: Vec<RKey> = got
                        .into_iter()
                        .map(|k| {
                            let mut k = k;
                            for j in 0..d {
                                k.a[j] /= u;
                                k.b[j] /= u;
                            }
                            k
                        })
                        .collect();
                    v.sort_unstable();
                    v
                };
                let sa = Spec {
                    d,
                    pred: if op.s & 1 == 0 {
                        Pred::Isect(scale_box(&q, ua))
                    } else {
                        Pred::Within(scale_box(&q, ua))
                    },
                    loose: 0,
                };
                let sb = Spec {
                    d,
                    pred: if op.s & 1 == 0 {
                        Pred::Isect(scale_box(&tq, ub))
                    } else {
                        Pred::Within(scale_box(&tq, ub))
                    },
                    loose: 0,
                };
                let ga = keys(
                    ea.tree
                        .filter_iter::<A::K, _>(SpecFilter::<A>::new(sa))
                        .map(|(k, _)| t.key(&scale_down(&A::raw(k), ua, d), is_box))
                        .collect(),
                    1,
                );
                let gb = keys(
                    eb.tree
                        .filter_iter::<B::K, _>(SpecFilter::<B>::new(sb))
                        .map(|(k, _)| B::raw(k))
                        .collect(),
                    ub,
                );
                ensure!(
                    ga == gb,
                    "op {i}: {} finds {} entries, {} with moved coordinates {}; query {:?}..{:?}",
                    A::name(),
                    ga.len(),
                    B::name(),
                    gb.len(),
                    &q.lo[..d],
                    &q.hi[..d]
                );
                let fa = ea.tree.get::<A::K>(&A::mk(&ka)).is_some();
                let fb = eb.tree.get::<B::K>(&B::mk(&kb)).is_some();
                ensure!(fa == fb, "op {i}: get finds {fa} and, moved, {fb}");
                queries += (ea.m.len() > ea.cfg.max_children) as u64;
            }
        }
        ensure!(
            ea.tree.len() == eb.tree.len(),
            "op {i}: {} entries, moved {}",
            ea.tree.len(),
            eb.tree.len()
        );
    }
    ea.check_contents("iter()")?;
    eb.check_contents("iter() of the moved tree")?;
    st.add("moved_queries", queries);
    st.hit("moved_histories");
    ea.label(st);
    st.nontrivial = queries > 0;
    Ok(())
}
fn scale_down(k: &RKey, u: i64, d: usize) -> RKey {
    let mut k = *k;
    for j in 0..d {
        k.a[j] /= u;
        k.b[j] /= u;
    }
    k
}

#[cfg(any(feature = "c22"))]
pub fn coordinates(case: &Case, st: &mut Stats) -> Res {
    let mut c = case.clone();
    if case.par[5] % 3 != 0 {
        if case.par[5] % 3 == 1 {
            c.par[2] = dist::FULL;
        }
        return full(&c, st);
    }
    match case.par[0] % 12 {
        0 => moved::<BW<i32, 2>, BW<i32, 2>>(case, st, false),
        1 => moved::<BW<i32, 2>, BW<u8, 2>>(case, st, true),
        2 => moved::<BW<i32, 3>, BW<i8, 3>>(case, st, false),
        3 => moved::<BW<u8, 2>, BW<N64, 2>>(case, st, false),
        4 => moved::<PW<i32, 2>, PW<N32, 2>>(case, st, false),
        5 => moved::<PW<N64, 3>, PW<u16, 3>>(case, st, true),
        6 => moved::<PW<i8, 1>, PW<u32, 1>>(case, st, true),
        7 => moved::<LW<i32, 2>, LW<i16, 2>>(case, st, false),
        9 => moved::<BW<i32, 2>, BW<Huge, 2>>(case, st, false),
        10 => moved::<PW<Tiny, 2>, PW<i16, 2>>(case, st, false),
        8 => moved::<BW<u16, 4>, BW<i16, 4>>(case, st, false),
        _ => moved::<BW<N32, 1>, BW<i32, 1>>(case, st, false),
    }
}
