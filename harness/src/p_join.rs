//! Joins and left joins of two trees.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::eng::*;
use crate::raw::{dist, RBox, RKey};
use crate::world::World;
use crate::{ensure, fail, forms};
use rusty_rtree::filter::JoinFilter;
use rusty_rtree::RTree;
use std::collections::BTreeMap;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug)]
pub struct JoinSpec {
    /// number of common dimensions
    pub d: usize,
    pub kind: u8,
    pub r: i64,
    pub loose: u8,
}
pub const JOIN_KINDS: u8 = 11;

impl JoinSpec {
    pub fn key(&self, l: &RKey, r: &RKey) -> bool {
        let (a, b) = (l.rbox(), r.rbox());
        match self.kind % JOIN_KINDS {
            0 | 1 => a.intersects(&b, self.d),
            2 => a.contains(&b, self.d),
            3 => b.contains(&a, self.d),
            4 => a.gap(&b, self.d) <= self.r as i128 * self.r as i128,
            5 => true,
            6 => false,
            7 => (hash_key(l) ^ hash_key(r)) % 3 == 0,
            8 => a.lo[0] <= b.lo[0],
            9 => a.hi[0] < b.lo[0],
            _ => a.lo[..self.d] == b.lo[..self.d] && a.hi[..self.d] == b.hi[..self.d],
        }
    }
    fn tight(&self, a: &RBox, b: &RBox) -> bool {
        match self.kind % JOIN_KINDS {
            0 | 1 | 2 | 3 | 10 => a.intersects(b, self.d),
            4 => a.gap(b, self.d) <= self.r as i128 * self.r as i128,
            5 | 7 => true,
            6 => false,
            8 => a.lo[0] <= b.hi[0],
            _ => a.lo[0] < b.hi[0],
        }
    }
    pub fn bounds(&self, a: &RBox, b: &RBox) -> bool {
        match self.loose {
            0 => self.tight(a, b),
            1 => self.tight(&a.grow(3, self.d), b),
            2 => true,
            _ => self.tight(a, b) || (hash_box(a) ^ hash_box(b).rotate_left(9)) % 2 == 0,
        }
    }
    pub fn decode<L: World, R: World>(op: &Op, _idx: usize, d: u32) -> JoinSpec {
        let sel = op.e[MD - 1] as u16;
        JoinSpec {
            d: L::D.min(R::D),
            kind: (sel % JOIN_KINDS as u16) as u8,
            r: match d {
                dist::TINY => 1,
                dist::SMALL => 3,
                dist::MED => 30,
                dist::CLUSTER => 5,
                dist::DIAGONAL => 4,
                dist::SORTED => 10,
                dist::FULL => L::range(d).1 / 8,
                _ => 2000,
            },
            loose: match (sel >> 8) % 8 {
                0..=3 => 0,
                4 => 1,
                5 => 2,
                _ => 3,
            },
        }
    }
}

/// Calls of a join filter.
#[derive(Default)]
pub struct JoinLog {
    pub bounds: Vec<(RBox, RBox, bool)>,
    pub keys: Vec<(RKey, RKey)>,
}

pub struct SpecJoin<'a, L, R> {
    pub s: JoinSpec,
    pub log: Option<&'a std::cell::RefCell<JoinLog>>,
    t: crate::inst::Tool,
    p: PhantomData<(L, R)>,
}
impl<'a, L, R> SpecJoin<'a, L, R> {
    pub fn new(s: JoinSpec) -> Self {
        SpecJoin {
            s,
            log: None,
            t: crate::inst::Tool::new(),
            p: PhantomData,
        }
    }
    pub fn logged(s: JoinSpec, log: &'a std::cell::RefCell<JoinLog>) -> Self {
        SpecJoin {
            s,
            log: Some(log),
            t: crate::inst::Tool::new(),
            p: PhantomData,
        }
    }
}
impl<'a, L, R> Clone for SpecJoin<'a, L, R> {
    fn clone(&self) -> Self {
        crate::inst::tick(crate::inst::T_CLONE);
        SpecJoin {
            s: self.s,
            log: self.log,
            t: self.t.clone(),
            p: PhantomData,
        }
    }
}
impl<'a, L: World, R: World> JoinFilter<L::B, R::B, L::K, R::K> for SpecJoin<'a, L, R> {
    fn test_bounds(&self, l: &L::B, r: &R::B) -> bool {
        self.t.check("use of a join filter");
        crate::inst::tick(crate::inst::T_FILTER);
        let (l, r) = (asked(L::rb(l), L::D), asked(R::rb(r), R::D));
        let ok = self.s.bounds(&l, &r);
        if let Some(log) = self.log {
            log.borrow_mut().bounds.push((l, r, ok));
        }
        ok
    }
    fn test_key(&self, l: &L::K, r: &R::K) -> bool {
        self.t.check("use of a join filter");
        crate::inst::tick(crate::inst::T_FILTER);
        let (l, r) = (L::raw(l), R::raw(r));
        if let Some(log) = self.log {
            log.borrow_mut().keys.push((l, r));
        }
        self.s.key(&l, &r)
    }
}

type Pair = (Ent, Ent);

fn expected(lm: &Model, rm: &Model, s: JoinSpec) -> Vec<Pair> {
    let mut v = Vec::new();
    for l in &lm.ents {
        for r in &rm.ents {
            if s.key(&l.0, &r.0) {
                v.push((*l, *r));
            }
        }
    }
    v.sort_unstable();
    v
}

pub fn check_join<L: World, R: World, V: Val>(
    l: &Tree<L, V>,
    lm: &Model,
    r: &Tree<R, V>,
    rm: &Model,
    s: JoinSpec,
    st: &mut Stats,
) -> Res {
    let exp = expected(lm, rm, s);
    let it = l
        .join::<R::B, R::K, V, L::K, R::K, _>(r, SpecJoin::<L, R>::new(s))
        .map(|((k0, v0), (k1, v1))| ((L::raw(k0), v0.id()), (R::raw(k1), v1.id())));
    let what = format!("join ({s:?}, {} x {} entries)", lm.len(), rm.len());
    let mut got: Vec<Pair> = drain(&what, it, exp.len())?;
    got.sort_unstable();
    if got != exp {
        let missing = exp.iter().find(|p| got.binary_search(p).is_err());
        let extra = got.iter().find(|p| exp.binary_search(p).is_err());
        let twice = got.windows(2).find(|w| w[0] == w[1]);
        fail!(
            "{what}: {} pairs, expected {}; missing e.g. {missing:?}; unexpected e.g. {extra:?}; repeated e.g. {twice:?}",
            got.len(),
            exp.len()
        );
    }
    forms!(
        what,
        l.join::<R::B, R::K, V, L::K, R::K, _>(r, SpecJoin::<L, R>::new(s)),
        exp.len(),
        exp.len() + 5 * lm.len() + rm.len(),
        |_, ((k, _), (q, _)): (&(L::K, V), &(R::K, V))| s.key(&L::raw(k), &R::raw(q))
    );
    st.hit("joins");
    st.add("joined_pairs", exp.len() as u64);
    st.when(
        !exp.is_empty() && exp.len() < lm.len() * rm.len(),
        "joins_matching_some_pairs",
    );
    Ok(())
}

/// Left join with a schedule for the inner iterators given by `how`.
pub fn check_left_join<L: World, R: World, V: Val>(
    l: &Tree<L, V>,
    lm: &Model,
    r: &Tree<R, V>,
    rm: &Model,
    s: JoinSpec,
    how: u16,
    st: &mut Stats,
) -> Res {
    let what = format!(
        "left_join ({s:?}, {} x {} entries, schedule {how})",
        lm.len(),
        rm.len()
    );
    let cap = rm.len();
    let mut exp: BTreeMap<Ent, Vec<Ent>> = BTreeMap::new();
    for x in &lm.ents {
        let mut v: Vec<Ent> = rm
            .ents
            .iter()
            .filter(|y| s.key(&x.0, &y.0))
            .copied()
            .collect();
        v.sort_unstable();
        exp.insert(*x, v);
    }
    forms!(
        what,
        l.left_join::<R::B, R::K, V, L::K, R::K, _>(r, SpecJoin::<L, R>::new(s)),
        lm.len(),
        how,
        |_, _| true
    );
    if !lm.is_empty() {
        // the matches of one of the left entries
        let k = how as usize / 8 % lm.len();
        let inner = || {
            l.left_join::<R::B, R::K, V, L::K, R::K, _>(r, SpecJoin::<L, R>::new(s))
                .nth(k)
                .unwrap()
        };
        let ((k, v), _) = inner();
        let key = L::raw(k);
        let n = exp.get(&(key, v.id())).map_or(0, |v| v.len());
        forms!(
            format!("{what}, matches of {key:?}"),
            inner().1,
            n,
            how >> 2,
            |_, (q, _): (&R::K, &V)| s.key(&key, &R::raw(q))
        );
    }
    let mut outer = l.left_join::<R::B, R::K, V, L::K, R::K, _>(r, SpecJoin::<L, R>::new(s));
    // (left entry, what its iterator yielded so far, complete?)
    let mut seen: Vec<(Ent, Vec<Ent>, bool)> = Vec::new();
    let mut held = Vec::new();
    let mut rng = how as u64 | 0x9e3779b97f4a0000;
    let mut rnd = move |n: u64| {
        rng = rng
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        (rng >> 33) % n
    };
    macro_rules! pull {
        ($slot:expr, $it:expr, $n:expr) => {{
            let mut left: usize = $n;
            while left > 0 {
                match $it.next() {
                    Some((k, v)) => {
                        seen[$slot].1.push((R::raw(k), v.id()));
                        if seen[$slot].1.len() > cap {
                            fail!(
                                "{what}: the matches of {:?} are more than there are right entries",
                                seen[$slot].0
                            );
                        }
                    }
                    None => {
                        seen[$slot].2 = true;
                        break;
                    }
                }
                left -= 1;
            }
        }};
    }
    let mut held_max = 0;
    let mut yielded = 0;
    while let Some(((k, v), mut inner)) = outer.next() {
        yielded += 1;
        if yielded > lm.len() {
            fail!(
                "{what}: more than the {} left entries are yielded",
                lm.len()
            );
        }
        seen.push(((L::raw(k), v.id()), Vec::new(), false));
        let slot = seen.len() - 1;
        match how % 8 {
            // drained at once, each
            0 => pull!(slot, inner, usize::MAX),
            // dropped at once, partly or fully consumed
            1 => match rnd(3) {
                0 => {}
                1 => pull!(slot, inner, 1 + rnd(4) as usize),
                _ => pull!(slot, inner, usize::MAX),
            },
            // all held until the outer iterator is gone
            2 => held.push((slot, inner)),
            // partly consumed, then held
            3 => {
                pull!(slot, inner, rnd(4) as usize);
                held.push((slot, inner));
            }
            // the previous one is dropped only after the next was made
            4 => {
                if rnd(2) == 0 {
                    pull!(slot, inner, usize::MAX);
                }
                held.push((slot, inner));
                if held.len() > 1 {
                    let (sl, mut it) = held.remove(0);
                    pull!(sl, it, usize::MAX);
                }
            }
            // random mixture
            _ => {
                match rnd(4) {
                    0 => pull!(slot, inner, usize::MAX),
                    1 => pull!(slot, inner, rnd(3) as usize),
                    _ => {}
                }
                if rnd(3) > 0 {
                    held.push((slot, inner));
                }
                for _ in 0..rnd(3) {
                    if !held.is_empty() {
                        let j = rnd(held.len() as u64) as usize;
                        if rnd(3) == 0 {
                            drop(held.swap_remove(j));
                        } else {
                            let (sl, it) = &mut held[j];
                            let sl = *sl;
                            pull!(sl, it, 1 + rnd(5) as usize);
                        }
                    }
                }
            }
        }
        held_max = held_max.max(held.len());
    }
    if how & 8 == 0 {
        drop(outer);
    }
    // interleave what is still held
    let mut round = 0;
    while !held.is_empty() {
        round += 1;
        let mut j = 0;
        while j < held.len() {
            let n = if round > 3 { usize::MAX } else { 1 };
            let (sl, it) = &mut held[j];
            let sl = *sl;
            pull!(sl, it, n);
            if seen[sl].2 {
                drop(held.swap_remove(j));
            } else {
                j += 1;
            }
        }
    }
    same(
        &format!("{what}: left entries"),
        seen.iter().map(|x| x.0).collect(),
        lm.ents.clone(),
    )?;
    let mut complete = 0;
    for (e, got, done) in &mut seen {
        let exp = &exp[e];
        got.sort_unstable();
        if *done {
            complete += 1;
            if got != exp {
                same(
                    &format!("{what}: matches of {e:?}"),
                    got.clone(),
                    exp.clone(),
                )?;
            }
        } else {
            let mut j = 0;
            for x in got.iter() {
                while j < exp.len() && exp[j] < *x {
                    j += 1;
                }
                ensure!(
                    j < exp.len() && exp[j] == *x,
                    "{what}: {x:?} is no match of {e:?}, or repeated"
                );
                j += 1;
            }
        }
    }
    st.hit("left_joins");
    st.add("inner_iterators_completed", complete);
    st.when(held_max > 1, "left_joins_holding_several_inner_iterators");
    st.when(
        exp.values().any(|v| v.is_empty()) && exp.values().any(|v| !v.is_empty()),
        "left_joins_with_and_without_matches",
    );
    Ok(())
}

/// Joins with an empty tree on either side.
pub fn empty_joins<W: World>(t: &Tree<W, u32>, st: &mut Stats) -> Res {
    // the tree is empty; `full` is not
    let mut full: Tree<W, u32> = RTree::new(config(0));
    let mut m = Model::default();
    for i in 0..7i16 {
        let mut op = Op::default();
        for d in 0..MD {
            op.c[d] = i * (d as i16 + 1);
        }
        let k = W::key(&op, i as usize, dist::SMALL);
        full.insert(W::mk(&k), i as u32);
        m.add(k, i as u32);
    }
    let none = Model::default();
    for kind in [0, 5, 8] {
        for loose in [0, 2] {
            let s = JoinSpec {
                d: W::D,
                kind,
                r: 1,
                loose,
            };
            let sub = &mut Stats::default();
            check_join::<W, W, u32>(t, &none, &full, &m, s, sub)?;
            check_join::<W, W, u32>(&full, &m, t, &none, s, sub)?;
            check_join::<W, W, u32>(t, &none, t, &none, s, sub)?;
            for how in [0, 2, 5] {
                check_left_join::<W, W, u32>(t, &none, &full, &m, s, how, sub)?;
                check_left_join::<W, W, u32>(&full, &m, t, &none, s, how, sub)?;
                check_left_join::<W, W, u32>(t, &none, t, &none, s, how, sub)?;
            }
        }
    }
    st.hit("joins_with_an_empty_tree");
    Ok(())
}

pub struct TwoTrees<L: World, R: World, V: Val> {
    pub l: Eng<L, V>,
    pub r: Eng<R, V>,
}
impl<L: World, R: World, V: Val> TwoTrees<L, R, V> {
    pub fn of(case: &Case) -> Self {
        TwoTrees {
            l: Eng::new(config(case.par[1]), case.par[2]),
            r: Eng::new(config(case.par[3]), case.par[2]),
        }
    }
    /// Which side an operation belongs to; par[4] sets the share of the left.
    pub fn step(&mut self, case: &Case, op: &Op) -> Res {
        let share = case.par[4] % 16;
        if (op.e[MD - 2] as u16 % 16) < share as u16 {
            self.l.step(op)
        } else {
            self.r.step(op)
        }
    }
    pub fn label(&self, st: &mut Stats) {
        let h = |n: usize, m: usize| {
            let (mut h, mut c) = (1, m);
            while n > c {
                c *= m;
                h += 1;
            }
            h
        };
        let (hl, hr) = (
            h(self.l.m.len(), self.l.cfg.max_children),
            h(self.r.m.len(), self.r.cfg.max_children),
        );
        st.when(hl > hr, "cases_with_the_left_tree_surely_or_likely_taller");
        st.when(hr > hl, "cases_with_the_right_tree_surely_or_likely_taller");
        st.when(
            self.l.m.is_empty() || self.r.m.is_empty(),
            "cases_with_an_empty_tree",
        );
    }
}

fn join_case<L: World, R: World>(case: &Case, st: &mut Stats, left: bool) -> Res {
    let mut t = TwoTrees::<L, R, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        t.step(case, op).map_err(at)?;
        let size = t.l.m.len() * t.r.m.len();
        let now = if op.k >= code::QUERY {
            size <= 2500
        } else {
            i + 3 > last
        };
        if now {
            let s = JoinSpec::decode::<L, R>(op, i, case.par[2]);
            if left {
                check_left_join::<L, R, u32>(&t.l.tree, &t.l.m, &t.r.tree, &t.r.m, s, op.s, st)
            } else {
                check_join::<L, R, u32>(&t.l.tree, &t.l.m, &t.r.tree, &t.r.m, s, st)
            }
            .map_err(at)?;
            let big = |e: usize, m: usize| e > m;
            good |= big(t.l.m.len(), t.l.cfg.max_children)
                && big(t.r.m.len(), t.r.cfg.max_children)
                && s.kind % JOIN_KINDS != 6;
            if i + 1 == last && op.s & 1 == 0 {
                // a tree with itself
                if left {
                    check_left_join::<L, L, u32>(&t.l.tree, &t.l.m, &t.l.tree, &t.l.m, s, op.s, st)
                } else {
                    check_join::<L, L, u32>(&t.l.tree, &t.l.m, &t.l.tree, &t.l.m, s, st)
                }
                .map_err(|m| format!("op {i}: self join: {m}"))?;
            }
        }
    }
    t.label(st);
    st.nontrivial = good;
    Ok(())
}

macro_rules! pairs {
    ($idx:expr, $f:ident ( $($a:expr),* )) => {{
        use $crate::world::*;
        use noisy_float::types::{N32, N64};
        match $idx % 7 {
            0 => $f::<BW<i32, 2>, BW<i32, 2>>($($a),*),
            1 => $f::<PW<i32, 2>, BW<i32, 2>>($($a),*),
            2 => $f::<BW<i32, 1>, PW<N64, 3>>($($a),*),
            3 => $f::<LW<i32, 2>, TW>($($a),*),
            4 => $f::<CW, BW<i32, 2>>($($a),*),
            5 => $f::<TW, CW>($($a),*),
            _ => $f::<BW<N32, 3>, BW<i32, 1>>($($a),*),
        }
    }};
}

/// C12
#[cfg(any(feature = "c12"))]
pub fn joins(case: &Case, st: &mut Stats) -> Res {
    pairs!(case.par[0], join_case(case, st, false))
}
/// C13
#[cfg(any(feature = "c13"))]
pub fn left_joins(case: &Case, st: &mut Stats) -> Res {
    pairs!(case.par[0], join_case(case, st, true))
}
