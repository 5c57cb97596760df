//! Properties of the map-like interface and of single-tree queries, decided
//! against the multiset model.
use crate::case::{Case, Res, Stats};
use crate::eng::*;
use crate::raw::{Kind, RKey};
use crate::world::World;
use crate::{ensure, fail, forms};
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::RTree;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

/// C01
pub fn contents<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    for (i, op) in case.ops.iter().enumerate() {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if e.m.len() < 2000 || i % 97 == 0 || e.due(i) || i + 20 > case.ops.len() {
            e.check_len().map_err(|m| format!("op {i}: {m}"))?;
        }
        if e.due(i) || i + 1 == case.ops.len() {
            let w = |s: &str| format!("op {i}: {s}");
            e.check_contents(&w("iter()"))?;
            if i % 3 == 0 || i + 1 == case.ops.len() {
                let n = e.m.len();
                let got = drain(&w("iter_mut()"), e.tree.iter_mut(), n)?
                    .into_iter()
                    .map(|(k, v)| (W::raw(k), *v))
                    .collect();
                same(&w("iter_mut()"), got, e.m.sorted())?;
                let got = drain(&w("&tree"), (&e.tree).into_iter(), n)?
                    .into_iter()
                    .map(|(k, v)| (W::raw(k), *v))
                    .collect();
                same(&w("&tree"), got, e.m.sorted())?;
                let got = drain(&w("&mut tree"), (&mut e.tree).into_iter(), n)?
                    .into_iter()
                    .map(|(k, v)| (W::raw(k), *v))
                    .collect();
                same(&w("&mut tree"), got, e.m.sorted())?;
            }
            st.hit("full_comparisons");
        }
    }
    e.label(st);
    st.nontrivial = e.max_len > e.cfg.max_children && e.removed > 0;
    Ok(())
}

fn near<W: World>(k: &RKey, s: u16) -> RKey {
    let mut n = *k;
    let i = (s as usize / 8) % W::D;
    let (lo, hi) = W::range(crate::raw::dist::MED);
    match s % 8 {
        0 => n.a[i] = (n.a[i] + 1).min(hi.max(n.a[i])),
        1 => n.b[i] = n.b[i].saturating_add(1),
        2 => n.a[i] = (n.a[i] - 1).max(lo.min(n.a[i])),
        3 => std::mem::swap(&mut n.a, &mut n.b),
        4 => n.tag ^= 1,
        5 => {
            let t = n.a[i];
            n.a[i] = n.b[i];
            n.b[i] = t;
        }
        6 => n.b = n.a,
        _ => n.a = n.b,
    }
    // back into the key space of the world
    match W::KIND {
        Kind::Point | Kind::Tagged => n.b = n.a,
        Kind::Box => {
            for j in 0..W::D {
                if n.a[j] > n.b[j] {
                    let t = n.a[j];
                    n.a[j] = n.b[j];
                    n.b[j] = t;
                }
            }
        }
        Kind::Line => {}
    }
    for j in 0..W::D {
        n.a[j] = n.a[j].clamp(lo.min(k.a[j]), hi.max(k.a[j]));
        n.b[j] = n.b[j].clamp(lo.min(k.b[j]), hi.max(k.b[j]));
    }
    if W::KIND != Kind::Tagged {
        n.tag = k.tag;
    }
    match W::KIND {
        Kind::Point | Kind::Tagged => n.b = n.a,
        _ => {}
    }
    n
}

fn lookup<W: World>(e: &mut Eng<W, u32>, k: &RKey, st: &mut Stats) -> Res {
    let key = W::mk(k);
    let exp = e.m.ids(k).to_vec();
    let ok = |what: &str, got: Option<u32>| -> Res {
        match got {
            None => ensure!(
                exp.is_empty(),
                "{what} found nothing for a stored key {k:?} with values {exp:?}"
            ),
            Some(v) => ensure!(
                exp.contains(&v),
                "{what} returned {v} for {k:?}, whose values are {exp:?}"
            ),
        }
        Ok(())
    };
    ok("get", e.tree.get::<W::K>(&key).copied())?;
    ok("get (borrowed)", e.tree.get::<W::Q>(key.borrow()).copied())?;
    ok("get_mut", e.tree.get_mut::<W::K>(&key).map(|v| *v))?;
    ok(
        "get_mut (borrowed)",
        e.tree.get_mut::<W::Q>(key.borrow()).map(|v| *v),
    )?;
    st.hit(if exp.is_empty() {
        "lookups_of_absent_keys"
    } else {
        "lookups_of_stored_keys"
    });
    Ok(())
}

/// C02
pub fn lookups<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut absent_inside = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if op.k >= code::QUERY {
            let k = e.op_key(op);
            lookup(&mut e, &k, st).map_err(at)?;
            if let Some(k) = e.existing(op) {
                lookup(&mut e, &k, st).map_err(at)?;
                let n = near::<W>(&k, op.e[0] as u16);
                absent_inside |= !e.m.has(&n);
                lookup(&mut e, &n, st).map_err(at)?;
            }
        }
        if e.m.len() <= 12 || i % 64 == 63 || i + 1 == case.ops.len() {
            let keys: Vec<RKey> = e.m.by.keys().copied().collect();
            let step = keys.len() / 300 + 1;
            for (j, k) in keys.iter().enumerate().step_by(step) {
                lookup(&mut e, k, st).map_err(at)?;
                if j % 5 == 0 {
                    let n = near::<W>(k, op.s.wrapping_add(j as u16 / 5));
                    lookup(&mut e, &n, st).map_err(at)?;
                }
            }
        }
    }
    e.label(st);
    st.nontrivial = e.max_len > e.cfg.max_children && absent_inside;
    Ok(())
}

/// C03
pub fn unique<W: World>(case: &Case, st: &mut Stats) -> Res {
    // par[4] odd: only insert_unique and remove (map mode)
    let map = case.par[4] & 1 == 1;
    let mut e = Eng::<W, u32>::of(case);
    let mut replaced = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        let mut op = *op;
        if map {
            op.k = match op.k {
                code::INSERT => code::UNIQUE,
                code::INSERT_DUP => code::UNIQUE_DUP,
                k => k,
            };
        }
        let is_unique = op.k == code::UNIQUE || op.k == code::UNIQUE_DUP;
        let before = e.m.len();
        let had = if is_unique {
            let k = e.target(&op).unwrap();
            e.m.has(&k)
        } else {
            false
        };
        e.step(&op).map_err(at)?;
        if is_unique {
            if had {
                replaced += 1;
                ensure!(
                    e.tree.len() == before,
                    "op {i}: insert_unique of a present key changed len from {before} to {}",
                    e.tree.len()
                );
            } else {
                ensure!(
                    e.tree.len() == before + 1,
                    "op {i}: insert_unique of an absent key changed len from {before} to {}",
                    e.tree.len()
                );
            }
            if e.due(i) {
                e.check_contents("iter() after insert_unique").map_err(at)?;
            }
        }
        if map {
            ensure!(!e.m.has_dups(), "op {i}: model has duplicates");
        }
    }
    e.check_contents("iter() at the end")?;
    if map {
        let mut keys = BTreeSet::new();
        for (k, _) in e.tree.iter() {
            ensure!(
                keys.insert(W::raw(k)),
                "a tree filled with insert_unique holds {:?} twice",
                W::raw(k)
            );
        }
    }
    e.label(st);
    st.add("replacements", replaced);
    st.when(map, "cases_using_the_tree_as_a_map");
    st.nontrivial = e.max_len > e.cfg.max_children && replaced > 0;
    Ok(())
}

/// The values of the entries with this key, in iteration order.
fn in_order<W: World>(t: &Tree<W, u32>, k: &RKey) -> Vec<u32> {
    t.iter()
        .filter(|(x, _)| W::raw(x) == *k)
        .map(|(_, v)| *v)
        .collect()
}

/// C04
pub fn first<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut multi = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let target = match op.k {
            k if k >= code::QUERY => e.existing(op),
            _ => e.target(op),
        };
        let Some(k) = target else { continue };
        let vals = in_order::<W>(&e.tree, &k);
        let first = vals.first().copied();
        if vals.len() > 1 {
            multi += 1;
        }
        let key = W::mk(&k);
        match op.k {
            code::INSERT | code::INSERT_DUP => e.insert(k),
            code::UNIQUE | code::UNIQUE_DUP => {
                let id = e.fresh();
                let prev = e.tree.insert_unique(W::mk(&k), id);
                ensure!(
                    prev == first,
                    "op {i}: insert_unique of {k:?} returned {prev:?}, but the first of {vals:?} is {first:?}"
                );
                match prev {
                    Some(p) => {
                        e.m.set(&k, p, id);
                        let after = in_order::<W>(&e.tree, &k);
                        let mut exp = vals.clone();
                        exp[0] = id;
                        ensure!(
                            after == exp,
                            "op {i}: insert_unique of {k:?} turned {vals:?} into {after:?}, expected {exp:?}"
                        );
                    }
                    None => e.m.add(k, id),
                }
            }
            code::REMOVE | code::REMOVE_KEY | code::REMOVE_END => {
                let got = e.tree.remove::<W::Q>(key.borrow());
                ensure!(
                    got == first,
                    "op {i}: remove of {k:?} returned {got:?}, but the first of {vals:?} is {first:?}"
                );
                if let Some(v) = got {
                    e.m.del(&k, v);
                    e.removed += 1;
                    let mut after = in_order::<W>(&e.tree, &k);
                    let mut exp = vals[1..].to_vec();
                    after.sort_unstable();
                    exp.sort_unstable();
                    ensure!(
                        after == exp,
                        "op {i}: after remove of {k:?} its values are {after:?}, expected {exp:?}"
                    );
                }
            }
            _ => {
                let got = e.tree.get::<W::Q>(key.borrow()).copied();
                ensure!(
                    got == first,
                    "op {i}: get of {k:?} returned {got:?}, but the first of {vals:?} is {first:?}"
                );
                let new = e.fresh();
                match e.tree.get_mut::<W::Q>(key.borrow()) {
                    Some(v) => {
                        ensure!(
                            Some(*v) == first,
                            "op {i}: get_mut of {k:?} returned {v}, but the first of {vals:?} is {first:?}"
                        );
                        *v = new;
                        e.m.set(&k, first.unwrap(), new);
                        let after = in_order::<W>(&e.tree, &k);
                        ensure!(
                            after[0] == new && after[1..] == vals[1..],
                            "op {i}: writing to get_mut of {k:?} turned {vals:?} into {after:?}"
                        );
                    }
                    None => fail!("op {i}: get_mut of {k:?} found nothing among {vals:?}"),
                }
            }
        }
        if e.due(i) {
            e.check_contents(&format!("op {i}: iter()"))?;
        }
    }
    e.check_contents("iter() at the end")?;
    e.label(st);
    st.add("operations_on_keys_stored_more_than_once", multi);
    st.nontrivial = e.max_len > e.cfg.max_children && multi > 0;
    Ok(())
}

/// Checks filter_iter and filter_iter_mut for one spec.
/// A filter and a ranking whose callbacks query the tree themselves.
struct Nested<'a, W: World> {
    t: &'a Tree<W, u32>,
    s: Spec,
    r: Rank,
    /// what the nested queries must find
    n: usize,
    min: Option<i128>,
    calls: Cell<u32>,
    bad: &'a RefCell<Option<String>>,
}
impl<'a, W: World> Nested<'a, W> {
    fn ask(&self) {
        self.calls.set(self.calls.get() + 1);
        if !self.calls.get().is_power_of_two() || self.calls.get() > 64 {
            return;
        }
        let n = self
            .t
            .filter_iter::<W::K, _>(SpecFilter::<W>::new(self.s))
            .count();
        let min = self
            .t
            .min_by(SpecRank::<W>::new(self.r))
            .map(|(k, _)| self.r.key(&W::raw(k)));
        if n != self.n || min != self.min {
            *self.bad.borrow_mut() = Some(format!(
                "a query in callback {} of another finds {n} entries and minimum {min:?}, alone {} and {:?}",
                self.calls.get(),
                self.n,
                self.min
            ));
        }
    }
}
impl<'a, W: World> SpatialFilter<W::B, W::K> for Nested<'a, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        self.ask();
        SpecFilter::<W>::new(self.s).test_bounds(b)
    }
    fn test_key(&self, k: &W::K) -> bool {
        self.ask();
        SpecFilter::<W>::new(self.s).test_key(k)
    }
}
impl<'a, W: World> Ranking<W::B, W::K> for Nested<'a, W> {
    type Metric = Metric;
    fn bounds_min(&self, b: &W::B) -> Metric {
        self.ask();
        SpecRank::<W>::new(self.r).bounds_min(b)
    }
    fn rank_key(&self, k: &W::K) -> Metric {
        self.ask();
        SpecRank::<W>::new(self.r).rank_key(k)
    }
}

/// Queries while others are under way: in callbacks, and two in turns.
fn queries_at_once<W: World>(e: &Eng<W, u32>, s: Spec, r: Rank, st: &mut Stats) -> Res {
    let mut exp: Vec<u32> =
        e.m.ents
            .iter()
            .filter(|x| s.key(&x.0))
            .map(|x| x.1)
            .collect();
    exp.sort_unstable();
    let mut metrics: Vec<i128> = e.m.ents.iter().map(|(k, _)| r.key(k)).collect();
    metrics.sort_unstable();
    let bad = RefCell::new(None);
    let nested = || Nested::<W> {
        t: &e.tree,
        s,
        r,
        n: exp.len(),
        min: metrics.first().copied(),
        calls: Cell::new(0),
        bad: &bad,
    };
    let mut got: Vec<u32> = e
        .tree
        .filter_iter::<W::K, _>(nested())
        .map(|x| *x.1)
        .collect();
    got.sort_unstable();
    ensure!(
        got == exp,
        "filter_iter whose filter queries the tree yields {got:?}, expected {exp:?} ({s:?})"
    );
    let got: Vec<i128> = e
        .tree
        .iter_asc_by(nested())
        .map(|(k, _)| r.key(&W::raw(k)))
        .collect();
    ensure!(
        got == metrics,
        "iter_asc_by whose ranking queries the tree yields {got:?}, expected {metrics:?} ({r:?})"
    );
    if let Some(m) = bad.take() {
        fail!("{m} ({s:?} {r:?})");
    }
    // in turns
    let mut a = e.tree.filter_iter::<W::K, _>(SpecFilter::<W>::new(s));
    let mut b = e.tree.iter_asc_by(SpecRank::<W>::new(r));
    let mut c = e.tree.iter();
    let (mut ga, mut gb, mut gc) = (vec![], vec![], 0);
    loop {
        let (x, y, z) = (a.next(), b.next(), c.next());
        if x.is_none() && y.is_none() && z.is_none() {
            break;
        }
        ga.extend(x.map(|x| *x.1));
        gb.extend(y.map(|(k, _)| r.key(&W::raw(k))));
        gc += z.is_some() as usize;
        if gb.len() + ga.len() + gc > 3 * e.m.len() {
            break;
        }
    }
    ga.sort_unstable();
    ensure!(
        ga == exp && gb == metrics && gc == e.m.len(),
        "three queries in turns yield {}, {} and {gc} entries, expected {}, {} and {}",
        ga.len(),
        gb.len(),
        exp.len(),
        metrics.len(),
        e.m.len()
    );
    st.hit("queries_within_queries");
    Ok(())
}

fn filter_once<W: World>(e: &mut Eng<W, u32>, s: Spec, take: usize, st: &mut Stats) -> Res {
    let exp: Vec<Ent> = e.m.ents.iter().filter(|(k, _)| s.key(k)).copied().collect();
    let n = exp.len();
    let got: Vec<Ent> = drain(
        "filter_iter",
        e.tree.filter_iter::<W::K, _>(SpecFilter::<W>::new(s)),
        n,
    )
    .map_err(|m| format!("{m} ({s:?})"))?
    .into_iter()
    .map(|(k, v)| (W::raw(k), *v))
    .collect();
    same("filter_iter", got, exp.clone()).map_err(|m| format!("{m} ({s:?})"))?;
    let got: Vec<Ent> = drain(
        "filter_iter_mut",
        e.tree.filter_iter_mut::<W::K, _>(SpecFilter::<W>::new(s)),
        n,
    )
    .map_err(|m| format!("{m} ({s:?})"))?
    .into_iter()
    .map(|(k, v)| (W::raw(k), *v))
    .collect();
    same("filter_iter_mut", got, exp.clone()).map_err(|m| format!("{m} ({s:?})"))?;
    // the same by other ways than next
    let ok = |_: usize, (k, v): (&W::K, &u32)| s.key(&W::raw(k)) && exp.iter().any(|x| x.1 == *v);
    let okm =
        |_: usize, (k, v): (&W::K, &mut u32)| s.key(&W::raw(k)) && exp.iter().any(|x| x.1 == *v);
    let sel = take + 7 * n + e.m.len();
    forms!(
        format!("filter_iter ({s:?})"),
        e.tree.filter_iter::<W::K, _>(SpecFilter::<W>::new(s)),
        n,
        sel,
        ok
    );
    forms!(
        format!("filter_iter_mut ({s:?})"),
        e.tree.filter_iter_mut::<W::K, _>(SpecFilter::<W>::new(s)),
        n,
        sel + 3,
        okm
    );
    forms!("iter", e.tree.iter(), e.m.len(), sel + 5, |_, _| true);
    forms!("iter_mut", e.tree.iter_mut(), e.m.len(), sel + 6, |_, _| {
        true
    });
    // a prefix is a duplicate-free part of the result
    let mut part: Vec<Ent> = e
        .tree
        .filter_iter::<W::K, _>(SpecFilter::<W>::new(s))
        .take(take)
        .map(|(k, v)| (W::raw(k), *v))
        .collect();
    let len = part.len();
    part.sort_unstable();
    part.dedup();
    ensure!(
        part.len() == len && len == take.min(n) && part.iter().all(|(k, _)| s.key(k)),
        "a prefix of filter_iter repeats or invents entries ({s:?})"
    );
    let all = e.m.len();
    st.hit("filter_queries");
    st.when(n == 0, "filter_queries_matching_nothing");
    st.when(n > 0 && n < all, "filter_queries_matching_some");
    st.when(n == all, "filter_queries_matching_everything");
    st.when(s.loose > 0, "filter_queries_with_loose_bounds_test");
    Ok(())
}

/// C05
pub fn filtered<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut partial = false;
    let last = case.ops.len();
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        // large trees are queried at the end of their history as well
        if op.k >= code::QUERY || i + 12 > last {
            let s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
            filter_once(&mut e, s, op.s as usize % 7, st).map_err(at)?;
            if op.s % 4 == 1 && e.m.len() < 1500 {
                let r = Rank::decode::<W>(op, i, e.dist);
                queries_at_once(&e, s, r, st).map_err(at)?;
            }
            let hits = e.m.ents.iter().filter(|(k, _)| s.key(k)).count();
            partial |= hits > 0 && hits < e.m.len() && e.m.len() > e.cfg.max_children;
        }
    }
    e.label(st);
    st.nontrivial = partial;
    Ok(())
}

fn check_ranked(what: &str, got: &[(RKey, u32)], exp: &[Ent], rank: impl Fn(&RKey) -> i128) -> Res {
    for w in got.windows(2) {
        let (a, b) = (rank(&w[0].0), rank(&w[1].0));
        ensure!(
            a <= b,
            "{what}: metric {b} of {:?} comes after metric {a} of {:?}",
            w[1].0,
            w[0].0
        );
    }
    same(what, got.to_vec(), exp.to_vec())
}

/// C09
pub fn ranked<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut good = false;
    let last = case.ops.len();
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if op.k < code::QUERY && i + 8 <= last {
            continue;
        }
        let r = Rank::decode::<W>(op, i, e.dist);
        let n = e.m.len();
        let raw = |v: Vec<(&W::K, &u32)>| -> Vec<Ent> {
            v.into_iter().map(|(k, v)| (W::raw(k), *v)).collect()
        };
        let w = |s: &str| format!("op {i}: {s} ({r:?})");
        let got = raw(drain(
            &w("iter_asc_by"),
            e.tree.iter_asc_by(SpecRank::<W>::new(r)),
            n,
        )?);
        check_ranked(&w("iter_asc_by"), &got, &e.m.ents, |k| r.key(k))?;
        let got2: Vec<Ent> = drain(
            &w("iter_asc_by_mut"),
            e.tree.iter_asc_by_mut(SpecRank::<W>::new(r)),
            n,
        )?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .collect();
        check_ranked(&w("iter_asc_by_mut"), &got2, &e.m.ents, |k| r.key(k))?;
        // prefixes
        let k = op.s as usize % (n + 2);
        let part = raw(e.tree.iter_asc_by(SpecRank::<W>::new(r)).take(k).collect());
        ensure!(
            part.len() == k.min(n),
            "op {i}: the first {k} of {n} ranked entries are {}",
            part.len()
        );
        let mut metrics: Vec<i128> = e.m.ents.iter().map(|(k, _)| r.key(k)).collect();
        metrics.sort_unstable();
        let pm: Vec<i128> = part.iter().map(|(k, _)| r.key(k)).collect();
        ensure!(
            pm[..] == metrics[..part.len()],
            "op {i}: the first {k} ranked entries have metrics {pm:?} ({r:?})"
        );
        forms!(
            w("iter_asc_by"),
            e.tree.iter_asc_by(SpecRank::<W>::new(r)),
            n,
            op.s,
            |i: usize, (k, _): (&W::K, &u32)| r.key(&W::raw(k)) == metrics[i]
        );
        forms!(
            w("iter_asc_by_mut"),
            e.tree.iter_asc_by_mut(SpecRank::<W>::new(r)),
            n,
            op.s >> 3,
            |i: usize, (k, _): (&W::K, &mut u32)| r.key(&W::raw(k)) == metrics[i]
        );
        let min = metrics.first().copied();
        let check = |what: &str, got: Option<(RKey, u32)>| -> Res {
            ensure!(
                got.map(|(k, _)| r.key(&k)) == min,
                "op {i}: {what} returned {got:?}, the minimal metric is {min:?} ({r:?})"
            );
            if let Some(g) = got {
                ensure!(
                    e.m.ids(&g.0).contains(&g.1),
                    "op {i}: {what} returned {g:?}, which is not an entry"
                );
            }
            Ok(())
        };
        let got = e
            .tree
            .min_by(SpecRank::<W>::new(r))
            .map(|(k, v)| (W::raw(k), *v));
        check("min_by", got)?;
        let got = e
            .tree
            .min_by_mut(SpecRank::<W>::new(r))
            .map(|(k, v)| (W::raw(k), *v));
        check("min_by_mut", got)?;
        if op.s % 4 == 2 && n < 1500 {
            let s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
            queries_at_once(&e, s, r, st).map_err(at)?;
        }
        st.hit("ranked_queries");
        st.when(
            metrics.windows(2).any(|w| w[0] == w[1]),
            "ranked_queries_with_ties",
        );
        good |= n > e.cfg.max_children && metrics.first() != metrics.last();
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

/// C10
pub fn opt_ranked<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut good = false;
    let last = case.ops.len();
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if op.k < code::QUERY && i + 8 <= last {
            continue;
        }
        let r = Rank::decode::<W>(op, i, e.dist);
        let mut s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
        s.loose = s.loose.min(2);
        if op.s & 0x4000 != 0 {
            // the usual use: a search limited to a radius
            s.loose = 0;
        }
        let exp: Vec<Ent> = e.m.ents.iter().filter(|(k, _)| s.key(k)).copied().collect();
        let n = exp.len();
        let w = |x: &str| format!("op {i}: {x} ({r:?} {s:?})");
        let got: Vec<Ent> = drain(
            &w("filter_iter_asc_by"),
            e.tree.filter_iter_asc_by(SpecOptRank::<W>::new(r, s)),
            n,
        )?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .collect();
        check_ranked(&w("filter_iter_asc_by"), &got, &exp, |k| r.key(k))?;
        let got: Vec<Ent> = drain(
            &w("filter_iter_asc_by_mut"),
            e.tree.filter_iter_asc_by_mut(SpecOptRank::<W>::new(r, s)),
            n,
        )?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .collect();
        check_ranked(&w("filter_iter_asc_by_mut"), &got, &exp, |k| r.key(k))?;
        let min = exp.iter().map(|(k, _)| r.key(k)).min();
        let check = |what: &str, got: Option<(RKey, u32)>| -> Res {
            ensure!(
                got.map(|(k, _)| r.key(&k)) == min,
                "{}: returned {got:?}, the minimal metric is {min:?}",
                w(what)
            );
            if let Some(g) = got {
                ensure!(exp.contains(&g), "{}: {g:?} is no match", w(what));
            }
            Ok(())
        };
        let got = e
            .tree
            .filter_min_by(SpecOptRank::<W>::new(r, s))
            .map(|(k, v)| (W::raw(k), *v));
        check("filter_min_by", got)?;
        let got = e
            .tree
            .filter_min_by_mut(SpecOptRank::<W>::new(r, s))
            .map(|(k, v)| (W::raw(k), *v));
        check("filter_min_by_mut", got)?;
        let k = op.s as usize % 9;
        let part: Vec<i128> = e
            .tree
            .filter_iter_asc_by(SpecOptRank::<W>::new(r, s))
            .take(k)
            .map(|(k, _)| r.key(&W::raw(k)))
            .collect();
        let mut metrics: Vec<i128> = exp.iter().map(|(k, _)| r.key(k)).collect();
        metrics.sort_unstable();
        forms!(
            w("filter_iter_asc_by"),
            e.tree.filter_iter_asc_by(SpecOptRank::<W>::new(r, s)),
            n,
            op.s,
            |i: usize, (k, _): (&W::K, &u32)| r.key(&W::raw(k)) == metrics[i]
        );
        forms!(
            w("filter_iter_asc_by_mut"),
            e.tree.filter_iter_asc_by_mut(SpecOptRank::<W>::new(r, s)),
            n,
            op.s >> 3,
            |i: usize, (k, _): (&W::K, &mut u32)| r.key(&W::raw(k)) == metrics[i]
        );
        ensure!(
            part[..] == metrics[..k.min(n)],
            "{}: the first {k} metrics are {part:?}",
            w("filter_iter_asc_by")
        );
        st.hit("filtered_ranked_queries");
        st.when(n == 0 && !e.m.is_empty(), "queries_rejecting_everything");
        st.when(n > 0 && n < e.m.len(), "queries_rejecting_some");
        good |= e.m.len() > e.cfg.max_children && n > 0 && n < e.m.len();
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

/// C21
pub fn mutable<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let mut good = false;
    let last = case.ops.len();
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if op.k < code::QUERY && i + 8 <= last {
            continue;
        }
        let n = e.m.len();
        let r = Rank::decode::<W>(op, i, e.dist);
        let mut s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
        let how = op.s as usize / 16 % 8;
        let all = Spec {
            d: W::D,
            pred: Pred::All,
            loose: 0,
        };
        if how == 3 || how == 5 {
            s.loose = s.loose.min(2);
        }
        // what the shared counterpart yields, in its order
        let (name, shared): (&str, Vec<Ent>) = {
            let raw = |v: Vec<(&W::K, &u32)>| -> Vec<Ent> {
                v.into_iter().map(|(k, v)| (W::raw(k), *v)).collect()
            };
            let t = &e.tree;
            match how {
                0 | 7 => ("iter_mut", raw(t.iter().collect())),
                1 => (
                    "filter_iter_mut",
                    raw(t.filter_iter::<W::K, _>(SpecFilter::<W>::new(s)).collect()),
                ),
                2 => (
                    "iter_asc_by_mut",
                    raw(t.iter_asc_by(SpecRank::<W>::new(r)).collect()),
                ),
                3 => (
                    "filter_iter_asc_by_mut",
                    raw(t.filter_iter_asc_by(SpecOptRank::<W>::new(r, s)).collect()),
                ),
                4 => (
                    "min_by_mut",
                    raw(t.min_by(SpecRank::<W>::new(r)).into_iter().collect()),
                ),
                5 => (
                    "filter_min_by_mut",
                    raw(t
                        .filter_min_by(SpecOptRank::<W>::new(r, s))
                        .into_iter()
                        .collect()),
                ),
                _ => match e.existing(op) {
                    Some(k) => (
                        "get_mut",
                        t.get::<W::K>(&W::mk(&k))
                            .map(|v| (k, *v))
                            .into_iter()
                            .collect(),
                    ),
                    None => ("get_mut", vec![]),
                },
            }
        };
        let take = if op.s & 1 == 0 {
            shared.len()
        } else {
            (op.s as usize / 256) % (shared.len() + 1)
        };
        let base = e.next;
        e.next += n as u32 + 1;
        let mut order: Vec<Ent> = e.tree.iter().map(|(k, v)| (W::raw(k), *v)).collect();
        // hold all references, then write through them
        let mut changed: BTreeMap<u32, u32> = BTreeMap::new();
        {
            let get_key = e.existing(op);
            let t = &mut e.tree;
            let refs: Vec<(RKey, &mut u32)> = {
                let raw = |(k, v)| -> (RKey, &mut u32) { (W::raw(k), v) };
                match how {
                    0 => t.iter_mut().take(take).map(raw).collect(),
                    7 => (&mut *t).into_iter().take(take).map(raw).collect(),
                    1 => t
                        .filter_iter_mut::<W::K, _>(SpecFilter::<W>::new(s))
                        .take(take)
                        .map(raw)
                        .collect(),
                    2 => t
                        .iter_asc_by_mut(SpecRank::<W>::new(r))
                        .take(take)
                        .map(raw)
                        .collect(),
                    3 => t
                        .filter_iter_asc_by_mut(SpecOptRank::<W>::new(r, s))
                        .take(take)
                        .map(raw)
                        .collect(),
                    4 => t
                        .min_by_mut(SpecRank::<W>::new(r))
                        .into_iter()
                        .take(take)
                        .map(raw)
                        .collect(),
                    5 => t
                        .filter_min_by_mut(SpecOptRank::<W>::new(r, s))
                        .into_iter()
                        .take(take)
                        .map(raw)
                        .collect(),
                    _ => match get_key {
                        Some(k) if take > 0 => t
                            .get_mut::<W::K>(&W::mk(&k))
                            .map(|v| (k, v))
                            .into_iter()
                            .collect(),
                        _ => vec![],
                    },
                }
            };
            ensure!(
                refs.len() == take,
                "op {i}: {name} yields {} entries, its shared counterpart {take}",
                refs.len()
            );
            let ptrs: BTreeSet<usize> = refs
                .iter()
                .map(|(_, v)| &**v as *const u32 as usize)
                .collect();
            ensure!(
                ptrs.len() == refs.len(),
                "op {i}: {name} yields the same value more than once"
            );
            // the same entries; which of several with equal rank come first in
            // a prefix is not specified
            let got: Vec<Ent> = refs.iter().map(|(k, v)| (*k, **v)).collect();
            for g in &got {
                ensure!(
                    e.m.ids(&g.0).contains(&g.1),
                    "op {i}: {name} yields {g:?}, which is not an entry"
                );
            }
            if take == shared.len() && how != 4 && how != 5 {
                same(&format!("op {i}: {name}"), got.clone(), shared.clone())?;
            } else if how != 1 && how != 0 && how != 7 && how != 6 {
                let a: Vec<i128> = got.iter().map(|(k, _)| r.key(k)).collect();
                let b: Vec<i128> = shared[..take].iter().map(|(k, _)| r.key(k)).collect();
                ensure!(
                    a == b,
                    "op {i}: {name} yields metrics {a:?}, its shared counterpart {b:?}"
                );
            }
            let sp = if how == 1 || how == 3 || how == 5 {
                s
            } else {
                all
            };
            for (k, _) in &got {
                ensure!(
                    sp.key(k),
                    "op {i}: {name} yields {k:?}, which does not match"
                );
            }
            for (j, (_, v)) in refs.into_iter().enumerate() {
                changed.insert(*v, base + j as u32);
                *v = base + j as u32;
            }
        }
        for (old, new) in &changed {
            let k = e.m.ents.iter().find(|x| x.1 == *old).unwrap().0;
            e.m.set(&k, *old, *new);
        }
        // every query sees the writes, and nothing else has changed, not even
        // the order of iteration
        for (_, v) in order.iter_mut() {
            *v = *changed.get(v).unwrap_or(v);
        }
        let after: Vec<Ent> = e.tree.iter().map(|(k, v)| (W::raw(k), *v)).collect();
        ensure!(
            order == after,
            "op {i}: after {name} iter() yields {after:?}, it should yield {order:?}"
        );
        e.check_contents(&format!("op {i}: iter() after writing through {name}"))?;
        e.check_len().map_err(at)?;
        let s2 = Spec {
            loose: 0,
            ..Spec::decode::<W>(op, i, e.dist, None)
        };
        filter_once(&mut e, s2, 2, &mut Stats::default()).map_err(at)?;
        if let Some(k) = e.existing(op) {
            lookup(&mut e, &k, &mut Stats::default()).map_err(at)?;
        }
        st.hit("mutable_accesses");
        st.add("values_written", changed.len() as u64);
        good |= n > e.cfg.max_children && !changed.is_empty();
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

/// All queries on a tree against the model, for C22 and C23.
pub fn query_all<W: World>(
    e: &mut Eng<W, u32>,
    op: &crate::case::Op,
    i: usize,
    st: &mut Stats,
) -> Res {
    let n = e.m.len();
    e.check_len()?;
    e.check_contents("iter()")?;
    let s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
    filter_once(e, s, op.s as usize % 5, st)?;
    let q = Spec {
        d: W::D,
        pred: Pred::Isect(W::qbox(op, i, e.dist)),
        loose: 0,
    };
    filter_once(e, q, op.s as usize % 3, st)?;
    let k = e.op_key(op);
    lookup(e, &k, st)?;
    if let Some(k) = e.existing(op) {
        lookup(e, &k, st)?;
    }
    let r = Rank::decode::<W>(op, i, e.dist);
    let got: Vec<Ent> = drain("iter_asc_by", e.tree.iter_asc_by(SpecRank::<W>::new(r)), n)?
        .into_iter()
        .map(|(k, v)| (W::raw(k), *v))
        .collect();
    check_ranked("iter_asc_by", &got, &e.m.ents, |k| r.key(k))?;
    let got: Vec<Ent> = drain(
        "iter_asc_by_mut",
        e.tree.iter_asc_by_mut(SpecRank::<W>::new(r)),
        n,
    )?
    .into_iter()
    .map(|(k, v)| (W::raw(k), *v))
    .collect();
    check_ranked("iter_asc_by_mut", &got, &e.m.ents, |k| r.key(k))?;
    let s = Spec {
        loose: s.loose.min(2),
        ..s
    };
    let exp: Vec<Ent> = e.m.ents.iter().filter(|(k, _)| s.key(k)).copied().collect();
    let got: Vec<Ent> = drain(
        "filter_iter_asc_by",
        e.tree.filter_iter_asc_by(SpecOptRank::<W>::new(r, s)),
        exp.len(),
    )?
    .into_iter()
    .map(|(k, v)| (W::raw(k), *v))
    .collect();
    check_ranked("filter_iter_asc_by", &got, &exp, |k| r.key(k))?;
    let got: Vec<Ent> = drain(
        "filter_iter_asc_by_mut",
        e.tree.filter_iter_asc_by_mut(SpecOptRank::<W>::new(r, s)),
        exp.len(),
    )?
    .into_iter()
    .map(|(k, v)| (W::raw(k), *v))
    .collect();
    check_ranked("filter_iter_asc_by_mut", &got, &exp, |k| r.key(k))?;
    ensure!(
        e.tree.min_by(SpecRank::<W>::new(r)).is_some() == (n > 0),
        "min_by on {n} entries"
    );
    ensure!(
        e.tree.min_by_mut(SpecRank::<W>::new(r)).is_some() == (n > 0),
        "min_by_mut on {n} entries"
    );
    ensure!(
        e.tree.filter_min_by(SpecOptRank::<W>::new(r, s)).is_some() == !exp.is_empty(),
        "filter_min_by on {} matching entries",
        exp.len()
    );
    ensure!(
        e.tree
            .filter_min_by_mut(SpecOptRank::<W>::new(r, s))
            .is_some()
            == !exp.is_empty(),
        "filter_min_by_mut on {} matching entries",
        exp.len()
    );
    // joins of the tree with itself
    if n * n <= 4000 {
        let f = crate::p_join::JoinSpec::decode::<W, W>(op, i, e.dist);
        crate::p_join::check_join::<W, W, u32>(&e.tree, &e.m, &e.tree, &e.m, f, st)?;
        crate::p_join::check_left_join::<W, W, u32>(&e.tree, &e.m, &e.tree, &e.m, f, op.s, st)?;
    }
    Ok(())
}

/// C22: anywhere in the range of the coordinate type.
pub fn coordinates<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = Eng::<W, u32>::of(case);
    let last = case.ops.len();
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if e.due(i) {
            e.check_contents("iter()").map_err(at)?;
        }
        if op.k >= code::QUERY || i + 3 > last {
            query_all(&mut e, op, i, st).map_err(at)?;
            good |= e.m.len() > e.cfg.max_children;
        }
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

/// C23
pub fn emptied<W: World>(case: &Case, st: &mut Stats) -> Res {
    STRICT.with(|s| s.set(true));
    let mut e = Eng::<W, u32>::of(case);
    let mut drains = 0;
    // a new tree that gets the calls the emptied one gets from then on
    let mut twin: Option<Eng<W, u32>> = None;
    let alike = |e: &Eng<W, u32>, twin: &Option<Eng<W, u32>>, st: &mut Stats| -> Res {
        let Some(t) = twin else { return Ok(()) };
        let (a, b) = (&e.tree, &t.tree);
        ensure!(
            a.iter()
                .map(|(k, v)| (W::raw(k), *v))
                .eq(b.iter().map(|(k, v)| (W::raw(k), *v))),
            "a refilled tree iterates differently from a new one after the same calls"
        );
        ensure!(
            format!("{a:?}") == format!("{b:?}"),
            "the Debug output of a refilled tree differs from a new one after the same calls"
        );
        st.add("refilled_entries_compared", e.m.len() as u64);
        Ok(())
    };
    let none = crate::case::Op::default();
    query_all(&mut e, case.ops.first().unwrap_or(&none), 0, st)
        .map_err(|m| format!("new tree: {m}"))?;
    crate::p_join::empty_joins::<W>(&e.tree, st)?;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if let Some(t) = &mut twin {
            t.step(op)
                .map_err(|m| format!("op {i}: new tree beside the refilled one: {m}"))?;
        }
        if op.k >= code::QUERY && !e.m.is_empty() {
            // drain completely, in an order given by the operation
            let big = e.max_len > e.cfg.max_children;
            alike(&e, &twin, st).map_err(at)?;
            let mut o = *op;
            while !e.m.is_empty() {
                let k = match op.s % 4 {
                    0 => e.m.ents[0].0,
                    1 => e.m.ents[e.m.len() - 1].0,
                    2 => *e.m.by.keys().next().unwrap(),
                    _ => {
                        o.s = o.s.wrapping_mul(25173).wrapping_add(13849);
                        e.m.ents[o.s as usize / 3 % e.m.len()].0
                    }
                };
                e.remove(k).map_err(at)?;
                if e.m.len() <= 6 {
                    e.check_contents("iter() while draining").map_err(at)?;
                }
            }
            drains += big as u64;
            query_all(&mut e, op, i, st).map_err(|m| format!("op {i}: emptied tree: {m}"))?;
            crate::p_join::empty_joins::<W>(&e.tree, st)
                .map_err(|m| format!("op {i}: emptied tree: {m}"))?;
            st.hit("drains");
            twin = Some(Eng {
                tree: RTree::new(e.cfg),
                m: e.m.clone(),
                next: e.next,
                dist: e.dist,
                removed: e.removed,
                max_len: 0,
                cfg: e.cfg,
                fed: e.fed,
            });
        }
    }
    e.check_len()?;
    e.check_contents("iter() at the end")?;
    if drains > 0 && !e.m.is_empty() {
        query_all(&mut e, case.ops.last().unwrap(), case.ops.len(), st)
            .map_err(|m| format!("refilled tree: {m}"))?;
    }
    alike(&e, &twin, st)?;
    // it holds what a new tree with the same entries holds
    let mut fresh = RTree::new(e.cfg);
    for (k, id) in &e.m.ents {
        fresh.insert(W::mk(k), *id);
    }
    same(
        "a new tree with the entries of the refilled one",
        fresh.iter().map(|(k, v)| (W::raw(k), *v)).collect(),
        e.tree.iter().map(|(k, v)| (W::raw(k), *v)).collect(),
    )?;
    e.label(st);
    st.nontrivial = drains > 0;
    Ok(())
}

/// C17
pub fn clones<W: World>(case: &Case, st: &mut Stats) -> Res {
    fn order<W: World>(t: &Tree<W, u32>) -> Vec<Ent> {
        t.iter().map(|(k, v)| (W::raw(k), *v)).collect()
    }
    let fork = |e: &Eng<W, u32>, tree: Tree<W, u32>| Eng::<W, u32> {
        tree,
        m: e.m.clone(),
        next: e.next,
        dist: e.dist,
        removed: 0,
        max_len: e.max_len,
        cfg: e.cfg,
        fed: e.fed,
    };
    let mut trees: Vec<Eng<W, u32>> = vec![Eng::of(case)];
    let mut clones = 0;
    let mut changed_after = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        let n = trees.len();
        let sel = (op.e[crate::case::MD - 1] as u16 as usize) % n;
        if op.k >= code::QUERY {
            match op.s % 4 {
                0 | 1 => {
                    let e = &trees[sel];
                    let t = copy_of::<W, u32>(&e.tree, op, i, e.dist);
                    ensure!(
                        order::<W>(&t) == order::<W>(&e.tree),
                        "op {i}: a clone iterates differently from its source"
                    );
                    ensure!(
                        format!("{:?}", t) == format!("{:?}", e.tree),
                        "op {i}: the Debug output of a clone differs from its source"
                    );
                    ensure!(t.len() == e.tree.len(), "op {i}: len of a clone");
                    let s = Spec::decode::<W>(op, i, e.dist, e.existing(op));
                    let q = |t: &Tree<W, u32>| -> Vec<Ent> {
                        t.filter_iter::<W::K, _>(SpecFilter::<W>::new(s))
                            .map(|(k, v)| (W::raw(k), *v))
                            .collect()
                    };
                    ensure!(
                        q(&t) == q(&e.tree),
                        "op {i}: filter_iter of a clone differs from its source ({s:?})"
                    );
                    let r = Rank::decode::<W>(op, i, e.dist);
                    let q = |t: &Tree<W, u32>| -> Vec<Ent> {
                        t.iter_asc_by(SpecRank::<W>::new(r))
                            .map(|(k, v)| (W::raw(k), *v))
                            .collect()
                    };
                    ensure!(
                        q(&t) == q(&e.tree),
                        "op {i}: iter_asc_by of a clone differs from its source ({r:?})"
                    );
                    let mut c = fork(e, t);
                    c.check_contents("iter() of a clone").map_err(at)?;
                    if n < 4 {
                        trees.push(c);
                    } else {
                        // dropping a tree must not affect the others
                        let to = (sel + 1) % n;
                        if op.s % 8 < 4 {
                            let t = std::mem::replace(&mut trees[to].tree, c.tree);
                            c.tree = t;
                            c.tree.clone_from(&trees[to].tree);
                        }
                        trees[to] = c;
                    }
                    clones += 1;
                }
                2 => {
                    if n > 1 {
                        trees.swap_remove(sel);
                        changed_after = true;
                    }
                }
                _ => {
                    // write in place
                    let e = &mut trees[sel];
                    let mut m = vec![];
                    let mut next = e.next;
                    for (k, v) in e.tree.iter_mut() {
                        m.push((W::raw(k), *v, next));
                        *v = next;
                        next += 1;
                    }
                    e.next = next;
                    for (k, old, new) in m {
                        e.m.set(&k, old, new);
                    }
                    changed_after |= n > 1;
                }
            }
        } else {
            trees[sel].step(op).map_err(at)?;
            changed_after |= n > 1;
        }
        let n = trees[0].m.len();
        if n < 10 || (n < 400 && i % 16 == 0) || trees[0].due(i) || i + 1 == case.ops.len() {
            for (j, e) in trees.iter().enumerate() {
                e.check_contents(&format!("op {i}: tree {j} of {}", trees.len()))?;
                e.check_len()
                    .map_err(|m| format!("op {i}: tree {j}: {m}"))?;
            }
        }
    }
    // the same calls give the same tree
    let build = || -> Result<Eng<W, u32>, String> {
        let mut e = Eng::<W, u32>::of(case);
        for op in &case.ops {
            e.step(op)?;
        }
        Ok(e)
    };
    let (a, b) = (build()?, build()?);
    ensure!(
        format!("{:?}", a.tree) == format!("{:?}", b.tree),
        "two trees built by the same calls differ"
    );
    ensure!(
        order::<W>(&a.tree) == order::<W>(&b.tree),
        "two trees built by the same calls iterate differently"
    );
    // and so does a clone that goes on with the second half of the history
    let half = case.ops.len() / 2;
    let mut e = Eng::<W, u32>::of(case);
    for op in &case.ops[..half] {
        e.step(op)?;
    }
    let copy = match case.ops.get(half) {
        Some(op) => copy_of::<W, u32>(&e.tree, op, half, e.dist),
        None => e.tree.clone(),
    };
    let mut c = fork(&e, copy);
    for op in &case.ops[half..] {
        e.step(op)?;
        c.step(op)?;
    }
    ensure!(
        format!("{:?}", e.tree) == format!("{:?}", c.tree),
        "the Debug output of a clone and its source differ after the same calls"
    );
    ensure!(
        order::<W>(&e.tree) == order::<W>(&c.tree),
        "a clone and its source differ after the same calls"
    );
    drop(e);
    c.check_contents("iter() of a clone after its source was dropped")?;
    trees[0].label(st);
    st.add("clones", clones);
    st.nontrivial =
        clones > 0 && changed_after && trees.iter().any(|e| e.max_len > e.cfg.max_children);
    Ok(())
}
