//! Properties of the tree's structure, read from its Debug output, and of the
//! callbacks that queries make.
use crate::case::{Case, Op, Res, Stats};
use crate::eng::*;
use crate::inst::{self, structure, Inst, PNode};
use crate::p_join::{JoinLog, JoinSpec, SpecJoin, TwoTrees};
use crate::raw::{RBox, RKey};
use crate::world::World;
use crate::{ensure, fail};
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::ranking::Ranking;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

type IEng<W> = Eng<Inst<W>, u32>;

/// Parses a tree. Not having the expected form is no violation of anything,
/// but nothing can be said then; the runner reports it if it happens.
fn parse<W: World>(e: &IEng<W>, st: &mut Stats) -> Option<Vec<PNode>> {
    let s = structure(|| format!("{:?}", e.tree));
    if s.is_none() {
        st.hit("unreadable_debug_output");
    }
    s
}

/// The union of the boxes below each node; None below nodes without entries.
fn hulls(nodes: &[PNode], d: usize) -> Vec<Option<RBox>> {
    let mut out: Vec<Option<RBox>> = vec![None; nodes.len()];
    // children come after their parents
    for i in (0..nodes.len()).rev() {
        let mut h = out[i];
        for (k, _) in &nodes[i].entries {
            let b = k.rbox();
            h = Some(h.map_or(b, |x| x.union(&b, d)));
        }
        out[i] = h;
        if let (Some(h), Some(p)) = (h, nodes[i].parent) {
            out[p] = Some(out[p].map_or(h, |x| x.union(&h, d)));
        }
    }
    out
}

fn check_entries(nodes: &[PNode], m: &Model) -> Res {
    let got: Vec<Ent> = nodes.iter().flat_map(|n| n.entries.clone()).collect();
    same("entries in the Debug output", got, m.ents.clone())
}

/// C14
pub fn node_bounds<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = IEng::<W>::of(case);
    let mut shrunk = false;
    for (i, op) in case.ops.iter().enumerate() {
        let before = e.removed;
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if !(e.due(i) || i + 1 == case.ops.len()) {
            continue;
        }
        let Some(nodes) = parse(&e, st) else {
            continue;
        };
        check_entries(&nodes, &e.m).map_err(|m| format!("op {i}: {m}"))?;
        for (n, h) in hulls(&nodes, W::D).iter().enumerate() {
            let (node, Some(h)) = (&nodes[n], h) else {
                continue;
            };
            let what = || {
                format!(
                    "node {n} at depth {} ({} children, {} entries) has bounds {:?}..{:?}, below it lies {:?}..{:?}",
                    node.depth,
                    node.children.len(),
                    node.entries.len(),
                    &node.bounds.lo[..W::D],
                    &node.bounds.hi[..W::D],
                    &h.lo[..W::D],
                    &h.hi[..W::D]
                )
            };
            ensure!(
                node.bounds.contains(h, W::D),
                "op {i}: too small: {}",
                what()
            );
            if W::TIGHT {
                ensure!(
                    h.contains(&node.bounds, W::D),
                    "op {i}: too large: {}",
                    what()
                );
            }
            st.hit("node_bounds_checked");
        }
        let inner = nodes.len() > 1;
        shrunk |= inner && e.removed > before;
        st.hit("trees_checked");
        st.when(
            inst::height(&nodes) > 2,
            "trees_checked_of_3_or_more_levels",
        );
    }
    e.label(st);
    st.nontrivial = shrunk;
    Ok(())
}

/// C15
pub fn occupancy<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = IEng::<W>::of(case);
    let mut shrunk = false;
    let (max, min) = (e.cfg.max_children, e.cfg.min_children);
    for (i, op) in case.ops.iter().enumerate() {
        let before = e.removed;
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
        if !(e.due(i) || i + 1 == case.ops.len()) {
            continue;
        }
        let Some(nodes) = parse(&e, st) else {
            continue;
        };
        check_entries(&nodes, &e.m).map_err(|m| format!("op {i}: {m}"))?;
        let mut leaf_depth = None;
        for (n, node) in nodes.iter().enumerate() {
            let at = || {
                format!(
                    "op {i}: node {n} at depth {} of a tree of {} entries (max {max}, min {min}): ",
                    node.depth,
                    e.m.len()
                )
            };
            let (c, en) = (node.children.len(), node.entries.len());
            ensure!(c == 0 || en == 0, "{}holds both nodes and entries", at());
            let size = c + en;
            ensure!(size <= max, "{}has {size} children", at());
            if node.parent.is_some() {
                ensure!(size >= min, "{}has {size} children", at());
            } else if c > 0 {
                ensure!(c >= 2, "{}is an inner root with {c} children", at());
            }
            if c == 0 {
                match leaf_depth {
                    None => leaf_depth = Some(node.depth),
                    Some(d) => ensure!(
                        d == node.depth,
                        "{}is a leaf, another leaf is at depth {d}",
                        at()
                    ),
                }
            }
        }
        if e.m.is_empty() {
            ensure!(
                nodes.len() == 1,
                "op {i}: an empty tree has {} nodes",
                nodes.len()
            );
        }
        shrunk |= nodes.len() > 1 && e.removed > before;
        st.hit("trees_checked");
        st.add("nodes_checked", nodes.len() as u64);
        st.when(
            inst::height(&nodes) > 2,
            "trees_checked_of_3_or_more_levels",
        );
    }
    e.label(st);
    st.nontrivial = shrunk;
    Ok(())
}

#[derive(Default)]
struct Log {
    bounds: Vec<RBox>,
    keys: Vec<RKey>,
}

struct LogFilter<'a, W>(SpecFilter<W>, &'a RefCell<Log>);
impl<'a, W: World> SpatialFilter<W::B, W::K> for LogFilter<'a, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        self.1.borrow_mut().bounds.push(W::rb(b));
        self.0.test_bounds(b)
    }
    fn test_key(&self, k: &W::K) -> bool {
        self.1.borrow_mut().keys.push(W::raw(k));
        self.0.test_key(k)
    }
}

struct LogRank<'a, W>(
    Rank,
    Option<Spec>,
    &'a RefCell<Log>,
    std::marker::PhantomData<W>,
);
impl<'a, W: World> Ranking<W::B, W::K> for LogRank<'a, W> {
    type Metric = Option<Metric>;
    fn bounds_min(&self, b: &W::B) -> Option<Metric> {
        let b = W::rb(b);
        self.2.borrow_mut().bounds.push(b);
        match self.1 {
            Some(s) if !s.bounds(&b) => None,
            _ => Some(Metric::new(self.0.bounds(&b))),
        }
    }
    fn rank_key(&self, k: &W::K) -> Option<Metric> {
        let k = W::raw(k);
        self.2.borrow_mut().keys.push(k);
        match self.1 {
            Some(s) if !s.key(&k) => None,
            _ => Some(Metric::new(self.0.key(&k))),
        }
    }
}

/// Keys of entries below the nodes that pass, given that their ancestors do.
fn reachable(nodes: &[PNode], mut pass: impl FnMut(&PNode) -> bool) -> BTreeSet<RKey> {
    let mut open = vec![false; nodes.len()];
    let mut out = BTreeSet::new();
    for (i, n) in nodes.iter().enumerate() {
        open[i] = n.parent.map_or(true, |p| open[p]) && pass(n);
        if open[i] {
            out.extend(n.entries.iter().map(|e| e.0));
        }
    }
    out
}

fn prune_filter<W: World>(
    e: &mut IEng<W>,
    nodes: &[PNode],
    op: &Op,
    i: usize,
    st: &mut Stats,
) -> Result<bool, String> {
    let s = Spec::decode::<Inst<W>>(op, i, e.dist, e.existing(op));
    let ok = reachable(nodes, |n| s.bounds(&n.bounds));
    let take = if op.s & 1 == 0 {
        usize::MAX
    } else {
        op.s as usize / 2 % 9
    };
    for mutable in [false, true] {
        let log = RefCell::new(Log::default());
        let f = LogFilter::<Inst<W>>(SpecFilter::new(s), &log);
        if mutable {
            e.tree
                .filter_iter_mut::<inst::XK<W>, _>(f)
                .take(take)
                .for_each(drop);
        } else {
            e.tree
                .filter_iter::<inst::XK<W>, _>(f)
                .take(take)
                .for_each(drop);
        }
        let log = log.borrow();
        for k in &log.keys {
            ensure!(
                ok.contains(k),
                "filter_iter{} ({s:?}) tested key {k:?}, which lies only under rejected bounds",
                if mutable { "_mut" } else { "" }
            );
        }
        st.add("keys_tested_by_filters", log.keys.len() as u64);
    }
    st.hit("filters");
    Ok(nodes.len() > 2 && !ok.is_empty() && ok.len() < e.m.by.len())
}

fn prune_rank<W: World>(
    e: &mut IEng<W>,
    nodes: &[PNode],
    op: &Op,
    i: usize,
    st: &mut Stats,
) -> Result<bool, String> {
    let r = Rank::decode::<Inst<W>>(op, i, e.dist);
    let s = Spec::decode::<Inst<W>>(op, i, e.dist, e.existing(op));
    let mut pruned = false;
    // the smallest lower bound of a leaf holding each key
    let least = |s: Option<Spec>| {
        let mut m: BTreeMap<RKey, i128> = BTreeMap::new();
        let mut open = vec![false; nodes.len()];
        for (i, n) in nodes.iter().enumerate() {
            open[i] = n.parent.map_or(true, |p| open[p]) && s.map_or(true, |s| s.bounds(&n.bounds));
            if open[i] {
                for (k, _) in &n.entries {
                    let b = r.bounds(&n.bounds);
                    m.entry(*k).and_modify(|x| *x = b.min(*x)).or_insert(b);
                }
            }
        }
        m
    };
    for how in 0..4 {
        let spec = if how < 2 { None } else { Some(s) };
        let least = least(spec);
        let log = RefCell::new(Log::default());
        let rank = || LogRank::<Inst<W>>(r, spec, &log, std::marker::PhantomData);
        let mut seen = 0;
        let mut step = |metric: i128, name: &str| -> Res {
            let l = log.borrow();
            for k in &l.keys[seen..] {
                match least.get(k) {
                    None => fail!("{name} ({r:?}, {spec:?}) ranked {k:?}, which lies only under bounds without a metric"),
                    Some(b) => {
                        ensure!(
                            *b <= metric,
                            "{name} ({r:?}, {spec:?}) yielded metric {metric}, but ranked {k:?} under bounds of metric {b}"
                        );
                    }
                }
            }
            seen = l.keys.len();
            pruned |= seen > 0 && seen < e.m.len() && nodes.len() > 2;
            Ok(())
        };
        // iterate a prefix, sometimes everything
        let take = match op.s % 4 {
            0 => 1,
            1 => 3,
            2 => 10,
            _ => usize::MAX,
        };
        match how {
            0 => {
                for (k, _) in e.tree.iter_asc_by(rank()).take(take) {
                    step(r.key(&Inst::<W>::raw(k)), "iter_asc_by")?;
                }
            }
            1 => {
                for (k, _) in e.tree.iter_asc_by_mut(rank()).take(take) {
                    step(r.key(&Inst::<W>::raw(k)), "iter_asc_by_mut")?;
                }
            }
            2 => {
                for (k, _) in e.tree.filter_iter_asc_by(rank()).take(take) {
                    step(r.key(&Inst::<W>::raw(k)), "filter_iter_asc_by")?;
                }
            }
            _ => {
                for (k, _) in e.tree.filter_iter_asc_by_mut(rank()).take(take) {
                    step(r.key(&Inst::<W>::raw(k)), "filter_iter_asc_by_mut")?;
                }
            }
        }
        // also without results, nothing under bounds without a metric is ranked
        if how >= 2 {
            for k in &log.borrow().keys {
                ensure!(
                    least.contains_key(k),
                    "filtered ranking ({r:?}, {spec:?}) ranked {k:?}, which lies only under bounds without a metric"
                );
            }
        }
        st.hit("rankings");
        st.add("keys_ranked", log.borrow().keys.len() as u64);
    }
    Ok(pruned)
}

fn prune_lookup<W: World>(
    e: &mut IEng<W>,
    nodes: &[PNode],
    k: &RKey,
    how: u16,
    st: &mut Stats,
) -> Result<bool, String> {
    let key = Inst::<W>::mk(k);
    let kb = k.rbox();
    // the root is visited in any case
    let ok = reachable(nodes, |n| {
        n.parent.is_none()
            || if how % 4 == 2 {
                n.bounds.intersects(&kb, W::D)
            } else {
                n.bounds.contains(&kb, W::D)
            }
    });
    inst::start_eqlog();
    let name = match how % 4 {
        0 => {
            e.tree.get::<inst::XK<W>>(&key);
            "get"
        }
        1 => {
            e.tree.get_mut::<inst::XK<W>>(&key);
            "get_mut"
        }
        2 => {
            e.remove(*k)?;
            "remove"
        }
        _ => {
            e.insert_unique(*k)?;
            "insert_unique"
        }
    };
    let log = inst::take_eqlog();
    for x in &log {
        ensure!(
            ok.contains(x) || x == k,
            "{name} of {k:?} compared {x:?}, which lies only under bounds that cannot hold the key"
        );
    }
    st.hit("lookups");
    st.add("keys_compared", log.len() as u64 / 2);
    Ok(nodes.len() > 2 && ok.len() < e.m.by.len() / 2)
}

/// C16, single trees
fn prune_one<W: World>(case: &Case, st: &mut Stats) -> Res {
    let mut e = IEng::<W>::of(case);
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        let at = |m: String| format!("op {i}: {m}");
        e.step(op).map_err(at)?;
        if op.k < code::QUERY && i + 3 < case.ops.len() {
            continue;
        }
        let Some(nodes) = parse(&e, st) else {
            continue;
        };
        good |= prune_filter(&mut e, &nodes, op, i, st).map_err(at)?;
        good |= prune_rank(&mut e, &nodes, op, i, st).map_err(at)?;
        let k = e.op_key(op);
        prune_lookup(&mut e, &nodes, &k, op.s % 2, st).map_err(at)?;
        if let Some(k) = e.existing(op) {
            good |= prune_lookup(&mut e, &nodes, &k, op.s, st).map_err(at)?;
        }
    }
    e.label(st);
    st.nontrivial = good;
    Ok(())
}

/// C16, joins
fn prune_two<L: World, R: World>(case: &Case, st: &mut Stats) -> Res {
    let mut t = TwoTrees::<Inst<L>, Inst<R>, u32>::of(case);
    let mut good = false;
    for (i, op) in case.ops.iter().enumerate() {
        t.step(case, op).map_err(|m| format!("op {i}: {m}"))?;
        if op.k < code::QUERY && i + 3 < case.ops.len() {
            continue;
        }
        if t.l.m.len() * t.r.m.len() > 20000 {
            continue;
        }
        let (Some(ln), Some(rn)) = (parse(&t.l, st), parse(&t.r, st)) else {
            continue;
        };
        let s = JoinSpec::decode::<L, R>(op, i, case.par[2]);
        // leaves by key
        let leaves = |nodes: &[PNode]| {
            let mut m: BTreeMap<RKey, Vec<RBox>> = BTreeMap::new();
            for n in nodes {
                for (k, _) in &n.entries {
                    let v = m.entry(*k).or_default();
                    if !v.contains(&n.bounds) {
                        v.push(n.bounds);
                    }
                }
            }
            m
        };
        let (ll, rl) = (leaves(&ln), leaves(&rn));
        let check = |name: &str, own: bool, log: &JoinLog| -> Res {
            for (l, r) in &log.keys {
                let (Some(a), Some(b)) = (ll.get(l), rl.get(r)) else {
                    fail!("{name} tested keys that are not stored on their sides: {l:?} {r:?}");
                };
                ensure!(
                    (own && b.iter().any(|y| s.bounds(&l.rbox(), y)))
                        || a.iter().any(|x| b.iter().any(|y| s.bounds(x, y))),
                    "op {i}: {name} ({s:?}) tested {l:?} with {r:?}, whose leaves were rejected"
                );
            }
            Ok(())
        };
        let log = RefCell::new(JoinLog::default());
        let take = if op.s & 1 == 0 {
            usize::MAX
        } else {
            op.s as usize / 2 % 9
        };
        t.l.tree
            .join::<_, _, _, inst::XK<L>, inst::XK<R>, _>(
                &t.r.tree,
                SpecJoin::<Inst<L>, Inst<R>>::logged(s, &log),
            )
            .take(take)
            .for_each(drop);
        check("join", false, &log.borrow())?;
        let tested = log.borrow().keys.len();
        st.hit("joins");
        st.add("pairs_tested_by_joins", tested as u64);
        *log.borrow_mut() = JoinLog::default();
        for (_, inner) in
            t.l.tree
                .left_join::<_, _, _, inst::XK<L>, inst::XK<R>, _>(
                    &t.r.tree,
                    SpecJoin::<Inst<L>, Inst<R>>::logged(s, &log),
                )
                .take(take)
        {
            inner.take(take).for_each(drop);
        }
        check("left_join", true, &log.borrow())?;
        st.hit("left_joins");
        st.add("pairs_tested_by_left_joins", log.borrow().keys.len() as u64);
        good |= take == usize::MAX
            && ln.len() > 1
            && rn.len() > 1
            && tested > 0
            && tested < t.l.m.len() * t.r.m.len();
    }
    t.label(st);
    st.nontrivial = good;
    Ok(())
}

/// C16: par[5] odd for joins.
#[cfg(any(feature = "c16"))]
pub fn pruning(case: &Case, st: &mut Stats) -> Res {
    use crate::world::*;
    use noisy_float::types::N64;
    if case.par[5] & 1 == 0 {
        match case.par[0] % 5 {
            0 => prune_one::<BW<i32, 2>>(case, st),
            1 => prune_one::<PW<i32, 2>>(case, st),
            2 => prune_one::<TW>(case, st),
            3 => prune_one::<CW>(case, st),
            _ => prune_one::<BW<N64, 3>>(case, st),
        }
    } else {
        match case.par[0] % 3 {
            0 => prune_two::<BW<i32, 2>, BW<i32, 2>>(case, st),
            1 => prune_two::<PW<i32, 2>, BW<i32, 1>>(case, st),
            _ => prune_two::<CW, BW<i32, 2>>(case, st),
        }
    }
}
