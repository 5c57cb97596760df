//! Trees shared between threads and sent to them (C24).
use crate::case::{Case, Op, Res, Stats};
use crate::eng::*;
use crate::ensure;
use crate::p_join::{JoinSpec, SpecJoin};
use crate::raw::RKey;
use crate::world::World;
use rusty_rtree::bounds::SAABB;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::borrow::Borrow;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Barrier, Mutex, MutexGuard};
use std::thread;

/// Lets the checks be built whether or not a tree is Send and Sync; that is
/// tested by itself.
struct Force<X>(X);
unsafe impl<X> Send for Force<X> {}
unsafe impl<X> Sync for Force<X> {}
impl<X> Force<X> {
    fn get(&self) -> &X {
        &self.0
    }
    fn into(self) -> X {
        self.0
    }
}

struct Probe<X>(PhantomData<X>);
impl<X: Send> Probe<X> {
    fn is_send(&self) -> bool {
        true
    }
}
impl<X: Sync> Probe<X> {
    fn is_sync(&self) -> bool {
        true
    }
}
trait Otherwise {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<X> Otherwise for Probe<X> {}

macro_rules! probe {
    ($t:ty) => {{
        let p: Probe<$t> = Probe(PhantomData);
        (p.is_send(), p.is_sync())
    }};
    (of $e:expr) => {{
        fn probe_of<X>(_: &X) -> Probe<X> {
            Probe(PhantomData)
        }
        let p = probe_of(&$e);
        (p.is_send(), p.is_sync())
    }};
}

type Bx = SAABB<i32, 2>;
type Pt = SVec<i32, 2>;

/// Trees are Send and Sync exactly if what they hold is.
fn markers(st: &mut Stats) -> Res {
    macro_rules! tree {
        ($b:ty, $k:ty, $v:ty, $send:expr, $sync:expr) => {{
            let got = probe!(RTree<$b, $k, $v>);
            ensure!(
                got == ($send, $sync),
                "RTree<{}, {}, {}> is Send: {}, Sync: {}, but should be {}, {}",
                stringify!($b),
                stringify!($k),
                stringify!($v),
                got.0,
                got.1,
                $send,
                $sync
            );
            st.hit("marker_tests");
        }};
    }
    tree!(Bx, Pt, u32, true, true);
    tree!(Bx, Pt, String, true, true);
    tree!(Bx, String, Vec<Box<u8>>, true, true);
    tree!(Bx, Pt, Arc<u32>, true, true);
    tree!(Bx, Pt, Mutex<Cell<u8>>, true, true);
    tree!(Bx, Pt, Rc<u32>, false, false);
    tree!(Bx, Rc<u32>, u32, false, false);
    tree!(Rc<Bx>, Pt, u32, false, false);
    tree!(Bx, Pt, Cell<u32>, true, false);
    tree!(Bx, Cell<u32>, u32, true, false);
    tree!(Cell<u32>, Pt, u32, true, false);
    tree!(Bx, Pt, MutexGuard<'static, u32>, false, true);
    tree!(Bx, MutexGuard<'static, u32>, u32, false, true);
    tree!(MutexGuard<'static, u8>, Pt, u32, false, true);
    tree!(Bx, Pt, *const u8, false, false);
    tree!(Bx, *mut u8, u8, false, false);
    tree!(*mut u8, Pt, u8, false, false);
    Ok(())
}

/// Iterators must not carry to another thread what must stay in one: shared
/// references to entries that are not Sync, or exclusive references to entries
/// that are not Send.
fn iterator_markers(st: &mut Stats) -> Res {
    let cells = RTree::<Bx, Pt, Cell<u32>>::new(CFG);
    let mut rcs = RTree::<Bx, Pt, Rc<u32>>::new(CFG);
    let mut guards = RTree::<Bx, Pt, MutexGuard<'static, u32>>::new(CFG);
    macro_rules! stays {
        ($what:expr, $e:expr) => {{
            let it = $e;
            let (send, _) = probe!(of it);
            ensure!(!send, "{} is Send", $what);
            st.hit("marker_tests");
        }};
    }
    macro_rules! unshared {
        ($what:expr, $e:expr) => {{
            let it = $e;
            let (_, sync) = probe!(of it);
            ensure!(!sync, "{} is Sync", $what);
            st.hit("marker_tests");
        }};
    }
    let here = || SpatialFilterAll;
    stays!("iter over a tree of Cells", cells.iter());
    stays!(
        "filter_iter over a tree of Cells",
        cells.filter_iter::<Pt, _>(here())
    );
    stays!("iter_asc_by over a tree of Cells", cells.iter_asc_by(Zero));
    stays!(
        "filter_iter_asc_by over a tree of Cells",
        cells.filter_iter_asc_by(SomeZero)
    );
    stays!(
        "join of trees of Cells",
        cells.join::<_, _, _, Pt, Pt, _>(&cells, here())
    );
    stays!(
        "left_join of trees of Cells",
        cells.left_join::<_, _, _, Pt, Pt, _>(&cells, here())
    );
    unshared!("iter over a tree of Cells", cells.iter());
    unshared!(
        "filter_iter over a tree of Cells",
        cells.filter_iter::<Pt, _>(here())
    );
    stays!("iter over a tree of Rcs", rcs.iter());
    stays!("iter_mut over a tree of Rcs", rcs.iter_mut());
    stays!(
        "filter_iter_mut over a tree of Rcs",
        rcs.filter_iter_mut::<Pt, _>(here())
    );
    stays!(
        "iter_asc_by_mut over a tree of Rcs",
        rcs.iter_asc_by_mut(Zero)
    );
    stays!(
        "filter_iter_asc_by_mut over a tree of Rcs",
        rcs.filter_iter_asc_by_mut(SomeZero)
    );
    stays!("iter_mut over a tree of MutexGuards", guards.iter_mut());
    stays!(
        "filter_iter_mut over a tree of MutexGuards",
        guards.filter_iter_mut::<Pt, _>(here())
    );
    stays!(
        "iter_asc_by_mut over a tree of MutexGuards",
        guards.iter_asc_by_mut(Zero)
    );
    Ok(())
}

const CFG: RTreeConfig = RTreeConfig {
    max_children: 4,
    min_children: 2,
};
#[derive(Clone)]
struct SpatialFilterAll;
impl<B> SpatialFilter<B, Pt> for SpatialFilterAll {
    fn test_bounds(&self, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &Pt) -> bool {
        true
    }
}
impl<B, C> JoinFilter<B, C, Pt, Pt> for SpatialFilterAll {
    fn test_bounds(&self, _: &B, _: &C) -> bool {
        true
    }
    fn test_key(&self, _: &Pt, _: &Pt) -> bool {
        true
    }
}
struct Zero;
impl<B> Ranking<B, Pt> for Zero {
    type Metric = u8;
    fn bounds_min(&self, _: &B) -> u8 {
        0
    }
    fn rank_key(&self, _: &Pt) -> u8 {
        0
    }
}
struct SomeZero;
impl<B> Ranking<B, Pt> for SomeZero {
    type Metric = Option<u8>;
    fn bounds_min(&self, _: &B) -> Option<u8> {
        Some(0)
    }
    fn rank_key(&self, _: &Pt) -> Option<u8> {
        Some(0)
    }
}

/// Runs something with a value in another thread, if the value may go there.
struct Carrier<X>(X);
impl<X: Send> Carrier<X> {
    fn there<'s, 'e>(
        self,
        s: &'s thread::Scope<'s, 'e>,
        f: impl FnOnce(X) -> u64 + Send + 's,
    ) -> Option<thread::ScopedJoinHandle<'s, u64>>
    where
        X: 's,
    {
        let x = self.0;
        Some(s.spawn(move || {
            let r = f(x);
            crate::alloc::flush_held();
            r
        }))
    }
}
trait Stays<X>: Sized {
    fn there<'s, 'e, F: FnOnce(X) -> u64>(
        self,
        _: &'s thread::Scope<'s, 'e>,
        _: F,
    ) -> Option<thread::ScopedJoinHandle<'s, u64>> {
        None
    }
}
impl<X> Stays<X> for Carrier<X> {}

/// Iterators that say that they can be sent are sent while what they came from
/// is used on. (A data race is for Miri and ThreadSanitizer to see.)
fn sent_iterators(case: &Case, st: &mut Stats) -> Res {
    let mut t = RTree::<Bx, Pt, u32>::new(CFG);
    let n = 1 + case.par[4] as u32 % 12;
    for i in 0..n {
        t.insert(SVec([i as i32 * 3 % 7, i as i32 * 5 % 11]), i);
    }
    let expected = n as u64 * (n as u64 - 1) / 2;
    let mut sent = 0;
    let bad: Option<String> = thread::scope(|s| {
        let mut bad = None;
        let mut hs = Vec::new();
        let mut outer = 0;
        let mut it = t.left_join::<_, _, _, Pt, Pt, _>(&t, SpatialFilterAll);
        while let Some(((_, v), inner)) = it.next() {
            outer += *v as u64;
            if let Some(h) = Carrier(inner).there(s, |it| it.map(|(_, v)| *v as u64).sum()) {
                hs.push(h);
            }
        }
        let mut halves = t.left_join::<_, _, _, Pt, Pt, _>(&t, SpatialFilterAll);
        let mut half = 0;
        for ((_, v), _) in halves.by_ref().take(n as usize / 2) {
            half += *v as u64;
        }
        if let Some(h) = Carrier(halves).there(s, move |it| {
            half + it
                .map(|((_, v), inner)| *v as u64 + (inner.count() as u64 - n as u64))
                .sum::<u64>()
        }) {
            hs.push(h);
        }
        if let Some(h) = Carrier(t.iter()).there(s, |it| it.map(|(_, v)| *v as u64).sum()) {
            hs.push(h);
        }
        if let Some(h) =
            Carrier(t.iter_asc_by(Zero)).there(s, |it| it.map(|(_, v)| *v as u64).sum())
        {
            hs.push(h);
        }
        drop(it);
        if outer != expected {
            bad = Some("a left join misses left entries".to_string());
        }
        for h in hs {
            sent += 1;
            match h.join() {
                Ok(x) if x == expected => {}
                Ok(_) => bad = Some("an iterator sent to a thread yields other entries".into()),
                Err(_) => bad = Some("an iterator sent to a thread panicked there".into()),
            }
        }
        bad
    });
    st.add("iterators_sent_to_threads", sent);
    bad.map_or(Ok(()), Err)
}

fn mix(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x9e3779b97f4a7c15);
    *h ^= *h >> 29;
}
fn note(h: &mut u64, k: &RKey, v: u32) {
    mix(h, hash_key(k));
    mix(h, v as u64);
}

/// One query; everything it yields, in order, as a number.
fn digest<W: World>(
    t: &Tree<W, u32>,
    o: &Tree<W, u32>,
    op: &Op,
    idx: usize,
    dist: u32,
    some: Option<RKey>,
    large: bool,
) -> (u64, u64) {
    let spec = Spec::decode::<W>(op, idx, dist, some);
    let rank = Rank::decode::<W>(op, idx, dist);
    let key = some.unwrap_or_else(|| W::key(op, idx, dist));
    let mut h = 1;
    let mut n = 0;
    macro_rules! all {
        ($it:expr) => {
            for (k, v) in $it {
                note(&mut h, &W::raw(k), *v);
                n += 1;
            }
        };
    }
    // of pairs of large trees, there are too many
    let kinds = if large || t.len() * o.len() > 250_000 {
        13
    } else {
        16
    };
    match (op.s >> 4) % kinds {
        0 => all!(t.iter()),
        1..=3 => all!(t.filter_iter::<W::K, _>(SpecFilter::<W>::new(spec))),
        4 => all!(t.iter_asc_by(SpecRank::<W>::new(rank))),
        5 => all!(t.iter_asc_by(SpecRank::<W>::new(rank)).take(5)),
        6 => all!(t.filter_iter_asc_by(SpecOptRank::<W>::new(rank, spec))),
        7 => all!(t.min_by(SpecRank::<W>::new(rank))),
        8 => all!(t.filter_min_by(SpecOptRank::<W>::new(rank, spec))),
        9 => {
            let k = W::mk(&key);
            if let Some(v) = t.get::<W::Q>(k.borrow()) {
                mix(&mut h, *v as u64);
                n += 1;
            }
        }
        10 => {
            mix(&mut h, t.len() as u64);
            mix(&mut h, t.is_empty() as u64);
        }
        11 => {
            let c = t.clone();
            all!(c.iter());
        }
        12 => {
            for b in format!("{t:?}").bytes() {
                mix(&mut h, b as u64);
            }
            n += 1;
        }
        13 => {
            let s = JoinSpec::decode::<W, W>(op, idx, dist);
            for ((k, v), (l, w)) in t.join::<_, _, u32, W::K, W::K, _>(o, SpecJoin::<W, W>::new(s))
            {
                note(&mut h, &W::raw(k), *v);
                note(&mut h, &W::raw(l), *w);
                n += 1;
            }
        }
        _ => {
            let s = JoinSpec::decode::<W, W>(op, idx, dist);
            for ((k, v), inner) in
                t.left_join::<_, _, u32, W::K, W::K, _>(o, SpecJoin::<W, W>::new(s))
            {
                note(&mut h, &W::raw(k), *v);
                for (l, w) in inner {
                    note(&mut h, &W::raw(l), *w);
                    n += 1;
                }
                n += 1;
            }
        }
    }
    (h, n)
}

/// Short queries in quick succession, so that many of them meet in time.
fn hammer<W: World>(
    e: &Eng<W, u32>,
    queries: &[(usize, Op)],
    threads: usize,
    st: &mut Stats,
) -> Res {
    let n = e.m.len();
    let step = 1 + n / 16;
    let mut keys: Vec<RKey> = e.m.ents.iter().step_by(step).map(|x| x.0).collect();
    keys.extend(queries.iter().take(4).map(|(i, o)| W::key(o, *i, e.dist)));
    let ranks: Vec<Rank> = queries
        .iter()
        .take(4)
        .map(|(i, o)| Rank::decode::<W>(o, *i, e.dist))
        .collect();
    // an answer for each number
    let count = 2 * keys.len() + ranks.len() + 1;
    let ask = |t: &Tree<W, u32>, ks: &[W::K], j: usize| -> (Option<RKey>, Option<u32>) {
        if j < 2 * ks.len() {
            return (None, t.get::<W::K>(&ks[j / 2]).copied());
        }
        match ranks.get(j - 2 * ks.len()) {
            Some(r) => t
                .min_by(SpecRank::<W>::new(*r))
                .map_or((None, None), |(k, v)| (Some(W::raw(k)), Some(*v))),
            None => match t.iter().next() {
                Some((k, v)) => (Some(W::raw(k)), Some(*v)),
                None => (None, Some(t.len() as u32)),
            },
        }
    };
    let made: Vec<W::K> = keys.iter().map(W::mk).collect();
    let expected: Vec<_> = (0..count).map(|j| ask(&e.tree, &made, j)).collect();
    let asked = if cfg!(miri) {
        count
    } else if n > 1000 || e.cfg.max_children > 64 {
        200
    } else {
        1500
    };
    let (tree, ask) = (Force(&e.tree), Force(ask));
    let barrier = Barrier::new(threads);
    let bad: Vec<String> = thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (tree, ask, barrier, keys, expected) =
                    (&tree, &ask, &barrier, &keys, &expected);
                s.spawn(move || {
                    let made: Vec<W::K> = keys.iter().map(W::mk).collect();
                    barrier.wait();
                    let mut bad = None;
                    for i in 0..asked {
                        let j = i * (2 * t + 1) % count;
                        let got = (ask.get())(tree.get(), &made, j);
                        if got != expected[j] {
                            bad = Some(format!(
                                "thread {t}: short query {j} gives {got:?}, alone {:?}",
                                expected[j]
                            ));
                            break;
                        }
                    }
                    drop(made);
                    crate::alloc::flush_held();
                    (bad, crate::alloc::take_error())
                })
            })
            .collect();
        hs.into_iter()
            .filter_map(|h| match h.join() {
                Ok((b, err)) => b.or(err.map(|x| x.to_string())),
                Err(_) => Some("a short query panicked in a thread".to_string()),
            })
            .collect()
    });
    st.add("short_concurrent_queries", (threads * asked) as u64);
    match bad.first() {
        Some(b) => Err(b.clone()),
        None => Ok(()),
    }
}

/// C24
pub fn shared<W: World>(case: &Case, st: &mut Stats) -> Res {
    markers(st)?;
    iterator_markers(st)?;
    if cfg!(miri) || case.par[5] % 16 == 0 {
        sent_iterators(case, st)?;
    }
    let mut e = Eng::<W, u32>::of(case);
    // the last third of the changes is made in another thread
    let muts: Vec<(usize, &Op)> = case
        .ops
        .iter()
        .enumerate()
        .filter(|o| o.1.k < code::QUERY)
        .collect();
    let queries: Vec<(usize, Op)> = case
        .ops
        .iter()
        .enumerate()
        .filter(|o| o.1.k >= code::QUERY)
        .map(|(i, o)| (i, *o))
        .take(24)
        .collect();
    let here = muts.len() * 2 / 3;
    for (i, op) in &muts[..here] {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
    }
    let dist = e.dist;
    let mut twin = Eng::<W, u32> {
        tree: e.tree.clone(),
        m: e.m.clone(),
        ..Eng::of(case)
    };
    twin.next = e.next;
    twin.fed = e.fed;
    let sent = Force(twin);
    let rest: Vec<(usize, Op)> = muts[here..].iter().map(|(i, o)| (*i, **o)).collect();
    let rest2 = rest.clone();
    let twin = thread::spawn(move || {
        let mut twin = sent;
        let mut r = Ok(());
        for (i, op) in &rest2 {
            r = r.and_then(|_| twin.0.step(op).map_err(|m| format!("op {i}: {m}")));
        }
        crate::alloc::flush_held();
        (twin, r)
    });
    let old = e.tree.clone();
    for (i, op) in &rest {
        e.step(op).map_err(|m| format!("op {i}: {m}"))?;
    }
    let (twin, r) = twin
        .join()
        .map_err(|_| "a tree sent to a thread panicked there".to_string())?;
    r.map_err(|m| format!("in another thread: {m}"))?;
    let twin = twin.into();
    twin.check_contents("iter, back from another thread")?;
    let (a, b) = (format!("{:?}", twin.tree), format!("{:?}", e.tree));
    ensure!(
        a == b,
        "the same changes made in another thread make a different tree"
    );
    st.hit("trees_changed_in_another_thread");

    // few entries may be in many nodes, where a node may have one child
    let large = a.len() > 1_000_000;

    // queries, one after another
    let somes: Vec<Option<RKey>> = queries
        .iter()
        .map(|(_, o)| if o.e[0] & 1 == 0 { e.existing(o) } else { None })
        .collect();
    let one = |j: usize, x: &Tree<W, u32>, y: &Tree<W, u32>| {
        let (i, op) = &queries[j];
        digest::<W>(x, y, op, *i, dist, somes[j], large)
    };
    let expected: Vec<(u64, u64)> = (0..queries.len()).map(|j| one(j, &e.tree, &old)).collect();
    // the ones repeated in threads yield no more than this in all
    let mut sum = 0;
    let n = expected
        .iter()
        .take_while(|x| {
            sum += x.1;
            sum <= 400_000
        })
        .count()
        .max(1.min(expected.len()));
    let expected = &expected[..n];
    let yielded: u64 = expected.iter().map(|x| x.1).sum();
    let threads = 2 + (case.par[3] % 3) as usize;
    let rounds = if cfg!(miri) || large || yielded > 100_000 {
        1
    } else {
        3
    };
    let shared = (Force(&e.tree), Force(&old));
    let one = Force(one);
    let barrier = Barrier::new(threads);
    let bad: Vec<String> = thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, one, barrier, expected) = (&shared, &one, &barrier, &expected);
                s.spawn(move || {
                    barrier.wait();
                    let mut bad = None;
                    for r in 0..rounds {
                        for j in 0..n {
                            // half of the threads run the same query at the same time
                            let j = if t % 2 == 0 { j } else { (j + t + r) % n };
                            let got = (one.get())(j, shared.0.get(), shared.1.get());
                            if got != expected[j] && bad.is_none() {
                                bad = Some(format!(
                                    "thread {t}: query {j} gives {got:?}, alone {:?}",
                                    expected[j]
                                ));
                            }
                        }
                    }
                    crate::alloc::flush_held();
                    (bad, crate::alloc::take_error())
                })
            })
            .collect();
        hs.into_iter()
            .filter_map(|h| match h.join() {
                Ok((b, err)) => b.or(err.map(|x| x.to_string())),
                Err(_) => Some("a query panicked in a thread".to_string()),
            })
            .collect()
    });
    if let Some(b) = bad.first() {
        return Err(b.clone());
    }
    if case.par[6] % 4 == 0 {
        hammer::<W>(&e, &queries, threads, st)?;
    }
    let after: Vec<(u64, u64)> = (0..n).map(|j| (one.get())(j, &e.tree, &old)).collect();
    ensure!(
        after == expected,
        "queries give other results after concurrent ones"
    );
    // dropped in another thread
    let dropped = Force(twin);
    thread::spawn(move || {
        drop(dropped.into());
        crate::alloc::flush_held();
    })
    .join()
    .map_err(|_| "dropping a tree panicked in another thread".to_string())?;
    e.check_contents("iter, after concurrent queries")?;
    st.add("concurrent_queries", (threads * rounds * n) as u64);
    st.add("results_compared", yielded);
    e.label(st);
    st.nontrivial = n >= 2 && yielded > 0 && e.max_len > e.cfg.max_children;
    Ok(())
}
