//! Ownership (C18) and panic safety (C20): trees of tracked keys and values.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::eng::*;
use crate::inst::{self, Inst, INJECTED, TV};
use crate::p_join::{JoinSpec, SpecJoin};
use crate::raw::RKey;
use crate::world::World;
use crate::{ensure, fail};
use std::borrow::Borrow;
use std::panic::{catch_unwind, AssertUnwindSafe};

type T<W> = Tree<Inst<W>, TV>;
type E<W> = Eng<Inst<W>, TV>;

/// What a reference must be: aligned, and readable.
fn aligned<X>(what: &str, x: &X) -> Res {
    let a = x as *const X as usize;
    ensure!(
        a != 0 && a % std::mem::align_of::<X>() == 0,
        "{what}: a reference is not aligned ({a:#x}, {})",
        std::mem::align_of::<X>()
    );
    Ok(())
}

thread_local! {
    /// Whether any panic will do, and how many there were.
    pub static ANY_PANIC: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
}

/// Runs something that may raise the injected panic: Ok(None) then.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<Option<R>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(p) => {
            let any = ANY_PANIC.with(|a| a.get());
            if let Some(n) = any {
                ANY_PANIC.with(|a| a.set(Some(n + 1)));
                Ok(None)
            } else if p.downcast_ref::<&str>() == Some(&INJECTED) {
                Ok(None)
            } else {
                Err(crate::run::last_panic())
            }
        }
    }
}

pub const READS: u8 = 20;

/// Walks an iterator, going on after an injected panic, and checks that no
/// value is yielded twice. `$n`: how many to take.
macro_rules! walk {
    ($what:expr, $it:expr, $n:expr, $cap:expr, $panics:expr) => {{
        let mut it = $it;
        let mut left: usize = $n;
        // what was yielded is held until the end
        let mut got = Vec::new();
        while left > 0 {
            left -= 1;
            match guarded(|| it.next())? {
                Some(Some(x)) => got.push(x),
                Some(None) => break,
                None => {
                    // the caller saw the panic; the iterator may be used on
                    $panics += 1;
                }
            }
            if got.len() > $cap {
                fail!("{}: more than the {} entries are yielded", $what, $cap);
            }
        }
        got
    }};
}

fn once<V: Val>(what: &str, mut ids: Vec<u32>) -> Res {
    if !V::IDS {
        return Ok(());
    }
    let n = ids.len();
    ids.sort_unstable();
    ids.dedup();
    ensure!(ids.len() == n, "{what}: a value is yielded more than once");
    Ok(())
}

/// One read of the tree, with up to `take` items taken from iterators.
/// Returns how often the injected panic was raised.
#[allow(clippy::too_many_arguments)]
pub fn read<W: World, V: Val>(
    kind: u8,
    t: &mut Tree<W, V>,
    len: usize,
    other: &Tree<W, V>,
    other_len: usize,
    op: &Op,
    idx: usize,
    dist: u32,
    some: Option<RKey>,
    take: usize,
    st: &mut Stats,
) -> Result<u32, String> {
    // any pair of entries may have to be tested
    let kind = if kind >= 14 && len.saturating_mul(other_len) > 10_000_000 {
        kind - 14
    } else {
        kind
    };
    let mut panics = 0;
    let spec = Spec::decode::<W>(op, idx, dist, some);
    let rank = Rank::decode::<W>(op, idx, dist);
    let filter = || SpecFilter::<W>::new(spec);
    let ranking = || SpecRank::<W>::new(rank);
    let opt = || SpecOptRank::<W>::new(rank, spec);
    let key = some.unwrap_or_else(|| W::key(op, idx, dist));
    macro_rules! shared {
        ($name:expr, $it:expr) => {{
            let Some(it) = guarded(|| $it)? else {
                return Ok(1);
            };
            let got = walk!($name, it, take, len, panics);
            st.hit(concat!("op_", $name));
            let mut ids = Vec::new();
            for (k, v) in &got {
                aligned($name, *k)?;
                aligned($name, *v)?;
                let _ = W::raw(k);
                ids.push(v.id());
            }
            once::<V>($name, ids)?;
        }};
    }
    macro_rules! mutable {
        ($name:expr, $it:expr) => {{
            let Some(it) = guarded(|| $it)? else {
                return Ok(1);
            };
            let mut got = walk!($name, it, take, len, panics);
            st.hit(concat!("op_", $name));
            let mut ids = Vec::new();
            let mut at = Vec::new();
            // all references are held while each is read and written
            for (k, v) in got.iter_mut() {
                aligned($name, *k)?;
                aligned($name, &**v)?;
                let _ = W::raw(k);
                let id = v.id();
                ids.push(id);
                v.set(id);
                at.push(*v as *const V as usize);
            }
            for (k, v) in got {
                let _ = W::raw(k);
                let id = v.id();
                v.set(id);
            }
            once::<V>($name, ids)?;
            if std::mem::size_of::<V>() > 0 {
                let n = at.len();
                at.sort_unstable();
                at.dedup();
                ensure!(at.len() == n, "{}: mutable references alias", $name);
            }
        }};
    }
    macro_rules! single {
        ($name:expr, $r:expr) => {{
            match guarded(|| $r.map(|v| v.id()))? {
                Some(_) => {}
                None => panics += 1,
            }
            st.hit(concat!("op_", $name));
        }};
    }
    macro_rules! single_mut {
        ($name:expr, $r:expr) => {{
            let done = guarded(|| {
                $r.map(|v| {
                    let id = v.id();
                    v.set(id);
                    id
                })
            })?;
            if done.is_none() {
                panics += 1;
            }
            st.hit(concat!("op_", $name));
        }};
    }
    match kind % READS {
        0 => shared!("iter", t.iter()),
        1 => mutable!("iter_mut", t.iter_mut()),
        2 => shared!("filter_iter", t.filter_iter::<W::K, _>(filter())),
        3 => mutable!("filter_iter_mut", t.filter_iter_mut::<W::K, _>(filter())),
        4 => shared!("iter_asc_by", t.iter_asc_by(ranking())),
        5 => mutable!("iter_asc_by_mut", t.iter_asc_by_mut(ranking())),
        6 => shared!("filter_iter_asc_by", t.filter_iter_asc_by(opt())),
        7 => mutable!("filter_iter_asc_by_mut", t.filter_iter_asc_by_mut(opt())),
        8 => single!("min_by", t.min_by(ranking()).map(|x| x.1)),
        9 => single_mut!("min_by_mut", t.min_by_mut(ranking()).map(|x| x.1)),
        10 => single!("filter_min_by", t.filter_min_by(opt()).map(|x| x.1)),
        11 => single_mut!("filter_min_by_mut", t.filter_min_by_mut(opt()).map(|x| x.1)),
        12 => {
            let k = W::mk(&key);
            single!("get", t.get::<W::Q>(k.borrow()))
        }
        13 => {
            let k = W::mk(&key);
            single_mut!("get_mut", t.get_mut::<W::Q>(k.borrow()))
        }
        14 => {
            let s = JoinSpec::decode::<W, W>(op, idx, dist);
            let Some(it) =
                guarded(|| t.join::<_, _, V, W::K, W::K, _>(other, SpecJoin::<W, W>::new(s)))?
            else {
                return Ok(1);
            };
            let got = walk!("join", it, take * 4, len * other_len, panics);
            st.hit("op_join");
            let mut ids: Vec<(u32, u32)> = got
                .iter()
                .map(|((_, v), (_, u))| (v.id(), u.id()))
                .collect();
            let n = ids.len();
            ids.sort_unstable();
            ids.dedup();
            ensure!(
                !V::IDS || ids.len() == n,
                "join: a pair is yielded more than once"
            );
        }
        15..=17 => {
            let s = JoinSpec::decode::<W, W>(op, idx, dist);
            let Some(mut it) =
                guarded(|| t.left_join::<_, _, V, W::K, W::K, _>(other, SpecJoin::<W, W>::new(s)))?
            else {
                return Ok(1);
            };
            st.hit("op_left_join");
            let mut ids = Vec::new();
            let mut held = Vec::new();
            let mut rounds = 0;
            while rounds < take && ids.len() <= len {
                rounds += 1;
                match guarded(|| it.next())? {
                    None => panics += 1,
                    Some(None) => break,
                    Some(Some(((_, v), inner))) => {
                        ids.push(v.id());
                        let n = match (kind, (op.s as usize + rounds) % 3) {
                            (15, _) | (17, 0) => usize::MAX,
                            (17, 1) => 2,
                            _ => 0,
                        };
                        let mut inner = inner;
                        if n > 0 {
                            let got = walk!("left_join, inner", &mut inner, n, other_len, panics);
                            once::<V>("left_join, inner", got.iter().map(|x| x.1.id()).collect())?;
                        }
                        if kind != 15 {
                            held.push(inner);
                        }
                    }
                }
            }
            ensure!(ids.len() <= len, "left_join: too many left entries");
            once::<V>("left_join", ids)?;
            if op.s & 64 == 0 {
                drop(it);
            }
            for inner in held {
                let got = walk!("left_join, held", inner, 3, other_len, panics);
                once::<V>("left_join, held", got.iter().map(|x| x.1.id()).collect())?;
            }
        }
        18 => {
            let r = guarded(|| format!("{t:?}").len())?;
            panics += r.is_none() as u32;
            st.hit("op_debug");
            inst::clear_captures();
        }
        _ => {
            // references into the tree, cloned
            let Some(got) = guarded(|| {
                t.iter()
                    .map(|(k, v)| (k.clone(), v.clone()))
                    .collect::<Vec<_>>()
            })?
            else {
                return Ok(1);
            };
            st.hit("op_clone_entries");
            ensure!(
                got.len() == len,
                "iter yields {} of {len} entries",
                got.len()
            );
            once::<V>("iter", got.iter().map(|x| x.1.id()).collect())?;
        }
    }
    Ok(panics)
}

pub fn contents<W: World>(t: &T<W>, cap: usize) -> Result<Vec<Ent>, String> {
    let mut v: Vec<Ent> = drain("iter", t.iter(), cap)?
        .into_iter()
        .map(|(k, v)| (Inst::<W>::raw(k), v.get()))
        .collect();
    v.sort_unstable();
    Ok(v)
}

/// C18
pub fn ownership<W: World>(case: &Case, st: &mut Stats) -> Res {
    forest::<Inst<W>, TV>(case, st, true)
}

/// A few trees of the same type that are changed, read, cloned, dropped,
/// moved and swapped.
pub fn forest<W: World, V: Val>(case: &Case, st: &mut Stats, tracked: bool) -> Res {
    inst::track_tools(if tracked {
        inst::REGISTERED_TOOLS
    } else {
        inst::TOOLS_ON_HEAP
    });
    let mut forest: Vec<Eng<W, V>> = vec![Eng::of(case), Eng::of(case)];
    let mut cur = 0;
    let mut ids = 1000u32;
    let count = |f: &Vec<Eng<W, V>>| -> usize { f.iter().map(|e| e.m.len()).sum() };
    for (i, op) in case.ops.iter().enumerate() {
        let what;
        if op.k < code::QUERY {
            if op.e[MD - 1] as u16 % 37 == 0 {
                cur = op.s as usize % forest.len();
            }
            what = "a mutation".to_string();
            let e = &mut forest[cur];
            e.next = ids;
            e.step(op).map_err(|m| format!("op {i}: {m}"))?;
            ids = ids.max(e.next);
        } else {
            let kind = (op.s >> 4) % 32;
            what = format!("read or change {kind}");
            let n = forest.len();
            let j = (cur + 1 + op.s as usize % (n - 1)) % n;
            match kind {
                0..=19 => {
                    let take = match op.s % 4 {
                        0 => usize::MAX,
                        1 => 0,
                        2 => 1,
                        _ => 1 + op.c[0] as u16 as usize % 9,
                    };
                    let some = forest[cur].existing(op);
                    let dist = forest[cur].dist;
                    let (a, b) = pick(&mut forest, cur, j);
                    read::<W, V>(
                        kind as u8,
                        &mut a.tree,
                        a.m.len(),
                        &b.tree,
                        b.m.len(),
                        op,
                        i,
                        dist,
                        some,
                        take.min(100000),
                        st,
                    )
                    .map_err(|m| format!("op {i}: {m}"))?;
                    st.when(take != usize::MAX, "iterators_dropped_early");
                }
                20..=22 => {
                    // values are replaced in place; the clones keep theirs
                    let base = ids;
                    let e = &mut forest[cur];
                    let mut old = Vec::new();
                    for (n, (k, v)) in e.tree.iter_mut().enumerate() {
                        if n % (1 + op.s as usize % 3) == 0 {
                            old.push((W::raw(k), v.id(), V::norm(ids)));
                            let prev = std::mem::replace(v, V::mk(V::norm(ids)));
                            ids += 1;
                            if n % 2 == 0 {
                                drop(prev);
                            }
                        }
                    }
                    for (k, o, n) in old {
                        e.m.set(&k, o, n);
                    }
                    st.when(ids > base, "values_replaced_in_place");
                }
                23..=26 => {
                    // a clone takes another tree's place or is added
                    let c = {
                        let e = &forest[cur];
                        Eng::<W, V> {
                            tree: copy_of::<W, V>(&e.tree, op, i, e.dist),
                            m: e.m.clone(),
                            next: e.next,
                            dist: e.dist,
                            removed: e.removed,
                            max_len: e.max_len,
                            cfg: e.cfg,
                            fed: e.fed,
                        }
                    };
                    st.hit("op_clone");
                    if n < 3 {
                        forest.push(c);
                    } else {
                        forest[j] = c;
                    }
                }
                27 => {
                    if n > 2 {
                        drop(forest.remove(j));
                        cur = cur.min(forest.len() - 1);
                        st.hit("op_drop");
                    } else {
                        forest[j] = Eng::of(case);
                    }
                }
                28 => {
                    let (a, b) = pick(&mut forest, cur, j);
                    std::mem::swap(&mut a.tree, &mut b.tree);
                    std::mem::swap(&mut a.m, &mut b.m);
                }
                29 => {
                    // the tree is moved
                    let e = forest.swap_remove(cur);
                    forest.push(*Box::new(e));
                    cur = forest.len() - 1;
                }
                _ => cur = j,
            }
        }
        if !tracked {
            let e = &forest[cur];
            e.check_len().map_err(|m| format!("op {i} ({what}): {m}"))?;
            if e.due(i) {
                e.check_contents("iter")
                    .map_err(|m| format!("op {i} ({what}): {m}"))?;
            }
            if let Some(x) = crate::alloc::take_error() {
                fail!("op {i} ({what}): {x}");
            }
            continue;
        }
        inst::errors().map_err(|m| format!("op {i} ({what}): {m}"))?;
        let exp = 2 * count(&forest);
        ensure!(
            inst::live() == exp,
            "op {i} ({what}): {} keys and values are alive, the trees hold {exp}",
            inst::live()
        );
        ensure!(
            inst::live_tools() == 0,
            "op {i} ({what}): {} filters, rankings or metrics are alive, but no iterator",
            inst::live_tools()
        );
        st.hit("live_counts_compared");
    }
    let mut split = false;
    let mut removed = false;
    for e in &forest {
        e.check_len()?;
        e.check_contents("iter")?;
        e.label(st);
        split |= e.max_len > e.cfg.max_children;
        removed |= e.removed > 0;
    }
    while let Some(e) = forest.pop() {
        drop(e);
        if !tracked {
            continue;
        }
        inst::errors()?;
        let exp = 2 * count(&forest);
        ensure!(
            inst::live() == exp,
            "after dropping a tree {} keys and values are alive, the others hold {exp}",
            inst::live()
        );
    }
    if tracked {
        ensure!(
            inst::live_bounds() == 0,
            "{} bounds are alive after every tree was dropped",
            inst::live_bounds()
        );
    }
    st.nontrivial = split && removed && case.ops.iter().any(|o| o.k >= code::QUERY);
    Ok(())
}

/// Two different elements.
fn pick<X>(v: &mut [X], a: usize, b: usize) -> (&mut X, &mut X) {
    assert!(a != b);
    if a < b {
        let (l, r) = v.split_at_mut(b);
        (&mut l[a], &mut r[0])
    } else {
        let (l, r) = v.split_at_mut(a);
        (&mut r[0], &mut l[b])
    }
}

const MASKS: [(u32, &str); 12] = [
    (u32::MAX, "panics_in_any_callback"),
    (u32::MAX, "panics_in_any_callback"),
    (inst::T_EQ, "panics_in_key_equality"),
    (inst::T_BOUNDS, "panics_in_bounds"),
    (inst::T_UNION, "panics_in_union"),
    (inst::T_VOLUME, "panics_in_volume"),
    (inst::T_CONTAINS, "panics_in_contains_or_intersects"),
    (inst::T_CLONE, "panics_in_clone"),
    (inst::T_DROP, "panics_in_drop"),
    (inst::T_FILTER, "panics_in_filter"),
    (inst::T_RANK, "panics_in_ranking"),
    (inst::T_CMP, "panics_in_metric_comparison"),
];
fn mask_for(op: &Op, of: &[usize]) -> (u32, &'static str) {
    MASKS[of[op.s as usize % of.len()]]
}

/// Uses a tree after a failed change. Its search structure may have lost
/// entries, but every call must return, and do no more than it is asked to.
fn usable<W: World>(
    t: &mut T<W>,
    mut cur: Vec<Ent>,
    op: &Op,
    idx: usize,
    dist: u32,
    ids: &mut u32,
    st: &mut Stats,
) -> Res {
    let mut r = (op.c[0] as u16 as u64) << 16 | op.c[1] as u16 as u64 | 1 << 40;
    let mut rnd = move |n: usize| {
        r = r
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        ((r >> 33) % n as u64) as usize
    };
    let steps = 2 + rnd(7);
    for j in 0..steps {
        let mut o = *op;
        for i in 0..MD {
            o.c[i] = o.c[i]
                .wrapping_mul(31)
                .wrapping_add(rnd(65536) as u16 as i16);
            o.e[i] = o.e[i].wrapping_add(rnd(65536) as u16 as i16);
        }
        *ids += 1;
        let id = *ids;
        let old = (!cur.is_empty()).then(|| cur[rnd(cur.len())].0);
        match rnd(8) {
            0..=2 => {
                let k = <Inst<W> as World>::key(&o, idx + j, dist);
                t.insert(Inst::<W>::mk(&k), TV::new(id));
                cur.push((k, id));
            }
            3 => {
                let k = old.unwrap_or_else(|| <Inst<W> as World>::key(&o, idx + j, dist));
                match t.insert_unique(Inst::<W>::mk(&k), TV::new(id)) {
                    None => cur.push((k, id)),
                    Some(v) => {
                        let v = v.get();
                        let Some(e) = cur.iter_mut().find(|e| **e == (k, v)) else {
                            fail!("insert_unique returned {v}, which is no value of the key");
                        };
                        e.1 = id;
                    }
                }
            }
            4..=6 => {
                let k = old.unwrap_or_else(|| <Inst<W> as World>::key(&o, idx + j, dist));
                let key = Inst::<W>::mk(&k);
                if let Some(v) = t.remove(&key) {
                    let v = v.get();
                    let Some(p) = cur.iter().position(|e| *e == (k, v)) else {
                        fail!("remove returned {v}, which is no value of the key");
                    };
                    cur.swap_remove(p);
                }
            }
            _ => {
                let n = cur.len();
                let c = t.clone();
                read::<Inst<W>, TV>(
                    rnd(READS as usize) as u8,
                    t,
                    n,
                    &c,
                    n,
                    &o,
                    idx,
                    dist,
                    old,
                    100000,
                    st,
                )?;
            }
        }
        cur.sort_unstable();
        let got = contents::<W>(t, cur.len() + 1)?;
        same("contents after a later use", got, cur.clone())?;
        ensure!(
            t.len() == cur.len(),
            "len() is {} with {} entries",
            t.len(),
            cur.len()
        );
        inst::errors()?;
    }
    st.hit("trees_used_after_a_failed_change");
    Ok(())
}

/// C20
pub fn panics<W: World>(case: &Case, st: &mut Stats) -> Res {
    inst::track_tools(inst::REGISTERED_TOOLS);
    let mut e = E::<W>::of(case);
    let mut ids = 1u32 << 20;
    let mut raised = 0u64;
    for (i, op) in case.ops.iter().enumerate() {
        if op.k < code::QUERY {
            e.step(op).map_err(|m| format!("op {i}: {m}"))?;
            continue;
        }
        let at = |m: String| format!("op {i}: {m}");
        let n_at = |n: i64, k: &str, m: String| format!("op {i}, panic at callback {n} ({k}): {m}");
        let before = e.m.sorted();
        let dist = e.dist;
        let what = (op.s >> 5) % 16;
        // the n-th callback: the first ones all, later ones in strides
        let stride = 1 + (op.e[1] as u16 % 7) as i64;
        let dense = 10 + (op.e[2] as u16 % 16) as i64;
        let next = |n: i64| {
            if n < dense {
                n + 1
            } else {
                n + stride + n / 16
            }
        };
        match what {
            0..=9 => {
                // changes
                let mut o = *op;
                o.k = match what {
                    0..=2 => code::INSERT,
                    3 => code::UNIQUE,
                    4 => code::UNIQUE_DUP,
                    5 => code::INSERT_DUP,
                    9 => code::REMOVE_KEY,
                    _ => code::REMOVE,
                };
                let Some(k) = e.target(&o) else { continue };
                let (mask, label) = mask_for(op, &[0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7]);
                let mut n = 0;
                loop {
                    let mut t = e.tree.clone();
                    ids += 1;
                    let id = ids;
                    let key = Inst::<W>::mk(&k);
                    inst::arm(mask, n);
                    let r = match o.k {
                        code::INSERT | code::INSERT_DUP => {
                            let v = TV::new(id);
                            guarded(|| {
                                t.insert(key, v);
                                None
                            })
                        }
                        code::UNIQUE | code::UNIQUE_DUP => {
                            let v = TV::new(id);
                            guarded(|| t.insert_unique(key, v))
                        }
                        _ => {
                            let r = guarded(|| t.remove(&key));
                            let f = inst::disarm();
                            drop(key);
                            if f {
                                inst::arm(0, 0);
                                r.and_then(|x| match x {
                                    None => Ok(None),
                                    Some(_) => Err("the panic was swallowed".into()),
                                })
                            } else {
                                r
                            }
                        }
                    };
                    inst::disarm();
                    let r = r.map_err(|m| n_at(n, label, m))?;
                    inst::errors().map_err(|m| n_at(n, label, m))?;
                    match r {
                        Some(v) => {
                            // it ran to its end
                            drop(v);
                            drop(t);
                            inst::errors().map_err(|m| n_at(n, label, m))?;
                            break;
                        }
                        None => {
                            raised += 1;
                            st.hit(label);
                            st.hit(match o.k {
                                code::INSERT | code::INSERT_DUP => "failed_inserts",
                                code::UNIQUE | code::UNIQUE_DUP => "failed_insert_uniques",
                                _ => "failed_removes",
                            });
                            let got = contents::<W>(&t, before.len() + 1)
                                .map_err(|m| n_at(n, label, m))?;
                            // every entry is one that was given, once
                            let mut given = before.clone();
                            if o.k != code::REMOVE && o.k != code::REMOVE_KEY {
                                given.push((k, id));
                                if o.k != code::INSERT && o.k != code::INSERT_DUP {
                                    // a value may have been replaced
                                    for v in e.m.ids(&k) {
                                        given.push((k, *v));
                                    }
                                }
                                given.sort_unstable();
                            }
                            let mut j = 0;
                            for x in &got {
                                while j < given.len() && given[j] < *x {
                                    j += 1;
                                }
                                if j >= given.len() || given[j] != *x {
                                    return Err(n_at(
                                        n,
                                        label,
                                        format!("the tree holds {x:?}, which it was not given, or twice"),
                                    ));
                                }
                                j += 1;
                            }
                            let mut seen: Vec<u32> = got.iter().map(|x| x.1).collect();
                            seen.sort_unstable();
                            seen.dedup();
                            if seen.len() != got.len() {
                                return Err(n_at(n, label, "an entry is held twice".into()));
                            }
                            if t.len() != got.len() {
                                return Err(n_at(
                                    n,
                                    label,
                                    format!("len() is {} with {} entries", t.len(), got.len()),
                                ));
                            }
                            st.when(got.len() < before.len(), "failed_changes_that_lost_entries");
                            match catch_unwind(AssertUnwindSafe(|| {
                                usable::<W>(&mut t, got, op, i, dist, &mut ids, st)
                            })) {
                                Ok(r) => r.map_err(|m| n_at(n, label, format!("later: {m}")))?,
                                Err(_) => {
                                    return Err(n_at(
                                        n,
                                        label,
                                        format!("a later use {}", crate::run::last_panic()),
                                    ))
                                }
                            }
                            drop(t);
                            inst::errors().map_err(|m| n_at(n, label, format!("dropping: {m}")))?;
                        }
                    }
                    n = next(n);
                    if n > 4000 {
                        break;
                    }
                }
            }
            10 | 11 => {
                // clone and drop
                let (mask, label) = mask_for(op, &[7, 8, 0]);
                let mut n = 0;
                loop {
                    let into =
                        (op.c[1] as u16 % 4 > 1).then(|| other_tree::<Inst<W>, TV>(op, i, dist));
                    inst::arm(mask, n);
                    let c = guarded(|| match into {
                        None => e.tree.clone(),
                        Some(mut t) => {
                            t.clone_from(&e.tree);
                            t
                        }
                    });
                    let f = inst::disarm();
                    let c = c.map_err(|m| n_at(n, label, m))?;
                    ensure!(
                        f == c.is_none(),
                        "{}",
                        n_at(n, label, "the panic was swallowed".into())
                    );
                    inst::errors().map_err(|m| n_at(n, label, m))?;
                    match c {
                        None => {
                            raised += 1;
                            st.hit(label);
                            st.hit("failed_clones");
                        }
                        Some(c) => {
                            inst::arm(inst::T_DROP, n);
                            let r = guarded(move || drop(c));
                            inst::disarm();
                            let r = r.map_err(|m| n_at(n, label, m))?;
                            inst::errors().map_err(|m| n_at(n, label, m))?;
                            if r.is_some() && n > 0 {
                                break;
                            }
                            if r.is_none() {
                                raised += 1;
                                st.hit("panics_in_drop");
                                st.hit("failed_drops");
                            }
                        }
                    }
                    n = next(n);
                    if n > 4000 {
                        break;
                    }
                }
                e.check_contents("after a failed clone").map_err(at)?;
            }
            _ => {
                // reads
                let kind = (op.c[0] as u16 % READS as u16) as u8;
                let (mask, label) = mask_for(op, &[0, 2, 3, 6, 7, 9, 9, 10, 10, 11]);
                let some = e.existing(op);
                let mut t = e.tree.clone();
                let other = e.tree.clone();
                let len = e.m.len();
                // nothing of the tree is dropped by a read
                let mask = mask & !inst::T_DROP;
                let mut n = 0;
                loop {
                    inst::arm(mask, n);
                    let p = read::<Inst<W>, TV>(
                        kind, &mut t, len, &other, len, op, i, dist, some, 100000, st,
                    );
                    inst::disarm();
                    let p = p.map_err(|m| n_at(n, label, m))?;
                    inst::errors().map_err(|m| n_at(n, label, m))?;
                    let got = contents::<W>(&t, len).map_err(|m| n_at(n, label, m))?;
                    same("contents after a failed read", got, before.clone())
                        .map_err(|m| n_at(n, label, m))?;
                    if p == 0 {
                        break;
                    }
                    raised += 1;
                    st.hit(label);
                    st.hit("failed_reads");
                    n = next(n);
                    if n > 2000 {
                        break;
                    }
                }
                let c = contents::<W>(&other, len).map_err(at)?;
                same("contents of the other tree", c, before.clone()).map_err(at)?;
            }
        }
    }
    e.check_contents("iter")?;
    let split = e.max_len > e.cfg.max_children;
    drop(e);
    inst::errors()?;
    st.add("panics_raised", raised);
    st.nontrivial = raised > 0 && split;
    Ok(())
}
