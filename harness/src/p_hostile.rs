//! Memory safety (C19) whatever user code answers, and with any configuration:
//! bounds, equality, filters, rankings and comparisons are safe code, so that
//! no answer of theirs may lead to a double drop, a use of what is dropped, or
//! two references to one value. Panics are allowed, and may leak.
use crate::case::{Case, Op, Res, Stats};
use crate::eng::*;
use crate::ensure;
use crate::inst::{self, Inst, TV};
use crate::p_mem::{guarded, read, ANY_PANIC};
use crate::raw::RKey;
use crate::world::*;
use rusty_rtree::{RTree, RTreeConfig};
use std::borrow::Borrow;

/// Capacities that no tree can be kept with, and others.
fn odd(par: u32) -> RTreeConfig {
    RTreeConfig {
        max_children: [0, 1, 2, 3, 4, 5, 6, 9][par as usize % 8],
        min_children: [0, 1, 2, 3, 4, 5, 7, 11, usize::MAX / 2][par as usize / 8 % 9],
    }
}

struct Plot<W: World> {
    tree: Tree<Inst<W>, TV>,
    /// keys that were offered
    keys: Vec<RKey>,
}

fn check<W: World>(plots: &[Plot<W>], what: &str, panics: u32) -> Res {
    inst::errors().map_err(|m| format!("{what}: {m}"))?;
    let mut n = 0;
    for p in plots {
        let got = drain(what, p.tree.iter(), p.keys.len())?;
        let mut ids: Vec<u32> = got.iter().map(|x| x.1.get()).collect();
        n += ids.len();
        ensure!(
            panics > 0 || p.tree.len() == ids.len(),
            "{what}: len() is {}, but {} entries are yielded",
            p.tree.len(),
            ids.len()
        );
        ids.sort_unstable();
        ids.dedup();
        ensure!(got.len() == ids.len(), "{what}: an entry is held twice");
    }
    inst::errors().map_err(|m| format!("{what}: {m}"))?;
    ensure!(
        inst::live() == 2 * n || (panics > 0 && inst::live() > 2 * n),
        "{what}: {} keys and values are alive, the trees hold {n} entries, after {panics} panics",
        inst::live()
    );
    Ok(())
}

fn run<W: World>(case: &Case, st: &mut Stats) -> Res {
    let cfg = if case.par[6] & 1 == 0 {
        odd(case.par[1])
    } else {
        config(case.par[1])
    };
    let per = [0, 1, 8, 32][case.par[6] as usize / 2 % 4];
    let d = case.par[2];
    let seed = (case.par[4] as u64) << 20 ^ case.par[7] as u64;
    ANY_PANIC.with(|a| a.set(Some(0)));
    inst::track_tools(inst::REGISTERED_TOOLS);
    let panics = || ANY_PANIC.with(|a| a.get()).unwrap_or(0);
    let mut ids = 0;
    let mut largest = 0;
    let mut plots: Vec<Plot<W>> = (0..2)
        .map(|_| Plot {
            tree: RTree::new(cfg),
            keys: Vec::new(),
        })
        .collect();
    let long = if cfg!(miri) { 60 } else { 240 };
    for (i, op) in case.ops.iter().take(long).enumerate() {
        let cur = op.e[0] as u16 as usize % 8 / 7;
        let known = |p: &Plot<W>, op: &Op| -> Option<RKey> {
            (!p.keys.is_empty()).then(|| p.keys[op.s as usize % p.keys.len()])
        };
        inst::lie(
            seed.wrapping_add((i as u64).wrapping_mul(0x9e3779b97f4a7c15)),
            per,
        );
        let p = &mut plots[cur];
        let mut what = format!("op {i}");
        if op.k < code::QUERY {
            let old = known(p, op);
            let fresh = Inst::<W>::key(op, i, d);
            match op.k {
                code::INSERT | code::INSERT_DUP => {
                    let k = if op.k == code::INSERT {
                        fresh
                    } else {
                        old.unwrap_or(fresh)
                    };
                    ids += 1;
                    p.keys.push(k);
                    let (k, v) = (Inst::<W>::mk(&k), TV::new(ids));
                    guarded(|| p.tree.insert(k, v))?;
                    what += " (insert)";
                }
                code::UNIQUE | code::UNIQUE_DUP => {
                    let k = if op.k == code::UNIQUE {
                        fresh
                    } else {
                        old.unwrap_or(fresh)
                    };
                    ids += 1;
                    p.keys.push(k);
                    let (k, v) = (Inst::<W>::mk(&k), TV::new(ids));
                    if let Some(Some(v)) = guarded(|| p.tree.insert_unique(k, v))? {
                        v.get();
                    }
                    what += " (insert_unique)";
                }
                _ => {
                    let k = Inst::<W>::mk(&old.unwrap_or(fresh));
                    if let Some(Some(v)) =
                        guarded(|| p.tree.remove::<<Inst<W> as World>::Q>(k.borrow()))?
                    {
                        v.get();
                        st.hit("entries_removed");
                    }
                    what += " (remove)";
                }
            }
        } else {
            let some = known(p, op);
            let kind = (op.s >> 4) % 24;
            if kind < 20 {
                let (a, b) = plots.split_at_mut(1);
                let (x, y) = if cur == 0 {
                    (&mut a[0], &b[0])
                } else {
                    (&mut b[0], &a[0])
                };
                let take = [usize::MAX >> 8, 0, 1, 7][op.s as usize % 4];
                what += " (read)";
                let (n, m) = (x.tree.len(), y.tree.len());
                read::<Inst<W>, TV>(
                    kind as u8,
                    &mut x.tree,
                    n,
                    &y.tree,
                    m,
                    op,
                    i,
                    d,
                    some,
                    take,
                    st,
                )
                .map_err(|m| format!("op {i}: {m}"))?;
            } else if kind < 22 {
                what += " (clone)";
                let (a, b) = plots.split_at_mut(1);
                let (x, y) = if cur == 0 {
                    (&a[0], &mut b[0])
                } else {
                    (&b[0], &mut a[0])
                };
                if op.s % 2 == 0 {
                    if let Some(t) = guarded(|| x.tree.clone())? {
                        let keys = x.keys.clone();
                        *y = Plot { tree: t, keys };
                    }
                } else {
                    y.keys = match guarded(|| y.tree.clone_from(&x.tree))? {
                        Some(()) => x.keys.clone(),
                        None => y.keys.iter().chain(&x.keys).take(4000).copied().collect(),
                    };
                }
            } else {
                what += " (drop)";
                plots[1 - cur] = Plot {
                    tree: RTree::new(cfg),
                    keys: Vec::new(),
                };
            }
        }
        inst::lie(0, 0);
        largest = largest.max(plots[cur].tree.len());
        check(&plots, &what, panics())?;
    }
    let n = panics();
    drop(plots);
    inst::errors()?;
    ensure!(
        n > 0 || (inst::live() == 0 && inst::live_bounds() == 0),
        "{} keys and values and {} bounds are alive after every tree was dropped",
        inst::live(),
        inst::live_bounds()
    );
    st.when(per > 0, "cases_with_made_up_answers");
    st.when(case.par[6] & 1 == 0, "cases_with_any_capacities");
    st.add("panics_outside_the_domain", n as u64);
    st.nontrivial = largest > cfg.max_children && (per > 0 || case.par[6] & 1 == 0);
    Ok(())
}

/// C19
pub fn hostile(case: &Case, st: &mut Stats) -> Res {
    crate::alloc::take_error();
    let r = match case.par[0] % 3 {
        0 => run::<CW>(case, st),
        1 => run::<PW<i32, 2>>(case, st),
        _ => run::<BW<i32, 2>>(case, st),
    };
    inst::lie(0, 0);
    ANY_PANIC.with(|a| a.set(None));
    // the registry of instances is kept on the heap
    inst::reset();
    r?;
    crate::alloc::check_held();
    if let Some(x) = crate::alloc::take_error() {
        return Err(x.to_string());
    }
    Ok(())
}
