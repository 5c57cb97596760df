//! The model-based engine: a tree next to a multiset model, driven by the
//! operations of a case.
use crate::case::{Case, Op, Res, Stats, MD};
use crate::inst::Tool;
use crate::raw::{RBox, RKey};
use crate::world::{World, CONFIGS};
use crate::{ensure, fail};
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait Val: Clone + Debug + 'static {
    /// Whether values can be told apart.
    const IDS: bool = true;
    fn mk(id: u32) -> Self;
    /// The id that a value made with the given one has.
    fn norm(id: u32) -> u32 {
        id
    }
    fn id(&self) -> u32;
    fn set(&mut self, id: u32);
}
impl Val for u32 {
    fn mk(id: u32) -> Self {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
    fn set(&mut self, id: u32) {
        *self = id;
    }
}
impl Val for crate::inst::TV {
    fn mk(id: u32) -> Self {
        crate::inst::TV::new(id)
    }
    fn id(&self) -> u32 {
        self.get()
    }
    fn set(&mut self, id: u32) {
        self.get();
        self.id = id;
    }
}

pub type Tree<W, V> = RTree<<W as World>::B, <W as World>::K, V>;
pub type Ent = (RKey, u32);

#[derive(Clone, Default)]
pub struct Model {
    pub ents: Vec<Ent>,
    pub by: BTreeMap<RKey, Vec<u32>>,
}
impl Model {
    pub fn has(&self, k: &RKey) -> bool {
        self.by.contains_key(k)
    }
    pub fn ids(&self, k: &RKey) -> &[u32] {
        self.by.get(k).map_or(&[], |v| v)
    }
    pub fn add(&mut self, k: RKey, id: u32) {
        self.ents.push((k, id));
        self.by.entry(k).or_default().push(id);
    }
    pub fn del(&mut self, k: &RKey, id: u32) {
        let i = self
            .ents
            .iter()
            .position(|e| e.1 == id && e.0 == *k)
            .expect("model entry");
        self.ents.swap_remove(i);
        let v = self.by.get_mut(k).unwrap();
        let j = v.iter().position(|x| *x == id).unwrap();
        v.remove(j);
        if v.is_empty() {
            self.by.remove(k);
        }
    }
    pub fn set(&mut self, k: &RKey, old: u32, new: u32) {
        let e = self
            .ents
            .iter_mut()
            .find(|e| e.1 == old && e.0 == *k)
            .expect("model entry");
        e.1 = new;
        let v = self.by.get_mut(k).unwrap();
        let j = v.iter().position(|x| *x == old).unwrap();
        v[j] = new;
    }
    pub fn sorted(&self) -> Vec<Ent> {
        let mut v = self.ents.clone();
        v.sort_unstable();
        v
    }
    pub fn len(&self) -> usize {
        self.ents.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ents.is_empty()
    }
    pub fn has_dups(&self) -> bool {
        self.by.len() < self.ents.len()
    }
}

/// Operation codes of histories.
pub mod code {
    pub const INSERT: u8 = 0;
    pub const UNIQUE: u8 = 1;
    /// insert with the key of an existing entry
    pub const INSERT_DUP: u8 = 2;
    /// insert_unique with the key of an existing entry
    pub const UNIQUE_DUP: u8 = 3;
    pub const REMOVE: u8 = 4;
    /// remove a key that may be absent
    pub const REMOVE_KEY: u8 = 5;
    /// remove the entry of the model that is last, first or in the middle
    pub const REMOVE_END: u8 = 6;
    /// `s` insertions, see `Case::expanded`
    pub const BULK_INSERT: u8 = 7;
    /// `s` removals
    pub const BULK_REMOVE: u8 = 8;
    /// queries and other operations are property specific
    pub const QUERY: u8 = 16;
}

pub fn config(par: u32) -> RTreeConfig {
    let (max_children, min_children) = CONFIGS[par as usize % CONFIGS.len()];
    RTreeConfig {
        max_children,
        min_children,
    }
}

/// A tree of another configuration, empty or with a few entries. What is cloned
/// into it must replace all of that.
pub fn other_tree<W: World, V: Val>(op: &Op, idx: usize, dist: u32) -> Tree<W, V> {
    let par = op.c[1] as u16 as usize;
    let mut t = RTree::new(config((par % 20) as u32));
    for j in 0..[0, 3, 9, 40][par / 32 % 4] {
        let mut o = *op;
        o.c[j % MD] = o.c[j % MD].wrapping_add(17 * j as i16);
        let key = W::key(&o, idx + j, dist);
        t.insert(W::mk(&key), V::mk(j as u32 + 1));
    }
    t
}

/// A clone, made as a new tree or over one that is there.
pub fn copy_of<W: World, V: Val>(t: &Tree<W, V>, op: &Op, idx: usize, dist: u32) -> Tree<W, V> {
    if op.c[1] as u16 % 4 < 2 {
        return t.clone();
    }
    let mut c = other_tree::<W, V>(op, idx, dist);
    c.clone_from(t);
    c
}

/// A long enough history makes trees of several levels.
pub struct Eng<W: World, V: Val> {
    pub tree: Tree<W, V>,
    pub m: Model,
    pub next: u32,
    pub dist: u32,
    pub removed: u64,
    pub max_len: usize,
    pub cfg: RTreeConfig,
    /// keys offered in a history are counted, for ascending distributions
    pub fed: usize,
}

impl<W: World, V: Val> Eng<W, V> {
    pub fn new(cfg: RTreeConfig, dist: u32) -> Self {
        Eng {
            tree: RTree::new(cfg),
            m: Model::default(),
            next: 1,
            dist,
            removed: 0,
            max_len: 0,
            cfg,
            fed: 0,
        }
    }
    pub fn of(case: &Case) -> Self {
        Eng::new(config(case.par[1]), case.par[2])
    }

    pub fn fresh(&mut self) -> u32 {
        self.next += 1;
        V::norm(self.next - 1)
    }

    pub fn op_key(&mut self, op: &Op) -> RKey {
        W::key(op, self.fed, self.dist)
    }
    pub fn existing(&self, op: &Op) -> Option<RKey> {
        if self.m.is_empty() {
            None
        } else {
            Some(self.m.ents[op.s as usize % self.m.len()].0)
        }
    }

    pub fn insert(&mut self, k: RKey) {
        let id = self.fresh();
        self.fed += 1;
        self.tree.insert(W::mk(&k), V::mk(id));
        self.m.add(k, id);
        self.max_len = self.max_len.max(self.m.len());
    }
    pub fn insert_unique(&mut self, k: RKey) -> Res {
        let id = self.fresh();
        self.fed += 1;
        let prev = self.tree.insert_unique(W::mk(&k), V::mk(id));
        match prev {
            None => {
                ensure!(
                    !self.m.has(&k),
                    "insert_unique of a present key returned None: {k:?}, stored values {:?}",
                    self.m.ids(&k)
                );
                self.m.add(k, id);
            }
            Some(p) => {
                let p = p.id();
                ensure!(
                    self.m.has(&k),
                    "insert_unique of an absent key returned Some({p}): {k:?}"
                );
                ensure!(
                    self.m.ids(&k).contains(&p),
                    "insert_unique returned {p}, which is not a value of {k:?}: {:?}",
                    self.m.ids(&k)
                );
                self.m.set(&k, p, id);
            }
        }
        self.max_len = self.max_len.max(self.m.len());
        Ok(())
    }
    pub fn remove(&mut self, k: RKey) -> Res {
        let key = W::mk(&k);
        let got = {
            use std::borrow::Borrow;
            self.tree.remove::<W::Q>(key.borrow())
        };
        match got {
            None => ensure!(
                !self.m.has(&k),
                "remove of a present key returned None: {k:?}, stored values {:?}",
                self.m.ids(&k)
            ),
            Some(v) => {
                let v = v.id();
                ensure!(
                    self.m.has(&k),
                    "remove of an absent key returned Some({v}): {k:?}"
                );
                ensure!(
                    self.m.ids(&k).contains(&v),
                    "remove returned {v}, which is not a value of {k:?}: {:?}",
                    self.m.ids(&k)
                );
                self.m.del(&k, v);
                self.removed += 1;
            }
        }
        Ok(())
    }

    /// The key a mutation works on, if it has one.
    pub fn target(&mut self, op: &Op) -> Option<RKey> {
        match op.k {
            code::INSERT | code::UNIQUE | code::REMOVE_KEY => Some(self.op_key(op)),
            code::INSERT_DUP | code::UNIQUE_DUP => match self.existing(op) {
                Some(k) => Some(k),
                None => Some(self.op_key(op)),
            },
            code::REMOVE => self.existing(op),
            code::REMOVE_END => {
                if self.m.is_empty() {
                    None
                } else {
                    let n = self.m.len();
                    let i = match op.s % 3 {
                        0 => 0,
                        1 => n - 1,
                        _ => n / 2,
                    };
                    Some(self.m.ents[i].0)
                }
            }
            _ => None,
        }
    }

    /// Applies a mutation; other operations are ignored.
    pub fn step(&mut self, op: &Op) -> Res {
        let Some(k) = self.target(op) else {
            return Ok(());
        };
        match op.k {
            code::INSERT | code::INSERT_DUP => {
                self.insert(k);
                Ok(())
            }
            code::UNIQUE | code::UNIQUE_DUP => self.insert_unique(k),
            _ => self.remove(k),
        }
    }

    pub fn check_len(&self) -> Res {
        ensure!(
            self.tree.len() == self.m.len(),
            "len() is {}, but the tree holds {} entries",
            self.tree.len(),
            self.m.len()
        );
        ensure!(
            self.tree.is_empty() == self.m.is_empty(),
            "is_empty() is {} with {} entries",
            self.tree.is_empty(),
            self.m.len()
        );
        Ok(())
    }

    pub fn check_contents(&self, what: &str) -> Res {
        let got = drain(what, self.tree.iter(), self.m.len())?;
        same(
            what,
            got.into_iter().map(|(k, v)| (W::raw(k), v.id())).collect(),
            self.m.sorted(),
        )
    }

    /// Whether to check everything now: always for small trees.
    pub fn due(&self, idx: usize) -> bool {
        let n = self.m.len();
        // in larger ones a few times before they double
        n <= 40
            || idx
                % if n < 400 {
                    n / 8
                } else {
                    (n / 8).next_power_of_two()
                }
                == 0
    }

    pub fn label(&self, st: &mut Stats) {
        let max = self.cfg.max_children;
        st.when(self.max_len > max, "cases_with_split_root");
        st.when(self.max_len > max * max, "cases_with_3_or_more_levels");
        st.when(
            self.max_len > max * max * max,
            "cases_with_4_or_more_levels",
        );
        st.when(self.max_len > 1000, "cases_with_more_than_1000_entries");
        st.when(
            self.max_len > 100 && max >= 100,
            "cases_with_nodes_of_more_than_50_children",
        );
        st.when(self.removed > 0, "cases_with_removals");
        st.when(
            self.removed > 0 && self.max_len > max,
            "cases_with_removals_from_inner_nodes",
        );
        st.when(self.m.has_dups(), "cases_ending_with_duplicate_keys");
        st.add("mutations", self.fed as u64 + self.removed);
        st.when(
            self.max_len > max && self.m.len() < max / 2 + 1 && self.removed > 0,
            "cases_drained",
        );
    }
}

/// Collects an iterator that should yield at most `cap` items, and checks its
/// size hints on the way.
/// Everything an iterator yields: by next, by fold, by both or by nth. Nothing
/// may follow its end, and size hints must hold.
pub fn drain<I: Iterator>(what: &str, mut it: I, cap: usize) -> Result<Vec<I::Item>, String> {
    let mut out = Vec::new();
    let mut hints = vec![it.size_hint()];
    let mode = (cap + what.len()) % 6;
    let by_next = match mode {
        4 => 0,
        5 => cap / 2,
        _ => usize::MAX,
    };
    let mut ended = false;
    while out.len() < by_next {
        let Some(x) = (if mode == 3 { it.nth(0) } else { it.next() }) else {
            ended = true;
            break;
        };
        out.push(x);
        if out.len() > cap {
            fail!("{what}: more than the expected {cap} entries are yielded");
        }
        hints.push(it.size_hint());
    }
    if ended {
        if it.next().is_some() {
            fail!("{what}: an entry is yielded after the end");
        }
    } else {
        let mut beyond = 0;
        out = it.fold(out, |mut v, x| {
            if v.len() <= cap {
                v.push(x);
            } else {
                beyond += 1;
                if beyond > 100 * cap + 100_000 {
                    panic!("an iterator does not end");
                }
            }
            v
        });
        if out.len() > cap {
            fail!("{what}: more than the expected {cap} entries are yielded");
        }
    }
    for (i, (lo, hi)) in hints.into_iter().enumerate() {
        let left = out.len() - i;
        ensure!(
            lo <= left && hi.map_or(true, |h| left <= h),
            "{what}: size hint ({lo}, {hi:?}) with {left} items left"
        );
    }
    Ok(out)
}

/// Other ways of using an iterator of `n` items than `next`: the expression
/// makes it, `ok` judges the item at an index.
#[macro_export]
macro_rules! forms {
    ($what:expr, $make:expr, $n:expr, $sel:expr, $ok:expr) => {{
        let (n, sel, ok) = ($n as usize, $sel as usize, $ok);
        let k = sel / 8 % (n + 2);
        let rest = n - n.min(k + 1);
        let mut it = $make;
        let (form, good) = match sel % 8 {
            0 => ("count()", it.count() == n),
            1 => match it.last() {
                Some(x) => ("last()", n > 0 && ok(n - 1, x)),
                None => ("last()", n == 0),
            },
            2 => match it.nth(k) {
                Some(x) => ("nth()", k < n && ok(k, x) && it.count() == rest),
                None => ("nth()", k >= n && it.next().is_none()),
            },
            3 => {
                let mut i = 0;
                let found = it.any(|_| {
                    i += 1;
                    i == k + 1
                });
                ("any()", found == (k < n) && it.count() == rest)
            }
            4 => match it.find(|_| true) {
                Some(x) => {
                    let mut i = 0;
                    it.for_each(|_| i += 1);
                    ("find() and for_each()", n > 0 && ok(0, x) && i + 1 == n)
                }
                None => ("find()", n == 0),
            },
            5 => ("skip()", it.skip(k).count() == n - n.min(k)),
            6 => {
                let step = k + 1;
                (
                    "step_by()",
                    it.step_by(step).count() == (n + step - 1) / step,
                )
            }
            _ => {
                let part = it.by_ref().take(k).count();
                ("take()", part == k.min(n) && it.count() == n - k.min(n))
            }
        };
        ensure!(
            good,
            "{}: {form} (with {k}) does not agree with next() on {n} items",
            $what
        );
    }};
}

pub fn same(what: &str, mut got: Vec<Ent>, mut exp: Vec<Ent>) -> Res {
    got.sort_unstable();
    exp.sort_unstable();
    if got == exp {
        return Ok(());
    }
    let extra: Vec<_> = diff(&got, &exp);
    let missing: Vec<_> = diff(&exp, &got);
    let show = |v: &[Ent]| {
        v.iter()
            .take(3)
            .map(|(k, id)| format!("{:?}..{:?} tag {} value {id}", k.a, k.b, k.tag))
            .collect::<Vec<_>>()
            .join("; ")
    };
    fail!(
        "{what}: {} entries, expected {}; missing {} [{}]; unexpected {} [{}]",
        got.len(),
        exp.len(),
        missing.len(),
        show(&missing),
        extra.len(),
        show(&extra)
    )
}
/// Sorted multiset difference.
fn diff(a: &[Ent], b: &[Ent]) -> Vec<Ent> {
    let mut out = Vec::new();
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j < b.len() && b[j] == *x {
            j += 1;
        } else {
            out.push(*x);
        }
    }
    out
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}
pub fn hash_key(k: &RKey) -> u64 {
    let mut h = 7;
    for i in 0..MD {
        h = mix(h ^ k.a[i] as u64);
        h = mix(h ^ k.b[i] as u64);
    }
    mix(h ^ k.tag as u64)
}
pub fn hash_box(b: &RBox) -> u64 {
    let mut h = 11;
    for i in 0..MD {
        h = mix(h ^ b.lo[i] as u64);
        h = mix(h ^ b.hi[i] as u64);
    }
    h
}

thread_local! {
    /// Whether filters and rankings refuse the bounds of an empty tree, as one
    /// that computes the sides of a box would.
    pub static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn asked(b: RBox, d: usize) -> RBox {
    if STRICT.with(|s| s.get()) && (0..d).any(|i| b.lo[i] > b.hi[i]) {
        panic!("a filter or ranking is asked about the bounds of an empty tree");
    }
    b
}

/// A predicate on keys with a sound test for bounds.
#[derive(Clone, Copy, Debug)]
pub enum Pred {
    All,
    Nothing,
    Isect(RBox),
    Within(RBox),
    Covers(RBox),
    Disjoint(RBox),
    Hash(u64),
    Either(RBox, RBox),
    DimLe(usize, i64),
    Exactly(RKey),
}

#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub d: usize,
    pub pred: Pred,
    /// 0: tight, 1: grown, 2: accepts everything, 3: accepts also at random
    pub loose: u8,
}

impl Spec {
    pub fn key(&self, k: &RKey) -> bool {
        let d = self.d;
        match &self.pred {
            Pred::All => true,
            Pred::Nothing => false,
            Pred::Isect(q) => k.rbox().intersects(q, d),
            Pred::Within(q) => q.contains(&k.rbox(), d),
            Pred::Covers(q) => k.rbox().contains(q, d),
            Pred::Disjoint(q) => !k.rbox().intersects(q, d),
            Pred::Hash(m) => hash_key(k) % 5 < *m,
            Pred::Either(p, q) => k.rbox().intersects(p, d) || k.rbox().intersects(q, d),
            Pred::DimLe(i, v) => k.rbox().lo[*i] <= *v,
            Pred::Exactly(x) => k == x,
        }
    }
    fn tight(&self, b: &RBox) -> bool {
        let d = self.d;
        match &self.pred {
            Pred::All | Pred::Hash(_) => true,
            Pred::Nothing => false,
            Pred::Isect(q) | Pred::Within(q) => b.intersects(q, d),
            Pred::Covers(q) => b.contains(q, d),
            Pred::Disjoint(q) => !q.contains(b, d),
            Pred::Either(p, q) => b.intersects(p, d) || b.intersects(q, d),
            Pred::DimLe(i, v) => b.lo[*i] <= *v,
            Pred::Exactly(k) => b.contains(&k.rbox(), d),
        }
    }
    pub fn bounds(&self, b: &RBox) -> bool {
        match self.loose {
            0 => self.tight(b),
            1 => self.tight(b) || self.tight(&b.grow(3, self.d)),
            2 => true,
            _ => self.tight(b) || hash_box(b) & 1 == 0,
        }
    }

    pub fn decode<W: World>(op: &Op, idx: usize, dist: u32, some: Option<RKey>) -> Spec {
        let q = W::qbox(op, idx, dist);
        let sel = op.e[MD - 1] as u16;
        let pred = match sel % 16 {
            0..=3 => Pred::Isect(q),
            4..=6 => Pred::Within(q),
            7 => Pred::Covers({
                let mut p = q;
                p.hi = p.lo;
                p
            }),
            8 => Pred::Disjoint(q),
            9 => Pred::Hash(1 + (sel as u64 / 16) % 3),
            10 => {
                let mut o = *op;
                for i in 0..MD {
                    o.c[i] = o.c[i].wrapping_mul(7).wrapping_add(123);
                }
                Pred::Either(q, W::qbox(&o, idx, dist))
            }
            11 => Pred::DimLe((sel as usize / 16) % W::D, q.lo[(sel as usize / 16) % W::D]),
            12 => Pred::All,
            13 => {
                if sel & 0x100 == 0 {
                    Pred::Nothing
                } else {
                    Pred::Hash(2)
                }
            }
            _ => match some {
                Some(k) => {
                    if sel & 0x100 == 0 {
                        Pred::Exactly(k)
                    } else {
                        Pred::Covers(k.rbox())
                    }
                }
                None => Pred::Isect(q),
            },
        };
        Spec {
            d: W::D,
            pred,
            loose: match (sel >> 9) % 8 {
                0..=3 => 0,
                4 => 1,
                5 => 2,
                _ => 3,
            },
        }
    }
}

/// The filter of a spec.
pub struct SpecFilter<W>(pub Spec, Tool, PhantomData<W>);
impl<W: World> SpecFilter<W> {
    pub fn new(s: Spec) -> Self {
        SpecFilter(s, Tool::new(), PhantomData)
    }
}
impl<W: World> SpatialFilter<W::B, W::K> for SpecFilter<W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        self.1.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_FILTER);
        self.0.bounds(&asked(W::rb(b), W::D))
    }
    fn test_key(&self, k: &W::K) -> bool {
        self.1.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_FILTER);
        self.0.key(&W::raw(k))
    }
}

/// A metric with only the order that `Ranking` asks for.
#[derive(Clone, Debug)]
pub struct Metric(pub i128, Tool);
impl Metric {
    pub fn new(x: i128) -> Self {
        Metric(x, Tool::new())
    }
}
impl PartialEq for Metric {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Metric {}
impl PartialOrd for Metric {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Metric {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.1.check("comparison of a metric");
        o.1.check("comparison with a metric");
        crate::inst::tick(crate::inst::T_CMP);
        match crate::inst::made_up() {
            Some(r) => (r as i32 % 3).cmp(&1),
            None => self.0.cmp(&o.0),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Rank {
    pub d: usize,
    pub kind: u8,
    pub p: [i64; MD],
}
pub const RANK_KINDS: u8 = 10;
impl Rank {
    pub fn key(&self, k: &RKey) -> i128 {
        let b = k.rbox();
        let i = (self.p[0].unsigned_abs() as usize) % self.d;
        match self.kind % RANK_KINDS {
            0 | 1 => b.min_dist(&self.p, self.d),
            2 => -b.max_dist(&self.p, self.d),
            3 => b.lo[i] as i128,
            4 => -(b.hi[i] as i128),
            5 => 0,
            6 => b.min_dist(&self.p, self.d) / 64,
            7 => (hash_key(k) % 6) as i128,
            8 => b.min_dist(&self.p, self.d),
            _ => b.min_dist(&self.p, self.d) * 4 + (hash_key(k) % 4) as i128,
        }
    }
    pub fn bounds(&self, b: &RBox) -> i128 {
        let i = (self.p[0].unsigned_abs() as usize) % self.d;
        match self.kind % RANK_KINDS {
            0 | 1 => b.min_dist(&self.p, self.d),
            2 => -b.max_dist(&self.p, self.d),
            3 => b.lo[i] as i128,
            4 => -(b.hi[i] as i128),
            5 => 0,
            6 => b.min_dist(&self.p, self.d) / 64,
            7 => 0,
            8 => b.min_dist(&self.p, self.d) / 2 - 3,
            _ => b.min_dist(&self.p, self.d) * 4,
        }
    }
    pub fn decode<W: World>(op: &Op, idx: usize, dist: u32) -> Rank {
        let q = W::qbox(op, idx, dist);
        Rank {
            d: W::D,
            kind: (op.e[MD - 2] as u16 % RANK_KINDS as u16) as u8,
            p: q.lo,
        }
    }
}
pub struct SpecRank<W>(pub Rank, Tool, PhantomData<W>);
impl<W: World> SpecRank<W> {
    pub fn new(r: Rank) -> Self {
        SpecRank(r, Tool::new(), PhantomData)
    }
}
impl<W: World> Ranking<W::B, W::K> for SpecRank<W> {
    type Metric = Metric;
    fn bounds_min(&self, b: &W::B) -> Metric {
        self.1.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_RANK);
        Metric::new(self.0.bounds(&asked(W::rb(b), W::D)))
    }
    fn rank_key(&self, k: &W::K) -> Metric {
        self.1.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_RANK);
        Metric::new(self.0.key(&W::raw(k)))
    }
}
/// A ranking that filters.
pub struct SpecOptRank<W>(pub Rank, pub Spec, Tool, PhantomData<W>);
impl<W: World> SpecOptRank<W> {
    pub fn new(r: Rank, s: Spec) -> Self {
        SpecOptRank(r, s, Tool::new(), PhantomData)
    }
}
impl<W: World> Ranking<W::B, W::K> for SpecOptRank<W> {
    type Metric = Option<Metric>;
    fn bounds_min(&self, b: &W::B) -> Option<Metric> {
        self.2.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_RANK);
        let b = asked(W::rb(b), W::D);
        if self.1.bounds(&b) {
            Some(Metric::new(self.0.bounds(&b)))
        } else {
            None
        }
    }
    fn rank_key(&self, k: &W::K) -> Option<Metric> {
        self.2.check("use of a filter or ranking");
        crate::inst::tick(crate::inst::T_RANK);
        let k = W::raw(k);
        if self.1.key(&k) {
            Some(Metric::new(self.0.key(&k)))
        } else {
            None
        }
    }
}
