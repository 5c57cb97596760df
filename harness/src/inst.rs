//! Instrumented bounds, keys and values. They delegate to an ordinary world
//! and additionally register every instance (to see drops), capture what the
//! Debug output visits, log comparisons, and panic at a chosen callback.
use crate::raw::{Kind, RBox, RKey};
use crate::world::World;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::marker::PhantomData;

pub const T_EQ: u32 = 1;
pub const T_BOUNDS: u32 = 2;
pub const T_UNION: u32 = 4;
pub const T_VOLUME: u32 = 8;
pub const T_CONTAINS: u32 = 16;
pub const T_CLONE: u32 = 32;
pub const T_DROP: u32 = 64;
pub const T_FILTER: u32 = 128;
pub const T_RANK: u32 = 256;
pub const T_CMP: u32 = 512;

#[derive(Default)]
pub struct Registry {
    /// One entry per registered instance: is it alive?
    alive: Vec<bool>,
    live: usize,
    /// Live bounds, counted apart from keys and values.
    live_bounds: usize,
    /// Live filters, rankings and metrics.
    live_tools: usize,
    errors: Vec<String>,
}

thread_local! {
    static FUEL: Cell<i64> = const { Cell::new(-1) };
    static MASK: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
    static CAP_B: RefCell<Vec<RBox>> = const { RefCell::new(Vec::new()) };
    static CAP_K: RefCell<Vec<RKey>> = const { RefCell::new(Vec::new()) };
    static EQLOG: RefCell<Option<Vec<RKey>>> = const { RefCell::new(None) };
}

thread_local! {
    /// The state of a generator, and how many of 64 answers are made up.
    static LIES: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
/// From now on user code gives arbitrary answers, `per` in 64 of them.
pub fn lie(seed: u64, per: u64) {
    LIES.with(|l| l.set((seed | 1, per)));
}
/// An arbitrary number, if the caller is to make up its answer.
pub fn made_up() -> Option<u64> {
    LIES.with(|l| {
        let (mut x, per) = l.get();
        if per == 0 {
            return None;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        l.set((x, per));
        let r = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        (r >> 58 < per).then_some(r >> 8 & 0xffff_ffff)
    })
}
fn made_up_box(r: u64) -> RBox {
    let at = |n: u64| ((r >> n) & 0x3f) as i64 - 32;
    RBox {
        lo: std::array::from_fn(|i| at(i as u64)),
        hi: std::array::from_fn(|i| at(i as u64 + 7)),
    }
}

pub const INJECTED: &str = "injected panic";

/// Called by every instrumented callback.
pub fn tick(kind: u32) {
    CALLS.with(|c| c.set(c.get() + 1));
    let f = FUEL.with(|f| f.get());
    if f >= 0 && MASK.with(|m| m.get()) & kind != 0 && !std::thread::panicking() {
        FUEL.with(|x| x.set(f - 1));
        if f == 0 {
            FIRED.with(|x| x.set(true));
            std::panic::panic_any(INJECTED);
        }
    }
}

/// Arms a panic at the `n`-th following callback of a kind in `mask`.
pub fn arm(mask: u32, n: i64) {
    MASK.with(|m| m.set(mask));
    FUEL.with(|f| f.set(n));
    FIRED.with(|x| x.set(false));
}
/// Disarms; returns whether the panic was raised.
pub fn disarm() -> bool {
    FUEL.with(|f| f.set(-1));
    FIRED.with(|x| x.replace(false))
}

pub fn reset() {
    disarm();
    LIES.with(|l| l.set((0, 0)));
    track_tools(NO_TOOLS);
    CALLS.with(|c| c.set(0));
    REG.with(|r| *r.borrow_mut() = Registry::default());
    CAP_B.with(|c| c.borrow_mut().clear());
    CAP_K.with(|c| c.borrow_mut().clear());
    EQLOG.with(|c| *c.borrow_mut() = None);
}

fn register() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.alive.push(true);
        r.live += 1;
        (r.alive.len() - 1) as u32
    })
}
fn unregister(id: u32) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        match r.alive.get(id as usize).copied() {
            Some(true) => {
                r.alive[id as usize] = false;
                r.live -= 1;
            }
            Some(false) => r.errors.push(format!("instance {id} dropped twice")),
            None => r
                .errors
                .push(format!("drop of something that was never created ({id})")),
        }
    })
}
fn check_alive(id: u32, what: &str) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.alive.get(id as usize) != Some(&true) {
            r.errors
                .push(format!("{what} of instance {id}, which is not alive"));
        }
    })
}
/// A registered bounds.
struct TrackB(u32);
impl TrackB {
    fn new() -> Self {
        let id = register();
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.live -= 1;
            r.live_bounds += 1;
        });
        TrackB(id)
    }
    fn check(&self, what: &str) {
        check_alive(self.0, what);
    }
}
impl Drop for TrackB {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.alive.get(self.0 as usize).copied() {
                Some(true) => {
                    r.alive[self.0 as usize] = false;
                    r.live_bounds -= 1;
                }
                Some(false) => r
                    .errors
                    .push(format!("bounds (instance {}) dropped twice", self.0)),
                None => r.errors.push(format!(
                    "drop of bounds that were never created ({})",
                    self.0
                )),
            }
        });
    }
}
/// Number of live bounds.
pub fn live_bounds() -> usize {
    REG.with(|r| r.borrow().live_bounds)
}

thread_local! {
    static TOOLS: Cell<u8> = const { Cell::new(0) };
}
pub const NO_TOOLS: u8 = 0;
pub const REGISTERED_TOOLS: u8 = 1;
pub const TOOLS_ON_HEAP: u8 = 2;
/// From now on filters, rankings and metrics are registered, or own memory.
pub fn track_tools(how: u8) {
    TOOLS.with(|t| t.set(how));
}
/// Part of a filter, a ranking or a metric.
#[derive(Debug)]
pub enum Tool {
    Not,
    Registered(u32),
    Heap(Box<u8>),
}
impl Tool {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        match TOOLS.with(|t| t.get()) {
            REGISTERED_TOOLS => {
                let id = register();
                REG.with(|r| {
                    let mut r = r.borrow_mut();
                    r.live -= 1;
                    r.live_tools += 1;
                });
                Tool::Registered(id)
            }
            TOOLS_ON_HEAP => Tool::Heap(Box::new(77)),
            _ => Tool::Not,
        }
    }
    pub fn check(&self, what: &str) {
        match self {
            Tool::Not => {}
            Tool::Registered(id) => check_alive(*id, what),
            Tool::Heap(x) => assert!(**x == 77, "{what} after it was dropped"),
        }
    }
}
impl Clone for Tool {
    fn clone(&self) -> Self {
        self.check("clone of a filter or metric");
        Tool::new()
    }
}
impl Drop for Tool {
    fn drop(&mut self) {
        if let Tool::Registered(id) = self {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                match r.alive.get(*id as usize).copied() {
                    Some(true) => {
                        r.alive[*id as usize] = false;
                        r.live_tools -= 1;
                    }
                    _ => r.errors.push(format!(
                        "filter, ranking or metric (instance {id}) dropped twice"
                    )),
                }
            });
            tick(T_DROP);
        }
    }
}
/// Number of live filters, rankings and metrics.
pub fn live_tools() -> usize {
    REG.with(|r| r.borrow().live_tools)
}

/// Number of live registered keys and values.
pub fn live() -> usize {
    REG.with(|r| r.borrow().live)
}
pub fn errors() -> Result<(), String> {
    REG.with(|r| match r.borrow().errors.first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    })
}

pub fn start_eqlog() {
    EQLOG.with(|c| *c.borrow_mut() = Some(Vec::new()));
}
pub fn take_eqlog() -> Vec<RKey> {
    EQLOG.with(|c| c.borrow_mut().take().unwrap_or_default())
}

pub fn clear_captures() {
    CAP_B.with(|c| c.borrow_mut().clear());
    CAP_K.with(|c| c.borrow_mut().clear());
}
pub fn take_captures() -> (Vec<RBox>, Vec<RKey>) {
    (
        CAP_B.with(|c| std::mem::take(&mut *c.borrow_mut())),
        CAP_K.with(|c| std::mem::take(&mut *c.borrow_mut())),
    )
}

/// A registered instance.
pub struct Track(u32);
impl Track {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Track(register())
    }
    pub fn check(&self, what: &str) {
        check_alive(self.0, what);
    }
}
impl Clone for Track {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(T_CLONE);
        Track::new()
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        unregister(self.0);
        tick(T_DROP);
    }
}

/// A tracked value with a number.
#[derive(Clone)]
pub struct TV {
    pub id: u32,
    t: Track,
}
impl TV {
    pub fn new(id: u32) -> Self {
        TV {
            id,
            t: Track::new(),
        }
    }
    pub fn get(&self) -> u32 {
        self.t.check("read of a value");
        self.id
    }
}
impl fmt::Debug for TV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}

pub struct Inst<W>(PhantomData<W>);

pub struct XB<W: World> {
    b: W::B,
    t: TrackB,
}
pub struct XK<W: World> {
    pub k: W::K,
    t: Track,
}

impl<W: World> XB<W> {
    fn new(b: W::B) -> Self {
        XB {
            b,
            t: TrackB::new(),
        }
    }
    fn get(&self) -> &W::B {
        self.t.check("use of bounds");
        &self.b
    }
}
impl<W: World> Clone for XB<W> {
    fn clone(&self) -> Self {
        let b = self.get().clone();
        tick(T_CLONE);
        XB::new(b)
    }
}
impl<W: World> fmt::Debug for XB<W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        CAP_B.with(|c| c.borrow_mut().push(W::rb(self.get())));
        f.write_str("@B")
    }
}
impl<W: World> Contains<XB<W>> for XB<W> {
    fn contains(&self, o: &XB<W>) -> bool {
        tick(T_CONTAINS);
        let x = self.get().contains(o.get());
        made_up().map_or(x, |r| r & 1 == 0)
    }
}
impl<W: World> Intersects<XB<W>> for XB<W> {
    fn intersects(&self, o: &XB<W>) -> bool {
        tick(T_CONTAINS);
        let x = self.get().intersects(o.get());
        made_up().map_or(x, |r| r & 1 == 0)
    }
}
impl<W: World> Bounds for XB<W> {
    fn empty() -> Self {
        XB::new(W::B::empty())
    }
    fn union(l: &Self, r: &Self) -> Self {
        tick(T_UNION);
        let x = W::B::union(l.get(), r.get());
        XB::new(match made_up() {
            Some(n) if n % 3 == 0 => l.b.clone(),
            Some(n) if n % 3 == 1 => r.b.clone(),
            Some(_) => W::B::empty(),
            None => x,
        })
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        tick(T_UNION);
        if let Some(n) = made_up() {
            // some of them
            let mut bounds = bounds.into_iter();
            let _ = bounds.by_ref().take(n as usize % 4).count();
            return bounds.next().unwrap_or_else(Self::empty);
        }
        XB::new(W::B::union_all(bounds.into_iter().map(|b| {
            b.t.check("union of bounds");
            b.b
        })))
    }
}
impl<W: World> Volume for XB<W> {
    fn volume(&self) -> N64 {
        tick(T_VOLUME);
        match made_up() {
            Some(n) => {
                let v = [0.0, -1.0, 1.0, 3.0, 1e300, -1e300, f64::MAX, f64::INFINITY];
                N64::new(v[n as usize % v.len()])
            }
            None => self.get().volume(),
        }
    }
}

impl<W: World> XK<W> {
    pub fn new(k: &RKey) -> Self {
        XK {
            k: W::mk(k),
            t: Track::new(),
        }
    }
}
impl<W: World> Clone for XK<W> {
    fn clone(&self) -> Self {
        XK {
            t: self.t.clone(),
            k: self.k.clone(),
        }
    }
}
impl<W: World> PartialEq for XK<W> {
    fn eq(&self, o: &Self) -> bool {
        self.t.check("comparison of a key");
        EQLOG.with(|c| {
            if let Some(l) = c.borrow_mut().as_mut() {
                l.push(W::raw(&self.k));
                l.push(W::raw(&o.k));
            }
        });
        tick(T_EQ);
        o.t.check("comparison with a key");
        let x = self.k == o.k;
        made_up().map_or(x, |r| r & 1 == 0)
    }
}
impl<W: World> Eq for XK<W> {}
impl<W: World> fmt::Debug for XK<W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.t.check("formatting of a key");
        CAP_K.with(|c| c.borrow_mut().push(W::raw(&self.k)));
        f.write_str("@K")
    }
}
impl<W: World> Bounded<XB<W>> for XK<W> {
    fn bounds(&self) -> XB<W> {
        self.t.check("bounds of a key");
        tick(T_BOUNDS);
        if let Some(r) = made_up() {
            let b = made_up_box(r);
            let key = RKey {
                a: std::array::from_fn(|i| b.lo[i].min(b.hi[i])),
                b: std::array::from_fn(|i| b.lo[i].max(b.hi[i])),
                tag: 0,
            };
            return XB::new(W::mk(&key).bounds());
        }
        XB::new(self.k.bounds())
    }
}

impl<W: World> World for Inst<W> {
    const D: usize = W::D;
    const KIND: Kind = W::KIND;
    const TIGHT: bool = W::TIGHT;
    type B = XB<W>;
    type K = XK<W>;
    type Q = XK<W>;
    fn name() -> String {
        format!("inst {}", W::name())
    }
    fn range(d: u32) -> (i64, i64) {
        W::range(d)
    }
    fn mk(k: &RKey) -> XK<W> {
        XK::new(k)
    }
    fn raw(k: &XK<W>) -> RKey {
        k.t.check("read of a key");
        W::raw(&k.k)
    }
    fn rb(b: &XB<W>) -> RBox {
        let x = W::rb(b.get());
        made_up().map_or(x, made_up_box)
    }
}

/// One node of a tree, read from its Debug output.
pub struct PNode {
    pub bounds: RBox,
    pub depth: usize,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub entries: Vec<(RKey, u32)>,
}

/// Reads the structure of a tree from its Debug output. Returns None if the
/// output does not have the expected form.
pub fn structure(text_of: impl FnOnce() -> String) -> Option<Vec<PNode>> {
    clear_captures();
    let text = text_of();
    let (bs, ks) = take_captures();
    let bytes = text.as_bytes();
    let (mut ib, mut ik) = (0, 0);
    let mut nodes: Vec<PNode> = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut pending: Option<usize> = None;
    let mut i = 0;
    while i < bytes.len() {
        match bytes[i] {
            b'@' if bytes.get(i + 1) == Some(&b'B') => {
                if pending.is_some() {
                    return None;
                }
                let parent = open.last().copied();
                nodes.push(PNode {
                    bounds: *bs.get(ib)?,
                    depth: open.len(),
                    parent,
                    children: vec![],
                    entries: vec![],
                });
                ib += 1;
                let n = nodes.len() - 1;
                if let Some(p) = parent {
                    nodes[p].children.push(n);
                }
                pending = Some(n);
                i += 1;
            }
            b'@' if bytes.get(i + 1) == Some(&b'K') => {
                if pending.is_some() {
                    return None;
                }
                let node = *open.last()?;
                let key = *ks.get(ik)?;
                ik += 1;
                // the value follows the key
                let mut j = i + 2;
                while j < bytes.len() && !bytes[j].is_ascii_digit() {
                    if bytes[j] == b'@' || bytes[j] == b']' {
                        return None;
                    }
                    j += 1;
                }
                let mut v: u64 = 0;
                while j < bytes.len() && bytes[j].is_ascii_digit() {
                    v = v * 10 + (bytes[j] - b'0') as u64;
                    j += 1;
                }
                nodes[node].entries.push((key, v as u32));
                i = j;
                continue;
            }
            b'[' => {
                open.push(pending.take()?);
            }
            b']' => {
                open.pop()?;
            }
            _ => {}
        }
        i += 1;
    }
    if nodes.is_empty()
        || !open.is_empty()
        || pending.is_some()
        || ib != bs.len()
        || ik != ks.len()
        || nodes.iter().filter(|n| n.parent.is_none()).count() != 1
    {
        return None;
    }
    Some(nodes)
}

/// Height of a parsed tree: number of levels of nodes.
pub fn height(nodes: &[PNode]) -> usize {
    nodes.iter().map(|n| n.depth + 1).max().unwrap_or(0)
}
