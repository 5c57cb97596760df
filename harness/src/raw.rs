//! Raw keys and boxes: plain integers, with the geometry of the oracles. None
//! of this uses code of the crate under test.
use crate::case::{Op, MD};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RBox {
    pub lo: [i64; MD],
    pub hi: [i64; MD],
}

/// A key: two corners or end points and a tag. Two keys of a tree are equal
/// exactly when these are.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RKey {
    pub a: [i64; MD],
    pub b: [i64; MD],
    pub tag: u16,
}

impl RKey {
    pub fn rbox(&self) -> RBox {
        let mut r = RBox {
            lo: self.a,
            hi: self.b,
        };
        for i in 0..MD {
            r.lo[i] = self.a[i].min(self.b[i]);
            r.hi[i] = self.a[i].max(self.b[i]);
        }
        r
    }
}

impl RBox {
    pub fn is_empty(&self, d: usize) -> bool {
        (0..d).any(|i| self.lo[i] > self.hi[i])
    }
    pub fn intersects(&self, o: &RBox, d: usize) -> bool {
        (0..d).all(|i| self.lo[i] <= o.hi[i] && o.lo[i] <= self.hi[i])
    }
    pub fn contains(&self, o: &RBox, d: usize) -> bool {
        (0..d).all(|i| self.lo[i] <= o.lo[i] && o.hi[i] <= self.hi[i])
    }
    pub fn union(&self, o: &RBox, d: usize) -> RBox {
        let mut r = *self;
        for i in 0..d {
            r.lo[i] = self.lo[i].min(o.lo[i]);
            r.hi[i] = self.hi[i].max(o.hi[i]);
        }
        r
    }
    /// Squared distance from the point to the box.
    pub fn min_dist(&self, p: &[i64; MD], d: usize) -> i128 {
        (0..d)
            .map(|i| {
                let g = (self.lo[i] as i128 - p[i] as i128)
                    .max(p[i] as i128 - self.hi[i] as i128)
                    .max(0);
                // (coordinates are far smaller; the empty box has infinite ones)
                let g = g.min(1 << 60);
                g * g
            })
            .sum()
    }
    /// Squared distance from the point to the furthest corner of the box.
    pub fn max_dist(&self, p: &[i64; MD], d: usize) -> i128 {
        (0..d)
            .map(|i| {
                let g = (p[i] as i128 - self.lo[i] as i128)
                    .abs()
                    .max((self.hi[i] as i128 - p[i] as i128).abs());
                // (coordinates are far smaller; the empty box has infinite ones)
                let g = g.min(1 << 60);
                g * g
            })
            .sum()
    }
    /// Squared gap between two boxes.
    pub fn gap(&self, o: &RBox, d: usize) -> i128 {
        (0..d)
            .map(|i| {
                let g = (o.lo[i] as i128 - self.hi[i] as i128)
                    .max(self.lo[i] as i128 - o.hi[i] as i128)
                    .max(0);
                // (coordinates are far smaller; the empty box has infinite ones)
                let g = g.min(1 << 60);
                g * g
            })
            .sum()
    }
    pub fn grow(&self, r: i64, d: usize) -> RBox {
        let mut b = *self;
        for i in 0..d {
            b.lo[i] = b.lo[i].saturating_sub(r);
            b.hi[i] = b.hi[i].saturating_add(r);
        }
        b
    }
}

/// How raw numbers become coordinates.
pub mod dist {
    pub const TINY: u32 = 0;
    pub const SMALL: u32 = 1;
    pub const MED: u32 = 2;
    pub const WIDE: u32 = 3;
    pub const CLUSTER: u32 = 4;
    pub const DIAGONAL: u32 = 5;
    pub const SORTED: u32 = 6;
    pub const FULL: u32 = 7;
    pub const N: u32 = 8;
}

/// Maps a raw 16-bit number to a coordinate within `lo..=hi`.
pub fn coord(d: u32, raw: i16, idx: usize, lo: i64, hi: i64) -> i64 {
    let r = raw as i64;
    let v = match d {
        dist::TINY => r.rem_euclid(4),
        dist::SMALL => r.rem_euclid(24) - 8,
        dist::MED => r.rem_euclid(400) - 200,
        dist::CLUSTER => (r >> 8).rem_euclid(4) * 60 - 100 + r.rem_euclid(5),
        dist::DIAGONAL => r.rem_euclid(50),
        dist::SORTED => idx as i64 * 3 + r.rem_euclid(4),
        dist::FULL => match r.rem_euclid(16) {
            0 => lo,
            1 => hi,
            2 => lo + (r >> 4).rem_euclid(4),
            3 => hi - (r >> 4).rem_euclid(4),
            4 => 0,
            5 => (r >> 4).rem_euclid(8) - 4,
            _ => {
                let span = hi as i128 - lo as i128;
                (lo as i128 + (r as i128 + 32768) * span / 65535) as i64
            }
        },
        _ => {
            let span = hi as i128 - lo as i128;
            (lo as i128 + (r as i128 + 32768) * span / 65535) as i64
        }
    };
    if lo >= 0 && v < 0 {
        (-v).min(hi)
    } else {
        v.clamp(lo, hi)
    }
}

/// Maps a raw 16-bit number to a side length. About a third are zero.
pub fn extent(d: u32, raw: i16, lo: i64, hi: i64) -> i64 {
    let r = raw as i64;
    if r.rem_euclid(3) == 0 {
        return 0;
    }
    let r = r.div_euclid(3);
    match d {
        dist::TINY => r.rem_euclid(3),
        dist::SMALL => r.rem_euclid(7),
        dist::MED => r.rem_euclid(40),
        dist::CLUSTER => r.rem_euclid(8),
        dist::DIAGONAL => r.rem_euclid(6),
        dist::SORTED => r.rem_euclid(9),
        dist::FULL => {
            let span = hi as i128 - lo as i128;
            if r % 5 == 0 {
                span as i64
            } else {
                ((r as i128).rem_euclid(1024) * span / 1024) as i64
            }
        }
        _ => {
            let span = (hi as i128 - lo as i128) / 4;
            ((r as i128).rem_euclid(1024) * span / 1024) as i64
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Point,
    Box,
    Line,
    Tagged,
}

/// Decodes the key of an operation.
pub fn key_of(op: &Op, idx: usize, d: usize, kind: Kind, dst: u32, lo: i64, hi: i64) -> RKey {
    let mut k = RKey {
        a: [0; MD],
        b: [0; MD],
        tag: 0,
    };
    for i in 0..d {
        let raw = if dst == dist::DIAGONAL {
            op.c[0].wrapping_add(op.c[i] & 1)
        } else {
            op.c[i]
        };
        k.a[i] = coord(dst, raw, idx, lo, hi);
        k.b[i] = match kind {
            Kind::Point | Kind::Tagged => k.a[i],
            Kind::Box => k.a[i].saturating_add(extent(dst, op.e[i], lo, hi)).min(hi),
            Kind::Line => {
                let e = extent(dst, op.e[i], lo, hi);
                let e = if op.e[i] & 1 == 0 { e } else { -e };
                k.a[i].saturating_add(e).clamp(lo, hi)
            }
        };
    }
    if kind == Kind::Tagged {
        k.tag = op.s & 3;
    }
    k
}

/// Decodes a query box around the coordinates of an operation. `size` scales
/// it from a point to everything.
pub fn query_box(op: &Op, idx: usize, d: usize, dst: u32, lo: i64, hi: i64) -> RBox {
    let mut k = key_of(op, idx, d, Kind::Box, dst, lo, hi).rbox();
    match op.s % 8 {
        0 => {}
        1 | 2 => {
            for i in 0..d {
                k.lo[i] = k.lo[i].saturating_sub(extent(dst, op.e[i], lo, hi)).max(lo);
            }
        }
        3 => {
            // grown by about a quarter of the range in use
            let r = match dst {
                dist::TINY => 1,
                dist::SMALL => 6,
                dist::MED => 100,
                dist::CLUSTER => 40,
                dist::DIAGONAL => 12,
                dist::SORTED => 40,
                _ => (hi / 4).max(1),
            };
            for i in 0..d {
                k.lo[i] = k.lo[i].saturating_sub(r).max(lo);
                k.hi[i] = k.hi[i].saturating_add(r).min(hi);
            }
        }
        4 => {
            // a slab: unbounded in all dimensions but one
            let keep = (op.s as usize / 8) % d.max(1);
            for i in 0..d {
                if i != keep {
                    k.lo[i] = lo;
                    k.hi[i] = hi;
                }
            }
        }
        5 => {
            // a half space
            let keep = (op.s as usize / 8) % d.max(1);
            for i in 0..d {
                if i != keep || op.s & 64 == 0 {
                    k.lo[i] = lo;
                }
                if i != keep || op.s & 64 != 0 {
                    k.hi[i] = hi;
                }
            }
        }
        6 => {
            k.hi = k.lo;
        }
        _ => {
            if op.s & 0x18 == 0 {
                for i in 0..d {
                    k.lo[i] = lo;
                    k.hi[i] = hi;
                }
            }
        }
    }
    k
}
