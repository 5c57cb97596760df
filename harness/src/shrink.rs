//! Minimises a failing case: fewer operations, then simpler numbers.
use crate::case::{Case, Op, MD, NPAR};
use std::time::{Duration, Instant};

/// `fails` tells whether a case still fails. At most `budget` is spent.
pub fn shrink(case: &Case, mut fails: impl FnMut(&Case) -> bool, budget: Duration) -> (Case, u64) {
    let end = Instant::now() + budget;
    let mut best = case.clone();
    let mut tried = 0u64;
    let mut attempt = |c: &Case, best: &mut Case| -> bool {
        if c == best || Instant::now() > end {
            return false;
        }
        tried += 1;
        if fails(c) {
            *best = c.clone();
            true
        } else {
            false
        }
    };
    loop {
        let start = best.clone();
        // drop chunks of operations
        let mut n = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut c = best.clone();
                let to = (i + n).min(c.ops.len());
                c.ops.drain(i..to);
                if !attempt(&c, &mut best) {
                    i += n;
                }
                if Instant::now() > end {
                    return (best, tried);
                }
            }
            if n == 1 {
                break;
            }
            n = (n / 2).max(1);
        }
        // simpler parameters
        for p in 0..NPAR {
            for v in [0, 1, 2, 3, best.par[p] / 2] {
                if v < best.par[p] {
                    let mut c = best.clone();
                    c.par[p] = v;
                    if attempt(&c, &mut best) {
                        break;
                    }
                }
            }
        }
        // simpler operations
        for i in 0..best.ops.len() {
            let o = best.ops[i];
            let zero = Op {
                k: o.k,
                ..Op::default()
            };
            let mut c = best.clone();
            c.ops[i] = zero;
            if attempt(&c, &mut best) {
                continue;
            }
            if o.k >= 2 {
                let mut c = best.clone();
                c.ops[i].k = if o.k > 16 { 16 } else { 0 };
                attempt(&c, &mut best);
            }
            for field in 0..2 * MD + 1 {
                let get = |o: &Op| -> i32 {
                    if field == 2 * MD {
                        o.s as i32
                    } else if field < MD {
                        o.c[field] as i32
                    } else {
                        o.e[field - MD] as i32
                    }
                };
                let now = get(&best.ops[i]);
                for v in [0, 1, 2, 3, now % 16, now / 256, now / 2, now - now.signum()] {
                    if v.abs() < now.abs() {
                        let mut c = best.clone();
                        let o = &mut c.ops[i];
                        if field == 2 * MD {
                            o.s = v as u16;
                        } else if field < MD {
                            o.c[field] = v as i16;
                        } else {
                            o.e[field - MD] = v as i16;
                        }
                        if attempt(&c, &mut best) {
                            break;
                        }
                    }
                }
                if Instant::now() > end {
                    return (best, tried);
                }
            }
        }
        if best == start || Instant::now() > end {
            return (best, tried);
        }
    }
}
