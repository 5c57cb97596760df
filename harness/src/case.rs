//! A test case: a handful of parameters and a list of operations. Every
//! property interprets it in its own way. Cases are plain data, so that they
//! can be written to a replay file, shrunk, decoded from fuzzer bytes and run
//! again without the generator.
use std::borrow::Cow;
use std::fmt::Write;

pub const MD: usize = 6;
pub const NPAR: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Op {
    pub k: u8,
    pub s: u16,
    pub c: [i16; MD],
    pub e: [i16; MD],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub prop: String,
    pub par: [u32; NPAR],
    pub ops: Vec<Op>,
}

fn join<T: ToString>(xs: &[T]) -> String {
    xs.iter()
        .map(|x| x.to_string())
        .collect::<Vec<_>>()
        .join(",")
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = format!("vh1 {}\npar {}\n", self.prop, join(&self.par));
        for o in &self.ops {
            writeln!(s, "op {} {} {} {}", o.k, o.s, join(&o.c), join(&o.e)).unwrap();
        }
        s.push_str("end\n");
        s
    }

    pub fn parse(text: &str) -> Option<Case> {
        let mut it = Case::parse_many(text);
        if it.is_empty() {
            None
        } else {
            Some(it.remove(0))
        }
    }

    /// Parses any number of cases; lines that are not part of a case (such as
    /// comments) are skipped.
    pub fn parse_many(text: &str) -> Vec<Case> {
        let mut out = Vec::new();
        let mut cur: Option<Case> = None;
        for line in text.lines() {
            let mut w = line.split_whitespace();
            match w.next() {
                Some("vh1") => {
                    cur = Some(Case {
                        prop: w.next().unwrap_or("").to_string(),
                        par: [0; NPAR],
                        ops: vec![],
                    })
                }
                Some("par") => {
                    if let (Some(c), Some(p)) = (cur.as_mut(), w.next()) {
                        for (i, x) in p.split(',').enumerate().take(NPAR) {
                            c.par[i] = x.parse().unwrap_or(0);
                        }
                    }
                }
                Some("op") => {
                    if let Some(c) = cur.as_mut() {
                        let mut o = Op {
                            k: w.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                            s: w.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                            ..Op::default()
                        };
                        for (i, x) in w.next().unwrap_or("").split(',').enumerate().take(MD) {
                            o.c[i] = x.parse().unwrap_or(0);
                        }
                        for (i, x) in w.next().unwrap_or("").split(',').enumerate().take(MD) {
                            o.e[i] = x.parse().unwrap_or(0);
                        }
                        c.ops.push(o);
                    }
                }
                Some("end") => {
                    if let Some(c) = cur.take() {
                        out.push(c);
                    }
                }
                _ => {}
            }
        }
        out
    }

    /// The case with single operations in place of those that stand for many.
    pub fn expanded(&self) -> Cow<'_, Case> {
        use crate::eng::code;
        let bulk = |o: &Op| o.k == code::BULK_INSERT || o.k == code::BULK_REMOVE;
        if !self.ops.iter().any(bulk) {
            return Cow::Borrowed(self);
        }
        let mut ops = Vec::new();
        for op in &self.ops {
            if !bulk(op) {
                ops.push(*op);
                continue;
            }
            let mut x = 0u64;
            for i in 0..MD {
                x = x
                    .wrapping_mul(0x9e3779b97f4a7c15)
                    .wrapping_add(op.c[i] as u16 as u64 | (op.e[i] as u16 as u64) << 16);
            }
            let mut next = || {
                x = x
                    .wrapping_mul(6364136223846793005)
                    .wrapping_add(1442695040888963407);
                let z = x ^ (x >> 29);
                z.wrapping_mul(0xbf58476d1ce4e5b9) >> 32
            };
            let style = op.e[0] & 3;
            for i in 0..op.s {
                let mut o = Op {
                    s: next() as u16,
                    ..Op::default()
                };
                for j in 0..MD {
                    o.c[j] = next() as i16;
                    o.e[j] = next() as i16;
                }
                if op.k == code::BULK_INSERT {
                    let dup = next() % 8 == 0;
                    o.k = match style {
                        1 if dup => code::INSERT_DUP,
                        2 if dup => code::UNIQUE_DUP,
                        2 => code::UNIQUE,
                        _ => code::INSERT,
                    };
                    if style == 3 {
                        // along a line
                        for j in 0..MD {
                            o.c[j] = op.c[j].wrapping_mul(i as i16);
                        }
                    }
                } else {
                    o.k = match style {
                        1 | 2 => code::REMOVE_END,
                        3 if i % 3 == 2 => code::INSERT,
                        _ => code::REMOVE,
                    };
                    match style {
                        1 => o.s = 0,
                        2 => o.s = 1,
                        _ => {}
                    }
                }
                ops.push(o);
            }
        }
        Cow::Owned(Case {
            prop: self.prop.clone(),
            par: self.par,
            ops,
        })
    }

    pub fn hash64(&self) -> u64 {
        // FNV-1a over the text, stable across builds.
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |x: u64| {
            for b in x.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        for p in self.par {
            eat(p as u64);
        }
        for o in &self.ops {
            eat(o.k as u64 | (o.s as u64) << 8);
            for i in 0..MD {
                eat(o.c[i] as u16 as u64 | (o.e[i] as u16 as u64) << 16);
            }
        }
        h
    }
}

/// What one case did: counters for the evidence and whether it was non-trivial.
#[derive(Clone)]
pub struct Stats {
    pub counts: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
}

impl Default for Stats {
    fn default() -> Self {
        // allocated up front, so that leaks can be told from counters
        Stats {
            counts: Vec::with_capacity(64),
            nontrivial: false,
        }
    }
}

impl Stats {
    pub fn add(&mut self, what: &'static str, n: u64) {
        match self.counts.iter_mut().find(|c| c.0 == what) {
            Some(c) => c.1 += n,
            None => self.counts.push((what, n)),
        }
    }
    pub fn hit(&mut self, what: &'static str) {
        self.add(what, 1);
    }
    pub fn when(&mut self, cond: bool, what: &'static str) {
        if cond {
            self.add(what, 1);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
