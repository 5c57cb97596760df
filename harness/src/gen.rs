//! proptest strategies for cases, and the plan of every property.
use crate::case::{Case, Op, MD, NPAR};
use crate::eng::code;
use crate::raw::dist;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

/// What a property generates.
pub struct Plan {
    pub id: &'static str,
    /// cases in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// longest histories, in the quick and the thorough tier
    pub max_ops: usize,
    pub max_ops_thorough: usize,
    /// most entries inserted at once; 0 where there are no trees
    pub bulk: u16,
    /// share of queries among the operations, in percent
    pub queries: u32,
    /// how operations are made
    pub shape: Shape,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}
#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    /// histories of a tree
    History,
    /// independent samples: every operation is one
    Samples,
}

include!("plans.rs");

/// One case in so many is large.
const BULK_EVERY: u64 = 64;
/// One in so many has more entries than 16 bits can count.
const HUGE_EVERY: u64 = 9973;

pub fn plan(id: &str) -> Option<&'static Plan> {
    PLANS.iter().find(|p| p.id == id)
}

#[derive(Clone, Copy, Debug)]
struct Phase {
    /// weights of inserts, uniques, duplicates, removes, absent removes
    w: [u32; 5],
    queries: u32,
}

const GROW: [u32; 5] = [10, 2, 1, 1, 0];
const DUPS: [u32; 5] = [3, 2, 8, 2, 1];
const CHURN: [u32; 5] = [5, 1, 1, 7, 1];
const DRAIN: [u32; 5] = [1, 0, 0, 14, 1];
const MIX: [u32; 5] = [3, 3, 3, 3, 3];

fn op_strategy(ph: Phase) -> BoxedStrategy<Op> {
    let muts: u32 = ph.w.iter().sum();
    // queries are a percentage of all operations
    let q = (muts * ph.queries * 10 / (100 - ph.queries.min(95))).max(0);
    let k = prop_oneof![
        ph.w[0] * 10 => Just(code::INSERT),
        ph.w[1] * 10 => Just(code::UNIQUE),
        ph.w[2] * 6 => Just(code::INSERT_DUP),
        ph.w[2] * 4 => Just(code::UNIQUE_DUP),
        ph.w[3] * 8 => Just(code::REMOVE),
        ph.w[3] * 2 => Just(code::REMOVE_END),
        ph.w[4] * 10 => Just(code::REMOVE_KEY),
        q => code::QUERY..code::QUERY + 24,
    ];
    (k, any::<[u64; 4]>())
        .prop_map(|(k, r)| make_op(k, r))
        .boxed()
}

fn make_op(k: u8, r: [u64; 4]) -> Op {
    let part = |i: usize| (r[i / 4] >> (16 * (i % 4))) as u16;
    let mut o = Op {
        k,
        s: part(12),
        ..Op::default()
    };
    for i in 0..MD {
        o.c[i] = part(i) as i16;
        o.e[i] = part(6 + i) as i16;
    }
    o
}

fn sizes(max: usize) -> BoxedStrategy<usize> {
    let m = max;
    prop_oneof![
        3 => 1..(m / 24).max(4),
        4 => (m / 24).max(1)..(m / 6).max(6),
        3 => (m / 6).max(2)..(m / 2).max(8),
        1 => (m / 2).max(3)..m + 1,
    ]
    .boxed()
}

fn phase(queries: u32) -> BoxedStrategy<Phase> {
    (
        prop_oneof![
            5 => Just(GROW),
            2 => Just(DUPS),
            3 => Just(CHURN),
            3 => Just(DRAIN),
            2 => Just(MIX),
        ],
        prop_oneof![3 => Just(queries), 1 => Just(queries / 4), 1 => Just((queries * 2).min(60))],
    )
        .prop_map(|(w, queries)| Phase { w, queries })
        .boxed()
}

/// Phases of a history; the first usually grows the tree.
fn phases(queries: u32) -> BoxedStrategy<Vec<Phase>> {
    (
        prop_oneof![6 => Just(GROW), 1 => Just(DUPS), 1 => Just(MIX)],
        vec(phase(queries), 0..5),
        any::<bool>(),
    )
        .prop_map(move |(first, rest, again)| {
            let mut v = vec![Phase { w: first, queries }];
            if again {
                v.push(Phase { w: first, queries });
            }
            v.extend(rest);
            v
        })
        .boxed()
}

fn params() -> BoxedStrategy<[u32; NPAR]> {
    (
        any::<[u16; NPAR]>(),
        // small capacities make deep trees
        prop_oneof![8 => 0u32..11, 3 => 11u32..17, 1 => 17u32..20],
        prop_oneof![8 => 0u32..11, 3 => 11u32..17, 1 => 17u32..20],
        prop_oneof![
            2 => Just(dist::TINY),
            4 => Just(dist::SMALL),
            4 => Just(dist::MED),
            2 => Just(dist::WIDE),
            2 => Just(dist::CLUSTER),
            1 => Just(dist::DIAGONAL),
            1 => Just(dist::SORTED),
            1 => Just(dist::FULL),
        ],
        any::<u32>(),
    )
        .prop_map(|(r, c1, c2, d, wide)| {
            let mut p = [0u32; NPAR];
            for i in 0..NPAR {
                p[i] = r[i] as u32;
            }
            p[0] %= 5040;
            p[1] = c1;
            p[2] = d;
            p[3] = c2;
            p[4] = wide;
            p[5] %= 60;
            p
        })
        .boxed()
}

/// Many entries at once, a few operations, then perhaps many removals: trees
/// that are larger, and nodes with more children, than the other histories make.
fn bulk_strategy(plan: &'static Plan) -> BoxedStrategy<Case> {
    let id = plan.id;
    let bulk = |k: u8, top: u16| {
        let t = top as u64;
        (
            prop_oneof![
                6 => t / 20..t / 5,
                3 => t / 5..t / 2,
                1 => t / 2..t,
            ],
            any::<[u64; 4]>(),
        )
            .prop_map(move |(n, r)| Op {
                s: n as u16,
                ..make_op(k, r)
            })
            .boxed()
    };
    let few = |n: usize| {
        vec(
            op_strategy(Phase {
                w: MIX,
                queries: plan.queries.max(4) / 2,
            }),
            0..n,
        )
    };
    (
        params(),
        prop_oneof![5 => 0u32..16, 2 => 16u32..20, 9 => 20u32..27],
        bulk(code::BULK_INSERT, plan.bulk),
        few(30),
        any::<bool>(),
        bulk(code::BULK_REMOVE, plan.bulk),
        few(30),
    )
        .prop_map(move |(mut par, cap, ins, a, again, rem, b)| {
            par[1] = cap;
            let mut ops = vec![ins];
            ops.extend(a);
            if again {
                ops.push(rem);
                ops.extend(b);
            }
            Case {
                prop: id.to_string(),
                par,
                ops,
            }
        })
        .boxed()
}

fn huge_strategy(plan: &'static Plan) -> BoxedStrategy<Case> {
    let id = plan.id;
    let heavy = matches!(id, "C18" | "C19" | "C20");
    let op = |k: u8, n: u16| {
        any::<[u64; 4]>().prop_map(move |r| {
            let mut o = make_op(k, r);
            o.s = n;
            if o.e[0] & 3 == 2 {
                o.e[0] -= 1;
            }
            o
        })
    };
    (
        params(),
        if heavy {
            // comparing many children takes long with bounds that own memory
            prop_oneof![3 => Just(27u32), 1 => Just(12), 1 => 9u32..18].boxed()
        } else {
            prop_oneof![3 => Just(27u32), 1 => Just(25), 1 => 9u32..27].boxed()
        },
        op(code::BULK_INSERT, 33_000),
        op(code::BULK_INSERT, 33_000),
        vec(
            op_strategy(Phase {
                w: MIX,
                queries: plan.queries.max(4),
            }),
            8..20,
        ),
    )
        .prop_map(move |(mut par, cap, a, b, rest)| {
            par[1] = cap;
            par[2] = crate::raw::dist::WIDE;
            let mut ops = vec![a, b];
            ops.extend(rest);
            Case {
                prop: id.to_string(),
                par,
                ops,
            }
        })
        .boxed()
}

fn case_strategy(plan: &'static Plan, max_ops: usize) -> BoxedStrategy<Case> {
    let q = plan.queries;
    let id = plan.id;
    if plan.shape == Shape::Samples {
        return (params(), 1..max_ops + 1)
            .prop_flat_map(move |(par, n)| {
                vec(
                    (code::QUERY..code::QUERY + 24, any::<[u64; 4]>())
                        .prop_map(|(k, r)| make_op(k, r)),
                    n,
                )
                .prop_map(move |ops| Case {
                    prop: id.to_string(),
                    par,
                    ops,
                })
            })
            .boxed();
    }
    (params(), sizes(max_ops), phases(q))
        .prop_flat_map(move |(mut par, n, phs)| {
            if id == "C12" || id == "C13" || id == "C16" {
                // share of operations on the left tree: often very unequal
                par[4] = match par[4] % 8 {
                    0 => 1,
                    1 => 3,
                    2 => 13,
                    3 => 15,
                    4 => 16,
                    _ => 8,
                };
            }
            let each = (n / phs.len()).max(1);
            let parts: Vec<BoxedStrategy<Vec<Op>>> = phs
                .iter()
                .map(|ph| vec(op_strategy(*ph), each / 2..each + each / 2 + 1).boxed())
                .collect();
            parts.prop_map(move |v| Case {
                prop: id.to_string(),
                par,
                ops: v.into_iter().flatten().collect(),
            })
        })
        .boxed()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub struct Gen {
    strategy: BoxedStrategy<Case>,
    bulk: Option<BoxedStrategy<Case>>,
    huge: Option<BoxedStrategy<Case>>,
    id: &'static str,
    seed: u64,
}
impl Gen {
    pub fn new(plan: &'static Plan, thorough: bool, seed: u64) -> Gen {
        Gen {
            strategy: case_strategy(
                plan,
                if thorough {
                    plan.max_ops_thorough
                } else {
                    plan.max_ops
                },
            ),
            bulk: (plan.bulk > 0).then(|| bulk_strategy(plan)),
            huge: matches!(plan.id, "C01" | "C05" | "C09" | "C18" | "C19")
                .then(|| huge_strategy(plan)),
            id: plan.id,
            seed,
        }
    }
    /// The case with the given index: a function of the seed, the property
    /// and the index.
    pub fn case(&self, index: u64) -> Case {
        let mut s = self.seed ^ 0x76657269662d7631;
        for b in self.id.bytes() {
            s = splitmix(&mut s) ^ b as u64;
        }
        s ^= index.wrapping_mul(0xd1342543de82ef95);
        let mut bytes = [0u8; 32];
        for c in bytes.chunks_mut(8) {
            c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
        }
        let mut runner = TestRunner::new_with_rng(
            Config::default(),
            TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
        );
        match (&self.bulk, &self.huge) {
            (_, Some(h)) if index % HUGE_EVERY == HUGE_EVERY - 1 => h,
            (Some(b), _) if index % BULK_EVERY == BULK_EVERY - 1 => b,
            _ => &self.strategy,
        }
        .new_tree(&mut runner)
        .expect("strategies do not reject")
        .current()
    }
}
