// Counts: (quick, thorough). A case is never longer than the third and fourth
// numbers, in the quick and the thorough tier.
#[allow(clippy::too_many_arguments)]
const fn p(
    id: &'static str,
    shape: Shape,
    counts: (u64, u64),
    ops: (usize, usize),
    queries: u32,
    rule: &'static str,
    assumptions: &'static [&'static str],
) -> Plan {
    let b = id.as_bytes();
    Plan {
        id,
        bulk: match (shape, b[1], b[2]) {
            (Shape::Samples, ..) => 0,
            (_, b'1', b'2' | b'3' | b'6') => 800,
            (_, b'1', b'4' | b'5' | b'7') => 1200,
            (_, b'0' | b'2', b'4') => 1500,
            (_, b'2', b'0') => 500,
            _ => 3000,
        },
        quick: counts.0,
        thorough: counts.1,
        max_ops: ops.0,
        max_ops_thorough: ops.1,
        queries,
        shape,
        rule,
        assumptions,
    }
}
use Shape::{History as H, Samples as S};

macro_rules! history {
    ($x:literal) => {
        concat!("Each case is generated by proptest strategies from the seed, the property and its number: a key type (boxes, points and segments of 1 to 5 dimensions over 8-, 16- and 32-bit integers and both kinds of floats, and keys of the harness's own whose bounds are not minimal, not spatial or partly hidden), one of 28 capacities (max_children 2 to 1000, mostly up to 64), one of 8 distributions of coordinates, and a history in phases of growth, duplication, churn and drain, with this property's operations in between; every 64th case makes hundreds or thousands of insertions or removals in a row. ", $x)
    };
}

const DOMAIN: &str = "1 <= min_children <= (max_children + 1) / 2 and max_children >= 2; boxes that are keys have lower corners not above upper corners; floating point coordinates are finite; bounds, filters and rankings given by the harness satisfy the documented invariants";
const TREE: &[&str] = &[DOMAIN];
const DEBUG: &[&str] = &[DOMAIN, "the structure of a tree is read from its Debug output; a tree whose Debug output cannot be read as one makes the check end with an error"];

pub const PLANS: &[Plan] = &[
    p("C01", H, (80_000, 1_000_000), (600, 2400), 4,
      history!("After every mutation its result, len and is_empty are compared with a list of entries, and the whole contents after many of them by iter, iter_mut and both forms of IntoIterator. Non-trivial: the root was split and entries were removed."), TREE),
    p("C02", H, (150_000, 2_000_000), (600, 2400), 20,
      history!("Lookups of stored keys, of keys that differ from stored ones only in a part that bounds do not see, and of absent keys inside the bounds of the tree, by owned and borrowed forms, are compared with the list. Non-trivial: the root was split and an absent key inside the bounds of the tree was looked up."), TREE),
    p("C03", H, (150_000, 2_000_000), (600, 2400), 4,
      history!("Every insert_unique is compared with the list: what it returns, the number of entries, and which single value changed; a share of the cases use nothing else to insert and must behave as a map. Non-trivial: the root was split and a value was replaced."), TREE),
    p("C04", H, (90_000, 1_200_000), (600, 2400), 4,
      history!("For keys stored more than once, the entry that get, get_mut, insert_unique and remove act on is compared with the first in iteration order just before. Non-trivial: the root was split and an operation met a key stored more than once."), TREE),
    p("C05", H, (150_000, 2_000_000), (400, 1600), 20,
      history!("Filters made of a key test and a bounds test of 7 degrees of tightness, all sound, are run by filter_iter and filter_iter_mut and compared with the list. Non-trivial: a filter matched some but not all entries of a tree with a split root."), TREE),
    p("C06", S, (1_000_000, 12_000_000), (60, 60), 100,
      "Each case is up to 60 samples of points, boxes and sets of boxes of 1 to 6 dimensions (in an eighth of the cases 7 to 100) over integers of 8 to 128 bits, both kinds of floats or a vector type whose dimensions differ, tiny or anywhere in the range, made to touch and nest often; contains, intersects, union, union_all, empty and volume are compared with interval arithmetic in i128 or wider. Non-trivial: a pair of different boxes that intersect.",
      &["boxes have lower corners not above upper corners, or are the empty box", "volume is compared to within rounding of the floating point result"]),
    p("C07", S, (1_500_000, 15_000_000), (60, 60), 100,
      "Each case is up to 60 samples of a line, a ray or a sphere with a box or a point, of 1 to 6 dimensions (in an eighth of the cases 7 to 100) over integers of 8 to 32 bits and both kinds of floats, aimed at corners, edges and faces, with axis-parallel, diagonal and zero directions; the answers are compared with exact rational arithmetic. Non-trivial: a shape that hits a box without starting inside, or a sphere that contains a point other than its centre.",
      &["where rounding in f64 could decide (the exact answer is a miss narrower than the error of the arithmetic), either answer is accepted, and such samples are counted", "segments have a representable difference of their ends"]),
    p("C08", H, (110_000, 1_500_000), (300, 1200), 15,
      history!("Every built-in filter, bounded and unbounded, with boxes, points, segments, rays and spheres as queries, is run over trees of boxes and points and compared with exact tests of each entry. Non-trivial: a tree with a split root was queried."),
      &[DOMAIN, "entries missed more narrowly than the rounding of f64 may be returned or not"]),
    p("C09", H, (110_000, 1_500_000), (400, 1600), 20,
      history!("Rankings with lower bounds of several degrees of tightness, and EuclideanDistanceRanking, are run by iter_asc_by, iter_asc_by_mut, min_by and min_by_mut, in full or in part; the entries must be those of the list, once each, in non-descending order. Non-trivial: a tree with a split root ranked by at least two different metrics."), TREE),
    p("C10", H, (130_000, 1_800_000), (400, 1600), 20,
      history!("As C09 for filter_iter_asc_by, filter_iter_asc_by_mut, filter_min_by and filter_min_by_mut, with rankings that reject none, some or all entries and subtrees. Non-trivial: a tree with a split root of which some but not all entries were rejected."), TREE),
    p("C12", H, (80_000, 1_000_000), (400, 1600), 10,
      history!("Two trees of different types, capacities and very different sizes are joined with filters of several degrees of tightness, and a tree with itself; the pairs are compared with those of a nested loop. Non-trivial: both trees had a split root, and some but not all pairs matched."), TREE),
    p("C13", H, (80_000, 1_000_000), (400, 1600), 10,
      history!("As C12 for left_join, the inner iterators being consumed at once, partly, in turns, after the outer iterator went on or was dropped, or not at all. Non-trivial: both trees had a split root, and some but not all pairs matched."), TREE),
    p("C14", H, (90_000, 1_200_000), (400, 1600), 0,
      history!("After most mutations the bounds of every node, read from the Debug output, are compared with those of the entries below it. Non-trivial: a tree with an inner root was checked just after a removal."), DEBUG),
    p("C15", H, (90_000, 1_200_000), (400, 1600), 0,
      history!("After most mutations the depth of every leaf and the number of children of every node, read from the Debug output, are checked. Non-trivial: a tree with an inner root was checked just after a removal."), DEBUG),
    p("C16", H, (110_000, 1_500_000), (300, 1200), 10,
      history!("Filters, rankings, joins and keys that record every call are run; the keys examined are compared with those under nodes (read from the Debug output) that had to be visited. Non-trivial: a tree or pair of trees with split roots was queried, and some but not all keys or pairs were examined."), DEBUG),
    p("C17", H, (150_000, 2_000_000), (300, 1200), 5,
      history!("Up to 4 trees are cloned from one another (anew or over other trees, with clone_from), changed apart and dropped in any order, each with its own list; the same calls made twice must give the same iteration orders. Non-trivial: a tree with a split root was cloned and clones were changed."), TREE),
    p("C18", H, (60_000, 800_000), (300, 1200), 30,
      history!("Up to 4 trees of entries that count themselves, alive and dropped, are changed, cloned, queried by iterators consumed in part, and dropped; after every operation the entries alive are compared with those held, and none of the filters, rankings and metrics given to queries may be alive. Non-trivial: a root was split, entries were removed and an iterator or a clone was made."), TREE),
    p("C19", H, (40_000, 600_000), (300, 1200), 30,
      history!("As C18 with 16 layouts of keys, values and bounds (zero-sized, over-aligned, owning memory, of odd sizes) under an allocator that records every allocation, marks freed memory and checks layouts; some of the non-trivial cases are run again under AddressSanitizer and under Miri. In a quarter of the cases user code makes up none, 1, 8 or 32 of 64 of its answers and half of those have capacities outside the domain (max_children 0 to 9, min_children 0 to usize::MAX / 2): panics are allowed there, double drops, uses of dropped instances, entries yielded twice and errors of the allocator are not. Non-trivial: a root was split, entries were removed and an iterator or a clone was made; or, with made-up answers or odd capacities, the tree held more than max_children entries."),
      &[DOMAIN, "undefined behaviour that corrupts nothing is seen by Miri alone, on fewer and shorter cases (tree borrows)"]),
    p("C20", H, (40_000, 600_000), (100, 200), 30,
      history!("At operations of the history, the n-th call of one kind of user callback is made to panic, for several n, on a clone of the tree; after each panic the entries alive, the contents and later operations are checked. Non-trivial: panics were raised and the root was split."),
      &[DOMAIN, "a panic during a change may leak entries"]),
    p("C21", H, (150_000, 2_000_000), (300, 1200), 10,
      history!("Every kind of mutable access is run in step with its shared counterpart, the references held together; values are written through some of them and compared with the list later. Non-trivial: values of a tree with a split root were written."), TREE),
    p("C22", H, (80_000, 1_000_000), (300, 1200), 10,
      history!("Histories with coordinates over the whole range are run in 8 coordinate types, and again translated, mirrored, with axes permuted or converted; contents and query results are compared with the list and with each other. Non-trivial: queries were compared (first kind: over a tree with a split root)."), TREE),
    p("C23", H, (120_000, 1_500_000), (300, 1200), 5,
      history!("At several points of the history the tree is emptied in one of several orders, asked everything, and filled again beside a new tree that gets the same calls: both must iterate and print alike. Non-trivial: a tree with entries was drained."), TREE),
    p("C24", H, (30_000, 400_000), (300, 1200), 12,
      history!("A tree is moved to another thread and queried by up to 8 threads at once, whole query by whole query and, in a quarter of the cases, by many short queries in quick succession, each compared with its sequential result; what is Send and Sync is probed by its type; some cases are run again under Miri, which looks for data races, and in the thorough tier under ThreadSanitizer. Non-trivial: at least two threads compared results of a tree with a split root."),
      &[DOMAIN, "schedules are those of the machine and of Miri: they are sampled, not enumerated"]),
    p("C11", S, (1_000_000, 12_000_000), (60, 60), 100,
      "Each case is up to 60 samples of points, vectors, boxes and lines of 1 to 6 dimensions (in an eighth of the cases 7 to 100) over integers of 8 to 128 bits, both kinds of floats or a vector type whose dimensions differ; dist_sq, sq_dist_to, vector arithmetic, lengths and bounds are compared with exact arithmetic. Non-trivial: a point outside its box and a non-zero vector.",
      &["integer results that the coordinate type cannot represent are left out, except those of f64"]),
];
