//! The runner: generates cases of a property on all cores, reports, shrinks
//! and writes the evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vh::case::Case;
use vh::gen::{plan, Gen, Plan};
use vh::run::{execute, install_hook, Outcome};
use vh::shrink::shrink;

#[cfg(not(feature = "noalloc"))]
#[global_allocator]
static A: vh::alloc::CheckAlloc = vh::alloc::CheckAlloc;

/// No case takes a second. One that seems to hang is run again alone, and must
/// use up this much processor time to count.
const HANG: Duration = Duration::from_secs(60);
const CPU: u64 = 120;

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|x| x.trim().parse().ok())
        .unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match a(1) {
        "run" => run(a(2), a(3) == "thorough"),
        "worker" => worker(&args[2..]),
        "exec1" => exec_file(Path::new(a(2)), true),
        "replay" => exec_file(Path::new(a(2)), false),
        "shrink" => shrink_file(Path::new(a(2)), Path::new(a(3)), a(4), a(5)),
        "case" => one_case(a(2), a(3) == "thorough", a(4), a(5)),
        "emit" => emit(a(2), a(3), a(4), a(5)),
        _ => {
            eprintln!("usage: vh run <property> quick|thorough | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

/// Prints a generated case.
fn one_case(id: &str, thorough: bool, seed: &str, index: &str) -> i32 {
    match (plan(id), seed.parse(), index.parse()) {
        (Some(p), Ok(seed), Ok(index)) => {
            print!("{}", Gen::new(p, thorough, seed).case(index).to_text());
            0
        }
        _ => 2,
    }
}

fn exec_file(path: &Path, quiet: bool) -> i32 {
    install_hook();
    let Ok(text) = fs::read_to_string(path) else {
        eprintln!("cannot read {path:?}");
        return 2;
    };
    let cases = Case::parse_many(&text);
    if cases.is_empty() {
        eprintln!("no case in {path:?}");
        return 2;
    }
    for c in &cases {
        match execute(c) {
            Outcome::Held(_) => {
                if !quiet {
                    println!("property={} holds on this case", c.prop);
                }
            }
            Outcome::Broken(m) => {
                if !quiet {
                    println!("property={} is broken: {m}", c.prop);
                }
                return 1;
            }
        }
    }
    0
}

/// emit ID first count max_ops: writes cases to stdout
fn emit(id: &str, first: &str, count: &str, max_ops: &str) -> i32 {
    let Some(p) = plan(id) else { return 2 };
    let seed = env_u64("VERIF_SEED", 1);
    let p: &'static Plan = Box::leak(Box::new(Plan {
        max_ops: max_ops.parse().unwrap_or(60),
        ..*p
    }));
    let g = Gen::new(p, false, seed);
    let first: u64 = first.parse().unwrap_or(0);
    let count: u64 = count.parse().unwrap_or(10);
    for i in first..first + count {
        print!("{}", g.case(i).to_text());
    }
    0
}

#[derive(Default)]
struct Tally {
    evals: u64,
    nontrivial: u64,
    ops: u64,
    largest: u64,
    counts: BTreeMap<String, u64>,
    /// (number of operations, text) of some non-trivial cases
    samples: Vec<(usize, String)>,
    stopped: bool,
}

fn worker(args: &[String]) -> i32 {
    let id = &args[0];
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let shard: u64 = args[3].parse().unwrap();
    let shards: u64 = args[4].parse().unwrap();
    let total: u64 = args[5].parse().unwrap();
    let seconds: u64 = args[6].parse().unwrap();
    let dir = PathBuf::from(&args[7]);
    install_hook();
    let p = plan(id).expect("known property");
    let g = Gen::new(p, thorough, seed);
    let status = fs::File::create(dir.join(format!("{shard}.status"))).unwrap();
    let mut t = Tally::default();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let end = Instant::now() + Duration::from_secs(seconds);
    let mut i = shard;
    let mut broken = None;
    while i < total {
        if Instant::now() > end {
            t.stopped = true;
            break;
        }
        let case = g.case(i);
        status.write_all_at(&i.to_le_bytes(), 0).unwrap();
        match execute(&case) {
            Outcome::Held(st) => {
                t.evals += 1;
                let ops = case.expanded().ops.len() as u64;
                t.ops += ops;
                t.largest = t.largest.max(ops);
                for (k, v) in &st.counts {
                    *t.counts.entry(k.to_string()).or_insert(0) += v;
                }
                if st.nontrivial {
                    t.nontrivial += 1;
                    hashes.insert(case.hash64());
                    let n = case.ops.len();
                    if t.samples.len() < 2 || t.samples[1].0 > n {
                        t.samples.push((n, case.to_text()));
                        t.samples.sort();
                        t.samples.truncate(2);
                    }
                }
            }
            Outcome::Broken(m) => {
                broken = Some((i, m, case));
                break;
            }
        }
        i += shards;
    }
    let mut out = String::new();
    writeln!(out, "evals {}", t.evals).unwrap();
    writeln!(out, "nontrivial {}", t.nontrivial).unwrap();
    writeln!(out, "ops {}", t.ops).unwrap();
    writeln!(out, "largest {}", t.largest).unwrap();
    writeln!(out, "stopped {}", t.stopped as u64).unwrap();
    for (k, v) in &t.counts {
        writeln!(out, "count {k} {v}").unwrap();
    }
    for (n, s) in &t.samples {
        writeln!(out, "sample {n} {}", s.replace('\n', "|")).unwrap();
    }
    fs::write(dir.join(format!("{shard}.out")), out).unwrap();
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("{shard}.hashes")), bytes).unwrap();
    if let Some((i, m, case)) = broken {
        let text = format!("{i}\n{}\n{}", m.replace('\n', " "), case.to_text());
        fs::write(dir.join(format!("{shard}.fail")), text).unwrap();
        return 3;
    }
    0
}

/// shrink IN OUT in|sub|by [COMMAND]: the smallest failing case found, run in
/// this process, in one of its own, or by the command
fn shrink_file(input: &Path, output: &Path, mode: &str, cmd: &str) -> i32 {
    let sub = mode != "in";
    install_hook();
    let case = Case::parse(&fs::read_to_string(input).unwrap()).unwrap();
    let seconds = env_u64("VH_SHRINK_SECONDS", 40);
    let tmp = output.with_extension("try");
    let me = std::env::current_exe().unwrap();
    let fails = |c: &Case| -> bool {
        if mode == "by" {
            fs::write(&tmp, c.to_text()).unwrap();
            return !external_ok(cmd, &tmp);
        }
        if sub {
            fs::write(&tmp, c.to_text()).unwrap();
            let mut ch = Command::new(&me)
                .arg("exec1")
                .arg(&tmp)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let end = Instant::now() + Duration::from_secs(10);
            loop {
                match ch.try_wait().unwrap() {
                    Some(s) => return s.code() != Some(0) && s.code() != Some(2),
                    None => {
                        if Instant::now() > end {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            return true;
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
            }
        }
        matches!(execute(c), Outcome::Broken(_))
    };
    let (best, tried) = shrink(&case, fails, Duration::from_secs(seconds));
    let msg = if sub {
        String::new()
    } else {
        match execute(&best) {
            Outcome::Broken(m) => m,
            _ => String::new(),
        }
    };
    fs::write(
        output,
        format!(
            "# {}\n# shrunk from {} to {} operations in {tried} attempts\n{}",
            msg.replace('\n', " "),
            case.ops.len(),
            best.ops.len(),
            best.to_text()
        ),
    )
    .unwrap();
    let _ = fs::remove_file(&tmp);
    0
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Failure {
    index: u64,
    message: String,
    case: Case,
    /// the process died or hung, so that it must be run in a subprocess
    fatal: bool,
    /// found by another executable, with which it must be run again
    by: Option<(String, String)>,
}

/// Runs generated cases in other builds of the same checks: under
/// AddressSanitizer, ThreadSanitizer or Miri. `VH_STAGES` names them, and
/// `VH_STAGE_<name>` is `<command> <quick cases> <thorough cases> <longest
/// case> <seconds> <thorough seconds>`; the command gets a file of cases.
/// Returns the names with the numbers of cases run and planned.
fn external(
    p: &'static Plan,
    thorough: bool,
    seed: u64,
    shards: u64,
    dir: &Path,
    failures: &mut Vec<Failure>,
) -> Vec<(String, u64, u64, u64)> {
    let mut out = Vec::new();
    let names = std::env::var("VH_STAGES").unwrap_or_default();
    for name in names.split_whitespace() {
        let spec = std::env::var(format!("VH_STAGE_{name}")).unwrap_or_default();
        let w: Vec<&str> = spec.split_whitespace().collect();
        if w.len() < 6 {
            eprintln!("stage {name} is not set up");
            continue;
        }
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        let want = if thorough { n(2) } else { n(1) };
        let longest = n(3) as usize;
        let seconds = if thorough { n(5) } else { n(4) };
        // non-trivial cases that are not long
        let small: &'static Plan = Box::leak(Box::new(Plan {
            max_ops: longest * 3,
            ..*p
        }));
        let g = Gen::new(small, false, seed);
        install_hook();
        let mut files: Vec<String> = vec![String::new(); shards as usize];
        let mut cases: Vec<Vec<Case>> = vec![Vec::new(); shards as usize];
        let (mut made, mut i) = (0, 1u64 << 40);
        while made < want && i < (1 << 40) + want * 200 {
            let c = g.case(i);
            i += 1;
            if c.expanded().ops.len() > longest {
                continue;
            }
            match execute(&c) {
                Outcome::Held(st) if st.nontrivial => {
                    files[(made % shards) as usize].push_str(&c.to_text());
                    cases[(made % shards) as usize].push(c);
                    made += 1;
                }
                _ => {}
            }
        }
        let mut kids = Vec::new();
        for s in 0..shards as usize {
            let f = dir.join(format!("{name}-{s}.cases"));
            fs::write(&f, &files[s]).unwrap();
            let log = dir.join(format!("{name}-{s}.log"));
            let ch = Command::new("timeout")
                .args(["-k", "5", &seconds.to_string(), w[0]])
                .arg(&f)
                .stdout(fs::File::create(&log).unwrap())
                .stderr(fs::File::create(dir.join(format!("{name}-{s}.err"))).unwrap())
                .spawn()
                .expect("stage");
            kids.push((s, ch, log));
        }
        let (mut done, mut stopped) = (0, 0);
        for (s, mut ch, log) in kids {
            let st = ch.wait().unwrap();
            let text = fs::read_to_string(&log).unwrap_or_default();
            let begun = text.lines().filter(|l| l.starts_with("case ")).count();
            let finished = text.lines().any(|l| l.starts_with("done "));
            match st.code() {
                Some(0) if finished => done += begun as u64,
                Some(124) | Some(137) => {
                    done += begun.saturating_sub(1) as u64;
                    stopped += 1;
                }
                code => {
                    let err =
                        fs::read_to_string(dir.join(format!("{name}-{s}.err"))).unwrap_or_default();
                    if begun == 0 {
                        eprintln!("stage {name} could not be run ({code:?}): {err}");
                        continue;
                    }
                    if finished {
                        // complained at the end, of leaks, say: which case
                        // it was is not known
                        let at = cases[s].iter().position(|c| {
                            let one = dir.join("one.cases");
                            fs::write(&one, c.to_text()).unwrap();
                            !external_ok(w[0], &one)
                        });
                        let Some(at) = at else {
                            eprintln!("stage {name}: {err}");
                            continue;
                        };
                        failures.push(Failure {
                            index: at as u64,
                            message: format!("{name}: {}", gist(&err)),
                            case: cases[s][at].clone(),
                            fatal: true,
                            by: Some((name.to_string(), w[0].to_string())),
                        });
                        continue;
                    }
                    done += begun as u64 - 1;
                    let broken = text.lines().find(|l| l.starts_with("BROKEN"));
                    failures.push(Failure {
                        index: begun as u64 - 1,
                        message: format!(
                            "{name}: {}",
                            broken.map(|x| x.to_string()).unwrap_or_else(|| gist(&err))
                        ),
                        case: cases[s][begun - 1].clone(),
                        fatal: true,
                        by: Some((name.to_string(), w[0].to_string())),
                    });
                }
            }
        }
        out.push((name.to_string(), done, made, stopped));
        if !failures.is_empty() {
            break;
        }
    }
    out
}

/// The line of a sanitizer's output that says what is wrong.
fn gist(err: &str) -> String {
    for what in [
        "error: Undefined Behavior",
        "ERROR: ",
        "WARNING: ThreadSanitizer",
        "error:",
        "panicked",
    ] {
        if let Some(l) = err.lines().find(|l| l.contains(what)) {
            return l.trim().to_string();
        }
    }
    err.lines().last().unwrap_or("").to_string()
}

fn external_ok(cmd: &str, file: &Path) -> bool {
    Command::new("timeout")
        .args(["-k", "5", "60", cmd])
        .arg(file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .is_ok_and(|s| s.success() || s.code() == Some(124))
}

/// The cases of a run, dealt to workers.
struct Deal<'a> {
    plan: &'static Plan,
    thorough: bool,
    seed: u64,
    shards: u64,
    total: u64,
    seconds: u64,
    /// the executable whose workers run them
    exe: &'a Path,
    dir: &'a Path,
    /// set when that executable is another build
    by: Option<(String, String)>,
}

/// Runs workers until they end or fail. Returns what failed, and how many
/// workers ended for reasons that are no violation.
fn work(deal: &Deal) -> (Vec<Failure>, u64) {
    let Deal {
        plan: p,
        thorough,
        seed,
        shards,
        total,
        seconds,
        exe: me,
        dir,
        ref by,
    } = *deal;
    let id = p.id;
    let tier = if thorough { "thorough" } else { "quick" };
    let limit = if cfg!(feature = "noalloc") {
        "unlimited"
    } else {
        "6000000"
    };
    let mut kids: Vec<(u64, Child, bool, [u8; 8], Instant)> = (0..shards)
        .map(|s| {
            let ch = Command::new("/bin/sh")
                .arg("-c")
                .arg(format!(
                    "ulimit -v {limit}; ulimit -c 0; exec \"$0\" \"$@\""
                ))
                .arg(me)
                .arg("worker")
                .args([id, tier])
                .args([seed, s, shards, total, seconds].map(|x| x.to_string()))
                .arg(dir)
                .stdout(Stdio::null())
                .stderr(Stdio::inherit())
                .spawn()
                .expect("worker");
            (s, ch, false, [255u8; 8], Instant::now())
        })
        .collect();
    let g = Gen::new(p, thorough, seed);
    let mut failures: Vec<Failure> = Vec::new();
    let mut errors = 0;
    let mut first_fail: Option<Instant> = None;
    let mut slow: BTreeMap<u64, u64> = BTreeMap::new();
    while kids.iter().any(|k| !k.2) {
        std::thread::sleep(Duration::from_millis(20));
        for (s, ch, done, last, since) in &mut kids {
            if *done {
                continue;
            }
            let mut now = [255u8; 8];
            if let Ok(f) = fs::File::open(dir.join(format!("{s}.status"))) {
                let _ = f.read_exact_at(&mut now, 0);
            }
            if now != *last {
                *last = now;
                *since = Instant::now();
            }
            let at = u64::from_le_bytes(now);
            match ch.try_wait().expect("wait") {
                Some(st) => {
                    *done = true;
                    match st.code() {
                        Some(0) => {}
                        Some(3) => {
                            let text = fs::read_to_string(dir.join(format!("{s}.fail"))).unwrap();
                            let mut it = text.splitn(3, '\n');
                            failures.push(Failure {
                                index: it.next().unwrap().parse().unwrap(),
                                message: it.next().unwrap().to_string(),
                                case: Case::parse(it.next().unwrap()).unwrap(),
                                fatal: false,
                                by: by.clone(),
                            });
                        }
                        code => {
                            if at == u64::MAX {
                                eprintln!("worker {s} ended with {code:?} before its first case");
                                errors += 1;
                            } else if st.signal() == Some(9) {
                                eprintln!("worker {s} was killed from outside in case {at}");
                                errors += 1;
                            } else {
                                failures.push(Failure {
                                    index: at,
                                    message: match st.signal() {
                                        Some(n) => format!("the process died of signal {n}"),
                                        None => format!("the process exited with {code:?}"),
                                    },
                                    case: g.case(at),
                                    fatal: true,
                                    by: by.clone(),
                                });
                            }
                        }
                    }
                }
                None => {
                    if since.elapsed() > HANG && at != u64::MAX {
                        // a slow machine is no violation: it has to use up
                        // processor time on its own
                        let one = dir.join(format!("{s}.hang"));
                        fs::write(&one, g.case(at).to_text()).unwrap();
                        let st = Command::new("/bin/sh")
                            .arg("-c")
                            .arg(format!(
                                "ulimit -v {limit}; ulimit -c 0; ulimit -t {CPU}; exec timeout 300 \"$0\" exec1 \"$1\""
                            ))
                            .arg(me)
                            .arg(&one)
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .status();
                        let hangs =
                            st.is_ok_and(|s| !matches!(s.code(), Some(0) | Some(2) | Some(124)));
                        if !hangs && slow.get(s) != Some(&at) {
                            // slow: it gets as much time again, once
                            slow.insert(*s, at);
                            *since = Instant::now();
                            continue;
                        }
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        if hangs {
                            failures.push(Failure {
                                index: at,
                                message: format!("does not end within {CPU} s of processor time"),
                                case: g.case(at),
                                fatal: true,
                                by: by.clone(),
                            });
                        } else {
                            eprintln!("worker {s} made no progress in case {at}");
                            errors += 1;
                        }
                    }
                }
            }
        }
        if !failures.is_empty() {
            // the others may still find an earlier case; not for long
            let f = first_fail.get_or_insert_with(Instant::now);
            if f.elapsed() > Duration::from_secs(2) {
                for k in &mut kids {
                    if !k.2 {
                        let _ = k.1.kill();
                        let _ = k.1.wait();
                        k.2 = true;
                    }
                }
            }
        }
    }
    (failures, errors)
}

fn run(id: &str, thorough: bool) -> i32 {
    let start = Instant::now();
    let Some(p) = plan(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if thorough { "thorough" } else { "quick" };
    let total = env_u64("VH_CASES", if thorough { p.thorough } else { p.quick });
    let seconds = env_u64("VH_SECONDS", if thorough { 3000 } else { 300 });
    let shards = env_u64("VH_WORKERS", 0);
    let shards = if shards > 0 {
        shards
    } else {
        std::thread::available_parallelism().map_or(8, |n| n.get()) as u64
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let me = std::env::current_exe().unwrap();
    let (mut failures, mut errors) = work(&Deal {
        plan: p,
        thorough,
        seed,
        shards,
        total,
        seconds,
        exe: &me,
        dir: &dir,
        by: None,
    });
    // as many again as an eighth, others, without debug assertions
    let plain_dir = dir.join("plain");
    let mut plain = None;
    if failures.is_empty() && errors == 0 {
        if let Some((exe, cmd)) = std::env::var("VH_PLAIN").ok().and_then(|x| {
            x.split_once(' ')
                .map(|(a, b)| (a.to_string(), b.to_string()))
        }) {
            fs::create_dir_all(&plain_dir).unwrap();
            let (f, e) = work(&Deal {
                plan: p,
                thorough,
                seed: seed ^ 1 << 40,
                shards,
                total: total / 8,
                seconds: seconds / 4,
                exe: Path::new(&exe),
                dir: &plain_dir,
                by: Some(("plain".to_string(), cmd)),
            });
            failures = f;
            errors = e;
            let mut evals = 0;
            for s in 0..shards {
                let text =
                    fs::read_to_string(plain_dir.join(format!("{s}.out"))).unwrap_or_default();
                let n = text.lines().next().and_then(|l| l.strip_prefix("evals "));
                evals += n.and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
            plain = Some((evals, total / 8));
        }
    }
    let stages = if failures.is_empty() && errors == 0 {
        external(p, thorough, seed, shards, &dir, &mut failures)
    } else {
        Vec::new()
    };
    // gather
    let mut t = Tally::default();
    let mut hashes = BTreeSet::new();
    for s in 0..shards {
        if let Ok(text) = fs::read_to_string(dir.join(format!("{s}.out"))) {
            for l in text.lines() {
                let w: Vec<&str> = l.splitn(3, ' ').collect();
                let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                match w[0] {
                    "evals" => t.evals += n(1),
                    "nontrivial" => t.nontrivial += n(1),
                    "ops" => t.ops += n(1),
                    "largest" => t.largest = t.largest.max(n(1)),
                    "stopped" => t.stopped |= n(1) == 1,
                    "count" => *t.counts.entry(w[1].to_string()).or_insert(0) += n(2),
                    "sample" => t.samples.push((n(1) as usize, w[2].to_string())),
                    _ => {}
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("{s}.hashes"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    t.samples.sort();
    t.samples.truncate(3);
    let mut code = 0;
    let mut violations = 0;
    failures.sort_by_key(|f| (f.fatal, f.index));
    if let Some(f) = failures.first() {
        violations = 1;
        code = 1;
        let replays = root.join("replays");
        fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{id}-{tier}-seed{seed}-case{}.case", f.index));
        let raw = dir.join("raw.case");
        let small = dir.join("small.case");
        fs::write(&raw, f.case.to_text()).unwrap();
        let modes: &[&str] = if f.by.is_some() {
            &["by"]
        } else if f.fatal {
            &["sub"]
        } else {
            &["in", "sub"]
        };
        for mode in modes {
            let st = Command::new(&me)
                .arg("shrink")
                .arg(&raw)
                .arg(&small)
                .arg(mode)
                .arg(f.by.as_ref().map_or("", |x| &x.1))
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            if small.exists() && st.is_ok_and(|s| s.success()) {
                break;
            }
        }
        let text = fs::read_to_string(&small).unwrap_or_else(|_| f.case.to_text());
        fs::write(
            &path,
            format!(
                "# property {id}, {tier} tier, seed {seed}, case {}{}\n# found: {}\n# run again: /verif/replay.sh {}\n{text}",
                f.index,
                f.by.as_ref().map_or(String::new(), |x| format!(", by {}", x.0)),
                f.message,
                path.display()
            ),
        )
        .unwrap();
        println!("case {}: {}", f.index, f.message);
        for l in text.lines().filter(|l| l.starts_with('#')) {
            println!("shrunk: {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
    }
    if code == 0 && errors > 0 {
        code = 2;
    }
    if code == 0 && (t.evals == 0 || hashes.is_empty()) {
        eprintln!("no non-trivial case was run");
        code = 2;
    }
    // evidence
    let mut e = String::from("{\n");
    writeln!(e, "  \"property\": {},", js(id)).unwrap();
    writeln!(e, "  \"tier\": {},", js(tier)).unwrap();
    writeln!(e, "  \"seed\": {seed},").unwrap();
    writeln!(e, "  \"level\": \"exploration\",").unwrap();
    writeln!(e, "  \"coverage\": {{").unwrap();
    writeln!(
        e,
        "    \"evaluations\": {},",
        t.evals + failures.len() as u64
    )
    .unwrap();
    writeln!(e, "    \"distinct_nontrivial\": {},", hashes.len()).unwrap();
    writeln!(e, "    \"rule\": {},", js(p.rule)).unwrap();
    writeln!(e, "    \"planned_cases\": {total},").unwrap();
    writeln!(e, "    \"stopped_by_time_limit\": {},", t.stopped).unwrap();
    writeln!(e, "    \"operations\": {},", t.ops).unwrap();
    writeln!(e, "    \"longest_case\": {},", t.largest).unwrap();
    writeln!(e, "    \"counts\": {{").unwrap();
    let n = t.counts.len();
    for (i, (k, v)) in t.counts.iter().enumerate() {
        writeln!(
            e,
            "      {}: {v}{}",
            js(k),
            if i + 1 < n { "," } else { "" }
        )
        .unwrap();
    }
    writeln!(e, "    }},").unwrap();
    if let Some((done, made)) = plain {
        writeln!(e, "    \"plain_cases\": {done},").unwrap();
        writeln!(e, "    \"plain_cases_planned\": {made},").unwrap();
        println!("plain: {done} of {made} cases");
    }
    for (name, done, made, stopped) in &stages {
        writeln!(e, "    \"{name}_cases\": {done},").unwrap();
        writeln!(e, "    \"{name}_cases_planned\": {made},").unwrap();
        writeln!(
            e,
            "    \"{name}_processes_stopped_by_time_limit\": {stopped},"
        )
        .unwrap();
        println!("{name}: {done} of {made} cases");
    }
    writeln!(e, "    \"samples\": [").unwrap();
    let n = t.samples.len();
    for (i, (_, s)) in t.samples.iter().enumerate() {
        let lines: Vec<String> = s
            .split('|')
            .filter(|x| !x.is_empty())
            .take(80)
            .map(js)
            .collect();
        writeln!(
            e,
            "      [{}]{}",
            lines.join(", "),
            if i + 1 < n { "," } else { "" }
        )
        .unwrap();
    }
    writeln!(e, "    ]").unwrap();
    writeln!(e, "  }},").unwrap();
    writeln!(
        e,
        "  \"assumptions\": [{}],",
        p.assumptions
            .iter()
            .map(|x| js(x))
            .collect::<Vec<_>>()
            .join(", ")
    )
    .unwrap();
    writeln!(e, "  \"violations\": {violations},").unwrap();
    writeln!(e, "  \"wall_s\": {:.2}", start.elapsed().as_secs_f64()).unwrap();
    e.push_str("}\n");
    fs::create_dir_all(root.join("evidence")).unwrap();
    fs::write(root.join("evidence").join(format!("{id}.json")), e).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{id} {tier} seed {seed}: {} cases, {} distinct non-trivial, {:.1} s",
        t.evals,
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    code
}
