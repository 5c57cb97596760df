//! Runs the cases of a file without generators; for interpreters, sanitizers
//! and replays.
use vh::case::Case;
use vh::run::{execute, install_hook, Outcome};

#[cfg(not(any(miri, feature = "noalloc")))]
#[global_allocator]
static A: vh::alloc::CheckAlloc = vh::alloc::CheckAlloc;

fn main() {
    install_hook();
    let mut n = 0;
    let mut nontrivial = 0;
    let path = std::env::args().nth(1).expect("a file of cases");
    let text = std::fs::read_to_string(&path).expect("readable");
    let only: Option<usize> = std::env::args().nth(2).map(|x| x.parse().unwrap());
    for (i, case) in Case::parse_many(&text).iter().enumerate() {
        if only.is_some_and(|o| o != i) {
            continue;
        }
        println!("case {i}");
        match execute(case) {
            Outcome::Held(st) => {
                n += 1;
                nontrivial += st.nontrivial as u32;
            }
            Outcome::Broken(m) => {
                println!("BROKEN case {i} property {}: {m}", case.prop);
                std::process::exit(1);
            }
        }
    }
    println!("done cases {n} nontrivial {nontrivial}");
}
