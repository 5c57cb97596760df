//! Running one case of any property, with panics caught.
use crate::case::{Case, Res, Stats};
use crate::{p_geo, p_join, p_model, p_struct};
use crate::{with_few_worlds, with_world};
use std::cell::RefCell;

pub fn dispatch(case: &Case, st: &mut Stats) -> Res {
    use p_model::*;
    let w = case.par[0];
    match case.prop.as_str() {
        #[cfg(feature = "c01")]
        "C01" => with_world!(w, contents(case, st)),
        #[cfg(feature = "c02")]
        "C02" => with_world!(w, lookups(case, st)),
        #[cfg(feature = "c03")]
        "C03" => with_world!(w, unique(case, st)),
        #[cfg(feature = "c04")]
        "C04" => with_world!(w, first(case, st)),
        #[cfg(feature = "c05")]
        "C05" => with_world!(w, filtered(case, st)),
        #[cfg(feature = "c06")]
        "C06" if case.par[5] % 8 == 0 => crate::p_wide::boxes(case, st),
        #[cfg(feature = "c06")]
        "C06" if case.par[5] % 8 == 1 => crate::p_many::boxes(case, st),
        #[cfg(feature = "c06")]
        "C06" => p_geo::boxes(case, st),
        #[cfg(feature = "c07")]
        "C07" if case.par[5] % 8 == 1 => crate::p_many::shapes(case, st),
        #[cfg(feature = "c07")]
        "C07" => p_geo::shapes(case, st),
        #[cfg(feature = "c08")]
        "C08" => p_geo::filters(case, st),
        #[cfg(feature = "c11")]
        "C11" if case.par[5] % 8 == 0 => crate::p_wide::distances(case, st),
        #[cfg(feature = "c11")]
        "C11" if case.par[5] % 8 == 1 => crate::p_many::distances(case, st),
        #[cfg(feature = "c11")]
        "C11" => p_geo::distances(case, st),
        #[cfg(feature = "c09")]
        "C09" if case.par[5] % 4 == 0 => p_geo::euclid(case, st),
        #[cfg(feature = "c23")]
        "C23" if case.par[5] % 4 == 0 => p_geo::builtin_empty(case, st),
        #[cfg(feature = "c09")]
        "C09" => with_world!(w, ranked(case, st)),
        #[cfg(feature = "c10")]
        "C10" => with_world!(w, opt_ranked(case, st)),
        #[cfg(feature = "c12")]
        "C12" => p_join::joins(case, st),
        #[cfg(feature = "c13")]
        "C13" => p_join::left_joins(case, st),
        #[cfg(feature = "c14")]
        "C14" => with_few_worlds!(w, node_bounds(case, st)),
        #[cfg(feature = "c15")]
        "C15" => with_few_worlds!(w, occupancy(case, st)),
        #[cfg(feature = "c16")]
        "C16" => p_struct::pruning(case, st),
        #[cfg(feature = "c17")]
        "C17" => with_world!(w, clones(case, st)),
        #[cfg(feature = "c18")]
        "C18" => with_few_worlds!(w, ownership(case, st)),
        #[cfg(feature = "c19")]
        "C19" if case.par[5] % 4 == 1 => crate::p_hostile::hostile(case, st),
        #[cfg(feature = "c19")]
        "C19" => crate::p_lay::layouts(case, st),
        #[cfg(feature = "c20")]
        "C20" => with_few_worlds!(w, panics(case, st)),
        #[cfg(feature = "c21")]
        "C21" => with_world!(w, mutable(case, st)),
        #[cfg(feature = "c22")]
        "C22" => crate::p_coord::coordinates(case, st),
        #[cfg(feature = "c23")]
        "C23" => with_few_worlds!(w, emptied(case, st)),
        #[cfg(feature = "c24")]
        "C24" => with_few_worlds!(w, shared(case, st)),
        x => Err(format!("unknown property {x}")),
    }
}
use crate::p_mem::{ownership, panics};
use crate::p_thread::shared;
use p_struct::{node_bounds, occupancy};

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps panics quiet and remembers where they happened.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = format!("panicked at {at}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

pub enum Outcome {
    Held(Stats),
    Broken(String),
}

pub fn execute(case: &Case) -> Outcome {
    let mut st = Stats::default();
    crate::inst::reset();
    let case = case.expanded();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&case, &mut st)));
    crate::inst::disarm();
    match r {
        Ok(Ok(())) => Outcome::Held(st),
        Ok(Err(m)) => Outcome::Broken(m),
        Err(_) => Outcome::Broken(last_panic()),
    }
}
