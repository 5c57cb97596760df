//! Property-based checks of rusty-rtree. One feature per property, so that a
//! check builds only what it needs.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused))]
pub mod alloc;
pub mod case;
pub mod eng;
#[cfg(feature = "gen")]
pub mod gen;
pub mod inst;
pub mod p_coord;
pub mod p_geo;
pub mod p_hostile;
pub mod p_join;
pub mod p_lay;
#[allow(dead_code)]
pub mod p_many;
pub mod p_mem;
pub mod p_model;
pub mod p_struct;
pub mod p_thread;
#[cfg(any(feature = "c06", feature = "c11"))]
pub mod p_wide;
pub mod raw;
pub mod run;
pub mod shrink;
pub mod world;
