//! Property-based testing of claxon: engine, generators, oracles, properties.

pub mod alloc;
pub mod bits;
pub mod damage;
pub mod engine;
pub mod gen;
pub mod io;
pub mod meta;
pub mod other;
pub mod props;
pub mod refdec;
pub mod route;
pub mod src;

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;
