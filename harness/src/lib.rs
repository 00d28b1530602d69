pub mod derived;
pub mod engine;
pub mod forms;
#[cfg(feature = "cov")]
pub mod fuzz;
pub mod gen;
pub mod guard;
pub mod model;
pub mod props;
pub mod refdec;
pub mod refenc;
pub mod schema;
pub mod sd;
pub mod watch;

#[global_allocator]
static ALLOC: watch::Watching = watch::Watching;
