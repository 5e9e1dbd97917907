pub mod alloc;
pub mod anyv;
pub mod c_checks;
pub mod caches;
pub mod choices;
pub mod conv;
pub mod doc;
pub mod engine;
pub mod exit;
pub mod io;
pub mod json;
pub mod known;
pub mod memory;
pub mod oom;
pub mod panics;
pub mod preempt;
pub mod project;
pub mod refread;
pub mod registry;
pub mod sched;
pub mod sharing;
pub mod sinks;
pub mod streams;
pub mod threads;
pub mod values;
pub mod weak;
pub mod world;
