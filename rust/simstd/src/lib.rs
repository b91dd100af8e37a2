//! The standard library with its synchronisation primitives simulated.
pub use std::*;
pub use std::{format, print, println, eprint, eprintln, vec, write, writeln, assert, assert_eq, assert_ne, panic, matches,
    debug_assert, debug_assert_eq, debug_assert_ne, todo, unreachable, unimplemented, thread_local, concat, stringify, line, file, env, include_str, dbg};
pub mod sync {
    pub use simrt::sync::*;
}
