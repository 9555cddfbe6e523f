#![allow(dead_code, static_mut_refs, unused_must_use, non_upper_case_globals)]
#[macro_use]
mod reg;
pub mod fs;
pub mod model;
pub mod reader;
pub mod rt;

pub mod base;
#[cfg(feature = "hooks")]
pub mod hooks;
#[cfg(feature = "far")]
pub mod far;
#[cfg(feature = "mlog")]
pub mod log;
#[cfg(feature = "sync")]
pub mod net;
#[cfg(feature = "capi")]
pub mod cabi;

pub fn entries() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
    v.extend_from_slice(base::ENTRIES);
    #[cfg(feature = "hooks")]
    v.extend_from_slice(hooks::ENTRIES);
    #[cfg(feature = "far")]
    v.extend_from_slice(far::ENTRIES);
    #[cfg(feature = "mlog")]
    v.extend_from_slice(log::ENTRIES);
    #[cfg(feature = "sync")]
    v.extend_from_slice(net::ENTRIES);
    #[cfg(feature = "capi")]
    v.extend_from_slice(cabi::ENTRIES);
    v
}
