//! Contracts for /repo, checked against the crate compiled from /repo's working tree.
//! One module per property (module = cargo feature).
#![allow(dead_code, unused_imports, unused_macros)]
pub mod sym;
pub mod spec;
pub mod tiffspec;

macro_rules! properties {
  ($($f:literal $m:ident),*) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    /// Every harness of the enabled properties, for native replay.
    pub fn all() -> Vec<(String, fn())> {
      #[allow(unused_mut)]
      let mut v: Vec<(String, fn())> = Vec::new();
      $(#[cfg(feature = $f)] for (n, f) in $m::TABLE { v.push((format!("{}::{}", stringify!($m), n), *f)); })*
      $(#[cfg(all(feature = $f, dnglab_verif))] for (n, f) in $m::HOOKED { v.push((format!("{}::{}", stringify!($m), n), *f)); })*
      v
    }
  };
}
include!("list.rs");
