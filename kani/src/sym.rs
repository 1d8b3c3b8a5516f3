//! Symbolic inputs. Under Kani a value is universally quantified; natively it is read
//! from the bytes of a counterexample, so that every harness can be replayed against
//! the real code built without any stand-in crate.

#[cfg(kani)]
mod imp {
  pub trait Sym: kani::Arbitrary {}
  impl<T: kani::Arbitrary> Sym for T {}
  #[inline(always)]
  pub fn any<T: Sym>() -> T { kani::any() }
  #[inline(always)]
  pub fn assume(c: bool) { kani::assume(c) }
  pub fn reach(c: bool) { kani::cover(c, "reachable") }
}

#[cfg(not(kani))]
mod imp {
  use std::cell::RefCell;
  thread_local! {
    static BYTES: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
  }
  /// Payload of the panic that ends a native run whose inputs violate a precondition.
  pub struct Infeasible;
  pub fn load(bytes: Vec<u8>) { BYTES.with(|b| *b.borrow_mut() = (bytes, 0)) }
  pub fn take(n: usize) -> Vec<u8> {
    BYTES.with(|b| {
      let mut b = b.borrow_mut();
      let (start, len) = (b.1, b.0.len());
      let mut out: Vec<u8> = b.0[start.min(len)..(start + n).min(len)].to_vec();
      out.resize(n, 0);
      b.1 = start + n;
      out
    })
  }
  pub trait Sym: Sized { fn sym() -> Self; }
  macro_rules! prim { ($($t:ty),*) => { $(impl Sym for $t { fn sym() -> Self {
    let v = take(std::mem::size_of::<$t>());
    let mut a = [0u8; std::mem::size_of::<$t>()];
    a.copy_from_slice(&v);
    <$t>::from_le_bytes(a)
  } })* } }
  prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
  impl Sym for bool { fn sym() -> Self { let b = take(1)[0]; assume(b < 2); b == 1 } }
  impl<T: Sym, const N: usize> Sym for [T; N] { fn sym() -> Self { std::array::from_fn(|_| T::sym()) } }
  pub fn any<T: Sym>() -> T { T::sym() }
  pub fn assume(c: bool) { if !c { std::panic::panic_any(Infeasible) } }
  pub fn reach(_c: bool) {}
}
pub use imp::*;

/// `lo <= x <= hi`
pub fn range(lo: usize, hi: usize) -> usize {
  let v: u8 = any();
  let v = v as usize;
  // natively any byte denotes a value in range, so that searches do not waste inputs
  let v = if !cfg!(kani) && hi >= lo && (v < lo || v > hi) { lo + v % (hi - lo + 1) } else { v };
  assume(v >= lo && v <= hi);
  v
}
/// A byte slice of any length in `lo..=N`, any content.
pub fn slice_of<const N: usize>(buf: &[u8; N], lo: usize) -> &[u8] {
  let n = range(lo, N);
  &buf[..n]
}

/// Under the verifier `format!` yields an empty string: the text of messages is outside
/// every property, and symbolic execution of the formatting machinery is expensive.
pub fn no_format(_: std::fmt::Arguments<'_>) -> String { String::new() }

/// Hash keys are arbitrary to the code under test; under the verifier they are fixed.
pub fn fixed_keys() -> std::hash::RandomState { unsafe { std::mem::transmute::<[u64; 2], std::hash::RandomState>([1, 2]) } }

/// Stand-ins for std string routines, for harnesses over 7-bit text: assumed contracts
/// "valid UTF-8 iff ..., here always" and "position of the first match".
pub fn ascii_utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> { Ok(unsafe { std::str::from_utf8_unchecked(b) }) }
pub fn first_match(x: u8, b: &[u8]) -> Option<usize> {
  let mut i = 0;
  while i < b.len() { if b[i] == x { return Some(i); } i += 1; }
  None
}

/// Declares harnesses: plain functions natively, `#[kani::proof]`s under Kani.
/// Names: `p_` complete (loops bounded by operand width or type), `b_` bounded
/// stand-in (small sizes), `tp_`/`tb_` the same but only in the thorough tier.
#[macro_export]
macro_rules! harnesses {
  ($($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
    $(
      $(#[$m])*
      #[cfg_attr(kani, kani::proof)]
      #[cfg_attr(kani, kani::unwind($unwind))]
      #[cfg_attr(kani, kani::stub(std::fmt::format, crate::sym::no_format))]
      pub fn $name() $body
    )*
    pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
  };
}
/// Harnesses over private items, reached through the guarded hooks of /repo.
#[macro_export]
macro_rules! hooked {
  ($($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
    $(
      $(#[$m])*
      #[cfg(dnglab_verif)]
      #[cfg_attr(kani, kani::proof)]
      #[cfg_attr(kani, kani::unwind($unwind))]
      #[cfg_attr(kani, kani::stub(std::fmt::format, crate::sym::no_format))]
      pub fn $name() $body
    )*
    #[cfg(dnglab_verif)]
    pub const HOOKED: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
  };
}
