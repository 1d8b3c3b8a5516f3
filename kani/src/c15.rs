//! C15 numbers taken from a field's value: the stored number, or nothing - never a wrapped
//! or neighbouring one.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::formats::tiff::{Rational, SRational, TiffAscii, Value};
use rawler::formats::tiff::{CompressionMethod, PhotometricInterpretation, PlanarConfiguration, Predictor, PreviewColorSpace, ResolutionUnit, SampleFormat};
use rawler::imgop::xyz::Illuminant;

/// Index into a value of three numbers: inside, just outside, or anywhere.
fn index() -> usize { if cfg!(kani) { any() } else { range(0, 4) } }

/// One accessor on one integer type: `$get`/`$force` on `Value::$variant([$src; 3])`.
macro_rules! ints { ($dst:ty, $get:ident, $force:ident; $($variant:ident $src:ty),*) => { $({
  let a: [$src; 3] = any();
  let v = Value::$variant(vec![a[0], a[1], a[2]]);
  let i = index();
  let g = v.$get(i);
  let f = v.$force(i);
  if i >= 3 {
    assert!(matches!(g, Ok(None)) && f == 0, "an index outside the value yields nothing");
  } else {
    let x = a[i] as i128;
    let fits = x >= <$dst>::MIN as i128 && x <= <$dst>::MAX as i128;
    assert!(g.is_ok() == fits, "exactly the numbers the type can hold are delivered");
    if let Ok(o) = g { assert!(o == Some(x as $dst), "the stored number is delivered"); }
    assert!(f == if fits { x as $dst } else { 0 }, "forced: the number, or zero");
  }
  std::mem::forget(v);
})* } }
/// Truncation toward zero, limited to the range of the type (the meaning of `as`).
macro_rules! floats { ($dst:ty, $get:ident, $force:ident; $($variant:ident $src:ty),*) => { $({
  let a: [$src; 3] = any();
  let v = Value::$variant(vec![a[0], a[1], a[2]]);
  let i = index();
  let g = v.$get(i);
  let f = v.$force(i);
  if i >= 3 {
    assert!(matches!(g, Ok(None)) && f == 0, "an index outside the value yields nothing");
  } else {
    let x = a[i];
    let Ok(Some(y)) = g else { panic!("a float is always delivered") };
    assert!(f == y, "forced and plain access agree");
    if x.is_nan() { assert!(y == 0); }
    else if x >= <$dst>::MAX as $src { assert!(y == <$dst>::MAX, "large numbers are limited"); }
    else if x <= <$dst>::MIN as $src { assert!(y == <$dst>::MIN, "small numbers are limited"); }
    else { assert!((y as $src) == x.trunc() , "the whole part is delivered"); }
  }
  std::mem::forget(v);
})* } }
/// Whole fractions: n/1.
macro_rules! whole { ($dst:ty, $get:ident) => {{
  let n: u32 = any();
  let v = Value::Rational(vec![Rational::new(n, 1)]);
  let m = <$dst>::MAX as u128;
  let want = if n as u128 > m { <$dst>::MAX } else { n as $dst };
  assert!(matches!(v.$get(0), Ok(Some(y)) if y == want), "a whole fraction is delivered unrounded");
  assert!(matches!(v.$get(1), Ok(None)));
  std::mem::forget(v);
  let n: i32 = any();
  let v = Value::SRational(vec![SRational::new(n, 1)]);
  let x = n as i128;
  let want = if x > <$dst>::MAX as i128 { <$dst>::MAX } else if x < <$dst>::MIN as i128 { <$dst>::MIN } else { x as $dst };
  assert!(matches!(v.$get(0), Ok(Some(y)) if y == want), "a whole fraction is delivered unrounded");
  std::mem::forget(v);
}} }
macro_rules! text { ($($get:ident),*) => { $({
  let i = index();
  let v = Value::Undefined(Vec::new());
  assert!(v.$get(i).is_err(), "uninterpreted data is no number");
  std::mem::forget(v);
  let v = Value::Unknown(any(), Vec::new());
  assert!(v.$get(i).is_err(), "unknown data is no number");
  std::mem::forget(v);
  let v = Value::Ascii(TiffAscii::new_from_vec(Vec::new()));
  assert!(v.$get(i).is_err(), "text is no number");
  std::mem::forget(v);
})* } }
/// The order of two fractions with non-zero denominators, as numbers.
fn cmp_spec(n1: i64, d1: i64, n2: i64, d2: i64) -> std::cmp::Ordering {
  let (n1, d1) = if d1 < 0 { (-n1, -d1) } else { (n1, d1) };
  let (n2, d2) = if d2 < 0 { (-n2, -d2) } else { (n2, d2) };
  (n1 * d2).cmp(&(n2 * d1))
}
macro_rules! small { ($t:ty, $bits:literal) => {{ let x: $t = any(); if cfg!(kani) { let y = x as i64; assume(y >= -(1i64 << $bits) && y < (1i64 << $bits)); } x }} }

macro_rules! all_ints { ($dst:ty, $get:ident, $force:ident) => { ints!($dst, $get, $force; Byte u8, Short u16, Long u32, SByte i8, SShort i16, SLong i32) } }
macro_rules! ratio { ($dst:ty, $get:ident, $n:expr, $d:expr, $u:expr) => {{
  let v = Value::Rational(vec![$u]);
  let w = ($u.n / $u.d) as u128;
  let want = if w > <$dst>::MAX as u128 { <$dst>::MAX } else { w as $dst };
  assert!(matches!(v.$get(0), Ok(Some(y)) if y == want), "a fraction is delivered as its whole part");
  let v = Value::SRational(vec![SRational::new($n, $d)]);
  let w = $n as i128 / $d as i128;
  let want = if w > <$dst>::MAX as i128 { <$dst>::MAX } else if w < <$dst>::MIN as i128 { <$dst>::MIN } else { w as $dst };
  assert!(matches!(v.$get(0), Ok(Some(y)) if y == want), "a fraction is delivered as its whole part");
}} }

harnesses! {
  fn p_usize [2] { all_ints!(usize, get_usize, force_usize); }
  fn p_u8 [2] { all_ints!(u8, get_u8, force_u8); }
  fn p_u16 [2] { all_ints!(u16, get_u16, force_u16); }
  fn p_u32 [2] { all_ints!(u32, get_u32, force_u32); }
  fn p_u64 [2] { all_ints!(u64, get_u64, force_u64); }
  fn p_i8 [2] { all_ints!(i8, get_i8, force_i8); }
  fn p_i16 [2] { all_ints!(i16, get_i16, force_i16); }
  fn p_i32 [2] { all_ints!(i32, get_i32, force_i32); }
  fn p_i64 [2] { all_ints!(i64, get_i64, force_i64); }
  fn p_float_u8 [2] { floats!(u8, get_u8, force_u8; Float f32, Double f64); }
  fn p_float_u16 [2] { floats!(u16, get_u16, force_u16; Float f32, Double f64); }
  fn p_float_u32 [2] { floats!(u32, get_u32, force_u32; Float f32, Double f64); }
  fn p_float_u64 [2] { floats!(u64, get_u64, force_u64; Float f32, Double f64); }
  fn p_float_usize [2] { floats!(usize, get_usize, force_usize; Float f32, Double f64); }
  fn p_float_i8 [2] { floats!(i8, get_i8, force_i8; Float f32, Double f64); }
  fn p_float_i16 [2] { floats!(i16, get_i16, force_i16; Float f32, Double f64); }
  fn p_float_i32 [2] { floats!(i32, get_i32, force_i32; Float f32, Double f64); }
  fn p_float_i64 [2] { floats!(i64, get_i64, force_i64; Float f32, Double f64); }
  fn p_whole_small [2] { whole!(u8, get_u8); whole!(u16, get_u16); whole!(i8, get_i8); whole!(i16, get_i16); }
  fn p_whole_large [2] { whole!(u32, get_u32); whole!(i32, get_i32); whole!(u64, get_u64); whole!(i64, get_i64); whole!(usize, get_usize); }
  fn p_text [2] { text!(get_usize, get_u8, get_u16, get_u32, get_u64, get_i8, get_i16, get_i32, get_i64, get_f32); }
  /// Numbers as floats: exact for 8 and 16 bit, the nearest float otherwise.
  fn p_f32 [2] {
    macro_rules! exact { ($($variant:ident $src:ty),*) => { $({
      let a: [$src; 3] = any();
      let v = Value::$variant(vec![a[0], a[1], a[2]]);
      let i = index();
      match v.get_f32(i) {
        Ok(Some(y)) => assert!(i < 3 && (y == a[i] as f32 || (a[i] != a[i] && y.is_nan())), "the stored number is delivered"),
        Ok(None) => assert!(i >= 3, "an index outside the value yields nothing"),
        Err(_) => panic!("a number is always delivered as float"),
      }
      let f = v.force_f32(i);
      assert!(if i >= 3 { f == 0.0 } else { f == a[i] as f32 || a[i] != a[i] });
      std::mem::forget(v);
    })* } }
    exact!(Byte u8, Short u16, Long u32, SByte i8, SShort i16, SLong i32, Float f32, Double f64);
  }
  /// Fractions compare as the numbers they denote (operands of 6 bits, denominators not zero).
  fn b_order_unsigned [2] {
    let (a, b) = (Rational::new(small!(u32, 6), small!(u32, 6)), Rational::new(small!(u32, 6), small!(u32, 6)));
    assume(a.d != 0 && b.d != 0);
    let o = cmp_spec(a.n as i64, a.d as i64, b.n as i64, b.d as i64);
    assert!(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "fractions are ordered as numbers");
    assert!((a == b) == (o == std::cmp::Ordering::Equal), "fractions are equal exactly when the numbers are");
  }
  fn b_order_signed [2] {
    let (a, b) = (SRational::new(small!(i32, 6), small!(i32, 6)), SRational::new(small!(i32, 6), small!(i32, 6)));
    assume(a.d != 0 && b.d != 0);
    let o = cmp_spec(a.n as i64, a.d as i64, b.n as i64, b.d as i64);
    assert!(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "fractions are ordered as numbers");
    assert!((a == b) == (o == std::cmp::Ordering::Equal), "fractions are equal exactly when the numbers are");
  }
  /// Coded attributes keep their TIFF codes.
  fn p_codes [2] {
    let x: u16 = any();
    macro_rules! code { ($t:ident, $short:ident, $($c:literal),*) => {
      match $t::n(x) {
        Some(e) => {
          assert!(e as u16 == x, "a code denotes the attribute of that number");
          let v = Value::from(e);
          assert!(matches!(&v, Value::$short(w) if w.len() == 1 && w[0] as u16 == x), "an attribute is stored as its code");
          std::mem::forget(v);
          assert!($(x == $c)||*, "only TIFF's codes are known");
        }
        None => assert!($(x != $c)&&*, "all of TIFF's codes are known"),
      }
    } }
    code!(CompressionMethod, Short, 1, 2, 3, 4, 5, 6, 7, 8, 0x80B2, 0x8005, 34892, 52546);
    code!(PhotometricInterpretation, Short, 0, 1, 2, 3, 4, 5, 6, 8, 32803, 34892);
    code!(PreviewColorSpace, Long, 0, 1, 2, 3, 5);
    code!(PlanarConfiguration, Short, 1, 2);
    code!(Predictor, Short, 1, 2);
    code!(ResolutionUnit, Short, 1, 2, 3);
    code!(SampleFormat, Short, 1, 2, 3, 4);
    match Illuminant::try_from(x) {
      Ok(i) => assert!(u16::from(i) == x, "an illuminant keeps its EXIF code"),
      Err(e) => { assert!(x > 24 || (5..=8).contains(&x) || x == 16, "all EXIF illuminants are known"); std::mem::forget(e) }
    }
  }
  /// Fractions with any denominator: the whole part, limited to the type.
  fn n_fractions [1] {
    for _ in 0..16 {
      let a: [u32; 2] = any();
      let b: [i32; 2] = any();
      let s = [0u32, 4, 8, 16, 24][range(0, 4)];
      let (u, n, d) = (Rational::new(a[0], (a[1] >> s).max(1)), b[0], if b[1] >> s == 0 { 1 } else { b[1] >> s });
      ratio!(u8, get_u8, n, d, u); ratio!(u16, get_u16, n, d, u); ratio!(u32, get_u32, n, d, u); ratio!(u64, get_u64, n, d, u); ratio!(usize, get_usize, n, d, u);
      ratio!(i8, get_i8, n, d, u); ratio!(i16, get_i16, n, d, u); ratio!(i32, get_i32, n, d, u); ratio!(i64, get_i64, n, d, u);
      let f = Value::Rational(vec![u]).force_f32(0) as f64;
      let q = u.n as f64 / u.d as f64;
      assert!((f - q).abs() <= q * 2.5e-7 && (u.as_f32() as f64 - q).abs() <= q * 2.5e-7, "a fraction as float");
      let f = Value::SRational(vec![SRational::new(n, d)]).force_f32(0) as f64;
      let q = n as f64 / d as f64;
      assert!((f - q).abs() <= q.abs() * 2.5e-7, "a fraction as float");
      let (x, y) = (SRational::new(n, d), SRational::new(b[1], if b[0] >> s == 0 { 1 } else { b[0] >> s }));
      let o = cmp_spec(x.n as i64, x.d as i64, y.n as i64, y.d as i64);
      assert!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "fractions are ordered as numbers");
    }
  }
  /// Fractions built from floats stay within one part of the denominator.
  fn n_from_float [1] {
    for _ in 0..16 {
      let a: [u16; 3] = any();
      let x = a[0] as f32 / (a[1] as f32 + 1.0);
      let d = [1u32, 10, 1000, 10000][range(0, 3)];
      for r in [Rational::new_f32(x, d), Rational::new_f64(x as f64, d)] {
        assert!(r.d == d && (r.n as f64 - x as f64 * d as f64).abs() < 1.0 + x as f64 * d as f64 * 2e-7, "the fraction approximates the float");
      }
      assert!(Rational::from(a[2]) == Rational::new(a[2] as u32, 1) && Rational::from(a[2] as u32) == Rational::new(a[2] as u32, 1) && Rational::from(a[2] as u8) == Rational::new(a[2] as u8 as u32, 1));
      let y = a[0] as f32 / 64.0;
      let r = Rational::from(y);
      assert!(r.n as f64 / r.d as f64 == y as f64, "a short binary fraction is exact");
    }
  }
}
hooked! {}
