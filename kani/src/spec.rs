//! Specification functions shared by several properties.

/// Bits `at .. at+n` (n <= 32) of `s`, bit 0 of the stream = LSB of byte 0.
/// Positions past the end are zero.
pub fn bits_lsb(s: &[u8], at: u32, n: u32) -> u32 {
  let mut w = 0u64;
  let b = (at / 8) as usize;
  let mut j = 0;
  while j < 5 {
    if b + j < s.len() { w |= (s[b + j] as u64) << (8 * j); }
    j += 1;
  }
  ((w >> (at % 8)) & ((1u64 << n) - 1)) as u32
}

/// Bits `at .. at+n` (n <= 32) of `s`, bit 0 of the stream = MSB of byte 0.
/// Positions past the end are zero.
pub fn bits_msb(s: &[u8], at: u32, n: u32) -> u32 {
  let mut w = 0u64;
  let b = (at / 8) as usize;
  let mut j = 0;
  while j < 5 {
    if b + j < s.len() { w |= (s[b + j] as u64) << (32 - 8 * j); }
    j += 1;
  }
  ((w >> (40 - at % 8 - n)) & ((1u64 << n) - 1)) as u32
}

/// The value of an IEEE-like float with `e` exponent and `f` fraction bits, exactly.
pub fn value(bits: u32, e: u32, f: u32) -> f64 {
  let neg = (bits >> (e + f)) & 1 == 1;
  let ex = (bits >> f) & ((1 << e) - 1);
  let fr = bits & ((1 << f) - 1);
  let bias = (1i32 << (e - 1)) - 1;
  // 2^k as f64
  let pow2 = |k: i32| f64::from_bits(((k + 1023) as u64) << 52);
  let mag = if ex == 0 { fr as f64 * pow2(1 - bias - f as i32) } else { (fr + (1 << f)) as f64 * pow2(ex as i32 - bias - f as i32) };
  if neg { -mag } else { mag }
}
pub fn same_float(got: f32, bits: u32, e: u32, f: u32) -> bool {
  let ex = (bits >> f) & ((1 << e) - 1);
  let fr = bits & ((1 << f) - 1);
  let neg = (bits >> (e + f)) & 1 == 1;
  if ex == (1 << e) - 1 {
    if fr == 0 { got.is_infinite() && got.is_sign_negative() == neg } else { got.is_nan() }
  } else {
    got as f64 == value(bits, e, f) && got.is_sign_negative() == neg
  }
}

