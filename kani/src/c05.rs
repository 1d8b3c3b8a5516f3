//! C05 every value written to a TIFF/DNG directory is stored as the TIFF specification
//! says, and every stored value is read back with the same type, count and content.
use crate::sym::*;
use crate::tiffspec::*;
use crate::{harnesses, hooked};
use rawler::bits::Endian;
use rawler::formats::tiff::reader::EndianReader;
use rawler::formats::tiff::*;
use std::io::Cursor;

/// Value written with the real writer: its type, count and size, and its bytes, both
/// in a data block and (up to four bytes) inside the field, as TIFF 6.0 says.
/// `want[k]` is the k-th byte of the value's little-endian TIFF representation.
fn writes<const N: usize>(v: Value, typ: u16, count: u32, want: &[u8; N]) {
  assert!(v.value_type() == typ && v.count() == count as usize && v.byte_size() == N, "type, count and size");
  let k: usize = any();
  assume(k < N);
  let mut m = Mem::<24>::new();
  v.write(&mut m).unwrap();
  assert!(m.len == N && m.buf[k] == want[k], "the stored bytes are the value");
  if N <= 4 {
    let e = v.as_embedded().unwrap();
    assert!((e >> (8 * k)) as u8 == want[k], "the embedded bytes are the value");
    assert!(N == 4 || e >> (8 * (N % 4)) == 0, "unused value bytes are zero");
  } else {
    let r = v.as_embedded();
    assert!(r.is_err(), "larger values are never squeezed into the field");
    std::mem::forget(r);
  }
  std::mem::forget(v);
}

/// Reads one field stored as the specification says (little endian if `le`).
fn read<const N: usize>(typ: u16, count: u32, data: [u8; N], le: bool) -> Entry {
  let mut m = Mem::<48>::new();
  let (e16, e32) = (|x: u16| if le { x.to_le_bytes() } else { x.to_be_bytes() }, |x: u32| if le { x.to_le_bytes() } else { x.to_be_bytes() });
  m.buf[2..4].copy_from_slice(&e16(typ));
  m.buf[4..8].copy_from_slice(&e32(count));
  let at = if N <= 4 { 8 } else { 20 };
  if N > 4 { m.buf[8..12].copy_from_slice(&e32(20)); }
  m.buf[at..at + N].copy_from_slice(&data);
  m.len = 48;
  m.pos = 2;
  let mut r = EndianReader::new(&mut m, if le { Endian::Little } else { Endian::Big });
  let e = Entry::parse(&mut r, 0, 0, 700).unwrap();
  assert!(r.position().unwrap() == 12, "the reader is left at the next field");
  assert!(e.tag == 700 && e.value.value_type() == typ && e.value.count() == count as usize, "tag, type, count");
  assert!(e.offset() == Some(at), "where the data is");
  e
}
fn le2<const N: usize, const M: usize>(v: [[u8; N]; M]) -> Vec<u8> { v.concat() }
fn flat<const W: usize, const M: usize, const N: usize>(v: [[u8; W]; M]) -> [u8; N] {
  let mut o = [0u8; N];
  for i in 0..M { for j in 0..W { o[i * W + j] = v[i][j]; } }
  o
}

macro_rules! wr {
  ($($name:ident $t:ty, $n:literal, $w:literal, $typ:literal, $bytes:literal, $ctor:expr;)*) => {
    harnesses! { $(fn $name [10] {
      let v: [$t; $n] = any();
      let want: [u8; $bytes] = flat(v.map(|x| x.to_le_bytes()));
      writes::<$bytes>($ctor(v.to_vec()), $typ, $n, &want);
    })* 
  fn p_write_rational [10] {
    let v: [u32; 2] = any();
    writes::<8>(Value::Rational(vec![Rational::new(v[0], v[1])]), 5, 1, &flat(v.map(|x| x.to_le_bytes())));
  }
  fn p_write_srational [10] {
    let v: [i32; 4] = any();
    writes::<16>(Value::SRational(vec![SRational::new(v[0], v[1]), SRational::new(v[2], v[3])]), 10, 2, &flat(v.map(|x| x.to_le_bytes())));
  }
  fn p_write_unknown [10] {
    let v: [u8; 3] = any();
    writes::<3>(Value::Unknown(13, v.to_vec()), 13, 3, &v);
  }
  #[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, crate::sym::first_match))]
  fn p_write_ascii [8] {
    let (a, b): (u8, u8) = (any(), any());
    assume(a > 0 && a < 128 && b > 0 && b < 128);
    let txt = [a, b];
    let t = TiffAscii::new(unsafe { std::str::from_utf8_unchecked(&txt) });
    assert!(t.count() == 3, "text plus terminator");
    let v = t.as_vec_with_nul();
    assert!(v.len() == 3 && v[0] == a && v[1] == b && v[2] == 0, "the stored bytes are the text and one NUL");
    std::mem::forget((t, v));
  }
  fn p_embedded_limits [6] {
    // only what fits into the four value bytes is embedded
    let v: [u16; 3] = any();
    assert!(Value::Short(v.to_vec()).as_embedded().is_err());
    assert!(Value::Short(vec![]).as_embedded().is_err());
    assert!(Value::Short(vec![v[0], v[1]]).as_embedded().ok() == Some(v[0] as u32 | (v[1] as u32) << 16));
  }
  fn p_read_byte_le [12] {
    let d: [u8; 3] = any();
    let k = range(0, 2);
    match read(1, 3, d, true).value { Value::Byte(v) => assert!(v[k] == d[k]), _ => assert!(false, "type") }
  }
  fn p_read_byte_long_le [12] {
    let d: [u8; 5] = any();
    let k = range(0, 4);
    match read(1, 5, d, true).value { Value::Byte(v) => assert!(v[k] == d[k]), _ => assert!(false, "type") }
  }
  fn p_read_undefined_le [12] {
    let d: [u8; 4] = any();
    let k = range(0, 3);
    match read(7, 4, d, true).value { Value::Undefined(v) => assert!(v[k] == d[k]), _ => assert!(false, "type") }
  }
  fn p_read_undefined_long_le [12] {
    let d: [u8; 6] = any();
    let k = range(0, 5);
    match read(7, 6, d, true).value { Value::Undefined(v) => assert!(v[k] == d[k]), _ => assert!(false, "type") }
  }
  fn p_read_sbyte_le [12] {
    let d: [u8; 3] = any();
    let k = range(0, 2);
    match read(6, 3, d, true).value { Value::SByte(v) => assert!(v[k] == d[k] as i8), _ => assert!(false, "type") }
  }
  fn p_read_unknown_0 [12] {
    let d: [u8; 3] = any();
    match read(0, 3, d, true).value { Value::Unknown(t, v) => assert!(t == 0 && v[..] == d), _ => assert!(false, "type") }
  }
  fn p_read_unknown_13 [12] {
    let d: [u8; 3] = any();
    match read(13, 3, d, true).value { Value::Unknown(t, v) => assert!(t == 13 && v[..] == d), _ => assert!(false, "type") }
  }
  fn p_read_unknown_65535 [12] {
    let d: [u8; 3] = any();
    match read(65535, 3, d, true).value { Value::Unknown(t, v) => assert!(t == 65535 && v[..] == d), _ => assert!(false, "type") }
  }
  fn p_read_short_le [12] {
    let d: [u8; 4] = any();
    let k = range(0, 1);
    match read(3, 2, d, true).value { Value::Short(v) => assert!(v[k] == u16::from_le_bytes([d[2 * k], d[2 * k + 1]])), _ => assert!(false, "type") }
  }
  fn p_read_short_long_le [12] {
    let d: [u8; 6] = any();
    let k = range(0, 2);
    match read(3, 3, d, true).value { Value::Short(v) => assert!(v[k] == u16::from_le_bytes([d[2 * k], d[2 * k + 1]])), _ => assert!(false, "type") }
  }
  fn p_read_sshort_le [12] {
    let d: [u8; 4] = any();
    let k = range(0, 1);
    match read(8, 2, d, true).value { Value::SShort(v) => assert!(v[k] == u16::from_le_bytes([d[2 * k], d[2 * k + 1]]) as i16), _ => assert!(false, "type") }
  }
  fn p_read_long_le [12] {
    let d: [u8; 4] = any();
    match read(4, 1, d, true).value { Value::Long(v) => assert!(v[0] == u32::from_le_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_long_long_le [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(4, 2, d, true).value { Value::Long(v) => assert!(v[k] == u32::from_le_bytes([d[4 * k], d[4 * k + 1], d[4 * k + 2], d[4 * k + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_slong_le [12] {
    let d: [u8; 4] = any();
    match read(9, 1, d, true).value { Value::SLong(v) => assert!(v[0] == u32::from_le_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) as i32), _ => assert!(false, "type") }
  }
  fn p_read_float_le [12] {
    let d: [u8; 4] = any();
    match read(11, 1, d, true).value { Value::Float(v) => assert!(v[0].to_bits() == u32::from_le_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_rational_le [12] {
    let d: [u8; 8] = any();
    match read(5, 1, d, true).value { Value::Rational(v) => assert!(v[0].n == u32::from_le_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) && v[0].d == u32::from_le_bytes([d[4 * 1], d[4 * 1 + 1], d[4 * 1 + 2], d[4 * 1 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_srational_le [12] {
    let d: [u8; 16] = any();
    match read(10, 2, d, true).value { Value::SRational(v) => assert!(v[1].n == u32::from_le_bytes([d[4 * 2], d[4 * 2 + 1], d[4 * 2 + 2], d[4 * 2 + 3]]) as i32 && v[1].d == u32::from_le_bytes([d[4 * 3], d[4 * 3 + 1], d[4 * 3 + 2], d[4 * 3 + 3]]) as i32 && v[0].n == u32::from_le_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) as i32), _ => assert!(false, "type") }
  }
  fn p_read_double_le [12] {
    let d: [u8; 8] = any();
    match read(12, 1, d, true).value { Value::Double(v) => assert!(v[0].to_bits() == u64::from_le_bytes(d)), _ => assert!(false, "type") }
  }
  fn p_read_short_be [12] {
    let d: [u8; 4] = any();
    let k = range(0, 1);
    match read(3, 2, d, false).value { Value::Short(v) => assert!(v[k] == u16::from_be_bytes([d[2 * k], d[2 * k + 1]])), _ => assert!(false, "type") }
  }
  fn p_read_short_long_be [12] {
    let d: [u8; 6] = any();
    let k = range(0, 2);
    match read(3, 3, d, false).value { Value::Short(v) => assert!(v[k] == u16::from_be_bytes([d[2 * k], d[2 * k + 1]])), _ => assert!(false, "type") }
  }
  fn p_read_sshort_be [12] {
    let d: [u8; 4] = any();
    let k = range(0, 1);
    match read(8, 2, d, false).value { Value::SShort(v) => assert!(v[k] == u16::from_be_bytes([d[2 * k], d[2 * k + 1]]) as i16), _ => assert!(false, "type") }
  }
  fn p_read_long_be [12] {
    let d: [u8; 4] = any();
    match read(4, 1, d, false).value { Value::Long(v) => assert!(v[0] == u32::from_be_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_long_long_be [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(4, 2, d, false).value { Value::Long(v) => assert!(v[k] == u32::from_be_bytes([d[4 * k], d[4 * k + 1], d[4 * k + 2], d[4 * k + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_slong_be [12] {
    let d: [u8; 4] = any();
    match read(9, 1, d, false).value { Value::SLong(v) => assert!(v[0] == u32::from_be_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) as i32), _ => assert!(false, "type") }
  }
  fn p_read_float_be [12] {
    let d: [u8; 4] = any();
    match read(11, 1, d, false).value { Value::Float(v) => assert!(v[0].to_bits() == u32::from_be_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_rational_be [12] {
    let d: [u8; 8] = any();
    match read(5, 1, d, false).value { Value::Rational(v) => assert!(v[0].n == u32::from_be_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) && v[0].d == u32::from_be_bytes([d[4 * 1], d[4 * 1 + 1], d[4 * 1 + 2], d[4 * 1 + 3]])), _ => assert!(false, "type") }
  }
  fn p_read_srational_be [12] {
    let d: [u8; 16] = any();
    match read(10, 2, d, false).value { Value::SRational(v) => assert!(v[1].n == u32::from_be_bytes([d[4 * 2], d[4 * 2 + 1], d[4 * 2 + 2], d[4 * 2 + 3]]) as i32 && v[1].d == u32::from_be_bytes([d[4 * 3], d[4 * 3 + 1], d[4 * 3 + 2], d[4 * 3 + 3]]) as i32 && v[0].n == u32::from_be_bytes([d[4 * 0], d[4 * 0 + 1], d[4 * 0 + 2], d[4 * 0 + 3]]) as i32), _ => assert!(false, "type") }
  }
  fn p_read_double_be [12] {
    let d: [u8; 8] = any();
    match read(12, 1, d, false).value { Value::Double(v) => assert!(v[0].to_bits() == u64::from_be_bytes(d)), _ => assert!(false, "type") }
  }
  fn p_read_sshort_long_le [12] {
    let d: [u8; 6] = any();
    let k = range(0, 2);
    match read(8, 3, d, true).value { Value::SShort(v) => assert!(v[k] == u16::from_le_bytes(d[2 * k..2 * k + 2].try_into().unwrap()) as i16), _ => assert!(false, "type") }
  }
  fn p_read_slong_long_le [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(9, 2, d, true).value { Value::SLong(v) => assert!(v[k] == u32::from_le_bytes(d[4 * k..4 * k + 4].try_into().unwrap()) as i32), _ => assert!(false, "type") }
  }
  fn p_read_float_long_le [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(11, 2, d, true).value { Value::Float(v) => assert!(v[k].to_bits() == u32::from_le_bytes(d[4 * k..4 * k + 4].try_into().unwrap())), _ => assert!(false, "type") }
  }
  fn p_read_sshort_long_be [12] {
    let d: [u8; 6] = any();
    let k = range(0, 2);
    match read(8, 3, d, false).value { Value::SShort(v) => assert!(v[k] == u16::from_be_bytes(d[2 * k..2 * k + 2].try_into().unwrap()) as i16), _ => assert!(false, "type") }
  }
  fn p_read_slong_long_be [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(9, 2, d, false).value { Value::SLong(v) => assert!(v[k] == u32::from_be_bytes(d[4 * k..4 * k + 4].try_into().unwrap()) as i32), _ => assert!(false, "type") }
  }
  fn p_read_float_long_be [12] {
    let d: [u8; 8] = any();
    let k = range(0, 1);
    match read(11, 2, d, false).value { Value::Float(v) => assert!(v[k].to_bits() == u32::from_be_bytes(d[4 * k..4 * k + 4].try_into().unwrap())), _ => assert!(false, "type") }
  }
  fn p_read_sbyte_long_le [12] {
    let d: [u8; 5] = any();
    let k = range(0, 4);
    match read(6, 5, d, true).value { Value::SByte(v) => assert!(v[k] == d[k] as i8), _ => assert!(false, "type") }
  }
  fn p_read_unknown_long [12] {
    let d: [u8; 5] = any();
    let k = range(0, 4);
    match read(13, 5, d, true).value { Value::Unknown(t, v) => assert!(t == 13 && v[k] == d[k]), _ => assert!(false, "type") }
  }
  fn p_read_double_long [12] {
    let d: [u8; 16] = any();
    let k = range(0, 1);
    match read(12, 2, d, true).value { Value::Double(v) => assert!(v[k].to_bits() == u64::from_le_bytes(d[8 * k..8 * k + 8].try_into().unwrap())), _ => assert!(false, "type") }
  }
  #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::sym::ascii_utf8))]
  fn p_read_ascii [10] {
    // the text ends at the first NUL, or at the end of the field
    let d: [u8; 3] = any();
    for x in d { assume(x < 128); }
    let a = TiffAscii::new_from_raw(&d);
    let s = a.first().unwrap().as_bytes();
    let k = range(0, 2);
    if k < s.len() { assert!(s[k] == d[k] && d[k] != 0, "text") }
    assert!(s.len() == 3 || d[s.len()] == 0, "ends at the first NUL");
    assert!(a.as_bytes()[k] == d[k], "raw bytes kept");
    std::mem::forget(a);
  }
  } };
}
wr! {
  p_write_byte u8, 3, 1, 1, 3, Value::Byte;
  p_write_byte_long u8, 5, 1, 1, 5, Value::Byte;
  p_write_undefined u8, 4, 1, 7, 4, Value::Undefined;
  p_write_short1 u16, 1, 2, 3, 2, Value::Short;
  p_write_short u16, 2, 2, 3, 4, Value::Short;
  p_write_short_long u16, 3, 2, 3, 6, Value::Short;
  p_write_long u32, 1, 4, 4, 4, Value::Long;
  p_write_long_long u32, 2, 4, 4, 8, Value::Long;
  p_write_sbyte i8, 4, 1, 6, 4, Value::SByte;
  p_write_sbyte_long i8, 5, 1, 6, 5, Value::SByte;
  p_write_sshort i16, 2, 2, 8, 4, Value::SShort;
  p_write_sshort_long i16, 3, 2, 8, 6, Value::SShort;
  p_write_slong i32, 1, 4, 9, 4, Value::SLong;
  p_write_slong_long i32, 2, 4, 9, 8, Value::SLong;
  p_write_double f64, 1, 8, 12, 8, Value::Double;
  p_write_float_long f32, 2, 4, 11, 8, Value::Float;
  p_write_float f32, 1, 4, 11, 4, Value::Float;
}
hooked! {}
