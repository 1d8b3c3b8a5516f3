//! C02 bit pumps and byte streams: what is delivered is the buffer's bits, in the
//! documented order, whatever the widths of the earlier reads.
use crate::spec::*;
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::bits::Endian;
use rawler::pumps::*;

/// Two reads of any width bring the pump into any state it can be in between refills
/// (0..=31 bits buffered, any content); the third read is compared with the spec.
/// `$peek`: a peek of another width in between must not disturb anything.
macro_rules! pump_seq {
  ($p:expr, $spec:expr, $s:expr) => {{
    let s: &[u8] = $s;
    let mut p = $p;
    let (a, b, n): (u32, u32, u32) = (any(), any(), any());
    assume(a <= 32 && b <= 32 && n <= 32 && a + b + n <= 8 * s.len() as u32);
    let _ = p.get_bits(a);
    let _ = p.get_bits(b);
    assert!(p.get_bits(n) == $spec(s, a + b, n), "third read delivers the next bits of the buffer");
  }};
}
/// After one read of any width, a peek of n and a read of m bits both see the same position.
macro_rules! pump_peek {
  ($p:expr, $spec:expr, $s:expr) => {{
    let s: &[u8] = $s;
    let mut p = $p;
    let (a, n, m): (u32, u32, u32) = (any(), any(), any());
    assume(a <= 32 && n <= 32 && m <= 32 && a + n <= 8 * s.len() as u32 && a + m <= 8 * s.len() as u32);
    assume(n >= 1);
    let _ = p.get_bits(a);
    assert!(p.peek_bits(n) == $spec(s, a, n), "peek delivers the next bits");
    assert!(p.get_bits(m) == $spec(s, a, m), "peek does not consume");
  }};
}

/// MSB-first over 32-bit little-endian words: byte order reversed within each word,
/// a short last word reversed as a whole.
fn swap32<const N: usize>(s: &[u8; N]) -> [u8; N] {
  let mut o = [0u8; N];
  let mut i = 0;
  while i < N {
    let w = i / 4 * 4;
    let len = if N - w < 4 { N - w } else { 4 };
    o[i] = s[w + (len - 1 - (i - w))];
    i += 1;
  }
  o
}
fn revbits<const N: usize>(s: &[u8; N]) -> [u8; N] {
  let mut o = [0u8; N];
  let mut i = 0;
  while i < N { o[i] = s[i].reverse_bits(); i += 1; }
  o
}
/// JPEG entropy-coded segment: FF00 stands for FF; anything else after FF ends the data.
fn unstuff<const N: usize>(s: &[u8; N]) -> [u8; N] {
  let mut o = [0u8; N];
  let (mut i, mut k) = (0, 0);
  while i < N {
    if s[i] != 0xff { o[k] = s[i]; k += 1; i += 1; }
    else if i + 1 < N && s[i + 1] == 0 { o[k] = 0xff; k += 1; i += 2; }
    else { break; }
  }
  o
}

harnesses! {
  fn p_lsb_words [7] { let buf: [u8; 12] = any(); pump_seq!(BitPumpLSB::new(&buf), bits_lsb, &buf) }
  fn p_lsb_tail1 [7] { let buf: [u8; 5] = any(); pump_seq!(BitPumpLSB::new(&buf), bits_lsb, &buf) }
  fn p_lsb_tail2 [7] { let buf: [u8; 6] = any(); pump_seq!(BitPumpLSB::new(&buf), bits_lsb, &buf) }
  fn p_lsb_tail3 [7] { let buf: [u8; 7] = any(); pump_seq!(BitPumpLSB::new(&buf), bits_lsb, &buf) }
  fn p_lsb_peek [7] { let buf: [u8; 8] = any(); pump_peek!(BitPumpLSB::new(&buf), bits_lsb, &buf) }
  fn p_msb_words [7] { let buf: [u8; 12] = any(); pump_seq!(BitPumpMSB::new(&buf), bits_msb, &buf) }
  fn p_msb_tail1 [7] { let buf: [u8; 5] = any(); pump_seq!(BitPumpMSB::new(&buf), bits_msb, &buf) }
  fn p_msb_tail2 [7] { let buf: [u8; 6] = any(); pump_seq!(BitPumpMSB::new(&buf), bits_msb, &buf) }
  fn p_msb_tail3 [7] { let buf: [u8; 7] = any(); pump_seq!(BitPumpMSB::new(&buf), bits_msb, &buf) }
  fn p_msb_peek [7] { let buf: [u8; 8] = any(); pump_peek!(BitPumpMSB::new(&buf), bits_msb, &buf) }
  fn p_msb32_words [14] { let buf: [u8; 12] = any(); pump_seq!(BitPumpMSB32::new(&buf), bits_msb, &swap32(&buf)) }
  fn p_msb32_tail1 [9] { let buf: [u8; 5] = any(); pump_seq!(BitPumpMSB32::new(&buf), bits_msb, &swap32(&buf)) }
  fn p_msb32_tail2 [9] { let buf: [u8; 6] = any(); pump_seq!(BitPumpMSB32::new(&buf), bits_msb, &swap32(&buf)) }
  fn p_msb32_tail3 [9] { let buf: [u8; 7] = any(); pump_seq!(BitPumpMSB32::new(&buf), bits_msb, &swap32(&buf)) }
  fn p_msb32_peek [10] { let buf: [u8; 8] = any(); pump_peek!(BitPumpMSB32::new(&buf), bits_msb, &swap32(&buf)) }
  fn p_msb32_pos [9] {
    let buf: [u8; 12] = any();
    let mut p = BitPumpMSB32::new(&buf);
    let (a, b): (u32, u32) = (any(), any());
    assume(a <= 32 && b <= 32);
    let _ = p.get_bits(a);
    let _ = p.get_bits(b);
    assert!(p.get_pos() == (a + b).div_ceil(8) as usize, "byte position = bytes touched so far");
  }
  fn p_rev_words [14] { let buf: [u8; 12] = any(); pump_seq!(BitPumpReverseBitsMSB::new(&buf), bits_msb, &revbits(&buf)) }
  fn p_rev_peek [10] { let buf: [u8; 8] = any(); pump_peek!(BitPumpReverseBitsMSB::new(&buf), bits_msb, &revbits(&buf)) }

  fn p_jpeg_fast [14] {
    let buf: [u8; 12] = any();
    let mut p = BitPumpJPEG::new(&buf);
    let (a, n): (u32, u32) = (any(), any());
    assume(a <= 32 && n <= 32);
    let _ = p.get_bits(a);
    assert!(p.get_bits(n) == bits_msb(&unstuff(&buf), a, n), "read delivers the unstuffed bits, zero past the end");
  }
  fn p_jpeg_short [10] {
    let buf: [u8; 6] = any();
    let mut p = BitPumpJPEG::new(&buf);
    let (a, b, n): (u32, u32, u32) = (any(), any(), any());
    assume(a <= 32 && b <= 32 && n <= 32);
    let _ = p.get_bits(a);
    let _ = p.get_bits(b);
    assert!(p.get_bits(n) == bits_msb(&unstuff(&buf), a + b, n), "read delivers the unstuffed bits, zero past the end");
  }
  fn p_jpeg_tiny [10] {
    let buf: [u8; 3] = any();
    let mut p = BitPumpJPEG::new(&buf);
    let (a, b, n): (u32, u32, u32) = (any(), any(), any());
    assume(a <= 32 && b <= 32 && n <= 32);
    let _ = p.get_bits(a);
    let _ = p.get_bits(b);
    assert!(p.get_bits(n) == bits_msb(&unstuff(&buf), a + b, n), "read delivers the unstuffed bits, zero past the end");
  }
  fn p_jpeg_peek [12] {
    let buf: [u8; 8] = any();
    let mut p = BitPumpJPEG::new(&buf);
    let (a, n, m): (u32, u32, u32) = (any(), any(), any());
    assume(a <= 32 && n >= 1 && n <= 32 && m <= 32);
    let _ = p.get_bits(a);
    let _ = p.peek_bits(n);
    assert!(p.get_bits(m) == bits_msb(&unstuff(&buf), a, m), "peek does not consume");
  }

  fn p_signed [7] {
    let buf: [u8; 8] = any();
    let (a, n): (u32, u32) = (any(), any());
    assume(a <= 32 && n <= 32);
    let mut p = BitPumpMSB::new(&buf);
    let _ = p.get_bits(a);
    let v = bits_msb(&buf, a, n);
    let want = if n > 0 && (v >> (n - 1)) & 1 == 1 { v as i64 - (1i64 << n) } else { v as i64 };
    assert!(p.get_ibits_sextended(n) as i64 == want, "two's complement value of the n bits");
  }
  fn p_zerobits [7] {
    // at least 31 readable bits after the first one: the documented block size
    let buf: [u8; 12] = any();
    let a: u32 = any();
    assume(a <= 32);
    let mut p = BitPumpMSB::new(&buf);
    let _ = p.get_bits(a);
    let w = bits_msb(&buf, a, 32);
    assume(w != 0);
    let z = w.leading_zeros();
    assert!(p.consume_zerobits() == z, "number of zero bits before the next one bit");
    assert!(p.get_bits(1) == 1, "all zero bits are consumed and nothing else");
  }
  fn p_zerobits_lr [14] {
    let buf: [u8; 12] = any();
    let a: u32 = any();
    assume(a <= 32);
    let mut p = BitPumpJPEG::new(&buf);
    for i in 0..12usize { assume(buf[i] != 0xff); }
    let _ = p.get_bits(a);
    let w = bits_msb(&buf, a, 32);
    assume(w != 0);
    assert!(p.consume_zerobits() == w.leading_zeros(), "number of zero bits before the next one bit");
  }

  fn p_bytestream [14] {
    let buf: [u8; 12] = any();
    let big: bool = any();
    let mut s = ByteStream::new(&buf, if big { Endian::Big } else { Endian::Little });
    let skip: usize = any();
    assume(skip <= 3);
    s.consume_bytes(skip);
    let w = |at: usize, n: usize| -> u32 {
      let mut v = 0u32;
      let mut i = 0;
      while i < n { v |= (buf[at + i] as u32) << (8 * if big { n - 1 - i } else { i }); i += 1; }
      v
    };
    let p0 = skip;
    assert!(s.peek_u8() as u32 == w(p0, 1) && s.get_u8() as u32 == w(p0, 1) && s.get_pos() == p0 + 1);
    assert!(s.peek_u16() as u32 == w(p0 + 1, 2) && s.get_u16() as u32 == w(p0 + 1, 2) && s.get_pos() == p0 + 3);
    assert!(s.peek_u32() == w(p0 + 3, 4) && s.get_u32() == w(p0 + 3, 4) && s.get_pos() == p0 + 7);
    assert!(s.remaining_bytes() == 12 - p0 - 7);
  }
  fn p_bytestream_signed [14] {
    let buf: [u8; 8] = any();
    let big: bool = any();
    let mut s = ByteStream::new(&buf, if big { Endian::Big } else { Endian::Little });
    let skip: usize = any();
    assume(skip <= 3);
    s.consume_bytes(skip);
    assert!(s.peek_i8() == buf[skip] as i8 && s.get_i8() == buf[skip] as i8);
    let h = if big { i16::from_be_bytes([buf[skip + 1], buf[skip + 2]]) } else { i16::from_le_bytes([buf[skip + 1], buf[skip + 2]]) };
    assert!(s.peek_i16() == h && s.get_i16() == h && s.get_pos() == skip + 3);
    let n: usize = any();
    assume(n <= 2);
    let v = s.get_bytes(n);
    assert!(v.len() == n && s.get_pos() == skip + 3 + n);
    for i in 0..n { assert!(v[i] == buf[skip + 3 + i]); }
  }
  fn b_skip_to_marker [12] {
    let buf: [u8; 8] = any();
    let start: usize = any();
    assume(start < 8);
    let mut s = ByteStream::new(&buf, Endian::Big);
    s.consume_bytes(start);
    let mut at = 8;
    let mut i = 7;
    while i > 0 {
      i -= 1;
      if i >= start && buf[i] == 0xff && buf[i + 1] != 0 && buf[i + 1] != 0xff { at = i; }
    }
    match s.skip_to_marker() {
      Ok(n) => assert!(at < 8 && s.get_pos() == at + 1 && n == at - start + 1, "stops at the first marker"),
      Err(_) => assert!(at == 8, "errors only when there is no marker"),
    }
  }
}
hooked! {}
