//! C04 numbers read from the file equal the numbers stored in it: byte order, narrow
//! floats, clamping, bit-width arithmetic, curve lookup.
use crate::sym::*;
use crate::spec::*;
use crate::{harnesses, hooked};
use rawler::bits::*;
use rawler::bitarray::*;

harnesses! {
  fn p_readers_u16 [6] {
    let b: [u8; 8] = any();
    let at: usize = any();
    assume(at <= 6);
    let le = b[at] as u16 + 256 * b[at + 1] as u16;
    let be = b[at + 1] as u16 + 256 * b[at] as u16;
    assert!(LEu16(&b, at) == le && BEu16(&b, at) == be);
    assert!(Endian::Little.read_u16(&b, at) == le && Endian::Big.read_u16(&b, at) == be);
    assert!(Endian::Little.read_i16(&b, at) == le as i16 && Endian::Big.read_i16(&b, at) == be as i16);
    assert!(Endian::Little.read_u8(&b, at) == b[at] && Endian::Big.read_i8(&b, at) == b[at] as i8);
    assert!(Endian::Big.read_u8(&b, at) == b[at] && Endian::Little.read_i8(&b, at) == b[at] as i8);
  }
  fn p_readers_u32 [6] {
    let b: [u8; 8] = any();
    let at: usize = any();
    assume(at <= 4);
    let w = |i: usize| b[at + i] as u32;
    let le = w(0) | w(1) << 8 | w(2) << 16 | w(3) << 24;
    let be = w(3) | w(2) << 8 | w(1) << 16 | w(0) << 24;
    assert!(LEu32(&b, at) == le && BEu32(&b, at) == be && LEi32(&b, at) == le as i32 && BEi32(&b, at) == be as i32);
    assert!(Endian::Little.read_u32(&b, at) == le && Endian::Big.read_u32(&b, at) == be);
    assert!(Endian::Little.read_i32(&b, at) == le as i32 && Endian::Big.read_i32(&b, at) == be as i32);
    assert!(LEf32(&b, at).to_bits() == le && BEf32(&b, at).to_bits() == be);
  }
  fn p_write_u16 [6] {
    let mut b: [u8; 4] = any();
    let old = b;
    let v: u16 = any();
    let big: bool = any();
    let e = if big { Endian::Big } else { Endian::Little };
    e.write_u16(&mut b, v);
    assert!(e.read_u16(&b, 0) == v && b[2] == old[2] && b[3] == old[3], "written value reads back, nothing else changes");
    assert!(e.big() == big && e.little() != big);
  }
  fn p_f16 [14] {
    let b: [u8; 4] = any();
    let at: usize = any();
    assume(at <= 2);
    let le = b[at] as u32 | (b[at + 1] as u32) << 8;
    assert!(same_float(LEf16(&b, at), le, 5, 10), "half precision value is preserved");
  }
  fn p_f16_be [14] {
    let b: [u8; 4] = any();
    let at: usize = any();
    assume(at <= 2);
    let be = b[at + 1] as u32 | (b[at] as u32) << 8;
    assert!(same_float(BEf16(&b, at), be, 5, 10), "half precision value is preserved");
  }
  fn p_f24 [20] {
    let b: [u8; 4] = any();
    let at: usize = any();
    assume(at <= 1);
    let le = b[at] as u32 | (b[at + 1] as u32) << 8 | (b[at + 2] as u32) << 16;
    assert!(same_float(LEf24(&b, at), le, 7, 16), "24-bit float value is preserved");
  }
  fn p_f24_be [20] {
    let b: [u8; 4] = any();
    let at: usize = any();
    assume(at <= 1);
    let be = b[at + 2] as u32 | (b[at + 1] as u32) << 8 | (b[at] as u32) << 16;
    assert!(same_float(BEf24(&b, at), be, 7, 16), "24-bit float value is preserved");
  }
  fn p_scale_u16_ends [4] {
    let bits: u32 = any();
    assume(bits >= 1 && bits <= 16);
    let max = ((1u32 << bits) - 1) as u16;
    assert!(scale_u16(0, bits) == 0 && scale_u16(max, bits) == 65535, "end points");
  }
  fn p_scale_u16_8 [4] {
    let p: u16 = any();
    let max: u32 = (1 << 8) - 1;
    assume(p as u32 <= max);
    let want = p as u32 * 65535 / max;
    let got = scale_u16(p, 8) as u32;
    assert!(got <= want + 1 && want <= got + 1, "proportional within one");
  }
  fn p_scale_u16_10 [4] {
    let p: u16 = any();
    let max: u32 = (1 << 10) - 1;
    assume(p as u32 <= max);
    let want = p as u32 * 65535 / max;
    let got = scale_u16(p, 10) as u32;
    assert!(got <= want + 1 && want <= got + 1, "proportional within one");
  }
  fn p_scale_u16_12 [4] {
    let p: u16 = any();
    let max: u32 = (1 << 12) - 1;
    assume(p as u32 <= max);
    let want = p as u32 * 65535 / max;
    let got = scale_u16(p, 12) as u32;
    assert!(got <= want + 1 && want <= got + 1, "proportional within one");
  }
  fn p_scale_u16_14 [4] {
    let p: u16 = any();
    let max: u32 = (1 << 14) - 1;
    assume(p as u32 <= max);
    let want = p as u32 * 65535 / max;
    let got = scale_u16(p, 14) as u32;
    assert!(got <= want + 1 && want <= got + 1, "proportional within one");
  }
  fn p_scale_u16_16 [4] {
    let p: u16 = any();
    let max: u32 = (1 << 16) - 1;
    assume(p as u32 <= max);
    let want = p as u32 * 65535 / max;
    let got = scale_u16(p, 16) as u32;
    assert!(got <= want + 1 && want <= got + 1, "proportional within one");
  }
  fn p_log2ceil [70] {
    let s: usize = any();
    let r = log2ceil(s);
    if s == 0 { assert!(r == 0) } else {
      assert!(r >= 1 && r <= 64 && (r == 64 || s <= 1usize << r), "enough bits");
      assert!(r == 1 || s > 1usize << (r - 1), "no more bits than needed");
    }
  }
  fn p_clamp [4] {
    let (v, bits): (i32, u32) = (any(), any());
    assume(bits <= 16);
    assert!(clampbits(v, bits) as i32 == v.max(0).min((1 << bits) - 1));
    let (lo, hi): (i32, i32) = (any(), any());
    assume(lo <= hi);
    assert!(clamp(v, lo, hi) == v.max(lo).min(hi));
  }
  fn b_lookup_exact [8] {
    // a table whose neighbours are equal has no dither: the entry itself is returned
    let v: u16 = any();
    let t = LookupTable::new(&[v, v, v]);
    let mut r: u32 = any();
    let i: u16 = any();
    assume(i < 3);
    assume(r & 65535 <= 65535);
    assert!(t.dither(i, &mut r) == v);
  }
  fn b_lookup_window [8] {
    // any table: the dithered value stays in the half-step window around the entry
    let t: [u16; 3] = any();
    let tbl = LookupTable::new(&t);
    let mut r: u32 = any();
    let i: u16 = any();
    assume(i < 3);
    let k = i as usize;
    let lo = if k > 0 { t[k - 1] } else { t[k] };
    let hi = if k < 2 { t[k + 1] } else { t[k] };
    let got = tbl.dither(i, &mut r) as i64;
    let (c, d) = (t[k] as i64, (hi as i64 - lo as i64).max(0));
    assert!(got >= (c - (d + 2) / 4).max(0) && got <= (c + (d + 1) / 2 + 1).min(65535), "within half a step of the entry");
    if c != 0 { assert!(got <= (c + d / 4 + 1).max(d / 2 + 1), "no more than a quarter step above the entry"); }
  }
  fn b_lookup_expand [20] {
    // short tables are continued with their last entry up to the requested width
    let v: u16 = any();
    let t = LookupTable::new_with_bits(&[v, v], 3);
    let mut r: u32 = any();
    let i: u16 = any();
    assume(i < 8);
    assert!(t.dither(i, &mut r) == v, "indices past the table use the last entry");
  }
  fn p_bitarray [20] {
    let (n, v): (usize, u16) = (any(), any());
    assume(n >= 1 && n <= 16 && (v as u32) < 1 << n);
    let a = BitArray16::from_lsb(n, v);
    assert!(a.len() == n && a.get_lsb() == v && a.get_msb() as u32 == (v as u32) << (16 - n), "the n low bits, left aligned");
    let b = BitArray16::from_msb(n, a.get_msb());
    assert!(a == b);
    let mut p = a;
    assume(n < 16);
    let bit: bool = any();
    p.push(bit);
    assert!(p.len() == n + 1 && p.get_lsb() == (v << 1 | bit as u16), "push appends one bit");
    assert!(p.pop() == bit && p == a, "pop undoes push");
  }
}
hooked! {}

/// In-place contracts on /repo (rawler/src/bits.rs).
#[cfg(all(kani, dnglab_verif))]
mod contracts {
  use super::*;
  #[kani::proof_for_contract(rawler::bits::clampbits)]
  fn c_clampbits() { clampbits(kani::any(), kani::any()); }
  #[kani::proof_for_contract(rawler::bits::clamp)]
  fn c_clamp() { clamp(kani::any(), kani::any(), kani::any()); }
  #[kani::proof_for_contract(rawler::bits::log2ceil)]
  #[kani::unwind(70)]
  fn c_log2ceil() { log2ceil(kani::any()); }
}
