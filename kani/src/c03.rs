//! C03 packed sample unpacking: every pixel equals the bits of the documented layout,
//! buffers that are too short are refused, rows can be decoded independently.
use crate::spec::*;
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::bits::Endian;
use rawler::decompressors::packed::PackedDecompressor;
use rawler::decompressors::{Decompressor, decompress_lines, decompress_strips};
#[cfg(dnglab_verif)]
use rawler::verif_hooks::packed as h;

/// All `w*h` pixels of the result equal `spec(row, col)`.
#[cfg(dnglab_verif)]
macro_rules! whole {
  ($r:expr, $w:expr, $h:expr, $spec:expr) => {{
    let r = $r;
    let pix = match r { Ok(p) => p, Err(_) => { assert!(false, "a buffer of sufficient size is accepted"); return; } };
    assert!(pix.width == $w && pix.height == $h && pix.data.len() == $w * $h, "dimensions");
    let mut row = 0;
    while row < $h {
      let mut col = 0;
      while col < $w {
        let want: u32 = $spec(row as u32, col as u32);
        assert!(pix.data[row * $w + col] as u32 == want, "pixel equals its bits in the documented layout");
        col += 1;
      }
      row += 1;
    }
  }};
}
/// exact-size buffer of `n` bytes decodes, `n-1` bytes are refused, `dummy` yields an
/// empty image of the right dimensions.
#[cfg(dnglab_verif)]
macro_rules! layout {
  ($f:ident, $w:literal, $h:literal, $n:literal, |$b:ident, $r:ident, $c:ident| $spec:expr) => {{
    let buf: [u8; $n] = any();
    let $b: &[u8] = &buf;
    whole!(h::$f($b, $w, $h, false), $w, $h, |$r: u32, $c: u32| -> u32 { $spec });
  }};
}
#[cfg(dnglab_verif)]
macro_rules! refuse {
  ($($f:ident $w:literal $h:literal $n:literal),* $(,)?) => {{
    let buf: [u8; 256] = any();
    $(assert!(h::$f(&buf[..$n - 1], $w, $h, false).is_err(), "a short buffer is refused");)*
  }};
}

/// byte-swap inside 16-bit words
#[cfg(dnglab_verif)]
fn sw16<const N: usize>(b: &[u8]) -> [u8; N] {
  let mut o = [0u8; N];
  let mut i = 0;
  while i < N { o[i] = b[i ^ 1]; i += 1; }
  o
}
/// byte-reversal inside 32-bit words
#[cfg(dnglab_verif)]
fn sw32<const N: usize>(b: &[u8]) -> [u8; N] {
  let mut o = [0u8; N];
  let mut i = 0;
  while i < N { o[i] = b[i ^ 3]; i += 1; }
  o
}
fn le16(b: &[u8], at: usize) -> u32 { b[at] as u32 | (b[at + 1] as u32) << 8 }
fn be16(b: &[u8], at: usize) -> u32 { b[at + 1] as u32 | (b[at] as u32) << 8 }

fn run(bps: u32, e: Endian, src: &[u8], skip: usize, w: usize, out: &mut [u16]) -> Result<(), String> {
  let d = PackedDecompressor::new(bps, e);
  Decompressor::<u16>::decompress(&d, src, skip, out.chunks_exact_mut(w), w)
}

/// Rows `skip..skip+2` of a packed image, MSB-first, no padding between samples.
macro_rules! msb_rows {
  ($bps:literal, $w:literal, $n:literal, $skip:literal, $e:expr) => {{
    let buf: [u8; $n] = any();
    let mut out = [0u16; 2 * $w];
    let r = run($bps, $e, &buf, $skip, $w, &mut out);
    assert!(r.is_ok(), "a buffer of sufficient size is accepted");
    let k = range(0, 2 * $w - 1);
    assert!(out[k] as u32 == bits_msb(&buf, (($skip * $w + k) * $bps) as u32, $bps), "pixel equals its bits");
  }};
}
macro_rules! short {
  ($($bps:literal $skip:literal),*) => {{
    let buf: [u8; 64] = any();
    let mut out = [0u16; 8];
    $(
      let need: usize = (($skip + 2) * 4 * $bps as usize).div_ceil(8);
      assert!(run($bps, Endian::Big, &buf[..need - 1], $skip, 4, &mut out).is_err(), "a short buffer is refused");
    )*
    assert!(run(16, Endian::Little, &buf[..23], 1, 4, &mut out).is_err(), "a short buffer is refused");
  }};
}
macro_rules! float {
  ($bps:literal, $e:expr, $skip:literal, $n:literal, |$b:ident, $at:ident| $want:expr) => {{
    let buf: [u8; $n] = any();
    let mut out = [0f32; 4];
    let d = PackedDecompressor::new($bps, $e);
    assert!(Decompressor::<f32>::decompress(&d, &buf[..$n - 1], $skip, out.chunks_exact_mut(2), 2).is_err(), "a short buffer is refused");
    assert!(Decompressor::<f32>::decompress(&d, &buf, $skip, out.chunks_exact_mut(2), 2).is_ok(), "a buffer of sufficient size is accepted");
    let k = range(0, 3);
    let $at = ($skip * 2 + k) * $bps / 8;
    let $b = &buf;
    let want: f32 = $want;
    assert!(out[k].to_bits() == want.to_bits(), "float samples are taken from their own bytes");
  }};
}
use rawler::bits::{BEf16, BEf24, LEf16, LEf24};

harnesses! {
  fn b_msb12 [12] { msb_rows!(12, 4, 18, 1, Endian::Little) }
  fn b_msb10 [12] { msb_rows!(10, 4, 15, 1, Endian::Little) }
  fn b_msb12_first [12] { msb_rows!(12, 4, 12, 0, Endian::Big) }
  fn b_msb10_first [12] { msb_rows!(10, 4, 10, 0, Endian::Big) }
  fn b_msb8 [12] { msb_rows!(8, 3, 9, 1, Endian::Big) }
  fn b_msb14 [12] { msb_rows!(14, 3, 16, 1, Endian::Big) }
  fn b_msb14_first [12] { msb_rows!(14, 3, 11, 0, Endian::Little) }
  fn b_msb9 [12] { msb_rows!(9, 3, 11, 1, Endian::Big) }
  fn b_msb1 [12] { msb_rows!(1, 5, 2, 1, Endian::Big) }
  fn b_msb15 [12] { msb_rows!(15, 3, 17, 1, Endian::Big) }
  fn b_msb11 [12] { msb_rows!(11, 3, 13, 1, Endian::Big) }
  fn b_u16be [12] {
    let buf: [u8; 18] = any();
    let mut out = [0u16; 6];
    assert!(run(16, Endian::Big, &buf, 1, 3, &mut out).is_ok());
    let k = range(0, 5);
    assert!(out[k] as u32 == be16(&buf, (3 + k) * 2), "16-bit samples follow the file's byte order");
  }
  fn b_u16le [12] {
    let buf: [u8; 18] = any();
    let mut out = [0u16; 6];
    assert!(run(16, Endian::Little, &buf, 1, 3, &mut out).is_ok());
    let k = range(0, 5);
    assert!(out[k] as u32 == le16(&buf, (3 + k) * 2), "16-bit samples follow the file's byte order");
  }
  fn b_short_a [12] { short!(1 1, 2 0, 3 1, 4 0, 5 1, 6 0, 7 1, 8 0, 8 1, 9 0) }
  fn b_short_b [12] { short!(10 0, 10 1, 11 0, 12 0, 12 1, 13 1, 14 1, 15 0, 16 0, 16 1) }
  fn b_unsupported [12] {
    let buf: [u8; 8] = any();
    let bps: u32 = any();
    assume(bps == 0 || bps > 16);
    let mut out = [0u16; 2];
    assert!(run(bps, Endian::Big, &buf, 0, 2, &mut out).is_err(), "depth 0 or above 16 is refused");
  }
  fn b_f32be [26] { float!(32, Endian::Big, 1, 24, |b, at| f32::from_bits(u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]))) }
  fn b_f32le [26] { float!(32, Endian::Little, 1, 24, |b, at| f32::from_bits(u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]))) }
  fn b_f24be [26] { float!(24, Endian::Big, 1, 18, |b, at| BEf24(b, at)) }
  fn b_f24le [26] { float!(24, Endian::Little, 1, 18, |b, at| LEf24(b, at)) }
  fn b_f16be [26] { float!(16, Endian::Big, 1, 12, |b, at| BEf16(b, at)) }
  fn b_f16le [26] { float!(16, Endian::Little, 1, 12, |b, at| LEf16(b, at)) }
  fn b_lines_is_strips [14] {
    // row-parallel and strip-parallel decoding agree
    let buf: [u8; 24] = any();
    let a = decompress_lines::<u16, _>(&buf, 4, 4, false, PackedDecompressor::new(12, Endian::Big)).unwrap();
    let b = decompress_strips::<u16, _>(&buf, 4, 4, false, 2, PackedDecompressor::new(12, Endian::Big)).unwrap();
    let k = range(0, 15);
    assert!(a.data[k] == b.data[k] && a.data[k] as u32 == bits_msb(&buf, 12 * k as u32, 12));
  }
}

hooked! {
  fn b_12be [12] { layout!(decompress_12be, 4, 2, 12, |b, r, c| bits_msb(b, (r * 4 + c) * 12, 12)) }
  fn b_10be [12] { layout!(decompress_10be, 4, 2, 10, |b, r, c| bits_msb(b, (r * 4 + c) * 10, 10)) }
  fn b_8bit [12] { layout!(decompress_8bit, 3, 2, 6, |b, r, c| b[(r * 3 + c) as usize] as u32) }
  fn b_10le_lsb16 [26] { layout!(decompress_10le_lsb16, 8, 2, 20, |b, r, c| bits_msb(&sw16::<20>(b), (r * 8 + c) * 10, 10)) }
  fn b_12be_msb16 [16] { layout!(decompress_12be_msb16, 4, 2, 12, |b, r, c| bits_msb(&sw16::<12>(b), (r * 4 + c) * 12, 12)) }
  fn b_12le_16aligned [14] { layout!(decompress_12le_16bitaligned, 2, 2, 8, |b, r, c| bits_msb(&b[(r * 4) as usize..], c * 12, 12)) }
  fn b_12be_msb32 [28] { layout!(decompress_12be_msb32, 8, 2, 24, |b, r, c| bits_msb(&sw32::<24>(b), (r * 8 + c) * 12, 12)) }
  fn b_14be_msb32 [34] { layout!(decompress_14be_msb32, 16, 1, 28, |b, r, c| bits_msb(&sw32::<28>(b), (r * 16 + c) * 14, 14)) }
  fn b_14be_msb32_rows [62] {
    let buf: [u8; 56] = any();
    let k = range(0, 31);
    let p = h::decompress_14be_msb32(&buf, 16, 2, false).unwrap();
    assert!(p.data[k] as u32 == bits_msb(&sw32::<56>(&buf), k as u32 * 14, 14), "pixel equals its bits");
  }
  fn b_12le_wcontrol [14] { layout!(decompress_12le_wcontrol, 10, 2, 32, |b, r, c| bits_lsb(&b[(r * 16) as usize..], c * 12, 12)) }
  fn b_12be_wcontrol [14] { layout!(decompress_12be_wcontrol, 10, 2, 32, |b, r, c| bits_msb(&b[(r * 16) as usize..], c * 12, 12)) }
  fn b_wcontrol_le_groups [24] {
    // 20 pixels per row: the control byte comes after every 10
    let buf: [u8; 64] = any();
    let k = range(0, 39);
    let p = h::decompress_12le_wcontrol(&buf, 20, 2, false).unwrap();
    assert!(p.data[k] as u32 == bits_lsb(&buf, (k / 10 * 128 + k % 10 * 12) as u32, 12), "pixel equals its bits");
  }
  fn b_wcontrol_be_groups [24] {
    // 20 pixels per row: the control byte comes after every 10
    let buf: [u8; 64] = any();
    let k = range(0, 39);
    let p = h::decompress_12be_wcontrol(&buf, 20, 2, false).unwrap();
    assert!(p.data[k] as u32 == bits_msb(&buf, (k / 10 * 128 + k % 10 * 12) as u32, 12), "pixel equals its bits");
  }
  fn b_12be_interlaced [14] {
    let (head, tail): ([u8; 6], [u8; 6]) = (any(), any());
    let mut buf = [0u8; 2048 + 6];
    buf[..6].copy_from_slice(&head);
    buf[2048..].copy_from_slice(&tail);
    whole!(h::decompress_12be_interlaced(&buf, 2, 4, false), 2, 4, |r: u32, c: u32| bits_msb(if r % 2 == 0 { &head } else { &tail }, ((r / 2) * 2 + c) * 12, 12));
  }
  fn b_12be_interlaced_unaligned [14] {
    layout!(decompress_12be_interlaced_unaligned, 2, 4, 12, |b, r, c| bits_msb(if r % 2 == 0 { b } else { &b[6..] }, ((r / 2) * 2 + c) * 12, 12))
  }
  fn b_12be_interlaced_unaligned_odd [14] {
    layout!(decompress_12be_interlaced_unaligned, 2, 3, 9, |b, r, c| bits_msb(if r % 2 == 0 { b } else { &b[6..] }, ((r / 2) * 2 + c) * 12, 12))
  }
  fn b_12le [12] { layout!(decompress_12le, 4, 2, 12, |b, r, c| bits_lsb(b, (r * 4 + c) * 12, 12)) }
  fn b_12le_padded [12] {
    let buf: [u8; 16] = any();
    whole!(h::decompress_12le_padded(&buf, 4, 2, 8, false), 4, 2, |r: u32, c: u32| bits_lsb(&buf[(r * 8) as usize..], c * 12, 12));
  }
  fn b_14le_padded [12] {
    let buf: [u8; 18] = any();
    whole!(h::decompress_14le_padded(&buf, 4, 2, 9, false), 4, 2, |r: u32, c: u32| bits_lsb(&buf[(r * 9) as usize..], c * 14, 14));
  }
  fn b_12le_unpacked [12] { layout!(decompress_12le_unpacked, 3, 2, 12, |b, r, c| le16(b, ((r * 3 + c) * 2) as usize) & 0xfff) }
  fn b_12be_unpacked [12] { layout!(decompress_12be_unpacked, 3, 2, 12, |b, r, c| be16(b, ((r * 3 + c) * 2) as usize) & 0xfff) }
  fn b_12be_left [12] { layout!(decompress_12be_unpacked_left_aligned, 3, 2, 12, |b, r, c| be16(b, ((r * 3 + c) * 2) as usize) >> 4) }
  fn b_12le_left [12] { layout!(decompress_12le_unpacked_left_aligned, 3, 2, 12, |b, r, c| le16(b, ((r * 3 + c) * 2) as usize) >> 4) }
  fn b_14le_unpacked [12] { layout!(decompress_14le_unpacked, 3, 2, 12, |b, r, c| le16(b, ((r * 3 + c) * 2) as usize) & 0x3fff) }
  fn b_14be_unpacked [12] { layout!(decompress_14be_unpacked, 3, 2, 12, |b, r, c| be16(b, ((r * 3 + c) * 2) as usize) & 0x3fff) }
  fn b_14be_unpacked_padded [12] {
    let buf: [u8; 16] = any();
    whole!(h::decompress_14le_unpacked_padded(&buf, 3, 2, 8, false), 3, 2, |r: u32, c: u32| be16(&buf, (r * 8 + c * 2) as usize) & 0x3fff);
  }
  fn b_16le [12] { layout!(decompress_16le, 3, 2, 12, |b, r, c| le16(b, ((r * 3 + c) * 2) as usize)) }
  fn b_16be [12] { layout!(decompress_16be, 3, 2, 12, |b, r, c| be16(b, ((r * 3 + c) * 2) as usize)) }
  fn b_16le_skiplines [12] { layout!(decompress_16le_skiplines, 3, 2, 24, |b, r, c| le16(b, ((r * 6 + c) * 2) as usize)) }
  fn b_generic_msb [12] {
    let buf: [u8; 12] = any();
    let bits: u32 = any();
    assume(bits >= 1 && bits <= 16);
    let p = h::decompress_generic_msb(&buf, 3, 2, bits, false).unwrap();
    let k = range(0, 5);
    assert!(p.data[k] as u32 == bits_msb(&buf, k as u32 * bits, bits), "pixel equals its bits");
  }
  fn b_generic_lsb [12] {
    let buf: [u8; 12] = any();
    let bits: u32 = any();
    assume(bits >= 1 && bits <= 16);
    let p = h::decompress_generic_lsb(&buf, 3, 2, bits, false).unwrap();
    let k = range(0, 5);
    assert!(p.data[k] as u32 == bits_lsb(&buf, k as u32 * bits, bits), "pixel equals its bits");
  }
  fn b_generic_short [12] {
    let buf: [u8; 12] = any();
    for bits in [1u32, 7, 8, 12, 13, 16] {
      let need = (6 * bits as usize).div_ceil(8);
      assert!(h::decompress_generic_lsb(&buf[..need - 1], 3, 2, bits, false).is_err() && h::decompress_generic_msb(&buf[..need - 1], 3, 2, bits, false).is_err());
    }
  }
  fn b_8bit_table_seed [12] {
    // a table with constant entries maps every pixel of every row to that entry
    let buf: [u8; 8] = any();
    let v: u16 = any();
    for i in 0..8usize { assume(buf[i] < 4); }
    let t = rawler::bits::LookupTable::new(&[v, v, v, v]);
    let p = h::decompress_8bit_wtable(&buf, &t, 4, 2, false).unwrap();
    let k = range(0, 7);
    assert!(p.data[k] == v);
  }
  fn b_refuse_a [12] { refuse!(decompress_8bit 3 2 6, decompress_10le_lsb16 8 2 20, decompress_10be 4 2 10, decompress_12be 4 2 12, decompress_12be_msb16 4 2 12, decompress_12le_16bitaligned 2 2 8, decompress_12be_msb32 8 2 24) }
  fn b_refuse_b [12] { refuse!(decompress_14be_msb32 16 2 56, decompress_12le_wcontrol 10 2 32, decompress_12be_wcontrol 10 2 32, decompress_12be_interlaced_unaligned 2 4 12, decompress_12le 4 2 12) }
  fn b_refuse_c [12] { refuse!(decompress_12le_unpacked 3 2 12, decompress_12be_unpacked 3 2 12, decompress_12be_unpacked_left_aligned 3 2 12, decompress_12le_unpacked_left_aligned 3 2 12, decompress_14le_unpacked 3 2 12, decompress_14be_unpacked 3 2 12, decompress_16le 3 2 12, decompress_16be 3 2 12, decompress_16le_skiplines 3 2 24) }
  fn b_refuse_d [12] {
    let buf: [u8; 16] = any();
    assert!(h::decompress_12le_padded(&buf[..15], 4, 2, 8, false).is_err());
    assert!(h::decompress_14le_padded(&buf[..15], 4, 2, 8, false).is_err());
    assert!(h::decompress_14le_unpacked_padded(&buf[..15], 3, 2, 8, false).is_err());
  }
  fn b_dummy [12] {
    let p = h::decompress_12le(&[0u8; 12], 4, 2, true).unwrap();
    assert!(!p.initialized && p.width == 4 && p.height == 2 && p.data.is_empty());
  }
}
