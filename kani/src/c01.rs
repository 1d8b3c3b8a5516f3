//! C01 lossless JPEG: what the encoder writes, the decoder reads back unchanged.
use crate::sym::*;
use crate::tiffspec::Mem;
use crate::{harnesses, hooked};
use rawler::bitarray::BitArray16;
use rawler::decompressors::ljpeg::huffman::HuffTable;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::ljpeg92::{BitstreamJPEG, LjpegCompressor};
use rawler::pumps::{BitPump, BitPumpJPEG, BitPumpMSB32};

fn mask(n: usize) -> u64 { (1u64 << n) - 1 }

/// The bytes of an entropy-coded segment without stuffing; every FF must be followed by 00.
fn unstuffed<const N: usize>(m: &Mem<N>) -> (u64, usize) {
  let (mut v, mut n, mut i) = (0u64, 0, 0);
  while i < m.len {
    v = v << 8 | m.buf[i] as u64;
    n += 8;
    if m.buf[i] == 0xff {
      assert!(i + 1 < m.len && m.buf[i + 1] == 0, "FF in the data is stuffed");
      i += 1;
    }
    i += 1;
  }
  (v, n)
}

/// Image encoded and decoded with the real coder (native runs only).
fn roundtrip(img: &[u16], w: usize, h: usize, c: usize, bits: u8, px: u8, padding: usize) -> Vec<u16> {
  let enc = LjpegCompressor::new(img, w, h, c, bits, px, 0, padding).unwrap().encode().unwrap();
  let dec = LjpegDecompressor::new(&enc).unwrap();
  assert!(dec.width() == w * c && dec.height() == h && dec.components() == c);
  let mut out = vec![0u16; w * h * c];
  dec.decode(&mut out, 0, w * c, w * c, h, false).unwrap();
  out
}

/// Decode table built from code lengths and values: canonical codes, as Annex C of T.81.
fn canonical<const NB: usize, const SYMS: usize>(bits: [u32; NB]) {
  let mut t = HuffTable::empty();
  let vals: [u8; SYMS] = any();
  let mut k = 0;
  while k < SYMS { t.huffval[k] = vals[k] as u32; k += 1; }
  let mut l = 0;
  while l < NB { t.bits[l + 1] = bits[l]; l += 1; }
  t.disable_cache = true;
  assert!(t.initialize().is_ok());
  assert!(t.nbits == NB as u32 && t.hufftable.len() == 1 << NB, "as many bits as the longest code");
  let x: usize = range(0, (1 << NB) - 1);
  let (mut code, mut len, mut i, mut left) = (0usize, 1usize, 0usize, bits[0]);
  while i < SYMS {
    while left == 0 { code <<= 1; len += 1; left = bits[len - 1]; }
    if x >> (NB - len) == code { assert!(t.hufftable[x] == (len as u8, vals[i], 0), "every continuation of a code decodes to its symbol"); }
    code += 1; left -= 1; i += 1;
  }
  std::mem::forget(t);
}
/// Any pump: the bits of a word from the top, zeros after it.
pub struct Word { pub w: u64, pub used: u32 }
impl BitPump for Word {
  fn peek_bits(&mut self, n: u32) -> u32 { if n == 0 || self.used >= 64 { 0 } else { (self.w << self.used >> (64 - n)) as u32 } }
  fn consume_bits(&mut self, n: u32) { self.used += n; }
}

fn read_back(n1: usize, n2: usize) {
  let (v1, v2): (u64, u64) = (any(), any());
  let mut m = Mem::<10>::new();
  {
    let mut b = BitstreamJPEG::new(&mut m);
    b.write(n1, v1).unwrap();
    b.write(n2, v2).unwrap();
    b.flush().unwrap();
  }
  m.buf[m.len] = 0xff;
  m.buf[m.len + 1] = 0xd9;
  let mut p = BitPumpJPEG::new(&m.buf);
  assert!(p.get_bits(n1 as u32) as u64 == v1 & mask(n1), "first value");
  assert!(p.get_bits(n2 as u32) as u64 == v2 & mask(n2), "second value");
}
harnesses! {
  // three writes of any width, flushed and ended by a marker, read back through the decoder's bit reader
  fn b_bitstream_read_back_8_5 [14] { read_back(8, 5) }
  fn b_bitstream_read_back_3_9 [14] { read_back(3, 9) }
  fn p_diff_of_symbol [4] {
    // huff_diff against F.12 / H.1.2.2: the difference with `len` magnitude bits
    let len: u8 = any();
    assume(len <= 16);
    let w: u32 = any();
    let mut t = HuffTable::empty();
    t.dng_bug = false;
    let mut p = Word { w: (w as u64) << 32, used: 0 };
    let d = t.huff_diff(&mut p, (0, len, 0));
    if len == 0 { assert!(d == 0); }
    else if len == 16 { assert!(d == -32768 && p.get_bits(16) == w >> 16, "no magnitude bits are stored for 16"); }
    else {
      let v = (w >> (32 - len)) as i32;
      assert!(d == if v >> (len - 1) == 1 { v } else { v - (1 << len) + 1 }, "magnitude bits as the standard codes them");
      assert!(p.get_bits(8) == w << len >> 24, "exactly len bits are consumed");
    }
    std::mem::forget(t);
  }
  fn b_canonical_1 [18] { canonical::<1, 1>([1]) }
  fn b_canonical_skewed [18] { canonical::<4, 4>([1, 1, 1, 1]) }
  fn b_canonical_gap [18] { canonical::<4, 6>([0, 2, 1, 3]) }
  fn b_canonical_wide [18] { canonical::<3, 5>([0, 3, 2]) }
  // native only: the whole coder
  fn n_roundtrip [1] {
    let c = range(1, 4);
    let (w, h, pad) = (range(1, 9), range(1, 6), range(0, 2));
    let bits = range(10, 16) as u8;
    let px = range(1, 7) as u8;
    let style = range(0, 3);
    let n = (w + pad) * c * h;
    let img: Vec<u16> = (0..n).map(|i| { let v: u16 = any(); (match style { 0 => v, 1 => v & 7, 2 => if i % 5 == 0 { v } else { 0x3ff }, _ => v << 15 }) & mask(bits as usize) as u16 }).collect();
    let out = roundtrip(&img, w, h, c, bits, px, pad);
    for r in 0..h { for x in 0..w * c { assert!(out[r * w * c + x] == img[r * (w + pad) * c + x], "sample survives"); } }
  }
  // native only: a part of a frame decoded into the middle of a larger buffer
  fn n_window [1] {
    let (c, w, h) = (range(1, 4), range(1, 6), range(1, 5));
    let (ow, x, extra) = (range(1, w), range(0, 3), range(0, 3));
    let px = range(1, 7) as u8;
    let img: Vec<u16> = (0..w * c * h).map(|_| any()).collect();
    let enc = LjpegCompressor::new(&img, w, h, c, 16, px, 0, 0).unwrap().encode().unwrap();
    let strip = x + ow * c + extra;
    let mut out = vec![0x1234u16; strip * h];
    LjpegDecompressor::new(&enc).unwrap().decode(&mut out, x, strip, ow * c, h, false).unwrap();
    for k in 0..out.len() {
      let (r, col) = (k / strip, k % strip);
      if col >= x && col < x + ow * c { assert!(out[k] == img[r * w * c + col - x], "sample survives at its place"); }
      else { assert!(out[k] == 0x1234, "nothing else is touched"); }
    }
  }
}

#[cfg(dnglab_verif)]
mod hk {
  use super::*;
  use rawler::decompressors::ljpeg::verif as dv;
  use rawler::ljpeg92::verif as ev;

  pub static mut DIFFS: [i32; 64] = [0; 64];
  pub static mut POS: usize = 0;
  /// Contract of huff_decode assumed at its call in decode_ljpeg: the next difference of the stream.
  pub fn next_diff(_t: &HuffTable, _p: &mut dyn BitPump) -> Result<i32, String> {
    unsafe {
      let v = DIFFS[POS];
      POS += 1;
      Ok(v)
    }
  }
  pub static mut CALLS: [(usize, u64); 4] = [(0, 0); 4];
  pub static mut NCALLS: usize = 0;
  /// Contract of BitstreamJPEG::write (see p_bitstream_step) assumed at its calls in write_body.
  pub fn record<'a: 'a>(_b: &mut BitstreamJPEG<'a>, bits: usize, value: u64) -> std::io::Result<()> {
    unsafe {
      CALLS[NCALLS] = (bits, value);
      NCALLS += 1;
    }
    Ok(())
  }

  /// The image comes back from its differences, for one predictor.
  pub fn predict<const C: usize, const PX: u8, const N: usize>(img: &[u16; N], w: usize, h: usize, bits: u8) -> [u16; N] {
    let mut out = [0u16; N];
    if cfg!(kani) {
      let line = w * C;
      let mut diffs = [0i16; 16];
      let mut r = 0;
      unsafe { POS = 0; }
      while r < h {
        let prev = if r == 0 { 0 } else { r - 1 };
        ev::diff::<C, PX>(&img[prev * line..], &img[r * line..], &mut diffs, line, 0, bits);
        let mut i = 0;
        while i < line { unsafe { DIFFS[r * line + i] = diffs[i] as i32; } i += 1; }
        r += 1;
      }
      let mut tables = Vec::with_capacity(1);
      unsafe { tables.set_len(1); } // never read: huff_decode is replaced by its contract
      let d = dv::decoder(&[], w, h, C, bits as usize, PX as usize, tables);
      let r = d.decode(&mut out, 0, line, line, h, false);
      assert!(r.is_ok());
      unsafe { assert!(POS == N, "one difference per sample"); }
      std::mem::forget(d);
    } else {
      out.copy_from_slice(&roundtrip(&img[..], w, h, C, bits, PX, 0));
    }
    out
  }
  pub fn predictor<const C: usize, const PX: u8, const N: usize>(w: usize, h: usize) {
    let img: [u16; N] = any();
    let bits = range(10, 16) as u8;
    let mut i = 0;
    while i < N { assume(img[i] as u64 <= mask(bits as usize)); i += 1; }
    let k = range(0, N - 1);
    assert!(predict::<C, PX, N>(&img, w, h, bits)[k] == img[k], "sample survives");
  }

  /// Part of a frame decoded into the middle of a larger buffer.
  pub fn window<const C: usize, const PX: u8, const N: usize, const M: usize>(w: usize, h: usize, ow: usize, x: usize, strip: usize) {
    let img: [u16; N] = any();
    let bits = range(10, 16) as u8;
    let mut i = 0;
    while i < N { assume(img[i] as u64 <= mask(bits as usize)); i += 1; }
    let fill: u16 = any();
    let mut out = [fill; M];
    let line = w * C;
    if cfg!(kani) {
      let mut diffs = [0i16; 16];
      let mut r = 0;
      unsafe { POS = 0; }
      while r < h {
        let prev = if r == 0 { 0 } else { r - 1 };
        ev::diff::<C, PX>(&img[prev * line..], &img[r * line..], &mut diffs, line, 0, bits);
        let mut i = 0;
        while i < line { unsafe { DIFFS[r * line + i] = diffs[i] as i32; } i += 1; }
        r += 1;
      }
      let mut tables = Vec::with_capacity(1);
      unsafe { tables.set_len(1); } // never read: huff_decode is replaced by its contract
      let d = dv::decoder(&[], w, h, C, bits as usize, PX as usize, tables);
      let r = d.decode(&mut out, x, strip, ow * C, h, false);
      assert!(r.is_ok());
      std::mem::forget(d);
    } else {
      let enc = LjpegCompressor::new(&img, w, h, C, bits, PX, 0, 0).unwrap().encode().unwrap();
      LjpegDecompressor::new(&enc).unwrap().decode(&mut out, x, strip, ow * C, h, false).unwrap();
    }
    let k = range(0, M - 1);
    let (r, c) = (k / strip, k % strip);
    if r < h && c >= x && c < x + ow * C { assert!(out[k] == img[r * line + c - x], "sample survives at its place"); }
    else { assert!(out[k] == fill, "nothing else is touched"); }
  }
  /// T.81 H.1.2.1: the prediction for sample (r, c) of component-interleaved rows.
  fn prediction(img: &[u16], stride: usize, ncomp: usize, px: u8, bits: u8, r: usize, c: usize) -> i32 {
    let at = |r: usize, c: usize| img[r * stride + c] as i32;
    if r == 0 && c < ncomp { return 1 << (bits - 1); }
    if r == 0 { return at(0, c - ncomp); }
    if c < ncomp { return at(r - 1, c); }
    let (ra, rb, rc) = (at(r, c - ncomp), at(r - 1, c), at(r - 1, c - ncomp));
    match px { 1 => ra, 2 => rb, 3 => rc, 4 => ra + rb - rc, 5 => ra + ((rb - rc) >> 1), 6 => rb + ((ra - rc) >> 1), _ => (ra + rb) >> 1 }
  }
  /// Differences and class counts of an image with `pad` unused pixels per row.
  pub fn scan<const C: usize, const N: usize>(w: usize, h: usize, pad: usize, px: u8) {
    let img: [u16; N] = any();
    let bits = 12;
    let mut i = 0;
    while i < N { assume(img[i] < 4096); i += 1; }
    let r = ev::scan(LjpegCompressor::new(&img, w, h, C, bits, px, 0, pad).ok().unwrap());
    let (diffs, hist) = r.ok().unwrap();
    assert!(diffs.len() == w * h * C && hist.len() == C);
    let (r, c) = (range(0, h - 1), range(0, w * C - 1));
    let stride = (w + pad) * C;
    let want = img[r * stride + c] as i32 - prediction(&img, stride, C, px, bits, r, c);
    assert!(diffs[r * w * C + c] as i32 == want, "difference to the prediction");
    let (comp, class) = (range(0, C - 1), range(0, 16));
    let mut n = 0;
    let mut i = comp;
    while i < diffs.len() { if ev::ssss(diffs[i]) as usize == class { n += 1; } i += C; }
    assert!(hist[comp][class] == n, "classes are counted per component, without the padding");
    std::mem::forget((diffs, hist));
  }
  /// The decode cache answers as the slow path does, for a table of canonical codes.
  pub fn cached<const NB: usize, const SYMS: usize>(bits: [u32; NB]) {
    let mut t = HuffTable::empty();
    let vals: [u8; SYMS] = any();
    let mut k = 0;
    while k < SYMS { assume(vals[k] <= 16); t.huffval[k] = vals[k] as u32; k += 1; }
    let mut l = 0;
    while l < NB { t.bits[l + 1] = bits[l]; l += 1; }
    t.dng_bug = any();
    assert!(t.initialize().is_ok());
    let w: u64 = any();
    let (mut p, mut q) = (Word { w, used: 0 }, Word { w, used: 0 });
    let slow = t.huff_decode_slow(&mut q).1;
    assert!(t.huff_decode(&mut p).ok() == Some(slow), "same difference");
    assert!(p.used == q.used, "same position");
    std::mem::forget(t);
  }
}
hooked! {
  fn p_ssss [4] {
    let d: i16 = any();
    let s = rawler::ljpeg92::verif::ssss(d) as u32;
    let m = (d as i32).unsigned_abs();
    assert!(s <= 16 && m < 1 << s && (s == 0 || m >= 1 << (s - 1)), "the smallest number of bits that holds the magnitude");
  }
  // the writer appends exactly the given bits, from any state of its pending byte
  fn p_bitstream_step [6] {
    let (next, used): (u8, usize) = (any(), range(0, 8));
    assume(next as u64 & mask(8 - used) == 0);
    let (n, v): (usize, u64) = (range(0, 16), any());
    let mut m = Mem::<8>::new();
    let (next2, used2) = {
      let mut b = rawler::ljpeg92::verif::bitstream(&mut m, next, used);
      b.write(n, v).unwrap();
      rawler::ljpeg92::verif::pending(&b)
    };
    let (out, outn) = unstuffed(&m);
    assert!(used2 <= 8 && next2 as u64 & mask(8 - used2) == 0, "pending bits are left-aligned");
    assert!(outn + used2 == used + n, "as many bits as were written");
    let want = (next as u64 >> (8 - used)) << n | v & mask(n);
    assert!(out << used2 | (next2 as u64 >> (8 - used2)) == want, "earlier bits, then the new bits");
  }
  fn p_bitstream_flush [6] {
    let (next, used): (u8, usize) = (any(), range(0, 8));
    assume(next as u64 & mask(8 - used) == 0);
    let mut m = Mem::<8>::new();
    {
      let mut b = rawler::ljpeg92::verif::bitstream(&mut m, next, used);
      b.flush().unwrap();
    }
    let (out, outn) = unstuffed(&m);
    assert!(if used == 0 { outn == 0 } else { outn == 8 && out == next as u64 }, "pending bits reach the stream, padded with zeros");
  }
  // a difference is stored as the code of its class in its component's table and its
  // magnitude bits, from which huff_diff restores it
  #[cfg_attr(kani, kani::stub(BitstreamJPEG::write, hk::record))]
  fn p_symbol_read_back [19] {
    use rawler::ljpeg92::verif as ev;
    let (la, lb): (usize, usize) = (range(1, 16), range(1, 16));
    let (ca, cb): (u16, u16) = (any(), any());
    assume(ca as u64 <= mask(la) && cb as u64 <= mask(lb));
    let d: i16 = any();
    let s = ev::ssss(d) as usize;
    let t = [[BitArray16::from_lsb(la, ca); 17], [BitArray16::from_lsb(lb, cb); 17]];
    let img = [0u16; 2];
    let mut m = Mem::<20>::new();
    let mut diffs = Vec::with_capacity(2);
    diffs.push(0);
    diffs.push(d);
    let r = ev::body(LjpegCompressor::new(&img, 1, 1, 2, 16, 1, 0, 0).ok().unwrap(), &t, diffs, &mut m);
    assert!(r.is_ok());
    #[cfg(kani)]
    let (n, calls) = unsafe { (hk::NCALLS, hk::CALLS) };
    #[cfg(not(kani))]
    let (n, calls) = {
      let mut p = BitPumpJPEG::new(&m.buf);
      let a = (la, p.get_bits(la as u32) as u64);
      let b = (lb, p.get_bits(lb as u32) as u64);
      (if s % 16 == 0 { 2 } else { 3 }, [a, b, (s, p.get_bits(s as u32 % 16) as u64), (0, 0)])
    };
    assert!(n == if s % 16 == 0 { 2 } else { 3 }, "a code each, and magnitude bits unless the class has none");
    assert!(calls[0].0 == la && calls[0].1 & mask(la) == ca as u64, "code of the class in the first component's table");
    assert!(calls[1].0 == lb && calls[1].1 & mask(lb) == cb as u64, "code of the class in the second component's table");
    if n == 3 { assert!(calls[2].0 == s, "as many magnitude bits as the class says"); }
    let h = HuffTable::empty();
    let mut p = Word { w: if n == 3 { calls[2].1 << (64 - s) } else { 0 }, used: 0 };
    assert!(h.huff_diff(&mut p, (lb as u8, s as u8, 0)) == d as i32, "the difference");
    std::mem::forget(h);
  }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_1 [20] { hk::predictor::<1, 1, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_2 [20] { hk::predictor::<1, 2, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_3 [20] { hk::predictor::<1, 3, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_4 [20] { hk::predictor::<1, 4, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_5 [20] { hk::predictor::<1, 5, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_6 [20] { hk::predictor::<1, 6, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_1_7 [20] { hk::predictor::<1, 7, 9>(3, 3) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_2_1 [20] { hk::predictor::<2, 1, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_2_2 [20] { hk::predictor::<2, 2, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_2_3 [20] { hk::predictor::<2, 3, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_2_4 [20] { hk::predictor::<2, 4, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_2_5 [20] { hk::predictor::<2, 5, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_2_6 [20] { hk::predictor::<2, 6, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_2_7 [20] { hk::predictor::<2, 7, 12>(3, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_3_1 [20] { hk::predictor::<3, 1, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_3_2 [20] { hk::predictor::<3, 2, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_3_3 [20] { hk::predictor::<3, 3, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_3_4 [20] { hk::predictor::<3, 4, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_3_5 [20] { hk::predictor::<3, 5, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_3_6 [20] { hk::predictor::<3, 6, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_3_7 [20] { hk::predictor::<3, 7, 12>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_4_1 [20] { hk::predictor::<4, 1, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_4_2 [20] { hk::predictor::<4, 2, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_predict_4_3 [20] { hk::predictor::<4, 3, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_4_4 [20] { hk::predictor::<4, 4, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_4_5 [20] { hk::predictor::<4, 5, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_4_6 [20] { hk::predictor::<4, 6, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn tb_predict_4_7 [20] { hk::predictor::<4, 7, 16>(2, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_window_narrow [20] { hk::window::<1, 4, 9, 6>(3, 3, 2, 0, 2) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_window_stride [20] { hk::window::<1, 6, 6, 10>(3, 2, 3, 1, 5) }
  #[cfg_attr(kani, kani::stub(HuffTable::huff_decode, hk::next_diff))]
  fn b_window_pairs [20] { hk::window::<2, 1, 12, 12>(3, 2, 2, 2, 6) }
  fn b_scan_pad_1 [14] { hk::scan::<1, 6>(2, 2, 1, 7) }
  fn tb_scan_pad_2 [19] { hk::scan::<2, 8>(1, 2, 1, 1) }
  fn tb_scan_3 [19] { hk::scan::<3, 6>(1, 2, 0, 2) }
  // native only: code tables for arbitrary histograms (deep trees, single classes, ties)
  fn n_table [1] {
    let style = range(0, 3);
    let mut h = [0usize; 17];
    let (mut a, mut b) = (1usize, 1usize);
    for i in 0..17 {
      let v: u32 = any();
      h[i] = match style { 0 => v as usize, 1 => { let f = a; a = b; b += f; f }, 2 => if v % 4 == 0 { v as usize % 3 } else { 0 }, _ => 1 << (v % 24) };
    }
    if style == 1 { let k = range(0, 16); h.swap(k, 0); if k % 2 == 0 { h.reverse(); } }
    assume(h.iter().any(|f| *f > 0));
    let t = rawler::ljpeg92::verif::table(h);
    let mut kraft = 0usize;
    for i in 0..17 {
      let n = t[i].len();
      assert!((n > 0) == (h[i] > 0) && n <= 16, "exactly the classes that occur have a code of at most 16 bits");
      if n == 0 { continue; }
      let c = t[i].get_lsb() as u64;
      kraft += 1 << (16 - n);
      assert!(c != mask(n), "no code is all ones");
      for j in 0..17 {
        let l = t[j].len();
        if j != i && l >= n { assert!(t[j].get_lsb() as u64 >> (l - n) != c, "no code is a prefix of another"); }
      }
    }
    assert!(kraft < 1 << 16);
  }
  fn b_cached_skewed [20] { hk::cached::<3, 3>([1, 1, 1]) }
  fn b_cached_wide [20] { hk::cached::<3, 4>([0, 3, 1]) }
  fn b_cached_long [20] { hk::cached::<5, 4>([1, 1, 0, 0, 2]) }
}
