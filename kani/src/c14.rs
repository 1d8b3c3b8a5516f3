//! C14 plain TIFF and DNG image data: every sample of the image is the stored one, whatever
//! its depth, byte order, compression and division into strips or tiles.
use crate::spec::*;
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::decoders::plain_image_from_ifd;
use rawler::decompressors::{Decompressor, deflate::DeflateDecompressor};
use rawler::formats::tiff::{Entry, IFD, Value};
use rawler::rawimage::RawImageData;
use rawler::rawsource::RawSource;

/// A zlib stream of the given bytes: the stand-in's form under the verifier, one stored
/// block (RFC 1950/1951) otherwise.
fn zlib(data: &[u8]) -> Vec<u8> {
  let mut v = vec![0x78];
  if cfg!(kani) { v.extend_from_slice(data); return v; }
  v.extend_from_slice(&[0x01, 0x01]);
  v.extend_from_slice(&(data.len() as u16).to_le_bytes());
  v.extend_from_slice(&(!(data.len() as u16)).to_le_bytes());
  v.extend_from_slice(data);
  let (mut a, mut b) = (1u32, 0u32);
  for d in data { a = (a + *d as u32) % 65521; b = (b + a) % 65521; }
  v.extend_from_slice(&(b << 16 | a).to_be_bytes());
  v
}
/// The byte at `k` of a row after undoing the differences to the byte `f` to its left.
fn undo(row: &[u8], k: usize, f: usize) -> u8 {
  let mut s = row[k];
  let mut j = k;
  while j >= f { j -= f; s = s.wrapping_add(row[j]); }
  s
}
/// Does `got` hold the float stored as the `bps / 8` most significant bytes first?
fn float_is(got: f32, bps: u32, bits: u32) -> bool {
  match bps { 16 => same_float(got, bits, 5, 10), 24 => same_float(got, bits, 7, 16), _ => got.to_bits() == bits }
}
/// Sample `col` of an inflated row of `w` samples: one plane per byte, differences undone.
fn stored(row: &[u8], col: usize, w: usize, bps: u32, f: usize) -> u32 {
  let mut v = 0u32;
  let mut c = 0;
  while c < bps as usize / 8 { v = v << 8 | undo(row, col + c * w, f) as u32; c += 1; }
  v
}
/// One block of two rows; `N` inflated bytes.
fn inflate<const N: usize, const S: usize>(bps: u32, cpp: usize, predictor: u16) {
  let raw: [u8; N] = any();
  let w = S / 2;
  let f = cpp * match predictor { 3 => 1, 34894 => 2, _ => 4 };
  let z = zlib(&raw);
  let mut out = [0f32; S];
  let d = DeflateDecompressor::new(cpp, predictor, bps);
  assert!(d.decompress(&z, 0, out.chunks_exact_mut(w), w).is_ok(), "a block of the right size is accepted");
  let (r, c) = (range(0, 1), range(0, w - 1));
  let row = &raw[r * N / 2..(r + 1) * N / 2];
  assert!(float_is(out[r * w + c], bps, stored(row, c, w, bps, f)), "sample is put together from its own bytes");
  std::mem::forget(z);
}
fn inflate_size(n: usize) {
  let raw: [u8; 9] = any();
  let z = zlib(&raw[..n]);
  let mut out = [0f32; 4];
  let r = DeflateDecompressor::new(1, 3, 16).decompress(&z, 0, out.chunks_exact_mut(2), 2);
  assert!(r.is_ok() == (n == 8), "a block of another size is refused");
  std::mem::forget(r);
  std::mem::forget(z);
}

fn put(ifd: &mut IFD, tag: u16, value: Value) { ifd.entries.insert(tag, Entry { tag, value, embedded: None }); }
fn long(v: usize) -> Value { Value::Long(vec![v as u32]) }
fn short(v: usize) -> Value { Value::Short(vec![v as u16]) }
/// The fields of an image directory without its strips or tiles.
fn image_ifd(big: bool, w: usize, h: usize, cpp: usize, bits: usize, compression: usize, float: bool) -> IFD {
  let mut d = IFD { endian: if big { rawler::bits::Endian::Big } else { rawler::bits::Endian::Little }, ..Default::default() };
  put(&mut d, 0x0100, long(w));
  put(&mut d, 0x0101, long(h));
  put(&mut d, 0x0102, Value::Short(vec![bits as u16; cpp]));
  put(&mut d, 0x0103, short(compression));
  put(&mut d, 0x0106, short(32803));
  put(&mut d, 0x0115, short(cpp));
  if float { put(&mut d, 0x0153, short(3)); }
  d
}
/// Packs integer samples: 16 bit in the file's byte order, everything else MSB first.
fn pack(samples: &[u16], bits: usize, big: bool) -> Vec<u8> {
  if bits == 16 { return samples.iter().flat_map(|s| if big { s.to_be_bytes() } else { s.to_le_bytes() }).collect(); }
  let mut out = vec![0u8; (samples.len() * bits).div_ceil(8)];
  for (i, s) in samples.iter().enumerate() {
    for b in 0..bits { if s >> (bits - 1 - b) & 1 == 1 { let p = i * bits + b; out[p / 8] |= 0x80 >> (p % 8); } }
  }
  out
}
/// Stores the blocks at the directory's offsets, one after the other or with gaps and out
/// of order.
fn store(d: &mut IFD, blocks: Vec<Vec<u8>>, tags: (u16, u16), base: u32) -> Vec<u8> {
  let mut file = vec![0xEE; base as usize + range(0, 5)];
  let scattered = range(0, 1) == 1;
  let mut offs = vec![0usize; blocks.len()];
  let order: Vec<usize> = if scattered { (0..blocks.len()).rev().collect() } else { (0..blocks.len()).collect() };
  for i in order {
    if scattered { file.resize(file.len() + range(0, 3), 0xDD); }
    offs[i] = file.len() - base as usize;
    file.extend_from_slice(&blocks[i]);
  }
  d.base = base;
  put(d, tags.0, Value::Long(offs.iter().map(|o| *o as u32).collect()));
  put(d, tags.1, Value::Long(blocks.iter().map(|b| b.len() as u32).collect()));
  file.extend_from_slice(&[0xCC; 3]);
  file
}
/// Divides an image of samples into tiles (padding with noise) or strips.
fn divide<T: Copy>(img: &[T], w: usize, h: usize, bw: usize, bh: usize, tiled: bool, noise: impl Fn() -> T) -> Vec<(Vec<T>, usize)> {
  let mut out = vec![];
  for by in 0..h.div_ceil(bh) {
    for bx in 0..w.div_ceil(bw) {
      let rows = if !tiled { bh.min(h - by * bh) } else { bh };
      out.push(((0..rows * bw).map(|k| { let (r, c) = (by * bh + k / bw, bx * bw + k % bw); if r < h && c < w { img[r * w + c] } else { noise() } }).collect(), rows));
    }
  }
  out
}

harnesses! {
  fn b_inflate_16 [34] { inflate::<8, 4>(16, 1, 3); }
  fn b_inflate_24 [34] { inflate::<12, 4>(24, 1, 3); }
  fn b_inflate_32 [34] { inflate::<16, 4>(32, 1, 3); }
  fn b_inflate_16_x2 [34] { inflate::<12, 6>(16, 1, 34894); }
  fn b_inflate_32_x4 [34] { inflate::<24, 6>(32, 1, 34895); }
  fn b_inflate_16_rgb [34] { inflate::<24, 12>(16, 3, 3); }
  fn b_inflate_size [14] { inflate_size(7); inflate_size(8); inflate_size(9); }
  fn n_inflate_damaged [1] {
    let raw: [u8; 9] = any();
    if raw[0] & 15 != 8 {   // not a zlib header
      let mut out = [0f32; 4];
      let r = DeflateDecompressor::new(1, 3, 16).decompress(&raw, 0, out.chunks_exact_mut(2), 2);
      assert!(r.is_err(), "anything but a zlib stream is refused");
      std::mem::forget(r);
    }
  }
  /// Integer images: depth, byte order, samples per pixel, strips or tiles, plain or
  /// lossless JPEG, interleaved or not.
  fn n_integer [1] {
    let ljpeg = range(0, 3) == 0;
    let bits = if ljpeg { range(10, 16) } else { [8, 10, 12, 14, 16, 9, 11, 13, 15, 4][range(0, 9)] };
    let unit = match bits { 8 | 16 => 1, 12 => 2, 10 | 14 => 4, _ => 8 };
    let (cpp, h, mut w) = (range(1, 3), range(1, 7), range(1, 8));
    if !ljpeg { w = w.div_ceil(unit) * unit; }
    let big = range(0, 1) == 1;
    let (tiled, interleaved) = (range(0, 1) == 1, cpp == 1 && w % 2 == 0 && h % 2 == 0 && range(0, 3) == 0);
    let img: Vec<u16> = (0..w * h * cpp).map(|_| { let v: u16 = any(); (v as u32 & ((1u32 << bits) - 1)) as u16 }).collect();
    let mut d = image_ifd(big, w, h, cpp, bits, if ljpeg { 7 } else { 1 }, false);
    let bw = if !tiled { w } else if ljpeg { range(1, 6) } else { range(1, 3) * unit };
    let bh = range(1, 8);
    let bh = if tiled { bh } else { bh.min(h) };
    let parts = divide(&img, w * cpp, h, bw * cpp, bh, tiled, || { let v: u16 = any(); (v as u32 & ((1u32 << bits) - 1)) as u16 });
    let px = range(1, 7) as u8;
    let blocks: Vec<Vec<u8>> = parts.iter().map(|(b, rows)| if ljpeg {
      rawler::ljpeg92::LjpegCompressor::new(b, bw, *rows, cpp, bits as u8, px, 0, 0).unwrap().encode().unwrap()
    } else { pack(b, bits, big) }).collect();
    let whole = !tiled && blocks.len() == 1 && range(0, 1) == 1;
    if tiled { put(&mut d, 0x0142, short(bw)); put(&mut d, 0x0143, short(bh)); } else if !whole { put(&mut d, 0x0116, short(bh)); }
    // a strip directory is never mistaken for a tiled one of the same width
    let file = if tiled { store(&mut d, blocks, (0x0144, 0x0145), range(0, 9) as u32) } else { store(&mut d, blocks, (0x0111, 0x0117), range(0, 9) as u32) };
    if interleaved { put(&mut d, 0xCD43, short(2)); put(&mut d, 0xC71F, short(2)); }
    match plain_image_from_ifd(&d, &RawSource::new_from_slice(&file)) {
      Ok(RawImageData::Integer(p)) => {
        assert!(p.len() == img.len(), "the image has its size");
        for k in 0..p.len() {
          let (r, c) = (k / (w * cpp), k % (w * cpp));
          let from = if interleaved { ((r % 2) * (h / 2) + r / 2) * w + (c % 2) * (w / 2) + c / 2 } else { k };
          assert!(p[k] == img[from], "every sample is the stored one");
        }
      }
      Ok(_) => assert!(false, "integer samples"),
      Err(_) => assert!(false, "a well-formed image is decoded"),
    }
  }
  /// Floating point images: depth, byte order, strips, tiles or deflated tiles.
  fn n_float [1] {
    let deflate = range(0, 1) == 1;
    let bytes = range(2, 4);
    let (cpp, h, w) = (range(1, 3), range(1, 7), range(1, 8));
    let big = range(0, 1) == 1;
    let tiled = deflate || range(0, 1) == 1;
    let img: Vec<u32> = (0..w * h * cpp).map(|_| { let v: u32 = any(); (v as u64 & ((1u64 << (8 * bytes)) - 1)) as u32 }).collect();
    let mut d = image_ifd(big, w, h, cpp, 8 * bytes, if deflate { 8 } else { 1 }, true);
    let bw = if tiled { range(1, 6) } else { w };
    let bh = range(1, 8);
    let bh = if tiled { bh } else { bh.min(h) };
    let parts = divide(&img, w * cpp, h, bw * cpp, bh, tiled, || { let v: u16 = any(); v as u32 });
    let k = range(0, 2);
    let (predictor, f) = ([3, 34894, 34895][k], cpp * [1, 2, 4][k]);
    let blocks: Vec<Vec<u8>> = parts.iter().map(|(b, _)| if deflate {
      let mut all = vec![];
      for row in b.chunks(bw * cpp) {
        let planes: Vec<u8> = (0..bytes).flat_map(|c| row.iter().map(move |s| (s >> (8 * (bytes - 1 - c))) as u8)).collect();
        all.extend((0..planes.len()).map(|i| if i >= f { planes[i].wrapping_sub(planes[i - f]) } else { planes[i] }));
      }
      zlib(&all)
    } else {
      b.iter().flat_map(|s| { let mut v = s.to_le_bytes()[..bytes].to_vec(); if big { v.reverse(); } v }).collect()
    }).collect();
    if deflate { put(&mut d, 0x013D, short(predictor)); }
    if tiled { put(&mut d, 0x0142, short(bw)); put(&mut d, 0x0143, short(bh)); } else { put(&mut d, 0x0116, short(bh)); }
    let file = if tiled { store(&mut d, blocks, (0x0144, 0x0145), range(0, 9) as u32) } else { store(&mut d, blocks, (0x0111, 0x0117), range(0, 9) as u32) };
    match plain_image_from_ifd(&d, &RawSource::new_from_slice(&file)) {
      Ok(RawImageData::Float(p)) => {
        assert!(p.len() == img.len(), "the image has its size");
        for k in 0..p.len() { assert!(float_is(p[k], 8 * bytes as u32, img[k]), "every sample is the stored one"); }
      }
      Ok(_) => assert!(false, "floating point samples"),
      Err(_) => assert!(false, "a well-formed image is decoded"),
    }
  }
}

hooked! {}
