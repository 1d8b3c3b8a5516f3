//! C10 embedded originals: what was embedded is what is extracted, bit for bit, and
//! anything else is noticed.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::dng::original::OriginalCompressed;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// Block size of the build: 65536, or 4 under the verifier.
const BLOCK: usize = if cfg!(all(kani, dnglab_verif)) { 4 } else { 65536 };

/// The container as the DNG specification lays it out: size and block offsets (big endian),
/// the blocks, and seven empty forks.
fn layout_ok(out: &[u8], len: usize) {
  let be = |i: usize| u32::from_be_bytes([out[i], out[i + 1], out[i + 2], out[i + 3]]);
  let blocks = (len + BLOCK - 1) / BLOCK;
  assert!(be(0) as usize == len, "the size of the original");
  assert!(be(4) as usize == 4 * (blocks + 2), "the first block follows the index");
  let end = be(4 * (blocks + 1)) as usize;
  assert!(out.len() == end + 28, "seven empty forks follow the last block");
  let k = range(0, 27);
  assert!(out[end + k] == 0, "the other forks are empty");
  let mut i = 0;
  while i < blocks {
    assert!(be(4 * (i + 1)) <= be(4 * (i + 2)), "block offsets ascend");
    i += 1;
  }
}
harnesses! {
  /// Any file of up to three and a bit (real size) blocks.
  fn n_container [1] {
    let kind = range(0, 5);
    let noise: [u8; 64] = any();
    let n = match kind { 0 => range(0, 200), 1 => 65536 - 2 + range(0, 4), 2 => 2 * 65536 - 2 + range(0, 4), 3 => 65536 + range(0, 255) * 256, 4 => 3 * 65536, _ => range(0, 255) * 97 };
    let data: Vec<u8> = (0..n).map(|i| noise[i % 64] ^ if noise[0] & 1 == 0 { (i / 251) as u8 } else { 0 }).collect();
    // the stream may be embedded from, and the container start, anywhere
    let lead = range(0, 9);
    let mut file = vec![0xAA; lead];
    file.extend_from_slice(&data);
    let mut c = Cursor::new(file);
    c.set_position(lead as u64);
    let o = OriginalCompressed::compress(&mut c).unwrap();
    let d = o.digest();
    let mut out = Cursor::new(vec![0x55; lead]);
    out.set_position(lead as u64);
    o.write_to_stream(&mut out).unwrap();
    let out = out.into_inner();
    layout_ok(&out[lead..], n);
    let mut r = Cursor::new(&out[..]);
    r.set_position(lead as u64);
    let o = OriginalCompressed::new(&mut r, d).unwrap();
    let mut back = Vec::new();
    let total = o.decompress(&mut back, true).unwrap();
    assert!(total == n && back == data, "the extracted file is the original");
    // damage is noticed: a changed byte in the blocks
    if n > 0 {
      let blocks = (n + BLOCK - 1) / BLOCK;
      let start = lead + 4 * (blocks + 2);
      let mut bad = out.clone();
      let len = bad.len() - 28 - start;
      let at = start + noise[1] as usize * 251 % len;
      bad[at] ^= 1 << (noise[2] & 7);
      let mut r = Cursor::new(&bad[..]);
      r.set_position(lead as u64);
      let mut back = Vec::new();
      let e = OriginalCompressed::new(&mut r, d).and_then(|o| o.decompress(&mut back, true));
      assert!(e.is_err() || back == data, "a damaged original is an error");
      // a truncated container is an error
      let cut = &out[..lead + noise[3] as usize * 257 % (out.len() - lead - 28)];
      let mut r = Cursor::new(cut);
      r.set_position(lead as u64);
      let mut back = Vec::new();
      let e = OriginalCompressed::new(&mut r, d).and_then(|o| o.decompress(&mut back, true));
      assert!(e.is_err(), "a truncated container is an error");
    }
  }
}
/// std's contract for reading a stream to its end, without std's adaptive buffering.
pub fn read_to_end_spec<R: Read + ?Sized>(r: &mut R, buf: &mut Vec<u8>, _hint: Option<usize>) -> std::io::Result<usize> {
  let mut total = 0;
  loop {
    let mut b = [0u8; 4];
    let n = r.read(&mut b)?;
    if n == 0 { return Ok(total); }
    buf.extend_from_slice(&b[..n]);
    total += n;
  }
}
/// Embedding writes the specified layout, with the original's bytes in its blocks.
fn writes<const N: usize>() {
  let data: [u8; N] = any();
  let o = OriginalCompressed::compress(&mut Cursor::new(&data[..])).unwrap();
  let d = o.digest();
  let mut buf = [0u8; 63];
  let mut w = &mut buf[..];
  o.write_to_stream(&mut w).unwrap();
  let left = w.len();
  std::mem::forget(o);
  let out = &buf[..63 - left];
  layout_ok(out, N);
  // the stand-in codec stores each block as a marker byte followed by the block
  let blocks = (N + BLOCK - 1) / BLOCK;
  let i = range(0, if N == 0 { 0 } else { N - 1 });
  if i < N { assert!(out[4 * (blocks + 2) + i / BLOCK * (BLOCK + 1) + 1 + i % BLOCK] == data[i], "the block holds the original's bytes"); }
  assert!(d == Some(md5(&data)), "the digest is the original's");
}
/// The stand-in digest of at most 15 bytes.
fn md5(d: &[u8]) -> [u8; 16] {
  let mut r = [0u8; 16];
  let mut i = 0;
  while i < d.len() { r[i] = d[i]; i += 1; }
  r[15] = d.len() as u8;
  r
}
/// A container with the given block sizes is read back as the concatenation of its blocks.
fn reads<const N: usize, const B: usize, const T: usize>(lead: usize) {
  let data: [u8; N] = any();
  let mut f = [0u8; T];
  let put = |f: &mut [u8; T], at: usize, v: u32| { f[lead + at] = (v >> 24) as u8; f[lead + at + 1] = (v >> 16) as u8; f[lead + at + 2] = (v >> 8) as u8; f[lead + at + 3] = v as u8; };
  put(&mut f, 0, N as u32);
  put(&mut f, 4, 4 * (B as u32 + 2));
  let mut p = 4 * (B + 2);
  let mut b = 0;
  while b < B {
    f[lead + p] = 0x78;
    p += 1;
    let mut k = 0;
    while k < BLOCK && b * BLOCK + k < N { f[lead + p] = data[b * BLOCK + k]; p += 1; k += 1; }
    put(&mut f, 4 * (b + 2), p as u32);
    b += 1;
  }
  let mut c = Cursor::new(&f[..]);
  c.set_position(lead as u64);
  let given: [u8; 16] = any();
  let none = range(0, 1) == 1;
  let o = OriginalCompressed::new(&mut c, if none { None } else { Some(given) }).unwrap();
  let check = range(0, 1) == 1;
  let mut back = Vec::with_capacity(16);
  let r = o.decompress(&mut back, check);
  let good = !none && given == md5(&data);
  assert!(r.is_ok() == (!check || good), "a wrong digest is an error exactly when checks are on");
  if let Ok(n) = &r { assert!(*n == N, "the size of the extracted file is reported"); }
  assert!(back.len() == N, "the extracted file has the original's size");
  let i = range(0, if N == 0 { 0 } else { N - 1 });
  if i < N { assert!(back[i] == data[i], "the extracted file is the original"); }
  std::mem::forget(r);
  std::mem::forget((o, back));
}
hooked! {
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_writes_0 [18] { writes::<0>(); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_writes_3 [18] { writes::<3>(); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_writes_4 [18] { writes::<4>(); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_writes_7 [18] { writes::<7>(); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_reads_0 [18] { reads::<0, 0, 8>(0); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_reads_3 [18] { reads::<3, 1, 18>(2); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_reads_4 [18] { reads::<4, 1, 18>(1); }
  #[cfg_attr(kani, kani::stub(std::io::default_read_to_end, crate::c10::read_to_end_spec))]
  fn b_reads_9 [18] { reads::<9, 3, 32>(0); }
}
