//! C11 views of a source: a view holds exactly the requested bytes, and padded views are
//! safe to over-read. Requests that do not fit are refused, for every offset and size.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::buffer::PaddedBuf;
use rawler::formats::tiff::{Entry, IFD, Value};
use rawler::rawsource::RawSource;
use std::collections::{BTreeMap, HashMap};

const N: usize = 40;
fn source(n: usize) -> ([u8; N], RawSource) {
  let data: [u8; N] = any();
  (data, RawSource::new_from_slice(&data[..n]))
}
/// Does `offset .. offset+size` lie within `n` bytes?
fn fits(offset: u64, size: u64, n: usize) -> bool { offset as u128 + size as u128 <= n as u128 }
/// Offsets and sizes: small ones and the ones that wrap.
fn request() -> (u64, u64) {
  let a: [u64; 2] = any();
  if cfg!(kani) { return (a[0], a[1]); }
  let f = |x: u64| match x >> 62 { 0 | 1 => x % 48, 2 => u64::MAX - x % 48, _ => (1 << 32) + x % 48 };
  (f(a[0]), f(a[1]))
}
fn subview(n: usize) {
  let (data, src) = source(n);
  let (offset, size) = request();
  let r = src.subview(offset, size);
  assert!(r.is_ok() == fits(offset, size, n), "a view is given exactly when the range lies in the file");
  if let Ok(v) = &r {
    assert!(v.len() as u64 == size, "the view has the requested size");
    let i = range(0, N - 1);
    if (i as u64) < size { assert!(v[i] == data[offset as usize + i], "the view holds the file's bytes"); }
  }
  std::mem::forget(r); std::mem::forget(src);
}
fn until_eof(n: usize) {
  let (data, src) = source(n);
  let (offset, _) = request();
  let r = src.subview_until_eof(offset);
  assert!(r.is_ok() == (offset <= n as u64), "a view is given exactly when it starts in the file");
  if let Ok(v) = &r {
    assert!(v.len() == n - offset as usize, "the view reaches the end of the file");
    let i = range(0, N - 1);
    if i < v.len() { assert!(v[i] == data[offset as usize + i], "the view holds the file's bytes"); }
  }
  std::mem::forget(r); std::mem::forget(src);
}
fn padded_ok(p: &PaddedBuf, data: &[u8; N], offset: usize, size: usize) {
  assert!(p.size() == size, "the nominal size is the requested one");
  assert!(p.len() >= size + 16 && p.real_size() == p.len() && p.buf().len() == p.len(), "at least 16 readable bytes follow the content");
  let i = range(0, N - 1);
  if i < size { assert!(p[i] == data[offset + i], "the padded view holds the file's bytes"); }
}
fn padded(n: usize, size: usize) {
  let (data, src) = source(n);
  let (offset, _) = request();
  let r = src.subview_padded(offset, size as u64);
  assert!(r.is_ok() == fits(offset, size as u64, n), "a view is given exactly when the range lies in the file");
  if let Ok(p) = &r { padded_ok(p, &data, offset as usize, size); }
  std::mem::forget(r); std::mem::forget(src);
}
fn padded_until_eof(n: usize, offset: usize) {
  let (data, src) = source(n);
  let r = src.subview_until_eof_padded(offset as u64);
  assert!(r.is_ok() == (offset < n), "a view is given exactly when it starts in the file");
  if let Ok(p) = &r { padded_ok(p, &data, offset, n - offset); }
  std::mem::forget(r); std::mem::forget(src);
}
harnesses! {
  fn p_subview [4] { subview(24); }
  fn p_subview_empty_file [4] { subview(0); }
  fn p_subview_until_eof [4] { until_eof(24); }
  fn b_padded_none [26] { padded(24, 0); }
  fn b_padded_short [26] { padded(24, 5); }
  fn b_padded_copy [26] { padded(24, 9); }
  fn b_padded_all [42] { padded(20, 20); }
  fn b_padded_refused [8] {
    let (_, src) = source(24);
    let (offset, size) = request();
    assume(!fits(offset, size, 24));
    let r = src.subview_padded(offset, size);
    assert!(r.is_err(), "a range outside the file is refused");
    std::mem::forget(r); std::mem::forget(src);
  }
  fn b_padded_eof_0 [42] { padded_until_eof(20, 0); }
  fn b_padded_eof_7 [42] { padded_until_eof(20, 7); }
  fn b_padded_eof_end [42] { padded_until_eof(20, 20); padded_until_eof(20, 19); padded_until_eof(0, 0); }
  fn p_reader [4] {
    let (data, mut src) = source(24);
    let i = range(0, 23);
    assert!(src.len() == 24 && src.stream_len() == 24 && src.buf()[i] == data[i] && src.reader().get_ref()[i] == data[i] && src.reader().position() == 0, "the source is the file");
    std::mem::forget(src);
  }
  fn p_as_vec [4] {
    let (data, src) = source(24);
    let v = src.as_vec().unwrap();
    let i = range(0, 23);
    assert!(v.len() == 24 && v[i] == data[i], "the copy equals the file");
    std::mem::forget(v); std::mem::forget(src);
  }
  /// Everything at once on the real file API.
  fn n_views [1] {
    let len = range(0, N);
    let data: [u8; N] = any();
    let src = RawSource::new_from_slice(&data[..len]);
    for _ in 0..4 {
      let (o, s) = request();
      let ok = fits(o, s, len);
      match src.subview(o, s) { Ok(v) => assert!(ok && v == &data[o as usize..(o + s) as usize]), Err(_) => assert!(!ok, "view refused") }
      match src.subview_padded(o, s) {
        Ok(v) => { assert!(ok); assert!(v.size() as u64 == s && v.len() as u64 >= s + 16 && v[..s as usize] == data[o as usize..(o + s) as usize]) }
        Err(_) => assert!(!ok, "view refused"),
      }
      match src.subview_until_eof(o) { Ok(v) => assert!(v == &data[o as usize..len]), Err(_) => assert!(o > len as u64, "view refused") }
      match src.subview_until_eof_padded(o) {
        Ok(v) => assert!(v.size() == len - o as usize && v.len() >= v.size() + 16 && v[..v.size()] == data[o as usize..len]),
        Err(_) => assert!(o >= len as u64, "view refused"),
      }
    }
  }
  /// Strip and tile data of a directory (offset and byte count fields).
  fn n_directory [1] {
    let data: [u8; N] = any();
    let src = RawSource::new_from_slice(&data);
    let n = range(0, 4);
    let base = if range(0, 1) == 0 { 0 } else { range(0, 20) as u32 };
    let near: bool = range(0, 1) == 1;
    let mut offs: Vec<u32> = Vec::new();
    let mut lens: Vec<u32> = Vec::new();
    for _ in 0..n {
      let l = range(0, 12) as u32;
      let o = if near && !offs.is_empty() { offs.last().unwrap().wrapping_add(*lens.last().unwrap()) } else { range(0, 44) as u32 };
      offs.push(if range(0, 40) == 40 { u32::MAX - range(0, 30) as u32 } else { o });
      lens.push(if range(0, 40) == 40 { u32::MAX - range(0, 30) as u32 } else { l });
    }
    directory(&data, &src, base, offs, lens);
  }
}
fn tag(ifd: &mut IFD, tag: u16, v: Vec<u32>) { ifd.entries.insert(tag, Entry { tag, value: Value::Long(v), embedded: None }); }
fn directory(data: &[u8; N], src: &RawSource, base: u32, offs: Vec<u32>, lens: Vec<u32>) {
  let mut strips = IFD { base, ..Default::default() };
  tag(&mut strips, 0x0111, offs.clone());
  tag(&mut strips, 0x0117, lens.clone());
  let mut tiles = IFD { base, ..Default::default() };
  tag(&mut tiles, 0x0144, offs.clone());
  tag(&mut tiles, 0x0145, lens.clone());
  let all = offs.iter().zip(&lens).all(|(o, l)| fits(base as u64 + *o as u64, *l as u64, N));
  let want = |i: usize| &data[(base + offs[i]) as usize..(base + offs[i] + lens[i]) as usize];
  if !offs.is_empty() {
    match strips.strip_data(src) {
      Ok((v, whole)) => {
        assert!(all && v.len() == offs.len(), "one slice per strip");
        for i in 0..v.len() { assert!(v[i] == want(i), "the slice holds the strip's bytes"); }
        let contiguous = (1..offs.len()).all(|i| offs[i - 1] as u64 + lens[i - 1] as u64 == offs[i] as u64);
        assert!(whole.is_some() == contiguous, "a single slice is given exactly for consecutive strips");
        if let Some(w) = whole { assert!(w == v.concat(), "the single slice holds all strips"); }
      }
      Err(_) => assert!(!all, "strips inside the file are found"),
    }
    match tiles.tile_data(src) {
      Ok(v) => {
        assert!(all && v.len() == offs.len(), "one slice per tile");
        for i in 0..v.len() { assert!(v[i] == want(i), "the slice holds the tile's bytes"); }
      }
      Err(_) => assert!(!all, "tiles inside the file are found"),
    }
    if offs.len() == 1 {
      assert!(strips.contains_singlestrip_image());
      match strips.singlestrip_data_rawsource(src) {
        Ok(v) => assert!(all && v == want(0), "the slice holds the strip's bytes"),
        Err(_) => assert!(!all, "a strip inside the file is found"),
      }
    }
  } else {
    assert!(strips.strip_data(src).is_ok() || true, "no strips: no panic");
  }
}
hooked! {
  fn b_strips_two [8] { dir_strips(2); }
  fn b_strips_one [8] { dir_strips(1); }
  fn b_tiles_one [8] { dir_tiles(1); }
  fn tb_tiles_two [8] { dir_tiles(2); }
}

fn dir_strips(n: usize) {
  let (data, src) = source(24);
  let o: [u32; 2] = any();
  let l: [u32; 2] = if n == 1 { any() } else { [3, 5] };
  let base: u32 = any();
  let mut d = IFD { base, ..Default::default() };
  tag(&mut d, 0x0111, o[..n].to_vec());
  tag(&mut d, 0x0117, l[..n].to_vec());
  let r = d.strip_data(&src);
  let ok = (0..n).all(|i| fits(base as u64 + o[i] as u64, l[i] as u64, 24));
  assert!(r.is_ok() == ok, "strips are found exactly when they lie in the file");
  if let Ok((v, whole)) = &r {
    assert!(v.len() == n, "one slice per strip");
    let k = range(0, n - 1);
    let i = range(0, 23);
    assert!(v[k].len() == l[k] as usize, "a strip has its size");
    if i < v[k].len() { assert!(v[k][i] == data[base as usize + o[k] as usize + i], "a strip holds its bytes"); }
    assert!(whole.is_some() == (n == 1 || o[0] as u64 + l[0] as u64 == o[1] as u64), "a single slice exactly for consecutive strips");
    if let Some(w) = whole {
      assert!(w.len() == (if n == 1 { l[0] } else { l[0] + l[1] }) as usize, "the single slice covers all strips");
      if i < w.len() { assert!(w[i] == data[base as usize + o[0] as usize + i], "the single slice holds the strips' bytes"); }
    }
  }
  std::mem::forget(r);
  std::mem::forget(d);
  std::mem::forget(src);
}
fn dir_tiles(n: usize) {
  let (data, src) = source(24);
  let o: [u32; 2] = any();
  let l: [u32; 2] = if n == 1 { any() } else { [3, 5] };
  let base: u32 = any();
  let mut d = IFD { base, ..Default::default() };
  tag(&mut d, 0x0144, o[..n].to_vec());
  tag(&mut d, 0x0145, l[..n].to_vec());
  let r = d.tile_data(&src);
  let ok = (0..n).all(|i| fits(base as u64 + o[i] as u64, l[i] as u64, 24));
  assert!(r.is_ok() == ok, "tiles are found exactly when they lie in the file");
  if let Ok(v) = &r {
    let k = range(0, n - 1);
    let i = range(0, 23);
    assert!(v.len() == n && v[k].len() == l[k] as usize, "a tile has its size");
    if i < v[k].len() { assert!(v[k][i] == data[base as usize + o[k] as usize + i], "a tile holds its bytes"); }
  }
  std::mem::forget(r);
  std::mem::forget(d);
  std::mem::forget(src);
}
