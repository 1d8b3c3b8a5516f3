//! C06 TIFF directories: what is written is a TIFF file in which every directory and field
//! is found again; what is read is exactly what the file's structure says, and damage to one
//! field stays there.
use crate::sym::*;
use crate::tiffspec::*;
use crate::{harnesses, hooked};
use rawler::bits::Endian;
use rawler::formats::tiff::reader::{EndianReader, GenericTiffReader, TiffReader};
use rawler::formats::tiff::*;
use std::io::Cursor;

/// A directory laid out by TIFF 6.0 in the given byte order.
struct File { b: Vec<u8>, big: bool }
impl File {
  fn new(big: bool, base: usize, root: u32) -> File {
    let mut f = File { b: vec![0xA5; base], big };
    f.b.extend_from_slice(if big { b"MM" } else { b"II" });
    f.p16(42);
    f.p32(root);
    f
  }
  fn p16(&mut self, v: u16) { let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() }; self.b.extend_from_slice(&x) }
  fn p32(&mut self, v: u32) { let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() }; self.b.extend_from_slice(&x) }
  fn set32(&mut self, at: usize, v: u32) { let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() }; self.b[at..at + 4].copy_from_slice(&x) }
}
fn value(k: usize, n: usize) -> Value {
  let n = n.max(1);
  match k {
    0 => Value::Byte((0..n).map(|_| any()).collect()),
    1 => Value::Short((0..n).map(|_| any()).collect()),
    2 => Value::Long((0..n).map(|_| any()).collect()),
    3 => Value::Rational((0..n).map(|_| Rational::new(any(), any())).collect()),
    4 => Value::SByte((0..n).map(|_| any()).collect()),
    5 => Value::Undefined((0..n).map(|_| any()).collect()),
    6 => Value::SShort((0..n).map(|_| any()).collect()),
    7 => Value::SLong((0..n).map(|_| any()).collect()),
    8 => Value::SRational((0..n).map(|_| SRational::new(any(), any())).collect()),
    9 => Value::Float((0..n).map(|_| { let v: u32 = any(); f32::from_bits(v & 0xbf7fffff) }).collect()),
    10 => Value::Double((0..n).map(|_| { let v: u64 = any(); f64::from_bits(v & !(1 << 62)) }).collect()),
    _ => Value::Ascii(TiffAscii::new_from_raw(&(0..n).map(|_| { let v: u8 = any(); 32 + v % 90 }).chain([0]).collect::<Vec<u8>>())),
  }
}
type Dir = std::collections::BTreeMap<u16, Value>;
fn random_dir(max: usize) -> Dir {
  let mut d = Dir::new();
  for _ in 0..range(1, max) {
    let tag: u16 = any();
    // pointers to other directories are added by hand
    if [330, 34665, 34853, 34675].contains(&tag) { continue; }
    d.insert(tag, value(range(0, 11), range(1, 5)));
  }
  if d.is_empty() { d.insert(1, value(1, 1)); }
  d
}
fn same(ifd: &IFD, want: &Dir, extra: usize) -> bool {
  ifd.entries().len() == want.len() + extra && want.iter().all(|(t, v)| ifd.entries().get(t).is_some_and(|e| e.tag == *t && e.value == *v))
}
/// The structure of the directory at `at` is what TIFF 6.0 demands.
fn structure(b: &[u8], at: usize, spans: &mut Vec<(usize, usize)>) -> usize {
  assert!(at % 2 == 0, "a directory begins on a word boundary");
  let n = u16_at(b, at) as usize;
  spans.push((at, at + 2 + 12 * n + 4));
  let mut last = None;
  for i in 0..n {
    let (tag, typ, count, pos) = field(b, at, i);
    assert!(last.is_none_or(|l| l < tag), "fields are sorted by tag, each tag once");
    last = Some(tag);
    let size = count as usize * width(typ);
    assert!(count > 0 && pos + size <= b.len(), "values lie in the file");
    if size > 4 { assert!(pos % 2 == 0, "values begin on a word boundary"); spans.push((pos, pos + size)); }
  }
  u32_at(b, at + 2 + 12 * n) as usize
}

harnesses! {
  /// Whatever is written is a TIFF file and is found again.
  fn n_roundtrip [1] {
    let mut c = Cursor::new(Vec::new());
    let mut w = TiffWriter::new(&mut c).unwrap();
    let (root, a, b, e) = (random_dir(6), random_dir(4), random_dir(4), random_dir(4));
    let mut blob_at = vec![];
    let build = |d: &Dir| { let mut x = DirectoryWriter::new(); for (t, v) in d { x.add_value(*t, v.clone()); } x };
    let mut spans = vec![(0usize, 8usize)];
    let mut subs = vec![];
    let (multi, exif) = (range(0, 2), range(0, 1) == 1);
    let mut r = build(&root);
    for d in [&a, &b].into_iter().take(multi) {
      let data: Vec<u8> = (0..range(0, 9)).map(|_| any()).collect();
      let at = w.write_data(&data).unwrap() as usize;
      spans.push((at, at + data.len()));
      blob_at.push((at, data));
      subs.push(build(d).build(&mut w).unwrap());
    }
    if multi > 0 { r.add_untyped_tag(330, Value::Long(subs.clone())); }
    let mut exif_at = 0;
    if exif { exif_at = build(&e).build(&mut w).unwrap(); r.add_untyped_tag(34665, Value::Long(vec![exif_at])); }
    w.build(r).unwrap();
    let f = c.into_inner();
    // the file as the specification reads it
    assert!(f[..4] == *b"II\x2a\0", "TIFF header");
    assert!(structure(&f, u32_at(&f, 4) as usize, &mut spans) == 0, "no further directory");
    for s in &subs { structure(&f, *s as usize, &mut spans); }
    if exif { structure(&f, exif_at as usize, &mut spans); }
    spans.sort();
    assert!(spans.windows(2).all(|s| s[0].1 <= s[1].0), "nothing overlaps");
    for (at, d) in &blob_at { assert!(f[*at..*at + d.len()] == d[..], "data is at the place reported"); }
    // the file as the reader sees it
    let t = GenericTiffReader::new(&mut Cursor::new(&f), 0, 0, None, &[]).unwrap();
    assert!(t.chains().len() == 1 && same(t.root_ifd(), &root, (multi > 0) as usize + exif as usize), "all fields are found again");
    if multi > 0 {
      let s = t.root_ifd().get_sub_ifd_all(330u16).unwrap();
      assert!(s.len() == multi && same(&s[0], &a, 0) && (multi < 2 || same(&s[1], &b, 0)), "all sub-directories are found again");
    }
    if exif { assert!(same(t.root_ifd().get_sub_ifd(34665u16).unwrap(), &e, 0), "the EXIF directory is found again"); }
    let t2 = IFD::new_root(&mut Cursor::new(&f), 0).unwrap();
    assert!(t2 == *t.root_ifd() || t2.entries() == t.root_ifd().entries(), "both readers agree");
  }
  /// A chain of directories, any byte order, base and correction; some fields unreadable.
  fn n_chain [1] {
    let big = range(0, 1) == 1;
    let base = range(0, 6);
    let corr = range(0, 4) as i32 - 2;
    let k = range(1, 4);
    let back = range(0, 5) == 0;  // the last directory points back
    let mut f = File::new(big, base, 0);
    let mut link = base + 4;
    let (mut tags, mut first) = (vec![], 0);
    for i in 0..k {
      if f.b.len() % 2 == 1 { f.b.push(0); }
      let at = f.b.len() - base;
      f.set32(link, (at as i32 - corr) as u32);
      if i == 0 { first = at; }
      let n = range(1, 5);
      f.p16(n as u16);
      let mut good = vec![];
      for j in 0..n {
        let tag = (100 * i + j) as u16;
        f.p16(tag);
        let v: u16 = any();
        match range(0, 5) {
          // data beyond the end of the file
          0 => { f.p16(4); f.p32(2); f.p32(0x7000_0000); }
          // offsets the format cannot express
          1 => { f.p16(2); f.p32(9); f.p32((u32::MAX as i64 - corr as i64) as u32); }
          _ => { f.p16(3); f.p32(1); f.p16(v); f.p16(0); good.push((tag, v)); }
        }
      }
      tags.push(good);
      link = f.b.len();
      f.p32(0);
    }
    if back { f.set32(link, (first as i32 - corr) as u32); } else if range(0, 3) == 0 { f.b.truncate(link); }
    if tags.iter().any(|t| t.is_empty()) { return; }
    let t = GenericTiffReader::new_with_buffer(&f.b, base as u32, corr, None).unwrap();
    assert!(t.chains().len() == k, "all directories of the chain are found");
    assert!(t.get_endian() == if big { Endian::Big } else { Endian::Little });
    for i in 0..k {
      let d = &t.chains()[i];
      assert!(d.entries().len() == tags[i].len(), "a field that cannot be read is left out, nothing else");
      for (tag, v) in &tags[i] { assert!(d.get_entry(*tag).unwrap().value == Value::Short(vec![*v]), "fields keep their values"); }
    }
    if !back {
      let d = IFD::new_root_with_correction(&mut Cursor::new(&f.b), 0, base as u32, corr, 0, &[]).unwrap();
      assert!(d.chain.len() == k - 1 && d.entries() == t.chains()[0].entries(), "the other reader finds the chain as well");
      for i in 1..k { assert!(d.chain[i - 1].entries() == t.chains()[i].entries(), "and the same fields"); }
    }
    let lim = range(0, 3);
    let t = GenericTiffReader::new_with_buffer(&f.b, base as u32, corr, Some(lim)).unwrap();
    assert!(t.chains().len() == k.min(lim + 1), "a limited chain is the beginning of the chain");
  }
  /// Any bytes, and any damage to a well-formed file, are read without a panic.
  fn n_damage [1] {
    let mut f = File::new(range(0, 1) == 1, 0, 8);
    let n = range(1, 6);
    f.p16(n as u16);
    for _ in 0..n {
      let tag: u16 = any();
      let known = [330u16, 34665, 34853, 34675, 254, 271];
      let tag = if range(0, 1) == 0 { known[range(0, 5)] } else { tag };
      f.p16(tag); f.p16(range(0, 14) as u16); f.p32(if range(0, 7) == 0 { any() } else { range(0, 9) as u32 });
      let o = range(0, 100) as u32;
      f.p32(if o < 8 { u32::MAX - o } else { o });
    }
    let next = range(0, 120) as u32;
    f.p32(if next < 60 { 0 } else { next });
    for _ in 0..range(0, 40) { let x: u8 = any(); f.b.push(x & if range(0, 1) == 0 { 0xff } else { 1 }); }
    for _ in 0..range(0, 4) { let i = range(0, f.b.len() - 1); f.b[i] = any(); }
    let base = [0u32, 0, 3, u32::MAX - 2][range(0, 3)];
    let corr = [0i32, 0, 1, -9][range(0, 3)];
    let r = GenericTiffReader::new(&mut Cursor::new(&f.b), base, corr, None, &[271]);
    if let Ok(t) = &r {
      assert!(!t.chains().is_empty() && t.chains().iter().all(|d| !d.entries().is_empty()));
      let all = t.find_ifds_with_tag(271u16);
      assert!(all.iter().all(|d| d.has_entry(271u16)), "directories found by a field have it");
    }
    let _ = IFD::new_root(&mut Cursor::new(&f.b), base);
  }
}
hooked! {
  // two fields, in either order of insertion, one inside the field and one outside
  fn b_write [10] { write(0x100, 0x111, 0) }
  fn b_write_unsorted [10] { write(0x111, 0x100, 1) }
  // the directory itself, whatever reading a field does: the reader may end up anywhere
  #[cfg_attr(kani, kani::stub(rawler::formats::tiff::entry::Entry::parse, parse_spec))]
  fn b_fields_lost [10] {
    let ok: [bool; 3] = any();
    let next: u32 = any();
    let mut m = Mem::<64>::new();
    m.buf[4] = 3;
    for i in 0..3 {
      let at = 6 + 12 * i;
      m.buf[at] = i as u8 + 1;
      // a short, or a value beyond the end of the file
      m.buf[at + 2] = if ok[i] { 3 } else { 4 };
      m.buf[at + 4] = if ok[i] { 1 } else { 2 };
      m.buf[at + 9] = 1;
    }
    m.buf[42..46].copy_from_slice(&next.to_le_bytes());
    m.len = 46;
    #[cfg(kani)]
    unsafe { READABLE = ok; }
    let r = IFD::new(&mut m, 4, 0, 0, Endian::Little, &[]);
    match &r {
      Ok(d) => {
        assert!(d.next_ifd == next, "the next directory is found whatever the fields are");
        for i in 0..3 { assert!(d.entries.contains_key(&(i as u16 + 1)) == ok[i], "a field that cannot be read is left out, nothing else"); }
      }
      Err(_) => assert!(false, "a damaged field does not hide the directory"),
    }
    std::mem::forget(r);
  }
  fn b_read_le [10] { read_dir(false); }
  fn b_read_be [10] { read_dir(true); }
}
#[cfg(kani)]
static mut READABLE: [bool; 3] = [false; 3];
/// Reads or does not read a field, and leaves the reader anywhere.
#[cfg(kani)]
fn parse_spec<R: std::io::Read + std::io::Seek>(reader: &mut EndianReader<R>, _base: u32, _corr: i32, tag: u16) -> Result<Entry> {
  let to: u8 = any();
  reader.goto(to as u32)?;
  if unsafe { READABLE[tag as usize - 1] } { Ok(Entry { tag, value: Value::Byte(Vec::new()), embedded: None }) } else { Err(TiffError::General(String::new())) }
}
fn write(t1: u16, t2: u16, skip: usize) {
    let (v1, v2): ([u16; 2], [u32; 2]) = (any(), any());
    let mut m = Mem::<64>::new();
    let mut w = TiffWriter::new(&mut m).unwrap();
    w.writer.pos += skip;
    w.writer.len += skip;
    let mut d = DirectoryWriter::new();
    d.add_untyped_tag(t1, Value::Short(v1.to_vec()));
    d.add_untyped_tag(t2, Value::Long(v2.to_vec()));
    let at = d.build(&mut w).unwrap() as usize;
    assert!(at % 2 == 0, "a directory begins on a word boundary");
    assert!(u16_at(&m.buf, at) == 2, "number of fields");
    let (f0, f1) = (field(&m.buf, at, 0), field(&m.buf, at, 1));
    assert!(f0.0 < f1.0, "fields are sorted by tag");
    let (a, b) = if t1 < t2 { (f0, f1) } else { (f1, f0) };
    assert!(a.0 == t1 && b.0 == t2 && a.1 == 3 && b.1 == 4 && a.2 == 2 && b.2 == 2, "tag, type and count");
    assert!(u16_at(&m.buf, a.3) == v1[0] && u16_at(&m.buf, a.3 + 2) == v1[1], "embedded value");
    assert!(b.3 % 2 == 0 && b.3 + 8 <= at && u32_at(&m.buf, b.3) == v2[0] && u32_at(&m.buf, b.3 + 4) == v2[1], "value outside the field");
    assert!(u32_at(&m.buf, at + 26) == 0 && m.len == at + 30, "no further directory");
}

/// A directory of two fields at any place, with a pointer to the next.
fn read_dir(big: bool) {
  let mut m = Mem::<64>::new();
  let (b16, b32) = (|x: u16| if big { x.to_be_bytes() } else { x.to_le_bytes() }, |x: u32| if big { x.to_be_bytes() } else { x.to_le_bytes() });
  let (t1, t2, v): (u16, u16, u16) = (0x111, 0x100, any());
  let (next, w): (u32, [u32; 2]) = (any(), any());
  m.buf[6..8].copy_from_slice(&b16(2));
  m.buf[8..10].copy_from_slice(&b16(t1)); m.buf[10..12].copy_from_slice(&b16(3)); m.buf[12..16].copy_from_slice(&b32(1)); m.buf[16..18].copy_from_slice(&b16(v));
  m.buf[20..22].copy_from_slice(&b16(t2)); m.buf[22..24].copy_from_slice(&b16(4)); m.buf[24..28].copy_from_slice(&b32(2)); m.buf[28..32].copy_from_slice(&b32(40));
  m.buf[32..36].copy_from_slice(&b32(next));
  m.buf[40..44].copy_from_slice(&b32(w[0])); m.buf[44..48].copy_from_slice(&b32(w[1]));
  m.len = 48;
  let r = IFD::new(&mut m, 6, 0, 0, if big { Endian::Big } else { Endian::Little }, &[]);
  match &r {
    Ok(d) => {
      assert!(d.entries.len() == 2 && d.next_ifd == next, "all fields and the next directory are found");
      match d.entries.get(&t1) { Some(e) => match &e.value { Value::Short(x) => assert!(x.len() == 1 && x[0] == v, "value"), _ => assert!(false, "type") }, None => assert!(false, "field found") }
      match d.entries.get(&t2) { Some(e) => match &e.value { Value::Long(x) => assert!(x.len() == 2 && x[0] == w[0] && x[1] == w[1], "value"), _ => assert!(false, "type") }, None => assert!(false, "field found") }
    }
    Err(_) => assert!(false, "a well-formed directory is read"),
  }
  std::mem::forget(r);
}
