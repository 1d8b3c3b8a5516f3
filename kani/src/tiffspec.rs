//! TIFF 6.0, section 2: an independent reading of the file structure, used as oracle.
use std::io::{self, Read, Seek, SeekFrom, Write};

/// Fixed-size in-memory file.
pub struct Mem<const N: usize> { pub buf: [u8; N], pub len: usize, pub pos: usize }
impl<const N: usize> Mem<N> { pub fn new() -> Self { Mem { buf: [0; N], len: 0, pos: 0 } } }
impl<const N: usize> Write for Mem<N> {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.write_all(b)?; Ok(b.len()) }
  fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
    assert!(self.pos + b.len() <= N, "harness buffer too small");
    self.buf[self.pos..self.pos + b.len()].copy_from_slice(b);
    self.pos += b.len();
    if self.pos > self.len { self.len = self.pos; }
    Ok(())
  }
  fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<const N: usize> Read for Mem<N> {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let left = if self.pos < self.len { self.len - self.pos } else { 0 };
    let n = if b.len() < left { b.len() } else { left };
    b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
  fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> {
    if self.pos > self.len || self.len - self.pos < b.len() { return Err(io::ErrorKind::UnexpectedEof.into()); }
    b.copy_from_slice(&self.buf[self.pos..self.pos + b.len()]);
    self.pos += b.len();
    Ok(())
  }
}
impl<const N: usize> Seek for Mem<N> {
  fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
    self.pos = match p { SeekFrom::Start(x) => x as usize, SeekFrom::Current(d) => (self.pos as i64 + d) as usize, SeekFrom::End(d) => (self.len as i64 + d) as usize };
    Ok(self.pos as u64)
  }
}

pub fn u16_at(b: &[u8], at: usize) -> u16 { b[at] as u16 | (b[at + 1] as u16) << 8 }
pub fn u32_at(b: &[u8], at: usize) -> u32 { b[at] as u32 | (b[at + 1] as u32) << 8 | (b[at + 2] as u32) << 16 | (b[at + 3] as u32) << 24 }
pub fn width(typ: u16) -> usize { match typ { 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, _ => 1 } }

/// Field `i` of the directory at `ifd`: (tag, type, count, position of its data).
pub fn field(b: &[u8], ifd: usize, i: usize) -> (u16, u16, u32, usize) {
  let at = ifd + 2 + 12 * i;
  let (tag, typ, count) = (u16_at(b, at), u16_at(b, at + 2), u32_at(b, at + 4));
  let bytes = count as usize * width(typ);
  (tag, typ, count, if bytes <= 4 { at + 8 } else { u32_at(b, at + 8) as usize })
}
