//! C12 decoding drivers: rows, strips and chunks go to their own place, errors are reported.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::decompressors::*;

/// Copies row `skip_rows + i` of the source to line `i`; refuses rows starting with `bad`.
struct Copy8 { bad: u8 }
impl<'a> Decompressor<'a, u16> for Copy8 {
  fn decompress(&self, src: &[u8], skip_rows: usize, lines: impl LineIteratorMut<'a, u16>, line_width: usize) -> Result<(), String> {
    let mut row = skip_rows;
    for line in lines {
      if line.len() != line_width { return Err(String::new()); }
      if src[row * line_width] == self.bad { return Err(String::new()); }
      let mut i = 0;
      while i < line_width { line[i] = src[row * line_width + i] as u16; i += 1; }
      row += 1;
    }
    Ok(())
  }
  fn can_skip_rows(&self) -> bool { true }
}
/// The driver's image equals the source, or an error was reported by some row.
fn judge<const N: usize>(w: usize, h: usize, src: &[u8; N], bad: u8, got: Result<rawler::pixarray::PixU16, String>) {
  let mut any_bad = false;
  let mut r = 0;
  while r < h { any_bad |= src[r * w] == bad; r += 1; }
  match got {
    Ok(p) => {
      assert!(!any_bad, "an error in any row is reported");
      assert!(p.width == w && p.height == h && p.data.len() == w * h, "the image has the requested size");
      let k = range(0, N - 1);
      assert!(p.data[k] == src[k] as u16, "every pixel comes from its own row and column");
    }
    Err(_) => assert!(any_bad, "no error without a failing row"),
  }
}
fn lines_fn<const N: usize>(w: usize, h: usize) {
  let (src, bad): ([u8; N], u8) = (any(), any());
  let got = decompress_lines_fn(w, h, false, &|line: &mut [u16], row: usize| {
    if line.len() != w || src[row * w] == bad { return Err(String::new()); }
    let mut i = 0;
    while i < w { line[i] = src[row * w + i] as u16; i += 1; }
    Ok(())
  });
  judge(w, h, &src, bad, got);
}
fn lines<const N: usize>(w: usize, h: usize) {
  let (src, bad): ([u8; N], u8) = (any(), any());
  judge(w, h, &src, bad, decompress_lines(&src, w, h, false, Copy8 { bad }));
}
fn strips<const N: usize>(w: usize, h: usize, rows: usize) {
  let (src, bad): ([u8; N], u8) = (any(), any());
  judge(w, h, &src, bad, decompress_strips(&src, w, h, false, rows, Copy8 { bad }));
}
fn strips_fn<const N: usize>(w: usize, h: usize, rows: usize) {
  let (src, bad): ([u8; N], u8) = (any(), any());
  let got = decompress_strips_fn(w, h, rows, false, &|lines: &mut [u16], strip: usize, row: usize| {
    let n = if h - row < rows { h - row } else { rows };
    if row != strip * rows || lines.len() != n * w { return Err(String::new()); }
    let mut i = 0;
    while i < n * w {
      if i % w == 0 && src[row * w + i] == bad { return Err(String::new()); }
      lines[i] = src[row * w + i] as u16;
      i += 1;
    }
    Ok(())
  });
  judge(w, h, &src, bad, got);
}
fn chunks<const N: usize>(w: usize, h: usize, size: usize) {
  let src: [u8; N] = any();
  let got = decompress_chunked_fn(w, h, size, false, &|chunk: &mut [u16], id: usize| {
    let mut i = 0;
    while i < chunk.len() { chunk[i] = src[id * size + i] as u16; i += 1; }
  });
  let p = got.ok().unwrap();
  assert!(p.width == w && p.height == h && p.data.len() == N);
  let k = range(0, N - 1);
  assert!(p.data[k] == src[k] as u16, "every chunk goes to its own place");
}
harnesses! {
  fn b_lines_fn_3x3 [14] { lines_fn::<9>(3, 3) }
  fn b_lines_fn_1x4 [14] { lines_fn::<4>(1, 4) }
  fn b_lines_fn_4x1 [14] { lines_fn::<4>(4, 1) }
  fn b_lines_3x3 [14] { lines::<9>(3, 3) }
  fn b_lines_2x4 [14] { lines::<8>(2, 4) }
  fn b_strips_2x4_2 [14] { strips::<8>(2, 4, 2) }
  fn b_strips_2x5_2 [14] { strips::<10>(2, 5, 2) }
  fn b_strips_3x3_1 [14] { strips::<9>(3, 3, 1) }
  fn b_strips_3x2_4 [14] { strips::<6>(3, 2, 4) }
  fn b_strips_fn_2x4_2 [14] { strips_fn::<8>(2, 4, 2) }
  fn b_strips_fn_2x5_2 [14] { strips_fn::<10>(2, 5, 2) }
  fn b_strips_fn_3x3_3 [14] { strips_fn::<9>(3, 3, 3) }
  fn b_chunks_3x2_2 [14] { chunks::<6>(3, 2, 2) }
  fn b_chunks_3x3_4 [14] { chunks::<9>(3, 3, 4) }
}
hooked! {}
