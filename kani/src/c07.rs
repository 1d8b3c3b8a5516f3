//! C07 tiling: cutting an image into tiles and writing tiles back into an image move every
//! pixel to its own place.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::tiles::*;

/// Every sample of the image is found at its place in its tile; tiles have full size.
fn cut<const N: usize>(w: usize, h: usize, cpp: usize, tw: usize, th: usize) {
  let data: [u16; N] = any();
  assert!(N >= w * h * cpp);
  let t = ImageTiler::new(&data, w, h, cpp, tw, th);
  let (cols, rows) = ((w + tw - 1) / tw, (h + th - 1) / th);
  assert!(t.tile_cols() == cols && t.tile_rows() == rows && t.tile_count() == cols * rows, "enough tiles to cover the image");
  let mut idx = 0;
  while idx < cols * rows {
    let tile = t.build_tile(idx);
    assert!(tile.len() == tw * th * cpp, "every tile has full size");
    let (ty, tx) = (idx / cols, idx % cols);
    let (r, c, s) = (range(0, th - 1), range(0, tw - 1), range(0, cpp - 1));
    let (y, x) = (ty * th + r, tx * tw + c);
    if y < h && x < w {
      assert!(tile[(r * tw + c) * cpp + s] == data[(y * w + x) * cpp + s], "the tile holds the image's sample");
    }
    idx += 1;
  }
}
/// Same, through the iterator interface.
fn iterate<const N: usize>(w: usize, h: usize, cpp: usize, tw: usize, th: usize) {
  let data: [u16; N] = any();
  let mut t = ImageTiler::new(&data, w, h, cpp, tw, th);
  let cols = (w + tw - 1) / tw;
  let n = cols * ((h + th - 1) / th);
  assert!(t.size_hint() == (n, Some(n)));
  let mut idx = 0;
  while idx < n {
    let tile = t.next().unwrap();
    let (r, c, s) = (range(0, th - 1), range(0, tw - 1), range(0, cpp - 1));
    let (y, x) = ((idx / cols) * th + r, (idx % cols) * tw + c);
    if y < h && x < w {
      assert!(tile[(r * tw + c) * cpp + s] == data[(y * w + x) * cpp + s], "tiles come in row-major order");
    }
    idx += 1;
  }
  assert!(t.next().is_none(), "and then end");
}
/// Writing a value into one line of one tile changes exactly that place of the image.
fn place<const N: usize>(w: usize, cpp: usize, tw: usize, th: usize) {
  let before: [u16; N] = any();
  let mut img = before;
  let cols = w / tw;
  let h = N / w / cpp;
  let n = cols * (h / th);
  let (ti, r, c, s) = (range(0, n - 1), range(0, th - 1), range(0, tw - 1), range(0, cpp - 1));
  let v: u16 = any();
  let mut seen = 0;
  for (i, tile) in img[..].into_tiles_iter_mut(w, cpp, tw, th).ok().unwrap().enumerate() {
    seen += 1;
    let mut lines = 0;
    for (l, line) in tile.into_iter_mut().enumerate() {
      lines += 1;
      assert!(line.len() == tw * cpp, "a tile line has the tile's width");
      if i == ti && l == r { line[c * cpp + s] = v; }
    }
    assert!(lines == th, "a tile has the tile's height");
  }
  assert!(seen == n, "as many tiles as the image holds");
  let at = (((ti / cols) * th + r) * w + (ti % cols) * tw + c) * cpp + s;
  let k = range(0, N - 1);
  assert!(img[k] == if k == at { v } else { before[k] }, "exactly the addressed sample changes");
}
/// A buffer that is not a whole number of tiles wide or high is refused.
fn refused<const N: usize>(w: usize, cpp: usize, tw: usize, th: usize) {
  let mut img: [u16; N] = any();
  assert!(img[..].into_tiles_iter_mut(w, cpp, tw, th).is_err(), "not tileable");
}

harnesses! {
  fn b_cut_exact [10] { cut::<16>(4, 4, 1, 2, 2) }
  fn b_cut_right_pad [10] { cut::<15>(5, 3, 1, 2, 2) }
  fn b_cut_bottom_pad [10] { cut::<20>(2, 5, 2, 2, 3) }
  fn b_cut_rgb [14] { cut::<18>(3, 2, 3, 2, 2) }
  fn b_cut_smaller_than_tile [14] { cut::<3>(1, 1, 3, 2, 2) }
  fn b_cut_wide_tile [12] { cut::<12>(3, 4, 1, 5, 3) }
  fn b_cut_one_row_tiles [10] { cut::<12>(4, 3, 1, 3, 1) }
  fn b_cut_long_buffer [10] { cut::<16>(5, 3, 1, 2, 2) }
  fn b_cut_long_buffer_exact [10] { cut::<14>(4, 3, 1, 2, 2) }
  fn b_iterate [10] { iterate::<15>(5, 3, 1, 2, 2) }
  fn b_iterate_rgb [14] { iterate::<18>(3, 2, 3, 2, 2) }
  fn b_place_4x4 [10] { place::<16>(4, 1, 2, 2) }
  fn b_place_6x4 [10] { place::<24>(6, 1, 2, 2) }
  fn b_place_rgb [14] { place::<24>(4, 3, 2, 1) }
  fn b_place_cpp2 [14] { place::<32>(4, 2, 2, 2) }
  fn b_place_column [10] { place::<12>(2, 1, 2, 3) }
  fn b_place_row [10] { place::<12>(6, 1, 3, 2) }
  fn b_refuse_length [6] { refused::<15>(5, 1, 2, 2) }
  fn b_refuse_width [6] { refused::<12>(3, 1, 2, 2) }
  fn b_refuse_height [6] { refused::<12>(4, 1, 2, 2) }
}
hooked! {}
