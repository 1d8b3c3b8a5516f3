//! C09 geometry: rectangles, crops, rotations, orientation, channel de-interleaving.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::Orientation;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::pixarray::{Color2D, Pix2D};

fn small() -> usize { let v: u32 = any(); v as usize }

fn pix<const N: usize>(w: usize, h: usize) -> ([u16; N], Pix2D<u16>) {
  let d: [u16; N] = any();
  (d, Pix2D::new_with(d.to_vec(), w, h))
}
/// Cropping keeps exactly the pixels of the area.
fn crop_pix<const N: usize>(w: usize, h: usize, a: Rect) {
  let (d, p) = pix::<N>(w, h);
  let out = p.crop(a);
  assert!(out.width == a.d.w && out.height == a.d.h && out.data.len() == a.d.w * a.d.h);
  let (r, c) = (range(0, a.d.h - 1), range(0, a.d.w - 1));
  assert!(out.data[r * a.d.w + c] == d[(a.p.y + r) * w + a.p.x + c], "the crop holds the area's pixels");
  let out = p.into_crop(a);
  assert!(out.width == a.d.w && out.height == a.d.h);
  assert!(*out.at(r, c) == d[(a.p.y + r) * w + a.p.x + c], "also when consuming the image");
}
fn crop_color(w: usize, h: usize, a: Rect) {
  let d: [u8; 6] = any();
  let p = Color2D::<u8, 1>::new_with(vec![[d[0]], [d[1]], [d[2]], [d[3]], [d[4]], [d[5]]], w, h);
  let out = p.crop(a);
  assert!(out.width == a.d.w && out.height == a.d.h && out.data.len() == a.d.w * a.d.h);
  let (r, c) = (range(0, a.d.h - 1), range(0, a.d.w - 1));
  assert!(out.data[r * a.d.w + c][0] == d[(a.p.y + r) * w + a.p.x + c]);
}
fn crop_fn<const N: usize>(w: usize, h: usize, a: Rect) {
  let d: [u16; N] = any();
  let out = rawler::imgop::crop(&d, Dim2::new(w, h), a);
  assert!(out.len() == a.d.w * a.d.h);
  let (r, c) = (range(0, a.d.h - 1), range(0, a.d.w - 1));
  assert!(out[r * a.d.w + c] == d[(a.p.y + r) * w + a.p.x + c]);
}
fn rect(x: usize, y: usize, w: usize, h: usize) -> Rect { Rect::new(Point::new(x, y), Dim2::new(w, h)) }
fn rotations<const N: usize>(w: usize, h: usize) {
  let d: [[u8; 1]; N] = any();
  let p = Color2D::<u8, 1>::new_with(d.to_vec(), w, h);
  let (r, c) = (range(0, h - 1), range(0, w - 1));
  let cw = p.rotate_90cw();
  assert!(cw.width == h && cw.height == w && cw.data.len() == N);
  assert!(cw.data[c * h + (h - 1 - r)] == d[r * w + c], "clockwise: the top row becomes the right column");
}
fn rotations2<const N: usize>(w: usize, h: usize) {
  let d: [[u8; 1]; N] = any();
  let p = Color2D::<u8, 1>::new_with(d.to_vec(), w, h);
  let (r, c) = (range(0, h - 1), range(0, w - 1));
  let ccw = p.rotate_90ccw();
  assert!(ccw.width == h && ccw.height == w && ccw.data.len() == N);
  assert!(ccw.data[(w - 1 - c) * h + r] == d[r * w + c], "counter-clockwise: the top row becomes the left column");
  let half = p.rotate_180();
  assert!(half.width == w && half.height == h && half.data.len() == N);
  assert!(half.data[(h - 1 - r) * w + (w - 1 - c)] == d[r * w + c], "half turn");
}
fn rotate_90<const N: usize>(w: usize, h: usize) {
  let s: [u16; N] = any();
  let mut d: [u16; N] = any();
  rawler::imgop::raw::rotate_90(&s, &mut d, w, h);
  let (r, c) = (range(0, h - 1), range(0, w - 1));
  assert!(d[c * h + (h - 1 - r)] == s[r * w + c], "the top row becomes the right column");
}
/// Where the EXIF orientation puts the stored pixel (r, c) of a w x h image, and the new width.
fn exif(o: u16, r: usize, c: usize, w: usize, h: usize) -> (usize, usize) {
  match o {
    2 => (r, w - 1 - c),
    3 => (h - 1 - r, w - 1 - c),
    4 => (h - 1 - r, c),
    5 => (c, r),
    6 => (c, h - 1 - r),
    7 => (w - 1 - c, h - 1 - r),
    8 => (w - 1 - c, r),
    _ => (r, c),
  }
}

harnesses! {
  fn p_rect_points [36] {
    let (x1, y1, x2, y2) = (small(), small(), small(), small());
    assume(x1 <= x2 && y1 <= y2);
    let r = Rect::new_with_points(Point::new(x1, y1), Point::new(x2, y2));
    assert!(r.x() == x1 && r.y() == y1 && r.x() + r.width() == x2 && r.y() + r.height() == y2);
    assert!(r.as_ltrb() == [x1, y1, x2, y2] && r.as_tlbr() == [y1, x1, y2, x2]);
    assert!(Rect::new_with_dng(&[y1, x1, y2, x2]) == r, "DNG order is top, left, bottom, right");
    assert!(Rect::new_with_dng(&r.as_tlbr()) == r, "DNG round trip");
  }
  fn p_rect_borders [36] {
    let (w, h) = (small(), small());
    let b = [small(), small(), small(), small()];
    assume(b[0] + b[2] <= w && b[1] + b[3] <= h);
    let r = Rect::new_with_borders(Dim2::new(w, h), &b);
    assert!(r.as_ltrb() == [b[0], b[1], w - b[2], h - b[3]]);
    assert!(r.as_ltrb_offsets(w, h) == b, "borders round trip");
    assert!(r.as_tlbr_offsets(w, h) == [b[1], b[0], b[3], b[2]]);
  }
  fn p_rect_adapt [4] {
    let (m, a) = (rect(small(), small(), small(), small()), rect(small(), small(), small(), small()));
    assume(a.p.x >= m.p.x && a.p.y >= m.p.y && a.p.x + a.d.w <= m.p.x + m.d.w && a.p.y + a.d.h <= m.p.y + m.d.h);
    let r = a.adapt(&m);
    assert!(r.d == a.d && r.p.x + m.p.x == a.p.x && r.p.y + m.p.y == a.p.y, "same area in the master's coordinates");
  }
  fn p_orientation [10] {
    let v: u16 = any();
    let o = Orientation::from_u16(v);
    assert!(o.to_u16() == if (1..=8).contains(&v) { v } else { 0 }, "EXIF value round trip");
  }
  fn p_orientation_flips [10] {
    let v: u16 = any();
    assume(v <= 8);
    let o = Orientation::from_u16(v);
    let (w, h) = (small(), small());
    let (r, c) = (small(), small());
    assume(r < h && c < w);
    let (swap, fh, fv) = o.to_flips();
    let (mut a, mut b) = (if fv { h - 1 - r } else { r }, if fh { w - 1 - c } else { c });
    if swap { std::mem::swap(&mut a, &mut b); }
    assert!((a, b) == exif(v, r, c, w, h), "flips then transpose give the EXIF orientation");
    let back = Orientation::from_flips((swap, fh, fv));
    assert!(back.to_u16() == if v == 0 { 1 } else { v }, "flips round trip");
  }
  fn b_crop_all [14] { crop_pix::<12>(4, 3, rect(0, 0, 4, 3)) }
  fn b_crop_inner [14] { crop_pix::<12>(4, 3, rect(1, 1, 2, 1)) }
  fn b_crop_corner [14] { crop_pix::<12>(4, 3, rect(2, 1, 2, 2)) }
  fn b_crop_same_size_shifted [14] { crop_pix::<12>(3, 4, rect(1, 1, 2, 3)) }
  fn b_crop_color [4] { crop_color(2, 3, rect(1, 1, 1, 2)) }
  fn b_crop_fn [4] { crop_fn::<6>(2, 3, rect(1, 1, 1, 2)) }
  fn b_rotate_cw [10] { rotations::<6>(3, 2) }
  fn b_rotate_cw_tall [10] { rotations::<6>(2, 3) }
  fn b_rotate_other [10] { rotations2::<6>(3, 2) }
  fn b_rotate_other_tall [10] { rotations2::<6>(2, 3) }
  fn b_rotate_other_line [10] { rotations2::<4>(1, 4) }
  fn b_rotate_90 [10] { rotate_90::<6>(3, 2) }
  fn b_rotate_90_tall [10] { rotate_90::<6>(2, 3) }
  fn b_for_each_index [14] {
    let (d, mut p) = pix::<6>(3, 2);
    let (r, c) = (range(0, 1), range(0, 2));
    p.for_each_index(|v, row, col| if row == r && col == c { !v } else { v });
    let k = range(0, 5);
    assert!(p.data[k] == if k == r * 3 + c { !d[k] } else { d[k] }, "each pixel with its own coordinates");
    assert!(p.row(r)[c] == !d[r * 3 + c] && *p.at_mut(r, c) == !d[r * 3 + c]);
  }
}
#[cfg(dnglab_verif)]
fn deinterleave<const N: usize>(w: usize, h: usize) {
  let (d, p) = pix::<N>(w, h);
  let out = rawler::verif_hooks::pix::deinterleave2x2(&p).ok().unwrap();
  assert!(out.width == w && out.height == h && out.data.len() == N);
  let (r, c) = (range(0, h - 1), range(0, w - 1));
  // channel (r%2, c%2) was stored as a quadrant of the image
  let want = d[((r % 2) * (h / 2) + r / 2) * w + (c % 2) * (w / 2) + c / 2];
  assert!(out.data[r * w + c] == want, "each quadrant goes to its Bayer position");
}
hooked! {
  fn b_deinterleave_4x4 [18] { deinterleave::<16>(4, 4) }
  fn b_deinterleave_6x2 [18] { deinterleave::<12>(6, 2) }
  fn b_deinterleave_2x6 [18] { deinterleave::<12>(2, 6) }
}
