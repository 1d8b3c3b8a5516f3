//! C08 colour filter array and black level patterns stay aligned with the pixels.
use crate::sym::*;
use crate::{harnesses, hooked};
use rawler::cfa::*;
use rawler::formats::tiff::Rational;
use rawler::rawimage::{BlackLevel, WhiteLevel};

fn code(t: u8) -> usize {
  match t { b'R' => 0, b'G' => 1, b'B' => 2, b'C' | b'E' => 3, b'M' => 4, b'Y' => 5, _ => panic!() }
}
fn big() -> usize { let v: usize = any(); assume(v < usize::MAX - 200); v }
/// The colour of every pixel of the infinite plane.
fn fresh(name: &str, w: usize, h: usize) {
    let cfa = CFA::new(name);
    assert!(cfa.width == w && cfa.height == h && cfa.is_valid());
    let (r, c) = (big(), big());
    let want = code(name.as_bytes()[(r % h) * w + c % w]);
    assert!(cfa.color_at(r, c) == want, "colour repeats with the pattern over the whole plane");
    std::mem::forget(cfa);
}
fn shifted(name: &str, w: usize, h: usize, x: usize, y: usize) {
    let cfa = CFA::new(name);
    let s = cfa.shift(x, y);
    let (r, c) = (range(0, 255), range(0, 255));
    assert!(s.color_at(r, c) == cfa.color_at(r + y, c + x), "a shifted pattern shows the colour of the pixel it now covers");
    assert!(s.width == w && s.height == h);
    std::mem::forget((cfa, s));
}


/// Black levels of a w x h pattern with `cpp` samples, shifted by (x, y).
fn black<const N: usize>(w: usize, h: usize, cpp: usize, x: usize, y: usize) {
  let v: [u32; N] = any();
  let b = BlackLevel::new(&v.map(|n| Rational::new(n, 1)), w, h, cpp);
  let s = b.shift(x, y);
  assert!(s.width == w && s.height == h && s.cpp == cpp && s.levels.len() == N, "the shape stays");
  let (r, c, k) = (range(0, h - 1), range(0, w - 1), range(0, cpp - 1));
  let want = v[(((r + y) % h) * w + (c + x) % w) * cpp + k];
  let got = &s.levels[(r * w + c) * cpp + k];
  assert!(got.n == want && got.d == 1, "the level belongs to the pixel it now covers");
  std::mem::forget((b, s));
}
fn plane_at(c: &CFA, r: usize, k: usize) -> usize { c.color_at(r, k) }

harnesses! {
  fn p_letter [4] {
    let n: u32 = any();
    assume(n < 0xD800);
    let c = unsafe { char::from_u32_unchecked(n) };
    let want = match c { 'R' => Some(0), 'G' => Some(1), 'B' => Some(2), 'C' | 'E' => Some(3), 'M' => Some(4), 'Y' => Some(5), _ => None };
    let got = CFAColor::try_from(c);
    assert!(got.as_ref().ok().map(|x| *x as u8) == want, "letters have the documented colour codes");
    std::mem::forget(got);
  }
  fn p_color_code [4] {
    let v: u8 = any();
    let got = CFAColor::try_from(v);
    match got {
      Ok(c) => assert!(c as u8 == v && (v <= 8 || v == 255), "codes survive the enum"),
      Err(e) => { assert!(v > 8 && v != 255); std::mem::forget(e); }
    }
  }
  fn p_white_bits [4] {
    let bits: u32 = any();
    assume(bits <= 32);
    let w = WhiteLevel::new_bits(bits, 1);
    assert!(w.0.len() == 1 && w.0[0] as u64 == (1u64 << bits) - 1, "white is the largest sample of that depth");
    let w = WhiteLevel::new_bits(bits, 3);
    assert!(w.0.len() == 3 && w.0[2] as u64 == (1u64 << bits) - 1);
  }
  fn p_white_bayer [6] {
    let v: [u16; 4] = any();
    let w = WhiteLevel::new(v.map(|x| x as u32));
    let k = range(0, 3);
    assert!(w.as_bayer_array()[k] == v[k] as f32);
    let w = WhiteLevel::new([v[0] as u32]);
    assert!(w.as_bayer_array()[k] == v[0] as f32);
  }
  fn p_black_bayer [6] {
    let v: [u16; 4] = any();
    let k = range(0, 3);
    let b = BlackLevel::new(&v, 2, 2, 1);
    assert!(b.as_bayer_array()[k] == v[k] as f32 && b.sample_count() == 4);
    let b = BlackLevel::new(&v[..1], 1, 1, 1);
    assert!(b.as_bayer_array()[k] == v[0] as f32 && b.sample_count() == 1);
    let z = BlackLevel::zero(2, 2, 1);
    assert!(z.as_bayer_array()[k] == 0.0 && z.sample_count() == 4);
  }
  fn p_black_none [6] { black::<4>(2, 2, 1, 0, 0) }
  fn p_black_10 [6] { black::<4>(2, 2, 1, 1, 0) }
  fn p_black_01 [6] { black::<4>(2, 2, 1, 0, 1) }
  fn p_black_11 [6] { black::<4>(2, 2, 1, 7, 9) }
  fn p_black_rgb_10 [14] { black::<12>(2, 2, 3, 1, 0) }
  fn p_black_rgb_01 [14] { black::<12>(2, 2, 3, 2, 3) }
  fn p_black_row [14] { black::<4>(4, 1, 1, 3, 2) }
  fn p_black_col [14] { black::<3>(1, 3, 1, 5, 1) }
  fn p_black_3x2 [14] { black::<6>(3, 2, 1, 4, 1) }
  fn tp_black_6x6 [40] { black::<36>(6, 6, 1, 4, 1) }
  fn p_black_one [4] { black::<1>(1, 1, 1, 3, 5) }
  fn p_plane_table [260] {
    let t = PlaneColor::new("RGB").plane_lookup_table();
    let k = range(0, 255);
    assert!(t[k] == if k < 3 { k } else { 255 }, "colour to plane");
    let t = PlaneColor::new("GMCY").plane_lookup_table();
    assert!(t[k] == match k { 1 => 0, 4 => 1, 3 => 2, 5 => 3, _ => 255 }, "colour to plane");
  }
  // The CFA tables are 48x48: proved by Verus for every pattern and offset; these run
  // natively for replay, and under Kani in the thorough tier.
  fn tp_new_2x2 [50] { fresh("RGEB", 2, 2) }
  fn n_new_2x8 [50] { fresh("GMYCGMCYGMYCGMCY", 2, 8) }
  fn n_new_6x6 [50] { fresh("GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", 6, 6) }
  fn n_new_12 [150] { let s = "RGBCMYRGBCMYGRCBYMGRCBYM".repeat(6); fresh(&s, 12, 12) }
  fn n_map_colors [50] {
    let m: [u8; 8] = any();
    for s in ["RGBM", "GMYCGMCYGMYCGMCY", "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"] {
      let cfa = CFA::new(s);
      let got = cfa.map_colors(|r, c, v| m[(v as usize + r + c) % 8]);
      let (r, c) = (range(0, 255), range(0, 255));
      let want = m[(cfa.color_at(r, c) + r % cfa.height + c % cfa.width) % 8];
      assert!(got.color_at(r, c) == want as usize, "each colour is mapped once");
    }
  }
  fn n_shift [50] {
    let (x, y) = (range(0, 255), range(0, 255));
    shifted("RGBM", 2, 2, x, y);
    shifted("GMYCGMCYGMYCGMCY", 2, 8, x, y);
    shifted("GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", 6, 6, x, y);
  }
  fn n_shift_back [50] {
    let (x, y) = (range(0, 255), range(0, 255));
    let (r, c) = (range(0, 255), range(0, 255));
    for (s, w, h) in [("RGBM", 2, 2), ("GMYCGMCYGMYCGMCY", 2, 8), ("GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", 6, 6)] {
      let cfa = CFA::new(s);
      assert!(cfa.shift(x, y).shift_back(x, y) == CFA::new(&cfa.name.replace('E', "C")), "shifting there and back");
      assert!(cfa.shift_back(x, y).color_at(r + y, c + x) == cfa.color_at(r, c));
      assert!(cfa.width == w && cfa.height == h);
    }
  }
  fn tb_flat [50] {
    for s in ["RGBM", "GMYCGMCYGMYCGMCY", "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"] {
      let cfa = CFA::new(s);
      let v = rawler::formats::tiff::Value::Byte(cfa.flat_pattern());
      assert!(CFA::new_from_tag(&v) == cfa, "a stored pattern reads back");
    }
  }
}
/// A pattern of arbitrary colours, repeated over the 48x48 table.
#[cfg(dnglab_verif)]
fn arbitrary<const N: usize>(w: usize, h: usize) -> (CFA, [u8; N]) {
  let t: [u8; N] = any();
  let mut i = 0;
  while i < N { assume(t[i] < 6); i += 1; }
  (CFA::verif_from_parts(String::new(), w, h, |r, c| t[(r % h) * w + c % w]), t)
}
#[cfg(dnglab_verif)]
fn shift_any<const N: usize>(w: usize, h: usize, x: usize, y: usize) {
  let (cfa, t) = arbitrary::<N>(w, h);
  let s = cfa.shift(x, y);
  let (r, c) = (range(0, 255), range(0, 255));
  assert!(s.color_at(r, c) == t[((r + y) % h) * w + (c + x) % w] as usize, "a shifted pattern shows the colour of the pixel it now covers");
  assert!(s.width == w && s.height == h);
  std::mem::forget((cfa, s));
}
hooked! {
  fn tp_shift_any_2x2_10 [50] { shift_any::<4>(2, 2, 1, 0) }
  fn tp_shift_any_2x2_01 [50] { shift_any::<4>(2, 2, 0, 1) }
}
