// C08 colour filter array: construction, lookup and shift, for every pattern and every offset.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub struct CFA { pub width: usize, pub height: usize, pub pattern: [[u8; 48]; 48] }

/// CFAColor::try_from(char): which code a letter has is decided by the Kani layer.
pub uninterp spec fn letter_code(c: char) -> u8;
#[verifier::external_body]
fn code_of(c: char) -> (r: u8) ensures r == letter_code(c) { unimplemented!() }

pub open spec fn pat_w(n: int) -> int { if n == 4 || n == 16 { 2 } else if n == 36 { 6 } else { 12 } }
pub open spec fn pat_h(n: int) -> int { if n == 4 { 2 } else if n == 16 { 8 } else if n == 36 { 6 } else { 12 } }
/// The letter a pattern text gives to the pixel at (row, col) of the infinite plane.
#[verifier::opaque]
pub open spec fn letter(p: Seq<char>, row: int, col: int) -> char {
  p[(row % pat_h(p.len() as int)) * pat_w(p.len() as int) + col % pat_w(p.len() as int)]
}
pub open spec fn known_len(n: int) -> bool { n == 4 || n == 16 || n == 36 || n == 144 }
proof fn letter_inside(p: Seq<char>, r: int, c: int)
  requires known_len(p.len() as int), 0 <= r < pat_h(p.len() as int), 0 <= c < pat_w(p.len() as int),
  ensures letter(p, r, c) == p[r * pat_w(p.len() as int) + c],
{
  reveal(letter);
  vstd::arithmetic::div_mod::lemma_small_mod(r as nat, pat_h(p.len() as int) as nat);
  vstd::arithmetic::div_mod::lemma_small_mod(c as nat, pat_w(p.len() as int) as nat);
}
proof fn mod_facts(r: int)
  ensures (r % 2) % 2 == r % 2, (r % 6) % 6 == r % 6, (r % 8) % 8 == r % 8, (r % 12) % 12 == r % 12,
    (r % 48) % 2 == r % 2, (r % 48) % 6 == r % 6, (r % 48) % 8 == r % 8, (r % 48) % 12 == r % 12,
{
  vstd::arithmetic::div_mod::lemma_mod_mod(r, 2, 24);
  vstd::arithmetic::div_mod::lemma_mod_mod(r, 6, 8);
  vstd::arithmetic::div_mod::lemma_mod_mod(r, 8, 6);
  vstd::arithmetic::div_mod::lemma_mod_mod(r, 12, 4);
}
pub open spec fn size_ok(n: int) -> bool { n == 2 || n == 6 || n == 8 || n == 12 }
proof fn back(n: int, v: int, off: int)
  requires size_ok(n), 0 <= off <= v,
  ensures (v + (n - off % n) % n) % n == (v - off) % n,
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(off, n);
  let (q, m) = (off / n, off % n);
  let k = if m == 0 { q } else { q + 1 };
  vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, v - off, n);
  assert(n * k == if m == 0 { off } else { off - m + n }) by (nonlinear_arith)
    requires off == n * q + m, k == if m == 0 { q } else { q + 1 };
  if m == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((n - m) as nat, n as nat); }
}
proof fn letter_repeats(p: Seq<char>, r: int, c: int)
  requires known_len(p.len() as int), 0 <= r, 0 <= c,
  ensures
    letter(p, r % pat_h(p.len() as int), c % pat_w(p.len() as int)) == letter(p, r, c),
    letter(p, r % 48, c % 48) == letter(p, r, c),
    0 <= r % pat_h(p.len() as int) < pat_h(p.len() as int),
    0 <= c % pat_w(p.len() as int) < pat_w(p.len() as int),
{
  reveal(letter);
  mod_facts(r);
  mod_facts(c);
}
proof fn in_range(w: int, h: int, r: int, c: int)
  requires 0 <= r < h, 0 <= c < w,
  ensures 0 <= r * w + c < w * h, (r * w + c) / w == r, (r * w + c) % w == c,
{
  assert(0 <= r * w + c < w * h) by (nonlinear_arith) requires 0 <= r < h, 0 <= c < w;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * w + c, w, r, c);
}

impl CFA {
  /// Colour of the pixel at (row, col) of the infinite plane.
  pub open spec fn color(&self, row: int, col: int) -> int { self.pattern[row % 48][col % 48] as int }

//@ extract rawler/src/cfa.rs impl CFA fn new
//@ ret s: CFA
//@ drop name
//@ sigrewrite patname: &str ==> patname: &[char]
//@ rewrite _ => panic!\(.*?\), ==> _ => { assert(false); (0, 0) }
//@ rewrite for \(i, c\) in patname\.chars\(\)\.enumerate\(\) \{ ==> for i in 0..patname.len() { let c = patname[i];
//@ rewrite CFAColor::try_from\(c\)\.expect\("[^"]*"\) as u8 ==> code_of(c)
//@ spec requires known_len(patname.len() as int),
//@ spec ensures s.width == pat_w(patname.len() as int), s.height == pat_h(patname.len() as int),
//@ spec   forall|r: int, c: int| 0 <= r && 0 <= c ==> s.color(r, c) == letter_code(#[trigger] letter(patname@, r, c)),
//@ loop 0 invariant width == pat_w(patname.len() as int), height == pat_h(patname.len() as int),
//@ loop 0   known_len(patname.len() as int), width * height == patname.len(),
//@ loop 0   forall|r: int, c: int| 0 <= r < height && 0 <= c < width && r * width + c < i ==> #[trigger] pattern[r][c] == letter_code(patname[r * width + c]),
//@ before 0 assert(0 <= i / width < height && 0 <= i % width < width) by (nonlinear_arith) requires 0 <= i < width * height, width > 0;
//@ before 0 proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i as int, width as int); }
//@ before 0 let ghost old_pattern = pattern;
//@ after 0 assert forall|r: int, c: int| 0 <= r < height && 0 <= c < width && r * width + c < i + 1 implies #[trigger] pattern[r][c] == letter_code(patname[r * width + c]) by {
//@ after 0   in_range(width as int, height as int, r, c);
//@ after 0   if r * width + c < i { assert(pattern[r][c] == old_pattern[r][c]); }
//@ after 0 }
//@ pre 1 assert forall|r: int, c: int| 0 <= r < height && 0 <= c < width implies #[trigger] pattern[r][c] == letter_code(letter(patname@, r, c)) by {
//@ pre 1   in_range(width as int, height as int, r, c); letter_inside(patname@, r, c);
//@ pre 1 }
//@ loop 1 invariant known_len(patname.len() as int), width == pat_w(patname.len() as int), height == pat_h(patname.len() as int), width > 0, height > 0,
//@ loop 1   forall|r: int, c: int| 0 <= r < height && 0 <= c < width ==> #[trigger] pattern[r][c] == letter_code(letter(patname@, r, c)),
//@ loop 1   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> #[trigger] pattern[r][c] == letter_code(letter(patname@, r, c)),
//@ loop 2 invariant row < 48, known_len(patname.len() as int), width == pat_w(patname.len() as int), height == pat_h(patname.len() as int), width > 0, height > 0,
//@ loop 2   forall|r: int, c: int| 0 <= r < height && 0 <= c < width ==> #[trigger] pattern[r][c] == letter_code(letter(patname@, r, c)),
//@ loop 2   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> #[trigger] pattern[r][c] == letter_code(letter(patname@, r, c)),
//@ loop 2   forall|c: int| 0 <= c < col ==> #[trigger] pattern[row as int][c] == letter_code(letter(patname@, row as int, c)),
//@ before 2 proof { letter_repeats(patname@, row as int, col as int); }
//@ result proof { assert forall|r: int, c: int| 0 <= r && 0 <= c implies pattern[r % 48][c % 48] == letter_code(#[trigger] letter(patname@, r, c)) by { letter_repeats(patname@, r, c); } }
//@ end

//@ extract rawler/src/cfa.rs impl CFA fn color_at
//@ ret r: usize
//@ spec requires row <= usize::MAX - 48, col <= usize::MAX - 48,
//@ spec ensures r == self.color(row as int, col as int),
//@ end

//@ extract rawler/src/cfa.rs impl CFA fn shift
//@ ret s: CFA
//@ drop name
//@ spec requires x <= usize::MAX - 96, y <= usize::MAX - 96,
//@ spec ensures forall|r: int, c: int| 0 <= r && 0 <= c ==> s.color(r, c) == self.color(r + y, c + x),
//@ spec   s.width == self.width, s.height == self.height,
//@ loop 0 invariant x <= usize::MAX - 96, y <= usize::MAX - 96,
//@ loop 0   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> pattern[r][c] == self.color(r + y, c + x),
//@ loop 1 invariant x <= usize::MAX - 96, y <= usize::MAX - 96, row < 48,
//@ loop 1   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> pattern[r][c] == self.color(r + y, c + x),
//@ loop 1   forall|c: int| 0 <= c < col ==> pattern[row as int][c] == self.color(row + y, c + x),
//@ end

  /// The table repeats with the pattern, and the pattern has a supported size.
  pub open spec fn wf(&self) -> bool {
    &&& size_ok(self.width as int) && size_ok(self.height as int)
    &&& forall|r: int, c: int| 0 <= r && 0 <= c ==> #[trigger] self.color(r, c) == self.color(r % (self.height as int), c % (self.width as int))
  }

//@ extract rawler/src/cfa.rs impl CFA fn shift_back
//@ ret s: CFA
//@ spec requires self.wf(), x <= usize::MAX - 96, y <= usize::MAX - 96,
//@ spec ensures forall|r: int, c: int| y <= r && x <= c ==> s.color(r, c) == self.color(r - y, c - x),
//@ spec   s.width == self.width, s.height == self.height,
//@ start proof {
//@ start   let (w, h) = (self.width as int, self.height as int);
//@ start   assert forall|r: int, c: int| y <= r && x <= c implies #[trigger] self.color(r + (h - y as int % h) % h, c + (w - x as int % w) % w) == self.color(r - y, c - x) by {
//@ start     back(h, r, y as int);
//@ start     back(w, c, x as int);
//@ start   }
//@ start }
//@ end
}
impl CFA {
//@ extract rawler/src/cfa.rs impl CFA fn map_colors
//@ sigrewrite <F>\(&self, op: F\) -> Self\s+where\s+F: Fn\(usize, usize, u8\) -> u8,? ==> <F: Fn(usize, usize, u8) -> u8>(&self, op: F) -> Self
//@ ret s: Self
//@ rewrite self\.clone\(\) ==> CFA { width: self.width, height: self.height, pattern: self.pattern }
//@ spec requires self.width > 0, self.height > 0, self.width <= 48, self.height <= 48,
//@ spec   forall|r: usize, c: usize, v: u8| op.requires((r, c, v)),
//@ spec ensures s.width == self.width, s.height == self.height,
//@ spec   forall|r: int, c: int| 0 <= r < 48 && 0 <= c < 48 ==> op.ensures(((r % (self.height as int)) as usize, (c % (self.width as int)) as usize, self.pattern[r % (self.height as int)][c % (self.width as int)]), #[trigger] s.pattern[r][c]),
//@ loop 0 invariant self.width > 0, self.height > 0, self.width <= 48, self.height <= 48, copy.width == self.width, copy.height == self.height,
//@ loop 0   forall|r: usize, c: usize, v: u8| op.requires((r, c, v)),
//@ loop 0   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> op.ensures(((r % (self.height as int)) as usize, (c % (self.width as int)) as usize, self.pattern[r % (self.height as int)][c % (self.width as int)]), #[trigger] copy.pattern[r][c]),
//@ loop 1 invariant row < 48, self.width > 0, self.height > 0, self.width <= 48, self.height <= 48, copy.width == self.width, copy.height == self.height,
//@ loop 1   forall|r: usize, c: usize, v: u8| op.requires((r, c, v)),
//@ loop 1   forall|r: int, c: int| 0 <= r < row && 0 <= c < 48 ==> op.ensures(((r % (self.height as int)) as usize, (c % (self.width as int)) as usize, self.pattern[r % (self.height as int)][c % (self.width as int)]), #[trigger] copy.pattern[r][c]),
//@ loop 1   forall|c: int| 0 <= c < col ==> op.ensures(((row as int % (self.height as int)) as usize, (c % (self.width as int)) as usize, self.pattern[row as int % (self.height as int)][c % (self.width as int)]), #[trigger] copy.pattern[row as int][c]),
//@ end
}
/// Every pattern text yields a well-formed table.
proof fn new_is_wf(s: CFA, p: Seq<char>)
  requires known_len(p.len() as int), s.width == pat_w(p.len() as int), s.height == pat_h(p.len() as int),
    forall|r: int, c: int| 0 <= r && 0 <= c ==> s.color(r, c) == letter_code(#[trigger] letter(p, r, c)),
  ensures s.wf(),
{
  assert forall|r: int, c: int| 0 <= r && 0 <= c implies #[trigger] s.color(r, c) == s.color(r % (s.height as int), c % (s.width as int)) by {
    letter_repeats(p, r, c);
    assert(s.color(r, c) == letter_code(letter(p, r, c)));
  }
}
}
fn main() {}
