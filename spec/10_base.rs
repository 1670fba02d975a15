// Values of Go types which have no direct counterpart.
pub ghost struct TraceEv { pub kind: int, pub a: int, pub b: int }
pub ghost struct GMap<K, V> { pub nil: bool, pub m: Map<K, V> }
pub ghost struct RTable { pub id: int, pub r: Seq<(int, int, int)> }

// Branching on a ghost condition: the translation keeps the control flow of
// the source, every value in it is ghost.
#[verifier::external_body]
fn br(Ghost(c): Ghost<bool>) -> (r: bool)
  ensures r == c,
{ unimplemented!() }

// Iteration over a map: an arbitrary key which has not been visited yet.
#[verifier::external_body]
fn pick_key<K, V>(Ghost(m): Ghost<Map<K, V>>, Ghost(seen): Ghost<Set<K>>) -> (r: Ghost<K>)
  requires exists|k: K| m.dom().contains(k) && !seen.contains(k),
  ensures m.dom().contains(r@), !seen.contains(r@),
{ unimplemented!() }

pub open spec fn wrap_u8(x: int) -> int { x % 0x100 }
pub open spec fn wrap_u16(x: int) -> int { x % 0x10000 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn wrap_i8(x: int) -> int { (x + 0x80) % 0x100 - 0x80 }
pub open spec fn wrap_i16(x: int) -> int { (x + 0x8000) % 0x10000 - 0x8000 }
pub open spec fn wrap_i32(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }

// Go division truncates towards zero.
pub open spec fn go_div(x: int, y: int) -> int {
  if x >= 0 && y > 0 { x / y } else if x < 0 && y > 0 { -((-x) / y) } else if x >= 0 { -(x / (-y)) } else { (-x) / (-y) }
}
pub open spec fn go_mod(x: int, y: int) -> int { x - go_div(x, y) * y }

pub open spec fn band8(x: int, y: int) -> int { ((x as u8) & (y as u8)) as int }
pub open spec fn bor8(x: int, y: int) -> int { ((x as u8) | (y as u8)) as int }
pub open spec fn bxor8(x: int, y: int) -> int { ((x as u8) ^ (y as u8)) as int }

pub open spec fn min_i(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max_i(a: int, b: int) -> int { if a >= b { a } else { b } }

// A non-nil error made by fmt.Errorf or errors.New; which one is not modelled.
pub open spec fn err_fmt() -> int { 1 }
pub uninterp spec fn str_any() -> Seq<u8>;
pub open spec fn str_has_prefix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn str_has_suffix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn str_trim_prefix(s: Seq<u8>, p: Seq<u8>) -> Seq<u8> { if str_has_prefix(s, p) { s.skip(p.len() as int) } else { s } }
pub open spec fn str_contains(s: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }

pub open spec fn rep<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }

pub open spec fn sum(xs: Seq<int>) -> int
  decreases xs.len(),
{ if xs.len() == 0 { 0 } else { sum(xs.drop_last()) + xs.last() } }

pub proof fn lemma_sum_push(xs: Seq<int>, x: int)
  ensures sum(xs.push(x)) == sum(xs) + x,
{ assert(xs.push(x).drop_last() =~= xs); }

pub proof fn lemma_sum_take(xs: Seq<int>, k: int)
  requires 0 <= k < xs.len(),
  ensures sum(xs.take(k + 1)) == sum(xs.take(k)) + xs[k],
{ assert(xs.take(k + 1).drop_last() =~= xs.take(k)); }

pub proof fn lemma_sum_concat(xs: Seq<int>, ys: Seq<int>)
  ensures sum(xs + ys) == sum(xs) + sum(ys),
  decreases ys.len(),
{
  if ys.len() == 0 { assert(xs + ys =~= xs); }
  else {
    lemma_sum_concat(xs, ys.drop_last());
    assert((xs + ys).drop_last() =~= xs + ys.drop_last());
  }
}

pub proof fn lemma_sum_split(xs: Seq<int>, k: int)
  requires 0 <= k <= xs.len(),
  ensures sum(xs) == sum(xs.take(k)) + sum(xs.skip(k)),
{ lemma_sum_concat(xs.take(k), xs.skip(k)); assert(xs.take(k) + xs.skip(k) =~= xs); }

pub proof fn lemma_sum_first(xs: Seq<int>)
  requires xs.len() > 0,
  ensures sum(xs) == xs[0] + sum(xs.skip(1)),
{
  lemma_sum_split(xs, 1);
  assert(xs.take(1).drop_last() =~= Seq::<int>::empty());
  assert(sum(xs.take(1)) == sum(xs.take(1).drop_last()) + xs.take(1).last());
}

// Unicode tables and case mapping: fixed, unspecified functions of the rune
// (the tables of the unicode package are not translated).
pub uninterp spec fn tbl_White_Space() -> RTable;
pub uninterp spec fn tbl_Punct() -> RTable;
pub uninterp spec fn tbl_Other() -> RTable;
pub uninterp spec fn tbl_Mn() -> RTable;
pub uninterp spec fn in_builtin_table(id: int, r: int) -> bool;
// r lies in one of the first k ranges
pub open spec fn in_ranges(rs: Seq<(int, int, int)>, k: int, r: int) -> bool
  decreases k,
{ k > 0 && ((rs[k - 1].0 <= r <= rs[k - 1].1 && (rs[k - 1].2 == 1 || (r - rs[k - 1].0) % rs[k - 1].2 == 0)) || in_ranges(rs, k - 1, r)) }
pub open spec fn in_table(t: RTable, r: int) -> bool {
  if t.id == 0 { in_ranges(t.r, t.r.len() as int, r) } else { in_builtin_table(t.id, r) }
}
pub open spec fn in_tables(r: int, ts: Seq<RTable>) -> bool { exists|i: int| 0 <= i < ts.len() && in_table(#[trigger] ts[i], r) }
pub proof fn lemma_in_tables1(r: int, t: RTable)
  ensures in_tables(r, seq![t]) == in_table(t, r),
{
  let ts = seq![t];
  assert(ts[0] == t);
  if in_table(t, r) { assert(in_table(ts[0], r)); }
}
pub uninterp spec fn to_lower(r: int) -> int;
pub uninterp spec fn to_upper(r: int) -> int;

pub proof fn axiom_map_finite<K, V>(m: Map<K, V>) { }
pub proof fn lemma_pick<K>(d: Set<K>, k: Set<K>, e: K)
  requires d.contains(e), !k.contains(e), k.subset_of(d),
  ensures k.insert(e).subset_of(d), d.difference(k.insert(e)).len() < d.difference(k).len(),
{
  assert(d.difference(k.insert(e)) =~= d.difference(k).remove(e));
}

// Files: the content of a file does not change during a call.
pub uninterp spec fn file_err(name: Seq<u8>) -> int;
pub uninterp spec fn file_data(name: Seq<u8>) -> Seq<u8>;
// JSON: what a text decodes to, as a map from strings to ints.
pub uninterp spec fn json_err(data: Seq<u8>) -> int;
pub uninterp spec fn json_null(data: Seq<u8>) -> bool;
pub uninterp spec fn json_map(data: Seq<u8>) -> Map<Seq<u8>, int>;
pub open spec fn json_gmap(data: Seq<u8>) -> GMap<Seq<u8>, int> {
  if json_null(data) { GMap { nil: true, m: Map::empty() } } else { GMap { nil: false, m: json_map(data) } }
}

// A bufio.Scanner over a file, after pos calls of Scan.
pub ghost struct Scan { pub src: int, pub pos: int }
// the name of an open file, the lines a scanner finds in a file, and the error it stops at (0 at the end of the file)
pub uninterp spec fn file_name(f: int) -> Seq<u8>;
pub uninterp spec fn scan_lines(name: Seq<u8>) -> Seq<Seq<u8>>;
pub uninterp spec fn scan_err(name: Seq<u8>) -> int;
pub uninterp spec fn open_err(name: Seq<u8>) -> int;
pub uninterp spec fn close_err(name: Seq<u8>) -> int;
pub open spec fn scan_more(s: Scan) -> bool { s.pos <= scan_lines(file_name(s.src)).len() }
pub open spec fn scan_text(s: Scan) -> Seq<u8> { if 1 <= s.pos <= scan_lines(file_name(s.src)).len() { scan_lines(file_name(s.src))[s.pos - 1] } else { Seq::empty() } }
pub open spec fn scan_error(s: Scan) -> int { if scan_more(s) { 0 } else { scan_err(file_name(s.src)) } }
