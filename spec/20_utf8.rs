// UTF-8 as implemented by range loops and utf8.DecodeRuneInString: a byte
// which does not start a valid sequence decodes to U+FFFD with width 1.
pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b <= 0xBF }

#[verifier::opaque]
pub open spec fn dec(s: Seq<u8>) -> (int, int) {
  if s.len() == 0 { (0xFFFD, 0) }
  else {
    let b0 = s[0] as int;
    if b0 < 0x80 { (b0, 1) }
    else if 0xC2 <= b0 <= 0xDF && s.len() >= 2 && is_cont(s[1]) {
      ((b0 - 0xC0) * 64 + (s[1] as int - 0x80), 2)
    } else if 0xE0 <= b0 <= 0xEF && s.len() >= 3 && is_cont(s[1]) && is_cont(s[2])
        && (b0 == 0xE0 ==> s[1] >= 0xA0) && (b0 == 0xED ==> s[1] <= 0x9F) {
      ((b0 - 0xE0) * 4096 + (s[1] as int - 0x80) * 64 + (s[2] as int - 0x80), 3)
    } else if 0xF0 <= b0 <= 0xF4 && s.len() >= 4 && is_cont(s[1]) && is_cont(s[2]) && is_cont(s[3])
        && (b0 == 0xF0 ==> s[1] >= 0x90) && (b0 == 0xF4 ==> s[1] <= 0x8F) {
      ((b0 - 0xF0) * 262144 + (s[1] as int - 0x80) * 4096 + (s[2] as int - 0x80) * 64 + (s[3] as int - 0x80), 4)
    } else { (0xFFFD, 1) }
  }
}
pub open spec fn dec_rune(s: Seq<u8>) -> int { dec(s).0 }
pub open spec fn dec_len(s: Seq<u8>) -> int { dec(s).1 }
// utf8.DecodeLastRuneInString
pub open spec fn last_rune(s: Seq<u8>) -> int { if s.len() == 0 { 0xFFFD } else { runes(s).last() } }
pub open spec fn last_len(s: Seq<u8>) -> int { if s.len() == 0 { 0 } else { widths(s).last() } }

pub proof fn lemma_dec(s: Seq<u8>)
  ensures
    0 <= dec_len(s) <= s.len(), dec_len(s) <= 4,
    s.len() > 0 ==> dec_len(s) >= 1,
    s.len() == 0 ==> dec_len(s) == 0,
    s.len() > 0 ==> valid_rune(dec_rune(s)),
{ reveal(dec); }

pub open spec fn valid_rune(r: int) -> bool { 0 <= r < 0xD800 || 0xE000 <= r <= 0x10FFFF }
// The rune which ends up in a string when r is written to it.
pub open spec fn san(r: int) -> int { if valid_rune(r) { r } else { 0xFFFD } }

#[verifier::opaque]
pub open spec fn enc(r: int) -> Seq<u8> {
  if !valid_rune(r) { seq![0xEFu8, 0xBFu8, 0xBDu8] }
  else if r < 0x80 { seq![r as u8] }
  else if r < 0x800 { seq![(0xC0 + r / 64) as u8, (0x80 + r % 64) as u8] }
  else if r < 0x10000 { seq![(0xE0 + r / 4096) as u8, (0x80 + (r / 64) % 64) as u8, (0x80 + r % 64) as u8] }
  else { seq![(0xF0 + r / 262144) as u8, (0x80 + (r / 4096) % 64) as u8, (0x80 + (r / 64) % 64) as u8, (0x80 + r % 64) as u8] }
}
pub open spec fn rune_len(r: int) -> int { if valid_rune(r) { enc(r).len() as int } else { -1 } }

pub proof fn lemma_enc(r: int)
  ensures 1 <= enc(r).len() <= 4, !is_cont(enc(r)[0]), enc(san(r)) == enc(r),
{ reveal(enc); }

proof fn lemma_dm(r: int)
  requires 0 <= r <= 0x10FFFF,
  ensures r == (r / 64) * 64 + r % 64, 0 <= r % 64 < 64, 0 <= r / 64,
    r / 4096 == (r / 64) / 64, r / 64 == (r / 4096) * 64 + (r / 64) % 64, 0 <= (r / 64) % 64 < 64,
    r / 262144 == (r / 4096) / 64, r / 4096 == (r / 262144) * 64 + (r / 4096) % 64, 0 <= (r / 4096) % 64 < 64,
    r < 0x800 ==> r / 64 < 32, r >= 0x80 ==> r / 64 >= 2,
    r < 0x10000 ==> r / 4096 < 16, 0 <= r / 4096, r >= 0x800 ==> r / 64 >= 32,
    0 <= r / 262144 <= 4, r >= 0x10000 ==> r / 4096 >= 16, r / 4096 <= 271,
{ }

proof fn lemma_dec2(s: Seq<u8>, a: int, b: int)
  requires s.len() >= 2, 2 <= a < 32, 0 <= b < 64, s[0] == (0xC0 + a) as u8, s[1] == (0x80 + b) as u8,
  ensures dec(s) == (a * 64 + b, 2int),
{ reveal(dec); }

proof fn lemma_dec3(s: Seq<u8>, a: int, b: int, c: int)
  requires s.len() >= 3, 0 <= a < 16, 0 <= b < 64, 0 <= c < 64, s[0] == (0xE0 + a) as u8, s[1] == (0x80 + b) as u8, s[2] == (0x80 + c) as u8,
    a == 0 ==> b >= 32, a == 13 ==> b < 32,
  ensures dec(s) == (a * 4096 + b * 64 + c, 3int),
{ reveal(dec); }

proof fn lemma_dec4(s: Seq<u8>, a: int, b: int, c: int, d: int)
  requires s.len() >= 4, 0 <= a < 5, 0 <= b < 64, 0 <= c < 64, 0 <= d < 64, s[0] == (0xF0 + a) as u8, s[1] == (0x80 + b) as u8, s[2] == (0x80 + c) as u8, s[3] == (0x80 + d) as u8,
    a == 0 ==> b >= 16, a == 4 ==> b < 16,
  ensures dec(s) == (a * 262144 + b * 4096 + c * 64 + d, 4int),
{ reveal(dec); }

pub proof fn lemma_dec_enc(r: int, t: Seq<u8>)
  ensures dec(enc(r) + t) == (san(r), enc(r).len() as int),
{
  let s = enc(r) + t;
  if !valid_rune(r) {
    assert(s.len() >= 3 && s[0] == 0xEFu8 && s[1] == 0xBFu8 && s[2] == 0xBDu8 && enc(r).len() == 3) by { reveal(enc); }
    lemma_dec3(s, 15, 63, 61);
  } else if r < 0x80 {
    assert(s.len() >= 1 && s[0] == r as u8 && enc(r).len() == 1) by { reveal(enc); }
    reveal(dec);
  } else if r < 0x800 {
    assert(s.len() >= 2 && s[0] == (0xC0 + r / 64) as u8 && s[1] == (0x80 + r % 64) as u8 && enc(r).len() == 2) by { reveal(enc); }
    lemma_dm(r);
    lemma_dec2(s, r / 64, r % 64);
  } else if r < 0x10000 {
    assert(s.len() >= 3 && s[0] == (0xE0 + r / 4096) as u8 && s[1] == (0x80 + (r / 64) % 64) as u8 && s[2] == (0x80 + r % 64) as u8 && enc(r).len() == 3) by { reveal(enc); }
    lemma_dm(r);
    lemma_dec3(s, r / 4096, (r / 64) % 64, r % 64);
  } else {
    assert(s.len() >= 4 && s[0] == (0xF0 + r / 262144) as u8 && s[1] == (0x80 + (r / 4096) % 64) as u8 && s[2] == (0x80 + (r / 64) % 64) as u8 && s[3] == (0x80 + r % 64) as u8 && enc(r).len() == 4) by { reveal(enc); }
    lemma_dm(r);
    lemma_dec4(s, r / 262144, (r / 4096) % 64, (r / 64) % 64, r % 64);
  }
}

// s starts with a valid sequence
pub open spec fn dec_ok(s: Seq<u8>) -> bool { s.len() > 0 && dec(s) != (0xFFFDint, 1int) }

proof fn lemma_enc2(r: int, a: int, b: int)
  requires 2 <= a < 32, 0 <= b < 64, r == a * 64 + b,
  ensures enc(r) =~= seq![(0xC0 + a) as u8, (0x80 + b) as u8],
{ reveal(enc); assert(r / 64 == a && r % 64 == b); }

proof fn lemma_enc3(r: int, a: int, b: int, c: int)
  requires 0 <= a < 16, 0 <= b < 64, 0 <= c < 64, r == a * 4096 + b * 64 + c, valid_rune(r), r >= 0x800,
  ensures enc(r) =~= seq![(0xE0 + a) as u8, (0x80 + b) as u8, (0x80 + c) as u8],
{
  assert(r / 64 == a * 64 + b && r % 64 == c);
  assert((r / 64) % 64 == b);
  assert(r / 4096 == a);
  assert(r < 0x10000);
  reveal(enc);
}

proof fn lemma_enc4(r: int, a: int, b: int, c: int, d: int)
  requires 0 <= a < 5, 0 <= b < 64, 0 <= c < 64, 0 <= d < 64, r == a * 262144 + b * 4096 + c * 64 + d, valid_rune(r), r >= 0x10000,
  ensures enc(r) =~= seq![(0xF0 + a) as u8, (0x80 + b) as u8, (0x80 + c) as u8, (0x80 + d) as u8],
{
  assert(r / 64 == a * 4096 + b * 64 + c && r % 64 == d);
  assert((r / 64) % 64 == c);
  assert(r / 4096 == a * 64 + b);
  assert((r / 4096) % 64 == b);
  assert(r / 262144 == a);
  reveal(enc);
}

pub proof fn lemma_enc_dec(s: Seq<u8>)
  requires dec_ok(s),
  ensures enc(dec_rune(s)) =~= s.take(dec_len(s)),
{
  let b0 = s[0] as int;
  let r = dec_rune(s);
  if b0 < 0x80 {
    assert(enc(r) =~= s.take(dec_len(s))) by { reveal(dec); reveal(enc); }
  } else if dec_len(s) == 2 {
    assert(0xC2 <= b0 <= 0xDF && s.len() >= 2 && is_cont(s[1]) && r == (b0 - 0xC0) * 64 + (s[1] as int - 0x80)) by { reveal(dec); }
    lemma_enc2(r, b0 - 0xC0, s[1] as int - 0x80);
  } else if dec_len(s) == 3 {
    assert(0xE0 <= b0 <= 0xEF && s.len() >= 3 && is_cont(s[1]) && is_cont(s[2]) && (b0 == 0xE0 ==> s[1] >= 0xA0) && (b0 == 0xED ==> s[1] <= 0x9F)
      && r == (b0 - 0xE0) * 4096 + (s[1] as int - 0x80) * 64 + (s[2] as int - 0x80)) by { reveal(dec); }
    lemma_enc3(r, b0 - 0xE0, s[1] as int - 0x80, s[2] as int - 0x80);
  } else {
    assert(0xF0 <= b0 <= 0xF4 && s.len() >= 4 && is_cont(s[1]) && is_cont(s[2]) && is_cont(s[3]) && (b0 == 0xF0 ==> s[1] >= 0x90) && (b0 == 0xF4 ==> s[1] <= 0x8F)
      && r == (b0 - 0xF0) * 262144 + (s[1] as int - 0x80) * 4096 + (s[2] as int - 0x80) * 64 + (s[3] as int - 0x80) && dec_len(s) == 4) by { reveal(dec); }
    lemma_enc4(r, b0 - 0xF0, s[1] as int - 0x80, s[2] as int - 0x80, s[3] as int - 0x80);
  }
}

#[verifier::opaque]
pub open spec fn runes(s: Seq<u8>) -> Seq<int>
  decreases s.len(),
  via runes_dec
{
  if s.len() == 0 { Seq::empty() } else { seq![dec_rune(s)] + runes(s.skip(dec_len(s))) }
}
#[via_fn]
proof fn runes_dec(s: Seq<u8>) { lemma_dec(s); }

#[verifier::opaque]
pub open spec fn widths(s: Seq<u8>) -> Seq<int>
  decreases s.len(),
  via widths_dec
{
  if s.len() == 0 { Seq::empty() } else { seq![dec_len(s)] + widths(s.skip(dec_len(s))) }
}
#[via_fn]
proof fn widths_dec(s: Seq<u8>) { lemma_dec(s); }

// byte offset of the k-th rune
#[verifier::opaque]
pub open spec fn off(s: Seq<u8>, k: int) -> int
  decreases k,
{
  if k <= 0 { 0 } else { dec_len(s) + off(s.skip(dec_len(s)), k - 1) }
}

pub open spec fn nr(s: Seq<u8>) -> int { runes(s).len() as int }

pub proof fn lemma_runes_empty(s: Seq<u8>)
  requires s.len() == 0,
  ensures runes(s) =~= Seq::<int>::empty(), widths(s) =~= Seq::<int>::empty(),
{ reveal(runes); reveal(widths); }

pub proof fn lemma_runes_step(s: Seq<u8>)
  requires s.len() > 0,
  ensures
    runes(s) =~= seq![dec_rune(s)] + runes(s.skip(dec_len(s))),
    widths(s) =~= seq![dec_len(s)] + widths(s.skip(dec_len(s))),
    runes(s).len() > 0, runes(s)[0] == dec_rune(s), widths(s)[0] == dec_len(s),
    forall|k: int| k > 0 ==> off(s, k) == dec_len(s) + #[trigger] off(s.skip(dec_len(s)), k - 1),
{ lemma_dec(s); reveal(runes); reveal(widths); reveal(off); }

pub open spec fn at_rune(s: Seq<u8>, i: int, k: int) -> bool {
  &&& 0 <= k <= runes(s).len() && i == off(s, k) && 0 <= i <= s.len()
  &&& runes(s).len() == widths(s).len()
  &&& runes(s.skip(i)) == runes(s).skip(k)
  &&& widths(s.skip(i)) == widths(s).skip(k)
  &&& k <= i
}

pub proof fn lemma_lens(s: Seq<u8>)
  ensures runes(s).len() == widths(s).len(), runes(s).len() <= s.len(), s.len() > 0 ==> runes(s).len() > 0,
  decreases s.len(),
{
  reveal(runes); reveal(widths);
  lemma_dec(s);
  if s.len() > 0 { lemma_lens(s.skip(dec_len(s))); }
}

pub proof fn lemma_at_start(s: Seq<u8>)
  ensures at_rune(s, 0, 0), off(s, 0) == 0, runes(s).len() <= s.len(), s.len() > 0 ==> runes(s).len() > 0,
{ lemma_lens(s); reveal(off); assert(s.skip(0) =~= s); assert(runes(s).skip(0) =~= runes(s)); assert(widths(s).skip(0) =~= widths(s)); }

pub proof fn lemma_off_step(s: Seq<u8>, k: int)
  requires 0 <= k < runes(s).len(),
  ensures off(s, k + 1) == off(s, k) + widths(s)[k], at_rune(s, off(s, k), k), at_rune(s, off(s, k + 1), k + 1),
    off(s, k) < s.len(),
    runes(s)[k] == dec_rune(s.skip(off(s, k))), widths(s)[k] == dec_len(s.skip(off(s, k))),
    1 <= widths(s)[k] <= 4,
  decreases k,
{
  lemma_at_start(s);
  lemma_dec(s);
  if s.len() == 0 { lemma_runes_empty(s); }
  lemma_runes_step(s);
  let t = s.skip(dec_len(s));
  lemma_lens(t);
  if k == 0 {
    lemma_at_start(t);
    reveal(off);
    assert(off(s, 1) == dec_len(s) + off(t, 0));
    assert(runes(s).skip(1) =~= runes(t));
    assert(widths(s).skip(1) =~= widths(t));
    assert(s.skip(0) =~= s);
  } else {
    lemma_off_step(t, k - 1);
    assert(off(s, k) == dec_len(s) + off(t, k - 1));
    assert(off(s, k + 1) == dec_len(s) + off(t, k + 1 - 1));
    assert(runes(s)[k] == runes(t)[k - 1]);
    assert(widths(s)[k] == widths(t)[k - 1]);
    assert(s.skip(off(s, k)) =~= t.skip(off(t, k - 1)));
    assert(s.skip(off(s, k + 1)) =~= t.skip(off(t, k)));
    assert(runes(s).skip(k) =~= runes(t).skip(k - 1));
    assert(widths(s).skip(k) =~= widths(t).skip(k - 1));
    assert(runes(s).skip(k + 1) =~= runes(t).skip(k));
    assert(widths(s).skip(k + 1) =~= widths(t).skip(k));
  }
}

pub proof fn lemma_off_at(s: Seq<u8>, k: int)
  requires 0 <= k <= runes(s).len(),
  ensures at_rune(s, off(s, k), k),
{
  if k == 0 { lemma_at_start(s); } else { lemma_off_step(s, k - 1); }
}

pub proof fn lemma_at_step(s: Seq<u8>, i: int, k: int)
  requires at_rune(s, i, k), i < s.len(),
  ensures
    k < runes(s).len(), runes(s)[k] == dec_rune(s.skip(i)), widths(s)[k] == dec_len(s.skip(i)),
    1 <= widths(s)[k] <= 4, i + widths(s)[k] <= s.len(), at_rune(s, i + widths(s)[k], k + 1),
    off(s, k + 1) == i + widths(s)[k], valid_rune(runes(s)[k]),
    k + 1 <= s.len(),
{
  lemma_lens(s.skip(i));
  lemma_dec(s.skip(i));
  assert(k < runes(s).len()) by { assert(runes(s.skip(i)).len() > 0); }
  lemma_off_step(s, k);
}

pub proof fn lemma_at_end(s: Seq<u8>, i: int, k: int)
  requires at_rune(s, i, k), i >= s.len(),
  ensures k == runes(s).len(), i == s.len(), off(s, k) == s.len(),
{
  lemma_runes_empty(s.skip(i));
}

pub proof fn lemma_off_end(s: Seq<u8>)
  ensures off(s, nr(s)) == s.len(),
{
  lemma_off_at(s, nr(s));
  let i = off(s, nr(s));
  if i < s.len() { lemma_lens(s.skip(i)); }
}

pub proof fn lemma_off_mono(s: Seq<u8>, j: int, k: int)
  requires 0 <= j <= k <= nr(s),
  ensures off(s, j) + (k - j) <= off(s, k), 0 <= off(s, j), off(s, k) <= s.len(),
  decreases k - j,
{
  lemma_off_at(s, k); lemma_off_at(s, j);
  if j < k { lemma_off_mono(s, j, k - 1); lemma_off_step(s, k - 1); }
}

pub proof fn lemma_off_sum(s: Seq<u8>, k: int)
  requires 0 <= k <= nr(s),
  ensures off(s, k) == sum(widths(s).take(k)), widths(s).len() == nr(s),
  decreases k,
{
  lemma_lens(s);
  if k == 0 { lemma_at_start(s); }
  else { lemma_off_sum(s, k - 1); lemma_off_step(s, k - 1); lemma_sum_take(widths(s), k - 1); }
}

pub proof fn lemma_off_range(s: Seq<u8>, j: int, k: int)
  requires 0 <= j <= k <= nr(s),
  ensures sum(widths(s).subrange(j, k)) == off(s, k) - off(s, j), widths(s).len() == nr(s),
{
  lemma_off_sum(s, j); lemma_off_sum(s, k);
  lemma_sum_concat(widths(s).take(j), widths(s).subrange(j, k));
  assert(widths(s).take(j) + widths(s).subrange(j, k) =~= widths(s).take(k));
}

pub proof fn lemma_runes_valid(s: Seq<u8>, k: int)
  requires 0 <= k < nr(s),
  ensures valid_rune(runes(s)[k]),
{ lemma_off_step(s, k); lemma_dec(s.skip(off(s, k))); }

pub open spec fn valid_utf8(s: Seq<u8>) -> bool
  decreases s.len(),
  via valid_dec
{ s.len() == 0 || (dec_ok(s) && valid_utf8(s.skip(dec_len(s)))) }
#[via_fn]
proof fn valid_dec(s: Seq<u8>) { lemma_dec(s); }

pub open spec fn enc_all(rs: Seq<int>) -> Seq<u8>
  decreases rs.len(),
{ if rs.len() == 0 { Seq::empty() } else { enc_all(rs.drop_last()) + enc(rs.last()) } }

pub proof fn lemma_enc_all_push(rs: Seq<int>, r: int)
  ensures enc_all(rs.push(r)) == enc_all(rs) + enc(r),
{ assert(rs.push(r).drop_last() =~= rs); }

pub proof fn lemma_enc_all_take(rs: Seq<int>, k: int)
  requires 0 <= k < rs.len(),
  ensures enc_all(rs.take(k + 1)) == enc_all(rs.take(k)) + enc(rs[k]),
{ assert(rs.take(k + 1).drop_last() =~= rs.take(k)); }

pub proof fn lemma_enc_all_concat(a: Seq<int>, b: Seq<int>)
  ensures enc_all(a + b) == enc_all(a) + enc_all(b),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); assert(enc_all(a) + enc_all(b) =~= enc_all(a)); }
  else {
    lemma_enc_all_concat(a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert(enc_all(a) + enc_all(b.drop_last()) + enc(b.last()) =~= enc_all(a) + enc_all(b));
  }
}

pub proof fn lemma_enc_all_one(r: int)
  ensures enc_all(seq![r]) == enc(r),
{
  assert(seq![r].drop_last() =~= Seq::<int>::empty());
  assert(enc_all(Seq::<int>::empty()) =~= Seq::<u8>::empty());
  assert(enc_all(seq![r]) =~= enc(r));
}

pub proof fn lemma_enc_all_first(rs: Seq<int>)
  requires rs.len() > 0,
  ensures enc_all(rs) == enc(rs[0]) + enc_all(rs.skip(1)),
{
  lemma_enc_all_concat(seq![rs[0]], rs.skip(1));
  assert(seq![rs[0]] + rs.skip(1) =~= rs);
  lemma_enc_all_one(rs[0]);
}

pub proof fn lemma_enc_ok(r: int)
  ensures san(r) != 0xFFFD || enc(r).len() == 3,
{ reveal(enc); }

// Decoding what was encoded gives the same characters.
pub proof fn lemma_runes_enc_all(rs: Seq<int>, t: Seq<u8>)
  ensures
    runes(enc_all(rs) + t) =~= rs.map_values(|r: int| san(r)) + runes(t),
    widths(enc_all(rs) + t) =~= rs.map_values(|r: int| enc(r).len() as int) + widths(t),
    valid_utf8(t) ==> valid_utf8(enc_all(rs) + t),
  decreases rs.len(),
{
  if rs.len() == 0 {
    assert(enc_all(rs) + t =~= t);
  } else {
    let s = enc_all(rs) + t;
    lemma_enc_all_first(rs);
    let u = enc_all(rs.skip(1)) + t;
    assert(s =~= enc(rs[0]) + u);
    lemma_enc(rs[0]);
    lemma_dec_enc(rs[0], u);
    lemma_runes_step(s);
    assert(s.skip(enc(rs[0]).len() as int) =~= u);
    lemma_runes_enc_all(rs.skip(1), t);
    assert(rs =~= seq![rs[0]] + rs.skip(1));
    lemma_enc_ok(rs[0]);
    assert(dec_ok(s));
  }
}

pub proof fn lemma_runes_of_enc_all(rs: Seq<int>)
  ensures runes(enc_all(rs)) =~= rs.map_values(|r: int| san(r)), valid_utf8(enc_all(rs)),
{
  lemma_runes_enc_all(rs, Seq::empty());
  assert(enc_all(rs) + Seq::<u8>::empty() =~= enc_all(rs));
  lemma_runes_empty(Seq::<u8>::empty());
}

pub proof fn lemma_valid_roundtrip(s: Seq<u8>)
  requires valid_utf8(s),
  ensures enc_all(runes(s)) =~= s,
  decreases s.len(),
{
  if s.len() == 0 { lemma_runes_empty(s); }
  else {
    lemma_dec(s);
    lemma_runes_step(s);
    lemma_valid_roundtrip(s.skip(dec_len(s)));
    lemma_enc_dec(s);
    lemma_enc_all_first(runes(s));
    assert(runes(s).skip(1) =~= runes(s.skip(dec_len(s))));
    assert(s =~= s.take(dec_len(s)) + s.skip(dec_len(s)));
  }
}

// Cutting a text before a byte which starts a character, or after valid text,
// cuts between characters.
pub proof fn lemma_dec_concat(a: Seq<u8>, b: Seq<u8>)
  requires a.len() > 0, b.len() == 0 || !is_cont(b[0]) || dec_ok(a),
  ensures dec(a + b) == dec(a),
{
  reveal(dec);
  let s = a + b;
  assert(s[0] == a[0]);
  assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]);
  if b.len() > 0 { assert(s[a.len() as int] == b[0]); }
}

pub proof fn lemma_runes_concat(a: Seq<u8>, b: Seq<u8>)
  requires b.len() == 0 || !is_cont(b[0]) || valid_utf8(a),
  ensures runes(a + b) =~= runes(a) + runes(b), widths(a + b) =~= widths(a) + widths(b),
  decreases a.len(),
{
  if a.len() == 0 { assert(a + b =~= b); lemma_runes_empty(a); }
  else {
    lemma_dec(a);
    lemma_dec_concat(a, b);
    lemma_runes_step(a); lemma_runes_step(a + b);
    let w = dec_len(a);
    lemma_runes_concat(a.skip(w), b);
    assert((a + b).skip(w) =~= a.skip(w) + b);
  }
}

pub proof fn lemma_valid_concat(a: Seq<u8>, b: Seq<u8>)
  requires valid_utf8(a), valid_utf8(b),
  ensures valid_utf8(a + b),
  decreases a.len(),
{
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    lemma_dec(a); lemma_dec_concat(a, b);
    lemma_valid_concat(a.skip(dec_len(a)), b);
    assert((a + b).skip(dec_len(a)) =~= a.skip(dec_len(a)) + b);
  }
}

// The number of characters which end at or before byte i.
pub open spec fn rune_index(s: Seq<u8>, i: int) -> int
  decreases s.len(),
  via rune_index_dec
{
  if s.len() == 0 || i < dec_len(s) { 0 } else { 1 + rune_index(s.skip(dec_len(s)), i - dec_len(s)) }
}
#[via_fn]
proof fn rune_index_dec(s: Seq<u8>, i: int) { lemma_dec(s); }

pub proof fn lemma_rune_index(s: Seq<u8>, k: int, i: int)
  requires 0 <= k < nr(s), off(s, k) <= i < off(s, k + 1),
  ensures rune_index(s, i) == k,
  decreases k,
{
  lemma_lens(s); lemma_dec(s);
  if s.len() == 0 { lemma_runes_empty(s); }
  lemma_runes_step(s);
  lemma_off_step(s, k);
  let t = s.skip(dec_len(s));
  lemma_at_start(s); lemma_at_start(t);
  if k > 0 {
    lemma_off_mono(t, 0, k - 1);
    assert(off(s, k) == dec_len(s) + off(t, k - 1));
    assert(off(s, k + 1) == dec_len(s) + off(t, k + 1 - 1));
    lemma_rune_index(t, k - 1, i - dec_len(s));
  } else {
    assert(off(s, 1) == dec_len(s) + off(t, 0));
  }
}

pub proof fn lemma_rune_index_end(s: Seq<u8>)
  ensures rune_index(s, s.len() as int) == nr(s),
    s.len() > 0 ==> rune_index(s, s.len() - 1) == nr(s) - 1,
  decreases s.len(),
{
  if s.len() == 0 { lemma_runes_empty(s); }
  else {
    lemma_dec(s); lemma_runes_step(s);
    lemma_rune_index_end(s.skip(dec_len(s)));
    lemma_off_end(s); lemma_lens(s);
    lemma_off_mono(s, nr(s) - 1, nr(s));
    lemma_rune_index(s, nr(s) - 1, s.len() - 1);
  }
}
