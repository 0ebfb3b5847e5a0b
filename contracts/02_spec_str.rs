/// Specification functions over character sequences (strings, tokens, numbers).
pub mod vspec_str {
use vstd::prelude::*;
use crate::vutf::*;
verus! {
broadcast use vstd::group_vstd_default;

// ---- whitespace (Unicode White_Space, as char::is_whitespace) -------------------------------
pub open spec fn ws(c: char) -> bool {
    let u = c as u32;
    (9 <= u && u <= 13) || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000 <= u && u <= 0x200a)
      || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }

// ---- searching ------------------------------------------------------------------------------
pub open spec fn sub_at(s: Seq<char>, p: Seq<char>, i: int) -> bool
{ 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len() as int) == p }
pub open spec fn sub_find(s: Seq<char>, p: Seq<char>, i: int) -> Option<int> decreases s.len() + 1 - i
{ if i > s.len() { None } else if sub_at(s, p, i) { Some(i) } else { sub_find(s, p, i + 1) } }
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { sub_find(s, p, 0) is Some }
pub open spec fn cfind(s: Seq<char>, c: char, i: int) -> Option<int> decreases s.len() - i
{ if i >= s.len() { None } else if s[i] == c { Some(i) } else { cfind(s, c, i + 1) } }

pub proof fn lemma_sub_find_char(s: Seq<char>, c: char, i: int)
    requires 0 <= i
    ensures sub_find(s, seq![c], i) == cfind(s, c, i)
    decreases s.len() - i
{
    if i < s.len() {
        assert(s.subrange(i, i + 1) =~= seq![s[i]]);
        if s[i] != c { assert(s.subrange(i, i + 1)[0] != seq![c][0]); }
        lemma_sub_find_char(s, c, i + 1);
    } else if i == s.len() {
        assert(!sub_at(s, seq![c], i));
        assert(sub_find(s, seq![c], i + 1) is None);
    }
}
pub broadcast proof fn bc_sub_find_char(s: Seq<char>, c: char)
    ensures #[trigger] sub_find(s, seq![c], 0) == cfind(s, c, 0)
{ lemma_sub_find_char(s, c, 0); }

pub proof fn lemma_cfind(s: Seq<char>, c: char, i: int)
    requires 0 <= i
    ensures match cfind(s, c, i) {
        None => forall|k: int| i <= k < s.len() ==> s[k] != c,
        Some(j) => i <= j < s.len() && s[j] == c && forall|k: int| i <= k < j ==> s[k] != c }
    decreases s.len() - i
{ if i < s.len() && s[i] != c { lemma_cfind(s, c, i + 1); } }

pub broadcast proof fn bc_has_char(s: Seq<char>, c: char)
    ensures #[trigger] has_sub(s, seq![c]) == s.contains(c)
{
    lemma_sub_find_char(s, c, 0); lemma_cfind(s, c, 0);
    if s.contains(c) { let k = choose|k: int| 0 <= k < s.len() && s[k] == c; assert(s[k] == c); }
}
pub proof fn lemma_cfind_unique(s: Seq<char>, c: char, i: int, j: int)
    requires 0 <= i <= j < s.len(), s[j] == c, forall|k: int| i <= k < j ==> s[k] != c
    ensures cfind(s, c, i) == Some(j)
{ lemma_cfind(s, c, i); }

pub proof fn lemma_ltrim(s: Seq<char>)
    ensures ltrim(s).len() <= s.len(), ltrim(s) == s.skip(s.len() - ltrim(s).len()),
      bpos(s, s.len() - ltrim(s).len()) == blen(s) - blen(ltrim(s)),
      ltrim(s).len() > 0 ==> !ws(ltrim(s)[0]), ltrim(ltrim(s)) == ltrim(s),
      forall|i: int| 0 <= i < s.len() - ltrim(s).len() ==> ws(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 && ws(s[0]) {
        lemma_ltrim(s.skip(1));
        let n = s.skip(1).len() - ltrim(s.skip(1)).len();
        assert(s.skip(1).skip(n) =~= s.skip(n + 1));
        assert forall|i: int| 0 <= i < s.len() - ltrim(s).len() implies ws(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    } else { assert(s.skip(0) =~= s); }
    let n = s.len() - ltrim(s).len();
    assert(s.skip(n) =~= s.subrange(n, s.len() as int));
    lemma_bpos_sub(s, n, s.len() as int);
    lemma_bpos_ends(s);
}
pub proof fn lemma_rtrim(s: Seq<char>)
    ensures rtrim(s).len() <= s.len(), rtrim(s) == s.take(rtrim(s).len() as int), rtrim(s).len() > 0 ==> !ws(rtrim(s).last()), rtrim(rtrim(s)) == rtrim(s),
      rtrim(s).len() > 0 ==> rtrim(s)[0] == s[0],
    decreases s.len()
{
    if s.len() > 0 && ws(s.last()) {
        lemma_rtrim(s.drop_last());
        assert(s.drop_last().take(rtrim(s).len() as int) =~= s.take(rtrim(s).len() as int));
    } else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn lemma_trim(s: Seq<char>)
    ensures trim(trim(s)) == trim(s), trim(s).len() > 0 ==> !ws(trim(s)[0]) && !ws(trim(s).last()) && trim(s)[0] == ltrim(s)[0],
      trim(s).len() <= s.len(), ltrim(trim(s)) == trim(s),
{
    lemma_ltrim(s); lemma_rtrim(ltrim(s));
    let t = trim(s);
    if t.len() > 0 { assert(t[0] == ltrim(s)[0]); }
    assert(ltrim(t) == t);
}
pub broadcast proof fn bc_trim(s: Seq<char>)
    ensures (#[trigger] trim(s)).len() <= s.len(), trim(trim(s)) == trim(s), ltrim(trim(s)) == trim(s),
{ lemma_trim(s); }
pub proof fn lemma_cfind_skip(s: Seq<char>, c: char, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j
    ensures cfind(s.skip(i), c, j) == (match cfind(s, c, i + j) { None => None::<int>, Some(k) => Some(k - i) })
    decreases s.len() - j
{ if i + j < s.len() && s[i + j] != c { lemma_cfind_skip(s, c, i, j + 1); } }
/// positions found in a suffix, in terms of the whole
pub broadcast proof fn bc_cfind_skip(s: Seq<char>, c: char, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] cfind(s.skip(i), c, 0) == (match cfind(s, c, i) { None => None::<int>, Some(k) => Some(k - i) })
{ lemma_cfind_skip(s, c, i, 0); }
pub broadcast proof fn bc_cidx_skip(s: Seq<char>, i: int, b: int)
    requires 0 <= i <= s.len(), is_bpos(s.skip(i), b)
    ensures is_bpos(s, bpos(s, i) + b), #[trigger] cidx(s.skip(i), b) == cidx(s, bpos(s, i) + b) - i,
      bpos(s, i) + b <= blen(s), 0 <= b,
{
    assert(s.skip(i) =~= s.subrange(i, s.len() as int));
    lemma_cidx_sub(s, i, s.len() as int, b);
    lemma_is_bpos(s, bpos(s, i) + b);
    lemma_is_bpos(s.skip(i), b);
}
pub broadcast proof fn bc_is_bpos(s: Seq<char>, b: int)
    requires is_bpos(s, b)
    ensures 0 <= #[trigger] cidx(s, b) <= s.len(), bpos(s, cidx(s, b)) == b, 0 <= b <= blen(s),
      cidx(s, b) == 0 <==> b == 0, cidx(s, b) == s.len() <==> b == blen(s)
{ lemma_is_bpos(s, b); }
pub broadcast proof fn bc_cfind(s: Seq<char>, c: char, i: int)
    requires 0 <= i
    ensures match #[trigger] cfind(s, c, i) { None => true, Some(j) => i <= j < s.len() && s[j] == c }
{ lemma_cfind(s, c, i); }
pub broadcast proof fn bc_next(s: Seq<char>, b: int)
    requires is_bpos(s, b), cidx(s, b) < s.len(), (s[cidx(s, b)] as u32) < 128
    ensures #![trigger s[cidx(s, b)]] is_bpos(s, b + 1), cidx(s, b + 1) == cidx(s, b) + 1, b + 1 <= blen(s), 0 <= b < blen(s)
{ lemma_is_bpos(s, b); lemma_next(s, b); }
pub proof fn lemma_cidx_mono(s: Seq<char>, a: int, b: int)
    requires is_bpos(s, a), is_bpos(s, b)
    ensures a <= b <==> cidx(s, a) <= cidx(s, b)
{
    lemma_is_bpos(s, a); lemma_is_bpos(s, b);
    if cidx(s, a) <= cidx(s, b) { lemma_bpos_mono(s, cidx(s, a), cidx(s, b)); }
    if cidx(s, b) <= cidx(s, a) { lemma_bpos_mono(s, cidx(s, b), cidx(s, a)); }
}
pub broadcast proof fn bc_cidx_mono(s: Seq<char>, a: int, b: int)
    requires is_bpos(s, a), is_bpos(s, b)
    ensures a <= b <==> #[trigger] cidx(s, a) <= #[trigger] cidx(s, b)
{ lemma_cidx_mono(s, a, b); }
pub broadcast proof fn bc_cidx_inj(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bpos(s, #[trigger] bpos(s, k)), cidx(s, bpos(s, k)) == k
{ lemma_cidx(s, k); }
pub proof fn lemma_bpos0(s: Seq<char>)
    ensures is_bpos(s, 0), cidx(s, 0) == 0, is_bpos(s, blen(s)), cidx(s, blen(s)) == s.len()
{ lemma_bpos_ends(s); lemma_cidx(s, 0); lemma_cidx(s, s.len() as int); }
pub broadcast proof fn bc_prefix1(s: Seq<char>, c: char)
    ensures #[trigger] seq![c].is_prefix_of(s) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } if seq![c].is_prefix_of(s) { assert(seq![c][0] == s[0]); } }
pub broadcast proof fn bc_suffix1(s: Seq<char>, c: char)
    ensures #[trigger] seq![c].is_suffix_of(s) == (s.len() > 0 && s.last() == c)
{ if s.len() > 0 && s.last() == c { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![c]); } if seq![c].is_suffix_of(s) { assert(s.last() == seq![c].last()); } }
/// character order decides byte order
pub proof fn lemma_order(s: Seq<char>, x: Option<int>, y: Option<int>)
    requires x is Some ==> 0 <= x->0 <= s.len(), y is Some ==> 0 <= y->0 <= s.len()
    ensures x is Some && y is Some ==> (bpos(s, x->0) < bpos(s, y->0) <==> x->0 < y->0)
{ if x is Some && y is Some { lemma_bpos_mono(s, if x->0 <= y->0 { x->0 } else { y->0 }, if x->0 <= y->0 { y->0 } else { x->0 }); } }
/// facts about one boundary of a string
pub open spec fn at(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && b == bpos(s, k) && is_bpos(s, b) && cidx(s, b) == k && 0 <= b <= blen(s) }
pub proof fn lemma_at_k(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures at(s, bpos(s, k), k)
{ lemma_cidx(s, k); lemma_is_bpos(s, bpos(s, k)); }
pub proof fn lemma_at_b(s: Seq<char>, b: int)
    requires is_bpos(s, b)
    ensures at(s, b, cidx(s, b))
{ lemma_is_bpos(s, b); }
pub proof fn lemma_at_next(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 128
    ensures at(s, bpos(s, k) + 1, k + 1), bpos(s, k) < blen(s)
{ lemma_cidx(s, k); lemma_is_bpos(s, bpos(s, k)); lemma_next(s, bpos(s, k)); lemma_is_bpos(s, bpos(s, k) + 1); }
/// what find(c) on the suffix from byte a returns
pub proof fn lemma_find_at(s: Seq<char>, a: int, c: char)
    requires is_bpos(s, a), (c as u32) < 128
    ensures
      forall|b: int| #![trigger is_bpos(s.skip(cidx(s, a)), b)] is_bpos(s.skip(cidx(s, a)), b) ==> at(s, a + b, cidx(s, a + b)) && cidx(s.skip(cidx(s, a)), b) == cidx(s, a + b) - cidx(s, a) && 0 <= b,
      sub_find(s.skip(cidx(s, a)), seq![c], 0) == (match cfind(s, c, cidx(s, a)) { None => None::<int>, Some(k) => Some(k - cidx(s, a)) }),
      match cfind(s, c, cidx(s, a)) { None => true, Some(k) => cidx(s, a) <= k < s.len() && s[k] == c && at(s, bpos(s, k), k) && at(s, bpos(s, k) + 1, k + 1) && a <= bpos(s, k) < blen(s) },
{
    lemma_is_bpos(s, a);
    let i = cidx(s, a);
    lemma_sub_find_char(s.skip(i), c, 0);
    bc_cfind_skip(s, c, i);
    lemma_cfind(s, c, i);
    match cfind(s, c, i) { None => {}, Some(k) => { lemma_at_k(s, k); lemma_at_next(s, k); lemma_bpos_mono(s, i, k); } }
    assert forall|b: int| #![trigger is_bpos(s.skip(cidx(s, a)), b)] is_bpos(s.skip(cidx(s, a)), b) implies at(s, a + b, cidx(s, a + b)) && cidx(s.skip(cidx(s, a)), b) == cidx(s, a + b) - cidx(s, a) && 0 <= b by {
        bc_cidx_skip(s, i, b);
        lemma_is_bpos(s, a + b);
    }
}
pub proof fn lemma_find0(s: Seq<char>, c: char)
    requires (c as u32) < 128
    ensures
      forall|b: int| #![trigger is_bpos(s, b)] is_bpos(s, b) ==> at(s, b, cidx(s, b)),
      sub_find(s, seq![c], 0) == cfind(s, c, 0),
      match cfind(s, c, 0) { None => true, Some(k) => 0 <= k < s.len() && s[k] == c && at(s, bpos(s, k), k) && at(s, bpos(s, k) + 1, k + 1) },
{
    lemma_sub_find_char(s, c, 0); lemma_cfind(s, c, 0);
    match cfind(s, c, 0) { None => {}, Some(k) => { lemma_at_k(s, k); lemma_at_next(s, k); } }
    assert forall|b: int| #![trigger is_bpos(s, b)] is_bpos(s, b) implies at(s, b, cidx(s, b)) by { lemma_is_bpos(s, b); }
}
/// the same without the order of positions (quadratic in the positions of a function)
pub broadcast group gposm { bc_sub_find_char, bc_cfind_skip, bc_cidx_skip, bc_is_bpos, bc_cfind, bc_next, bc_cidx_inj, bc_prefix1, bc_suffix1, bc_trim }
pub broadcast group gpos { bc_sub_find_char, bc_cfind_skip, bc_cidx_skip, bc_is_bpos, bc_cfind, bc_next, bc_cidx_mono, bc_cidx_inj, bc_prefix1, bc_suffix1, bc_trim }
/// an ASCII byte sits at a boundary
pub proof fn lemma_ascii_bpos(s: Seq<char>, p: int)
    requires 0 <= p < blen(s), enc(s)[p] < 128
    ensures is_bpos(s, p), cidx(s, p) < s.len(), s[cidx(s, p)] as u8 == enc(s)[p], (s[cidx(s, p)] as u32) < 128
{ lemma_bpos_ends(s); lemma_ascii_bpos_k(s, p, 0); }
proof fn lemma_ascii_bpos_k(s: Seq<char>, p: int, k: int)
    requires 0 <= k <= s.len(), bpos(s, k) <= p < blen(s), enc(s)[p] < 128
    ensures is_bpos(s, p), cidx(s, p) < s.len(), s[cidx(s, p)] as u8 == enc(s)[p], (s[cidx(s, p)] as u32) < 128
    decreases s.len() - k
{
    lemma_bpos_ends(s);
    if k < s.len() {
        lemma_bpos_step(s, k);
        if p < bpos(s, k + 1) { lemma_cidx(s, k); if (s[k] as u32) >= 128 { assert(enc(s)[p] >= 128); } }
        else { lemma_ascii_bpos_k(s, p, k + 1); }
    }
}
/// the first occurrence of an ASCII byte is the first occurrence of that character
pub proof fn lemma_byte_find(s: Seq<char>, c: char, a: int, p: int)
    requires is_bpos(s, a), a <= p <= blen(s), (c as u32) < 128, forall|k: int| a <= k < p ==> enc(s)[k] != c as u8
    ensures p < blen(s) && enc(s)[p] == c as u8 ==> is_bpos(s, p) && cfind(s, c, cidx(s, a)) == Some(cidx(s, p)),
       p == blen(s) ==> cfind(s, c, cidx(s, a)) is None
{
    lemma_is_bpos(s, a);
    lemma_cfind(s, c, cidx(s, a));
    let cu = c as u32;
    assert(cu < 128 ==> (cu as u8) < 128) by (bit_vector);
    if p < blen(s) && enc(s)[p] == c as u8 {
        lemma_ascii_bpos(s, p);
        lemma_is_bpos(s, p);
        lemma_cidx_mono(s, a, p);
        let u = s[cidx(s, p)] as u32;
        assert(u < 128 && cu < 128 && (u as u8) == (cu as u8) ==> u == cu) by (bit_vector);
        assert(s[cidx(s, p)] == c);
    }
    match cfind(s, c, cidx(s, a)) {
        None => {}
        Some(j) => {
            lemma_bpos_step(s, j);
            lemma_bpos_mono(s, cidx(s, a), j);
            lemma_cidx(s, j);
            assert(enc(s)[bpos(s, j)] == c as u8);
            if bpos(s, j) < p {}
            if p < blen(s) && enc(s)[p] == c as u8 { lemma_cidx_mono(s, bpos(s, j), p); lemma_cidx_mono(s, p, bpos(s, j)); }
        }
    }
}

// ---- escaping -------------------------------------------------------------------------------
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '\\' { seq!['\\', '\\'] } else if c == '"' { seq!['\\', '"'] } else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
pub open spec fn unesc1(c: char) -> Option<char> {
    if c == 'n' { Some('\n') } else if c == 't' { Some('\t') } else if c == 'r' { Some('\r') }
    else if c == '\\' { Some('\\') } else if c == '"' { Some('"') } else { None }
}
pub open spec fn opre(p: Seq<char>, r: Option<Seq<char>>) -> Option<Seq<char>>
{ match r { None => None, Some(x) => Some(p + x) } }
pub open spec fn unesc(s: Seq<char>) -> Option<Seq<char>> decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == '\\' {
        if s.len() < 2 { None } else { match unesc1(s[1]) { None => None, Some(c) => opre(seq![c], unesc(s.skip(2))) } }
    } else { opre(seq![s[0]], unesc(s.skip(1))) }
}

// ---- quoting-aware scanning -----------------------------------------------------------------
/// index of the quote that closes a literal whose body starts at i
pub open spec fn c_close(s: Seq<char>, i: int) -> Option<int> decreases s.len() - i
{
    if i >= s.len() { None }
    else if s[i] == '\\' && i + 1 < s.len() { c_close(s, i + 2) }
    else if s[i] == '"' { Some(i) }
    else { c_close(s, i + 1) }
}
/// first t outside quotes at or after i
pub open spec fn c_unq(s: Seq<char>, t: char, i: int, q: bool) -> Option<int> decreases s.len() - i
{
    if i >= s.len() { None }
    else if q && s[i] == '\\' && i + 1 < s.len() { c_unq(s, t, i + 2, q) }
    else if s[i] == '"' { c_unq(s, t, i + 1, !q) }
    else if s[i] == t && !q { Some(i) }
    else { c_unq(s, t, i + 1, q) }
}
// byte-level twins of the two scanners (what the code does)
pub open spec fn b_close(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i
{
    if i >= b.len() { None }
    else if b[i] == 92 && i + 1 < b.len() { b_close(b, i + 2) }
    else if b[i] == 34 { Some(i) }
    else { b_close(b, i + 1) }
}
pub open spec fn b_unq(b: Seq<u8>, t: u8, i: int, q: bool) -> Option<int> decreases b.len() - i
{
    if i >= b.len() { None }
    else if q && b[i] == 92 && i + 1 < b.len() { b_unq(b, t, i + 2, q) }
    else if b[i] == 34 { b_unq(b, t, i + 1, !q) }
    else if b[i] == t && !q { Some(i) }
    else { b_unq(b, t, i + 1, q) }
}
pub open spec fn omap_bpos(s: Seq<char>, r: Option<int>) -> Option<int>
{ match r { None => None, Some(k) => Some(bpos(s, k)) } }

proof fn lemma_close_skip(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> b[k] >= 128
    ensures b_close(b, i) == b_close(b, j)
    decreases j - i
{ if i < j { lemma_close_skip(b, i + 1, j); } }
proof fn lemma_unq_skip(b: Seq<u8>, t: u8, i: int, j: int, q: bool)
    requires 0 <= i <= j <= b.len(), t < 128, forall|k: int| i <= k < j ==> b[k] >= 128
    ensures b_unq(b, t, i, q) == b_unq(b, t, j, q)
    decreases j - i
{ if i < j { lemma_unq_skip(b, t, i + 1, j, q); } }

/// one character step at a boundary
proof fn lemma_at(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures
      bpos(s, k) < bpos(s, k + 1) <= enc(s).len(), 0 <= bpos(s, k),
      (s[k] as u32) < 128 ==> bpos(s, k + 1) == bpos(s, k) + 1 && enc(s)[bpos(s, k)] == s[k] as u8,
      forall|c: char| (c as u32) < 128 ==> ((#[trigger] (c as u8)) == enc(s)[bpos(s, k)] <==> s[k] == c),
      k + 1 < s.len() <==> bpos(s, k + 1) < enc(s).len(),
      (s[k] as u32) >= 128 ==> forall|i: int| bpos(s, k) <= i < bpos(s, k + 1) ==> #[trigger] enc(s)[i] >= 128,
{
    lemma_bpos_step(s, k);
    lemma_bpos_ends(s);
    lemma_bpos_mono(s, k + 1, s.len() as int);
    assert forall|c: char| (c as u32) < 128 implies ((#[trigger] (c as u8)) == enc(s)[bpos(s, k)] <==> s[k] == c) by {
        if (s[k] as u32) < 128 {
            let a = c as u32; let b = s[k] as u32;
            assert(a < 128 && b < 128 ==> ((a as u8) == (b as u8) <==> a == b)) by (bit_vector);
        }
    }
}

pub proof fn lemma_close_bytes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures b_close(enc(s), bpos(s, k)) == omap_bpos(s, c_close(s, k))
    decreases s.len() - k
{
    let b = enc(s);
    lemma_bpos_ends(s);
    if k < s.len() {
        lemma_at(s, k);
        assert(('\\' as u8) == 92 && ('"' as u8) == 34);
        lemma_close_bytes(s, k + 1);
        let c = s[k];
        if c == '\\' && k + 1 < s.len() {
            lemma_at(s, k + 1);
            let c2 = s[k + 1];
            lemma_close_bytes(s, k + 2);
            if (c2 as u32) >= 128 {
                lemma_close_skip(b, bpos(s, k) + 2, bpos(s, k + 2));
            }
        } else if (c as u32) >= 128 {
            lemma_close_skip(b, bpos(s, k), bpos(s, k + 1));
        }
    }
}
pub proof fn lemma_unq_bytes(s: Seq<char>, t: char, k: int, q: bool)
    requires 0 <= k <= s.len(), (t as u32) < 128
    ensures b_unq(enc(s), t as u8, bpos(s, k), q) == omap_bpos(s, c_unq(s, t, k, q))
    decreases s.len() - k
{
    let b = enc(s);
    lemma_bpos_ends(s);
    let tu = t as u32;
    assert(tu < 128 ==> (tu as u8) < 128) by (bit_vector);
    if k < s.len() {
        lemma_at(s, k);
        assert(('\\' as u8) == 92 && ('"' as u8) == 34);
        lemma_unq_bytes(s, t, k + 1, q);
        lemma_unq_bytes(s, t, k + 1, !q);
        let c = s[k];
        if q && c == '\\' && k + 1 < s.len() {
            lemma_at(s, k + 1);
            let c2 = s[k + 1];
            lemma_unq_bytes(s, t, k + 2, q);
            if (c2 as u32) >= 128 {
                lemma_unq_skip(b, t as u8, bpos(s, k) + 2, bpos(s, k + 2), q);
            }
        } else if (c as u32) >= 128 {
            lemma_unq_skip(b, t as u8, bpos(s, k), bpos(s, k + 1), q);
        }
    }
}
pub proof fn lemma_close_range(s: Seq<char>, i: int)
    requires 0 <= i
    ensures match c_close(s, i) { None => true, Some(k) => i <= k < s.len() && s[k] == '"' }
    decreases s.len() - i
{
    if i < s.len() {
        if s[i] == '\\' && i + 1 < s.len() { lemma_close_range(s, i + 2); } else if s[i] != '"' { lemma_close_range(s, i + 1); }
    }
}
pub proof fn lemma_unq_range(s: Seq<char>, t: char, i: int, q: bool)
    requires 0 <= i
    ensures match c_unq(s, t, i, q) { None => true, Some(k) => i <= k < s.len() && s[k] == t && t != '"' }
    decreases s.len() - i
{
    if i < s.len() {
        if q && s[i] == '\\' && i + 1 < s.len() { lemma_unq_range(s, t, i + 2, q); }
        else if s[i] == '"' { lemma_unq_range(s, t, i + 1, !q); }
        else if s[i] == t && !q {}
        else { lemma_unq_range(s, t, i + 1, q); }
    }
}

pub proof fn lemma_close_cidx(s: Seq<char>, b: int)
    requires is_bpos(s, b)
    ensures match b_close(enc(s), b) { None => c_close(s, cidx(s, b)) is None,
       Some(e) => is_bpos(s, e) && b <= e < blen(s) && c_close(s, cidx(s, b)) == Some(cidx(s, e)) && s[cidx(s, e)] == '"' }
{
    lemma_is_bpos(s, b);
    let k = cidx(s, b);
    lemma_close_bytes(s, k);
    lemma_close_range(s, k);
    match c_close(s, k) { None => {}, Some(j) => { lemma_cidx(s, j); lemma_bpos_mono(s, k, j); lemma_bpos_step(s, j); } }
}
pub proof fn lemma_unq_cidx(s: Seq<char>, t: char, b: int)
    requires is_bpos(s, b), (t as u32) < 128
    ensures match b_unq(enc(s), t as u8, b, false) { None => c_unq(s, t, cidx(s, b), false) is None,
       Some(e) => is_bpos(s, e) && b <= e < blen(s) && c_unq(s, t, cidx(s, b), false) == Some(cidx(s, e)) && s[cidx(s, e)] == t }
{
    lemma_is_bpos(s, b);
    let k = cidx(s, b);
    lemma_unq_bytes(s, t, k, false);
    lemma_unq_range(s, t, k, false);
    match c_unq(s, t, k, false) { None => {}, Some(j) => { lemma_cidx(s, j); lemma_bpos_mono(s, k, j); lemma_bpos_step(s, j); } }
}

// ---- keys -----------------------------------------------------------------------------------
pub open spec fn is_alpha_us(c: char) -> bool { let u = c as int; 65 <= u <= 90 || 97 <= u <= 122 || c == '_' }
pub open spec fn is_alnum_us(c: char) -> bool { is_alpha_us(c) || 48 <= c as int <= 57 }
pub open spec fn unq_key(s: Seq<char>) -> bool
{ s.len() > 0 && is_alpha_us(s[0]) && forall|i: int| 1 <= i < s.len() ==> is_alnum_us(#[trigger] s[i]) || s[i] == '.' }
pub open spec fn ident_seg(s: Seq<char>) -> bool
{ s.len() > 0 && is_alpha_us(s[0]) && forall|i: int| 1 <= i < s.len() ==> is_alnum_us(#[trigger] s[i]) }

// ---- numbers (bytes) ------------------------------------------------------------------------
pub open spec fn dig(b: u8) -> bool { 48 <= b && b <= 57 }
pub open spec fn dend(b: Seq<u8>, i: int) -> int decreases b.len() - i
{ if i >= b.len() { i } else if dig(b[i]) { dend(b, i + 1) } else { i } }
/// end of an optional fraction, None when '.' has no digit after it
pub open spec fn frac_end(b: Seq<u8>, i: int) -> Option<int>
{ if i < b.len() && b[i] == 46 { if dend(b, i + 1) == i + 1 { None } else { Some(dend(b, i + 1)) } } else { Some(i) } }
pub open spec fn exp_start(b: Seq<u8>, i: int) -> int
{ if i + 1 < b.len() && (b[i + 1] == 43 || b[i + 1] == 45) { i + 2 } else { i + 1 } }
pub open spec fn exp_end(b: Seq<u8>, i: int) -> Option<int>
{
    if i < b.len() && (b[i] == 101 || b[i] == 69) {
        let j = exp_start(b, i);
        if dend(b, j) == j { None } else { Some(dend(b, j)) }
    } else { Some(i) }
}
/// fraction and exponent from i run to the end
pub open spec fn tail_ok(b: Seq<u8>, i: int) -> bool
{ match frac_end(b, i) { None => false, Some(j) => exp_end(b, j) == Some(b.len() as int) } }
pub open spec fn neg_off(b: Seq<u8>) -> int { if b.len() > 0 && b[0] == 45 { 1 } else { 0 } }
/// looks like a number, including forbidden leading zeros
pub open spec fn num_like(b: Seq<u8>) -> bool {
    let d0 = neg_off(b);
    let d1 = dend(b, d0);
    &&& b.len() > 0 && d0 < b.len() && d1 > d0
    &&& (d1 - d0 > 1 && b[d0] == 48) || tail_ok(b, d1)
}
/// JSON number syntax
pub open spec fn num_syntax(b: Seq<u8>) -> bool {
    let d0 = neg_off(b);
    &&& b.len() > 0 && d0 < b.len() && dig(b[d0])
    &&& if b[d0] == 48 { !(d0 + 1 < b.len() && dig(b[d0 + 1])) && tail_ok(b, d0 + 1) } else { tail_ok(b, dend(b, d0)) }
}
pub proof fn lemma_dend(b: Seq<u8>, i: int)
    requires 0 <= i
    ensures i <= dend(b, i), i <= b.len() ==> dend(b, i) <= b.len(), forall|k: int| i <= k < dend(b, i) ==> dig(#[trigger] b[k]),
       dend(b, i) < b.len() ==> !dig(b[dend(b, i)])
    decreases b.len() - i
{ if i < b.len() && dig(b[i]) { lemma_dend(b, i + 1); } }
pub proof fn lemma_frac_exp(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i + 1 <= b.len() ==> (i + 1 <= dend(b, i + 1) <= b.len()),
      match frac_end(b, i) { None => true, Some(j) => i <= j <= b.len() && j < b.len() ==> j < exp_start(b, j) && (exp_start(b, j) <= b.len() || dend(b, exp_start(b, j)) == exp_start(b, j)) },
      match frac_end(b, i) { None => true, Some(j) => exp_start(b, j) <= b.len() ==> exp_start(b, j) <= dend(b, exp_start(b, j)) <= b.len() },
{
    if i + 1 <= b.len() { lemma_dend(b, i + 1); }
    lemma_dend(b, i);
    match frac_end(b, i) { None => {}, Some(j) => { if exp_start(b, j) <= b.len() { lemma_dend(b, exp_start(b, j)); } } }
}
pub proof fn lemma_enc_nonempty(s: Seq<char>)
    ensures s.len() == 0 <==> enc(s).len() == 0
{ lemma_bpos_ends(s); if s.len() > 0 { lemma_bpos_step(s, 0); } lemma_bpos_mono(s, 0, s.len() as int); if s.len() == 0 { lemma_enc_empty(); assert(s =~= Seq::empty()); } }
pub proof fn lemma_esc_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures esc(s.take(k + 1)) == esc(s.take(k)) + esc1(s[k])
{ let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); }
pub proof fn lemma_opre(p: Seq<char>)
    ensures forall|q: Seq<char>, r: Option<Seq<char>>| #[trigger] opre(p, opre(q, r)) == opre(p + q, r),
      forall|s: Seq<char>| s.len() >= 2 ==> #[trigger] s.skip(2) == s.skip(1).skip(1),
      forall|c: char| p + seq![c] == #[trigger] p.push(c),
{
    assert forall|s: Seq<char>| s.len() >= 2 implies #[trigger] s.skip(2) == s.skip(1).skip(1) by { assert(s.skip(2) =~= s.skip(1).skip(1)); }
    assert forall|c: char| p + seq![c] == #[trigger] p.push(c) by { assert(p + seq![c] =~= p.push(c)); }
    assert forall|q: Seq<char>, r: Option<Seq<char>>| #[trigger] opre(p, opre(q, r)) == opre(p + q, r) by {
        match r { None => {}, Some(x) => { assert(p + (q + x) =~= (p + q) + x); } }
    }
}
pub proof fn lemma_syntax_like(b: Seq<u8>)
    ensures num_syntax(b) ==> num_like(b)
{
    if num_syntax(b) {
        let d0 = neg_off(b);
        lemma_dend(b, d0);
        if b[d0] == 48 { assert(dend(b, d0) == dend(b, d0 + 1)); lemma_dend(b, d0 + 1); assert(dend(b, d0) == d0 + 1); }
        else { assert(dend(b, d0) == dend(b, d0 + 1)); lemma_dend(b, d0 + 1); }
    }
}

// ---- f64 (trusted boundary) -----------------------------------------------------------------
pub uninterp spec fn parse_f64(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn show_f64(f: f64) -> Seq<char>;
pub uninterp spec fn f_is_zero(f: f64) -> bool;
pub uninterp spec fn f_is_nan(f: f64) -> bool;
pub uninterp spec fn f_is_finite(f: f64) -> bool;
pub uninterp spec fn f_is_neg(f: f64) -> bool;
pub uninterp spec fn f_zero() -> f64;
/// decimal digits of a natural number
pub open spec fn digit(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn show_nat(n: nat) -> Seq<char> decreases n
{ if n < 10 { seq![digit(n)] } else { show_nat(n / 10) + seq![digit(n % 10)] } }
pub open spec fn is_dig_c(c: char) -> bool { 48 <= c as int <= 57 }
pub open spec fn dval(s: Seq<char>) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + ((s.last() as int - 48) as nat) } }
/// <usize as FromStr>: optional '+', then one or more digits, in range
pub open spec fn parse_usize(s: Seq<char>) -> Option<usize> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_dig_c(#[trigger] d[i])) && dval(d) <= usize::MAX as nat { Some(dval(d) as usize) } else { None }
}
/// split on a character (str::split)
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let p = split_on(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
} // verus!
}
