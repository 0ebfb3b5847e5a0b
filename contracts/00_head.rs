// Prelude of the extracted Verus crate: std stubs (trusted contracts) and byte/char lemmas.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, clippy::all)]
use vstd::prelude::*;
// the machine has 64-bit addresses (an assumption)
verus! { global size_of usize == 8; }

pub mod vutf {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
broadcast use vstd::group_vstd_default;

/// UTF-8 bytes of a character sequence.
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// Byte offset of character index k.
pub open spec fn bpos(s: Seq<char>, k: int) -> int { enc(s.take(k)).len() as int }
pub open spec fn blen(s: Seq<char>) -> int { enc(s).len() as int }
/// b is the byte offset of some character boundary.
#[verifier::opaque]
pub open spec fn is_bpos(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b }
/// Character index of a boundary.
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b }

pub proof fn lemma_enc1(c: char)
    ensures
        enc(seq![c]).len() > 0,
        (c as u32) < 128 ==> enc(seq![c]) == seq![c as u8],
        (c as u32) >= 128 ==> forall|i: int| 0 <= i < enc(seq![c]).len() ==> enc(seq![c])[i] >= 128,
{
    let u = c as u32;
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::empty());
    if u < 128 {
        assert(encode_scalar(u) =~= seq![leading_byte_width_1(u)]);
        assert(leading_byte_width_1(u) == u as u8) by (bit_vector) requires u < 128;
        assert(enc(seq![c]) =~= seq![c as u8]);
    } else if u <= 0x7ff {
        assert(encode_scalar(u) =~= seq![leading_byte_width_2(u), last_continuation_byte(u)]);
        assert(leading_byte_width_2(u) >= 128) by (bit_vector);
        assert(last_continuation_byte(u) >= 128) by (bit_vector);
    } else if u <= 0xffff {
        assert(encode_scalar(u) =~= seq![leading_byte_width_3(u), second_last_continuation_byte(u), last_continuation_byte(u)]);
        assert(leading_byte_width_3(u) >= 128) by (bit_vector);
        assert(second_last_continuation_byte(u) >= 128) by (bit_vector);
        assert(last_continuation_byte(u) >= 128) by (bit_vector);
    } else {
        assert(encode_scalar(u) =~= seq![leading_byte_width_4(u), third_last_continuation_byte(u), second_last_continuation_byte(u), last_continuation_byte(u)]);
        assert(leading_byte_width_4(u) >= 128) by (bit_vector);
        assert(third_last_continuation_byte(u) >= 128) by (bit_vector);
        assert(second_last_continuation_byte(u) >= 128) by (bit_vector);
        assert(last_continuation_byte(u) >= 128) by (bit_vector);
    }
}

pub proof fn lemma_enc_concat(a: Seq<char>, b: Seq<char>)
    ensures enc(a + b) == enc(a) + enc(b)
{ encode_utf8_concat(a, b); }

pub proof fn lemma_enc_empty() ensures enc(Seq::<char>::empty()) == Seq::<u8>::empty()
{ reveal_with_fuel(encode_utf8, 2); assert(enc(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }

/// bpos advances by the width of s[k], and the bytes there are those of s[k].
pub proof fn lemma_bpos_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures
        bpos(s, k) < bpos(s, k + 1) <= blen(s),
        0 <= bpos(s, k),
        (s[k] as u32) < 128 ==> bpos(s, k + 1) == bpos(s, k) + 1 && enc(s)[bpos(s, k)] == s[k] as u8,
        (s[k] as u32) >= 128 ==> forall|i: int| bpos(s, k) <= i < bpos(s, k + 1) ==> #[trigger] enc(s)[i] >= 128,
{
    let a = s.take(k);
    let c = seq![s[k]];
    let r = s.skip(k + 1);
    assert(s.take(k + 1) =~= a + c);
    assert(s =~= (a + c) + r);
    lemma_enc_concat(a, c);
    lemma_enc_concat(a + c, r);
    lemma_enc1(s[k]);
    let e = enc(s);
    assert(forall|i: int| bpos(s, k) <= i < bpos(s, k + 1) ==> #[trigger] e[i] == enc(c)[i - bpos(s, k)]);
}

pub proof fn lemma_bpos_ends(s: Seq<char>)
    ensures bpos(s, 0) == 0, bpos(s, s.len() as int) == blen(s)
{
    assert(s.take(0) =~= Seq::empty());
    lemma_enc_empty();
    assert(s.take(s.len() as int) =~= s);
}

pub proof fn lemma_bpos_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bpos(s, i) <= bpos(s, j), i < j ==> bpos(s, i) < bpos(s, j), j - i <= bpos(s, j) - bpos(s, i),
       bpos(s, j) <= blen(s), 0 <= bpos(s, i)
    decreases j - i
{
    lemma_bpos_ends(s);
    if i < j {
        lemma_bpos_step(s, j - 1);
        lemma_bpos_mono(s, i, j - 1);
    } else if j < s.len() { lemma_bpos_step(s, j); }
}

pub proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bpos(s, bpos(s, k)), cidx(s, bpos(s, k)) == k
{ reveal(is_bpos); reveal(cidx);
    let c = cidx(s, bpos(s, k));
    assert(0 <= c <= s.len() && bpos(s, c) == bpos(s, k));
    if c < k { lemma_bpos_mono(s, c, k); }
    if k < c { lemma_bpos_mono(s, k, c); }
}

pub broadcast proof fn bc_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bpos(s, #[trigger] bpos(s, k)), cidx(s, bpos(s, k)) == k,
       0 <= bpos(s, k) <= blen(s)
{ reveal(is_bpos); reveal(cidx); lemma_cidx(s, k); lemma_bpos_mono(s, k, k); }

/// Bytes of a sub-range.
pub proof fn lemma_bpos_sub(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures blen(s.subrange(i, j)) == bpos(s, j) - bpos(s, i),
      forall|k: int| i <= k <= j ==> #[trigger] bpos(s, k) == bpos(s, i) + bpos(s.subrange(i, j), k - i)
{
    let m = s.subrange(i, j);
    assert forall|k: int| i <= k <= j implies #[trigger] bpos(s, k) == bpos(s, i) + bpos(m, k - i) by {
        assert(s.take(k) =~= s.take(i) + m.take(k - i));
        lemma_enc_concat(s.take(i), m.take(k - i));
    }
    lemma_bpos_ends(m);
    assert(bpos(s, j) == bpos(s, i) + bpos(m, j - i));
}
/// a slice of a slice is at the shifted byte position
pub proof fn lemma_cidx_sub(s: Seq<char>, i: int, j: int, b: int)
    requires 0 <= i <= j <= s.len(), is_bpos(s.subrange(i, j), b)
    ensures is_bpos(s, bpos(s, i) + b), cidx(s, bpos(s, i) + b) == i + cidx(s.subrange(i, j), b)
{ reveal(is_bpos); reveal(cidx);
    let m = s.subrange(i, j);
    let k = cidx(m, b);
    assert(0 <= k <= m.len() && bpos(m, k) == b);
    lemma_bpos_sub(s, i, j);
    assert(bpos(s, i + k) == bpos(s, i) + bpos(m, i + k - i));
    lemma_cidx(s, i + k);
}
/// after an ASCII character the next byte offset is a boundary
pub proof fn lemma_next(s: Seq<char>, b: int)
    requires is_bpos(s, b), cidx(s, b) < s.len(), (s[cidx(s, b)] as u32) < 128
    ensures is_bpos(s, b + 1), cidx(s, b + 1) == cidx(s, b) + 1, b + 1 <= blen(s), b < blen(s)
{ reveal(is_bpos); reveal(cidx);
    let k = cidx(s, b);
    lemma_bpos_step(s, k);
    lemma_cidx(s, k + 1);
}
pub proof fn lemma_is_bpos(s: Seq<char>, b: int)
    requires is_bpos(s, b)
    ensures 0 <= cidx(s, b) <= s.len(), bpos(s, cidx(s, b)) == b, 0 <= b <= blen(s),
      cidx(s, b) == 0 <==> b == 0, cidx(s, b) == s.len() <==> b == blen(s)
{ reveal(is_bpos); reveal(cidx);
    let k = cidx(s, b);
    lemma_bpos_ends(s);
    lemma_bpos_mono(s, 0, k);
    lemma_bpos_mono(s, k, s.len() as int);
}
} // verus!
}
