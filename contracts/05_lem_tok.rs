/// Lemmas about tokens and headers.
pub mod vlem_tok {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
verus! {
broadcast use vstd::group_vstd_default;
/// one character of parse_delimited_values
pub proof fn lemma_split_step(s: Seq<char>, d: char, p: int, st: int)
    requires 0 <= st <= p < s.len()
    ensures
      s.subrange(st, p + 1) == s.subrange(st, p).push(s[p]),
      p + 2 <= s.len() ==> s.subrange(st, p + 2) == s.subrange(st, p).push(s[p]).push(s[p + 1]),
      p + 2 <= s.len() ==> s.skip(p).skip(1).skip(1) == s.skip(p + 2),
      s.skip(p).skip(1) == s.skip(p + 1),
      s.skip(p)[0] == s[p],
      p + 2 <= s.len() ==> s.skip(p + 1)[0] == s[p + 1],
      s.subrange(p + 1, p + 1) == Seq::<char>::empty(),
{
    assert(s.subrange(st, p + 1) =~= s.subrange(st, p).push(s[p]));
    if p + 2 <= s.len() {
        assert(s.subrange(st, p + 2) =~= s.subrange(st, p).push(s[p]).push(s[p + 1]));
        assert(s.skip(p).skip(1).skip(1) =~= s.skip(p + 2));
    }
    assert(s.skip(p).skip(1) =~= s.skip(p + 1));
    assert(s.subrange(p + 1, p + 1) =~= Seq::<char>::empty());
}
pub proof fn lemma_p_prims(t: Seq<Seq<char>>)
    ensures
      forall|i: int| 0 <= i < t.len() && #[trigger] p_prim(t[i]) is None ==> p_prims(t) is None,
      p_prims(t) is None ==> exists|i: int| 0 <= i < t.len() && #[trigger] p_prim(t[i]) is None,
      p_prims(t) is Some ==> p_prims(t)->0.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> p_prim(#[trigger] t[i]) == Some(p_prims(t)->0[i]),
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        lemma_p_prims(u);
        assert(forall|i: int| 0 <= i < u.len() ==> u[i] == t[i]);
        if p_prims(t) is None && p_prims(u) is None { let i = choose|i: int| 0 <= i < u.len() && #[trigger] p_prim(u[i]) is None; assert(p_prim(t[i]) is None); }
        if p_prims(t) is None && p_prims(u) is Some { assert(p_prim(t[t.len() - 1]) is None); }
    }
}
pub proof fn lemma_p_fields(t: Seq<Seq<char>>)
    ensures
      forall|i: int| 0 <= i < t.len() && #[trigger] p_field(t[i]) is None ==> p_fields(t) is None,
      p_fields(t) is None ==> exists|i: int| 0 <= i < t.len() && #[trigger] p_field(t[i]) is None,
      p_fields(t) is Some ==> p_fields(t)->0.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> p_field(#[trigger] t[i]) == Some(p_fields(t)->0[i]),
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        lemma_p_fields(u);
        assert(forall|i: int| 0 <= i < u.len() ==> u[i] == t[i]);
        if p_fields(t) is None && p_fields(u) is None { let i = choose|i: int| 0 <= i < u.len() && #[trigger] p_field(u[i]) is None; assert(p_field(t[i]) is None); }
        if p_fields(t) is None && p_fields(u) is Some { assert(p_field(t[t.len() - 1]) is None); }
    }
}
pub proof fn lemma_key_first(s: Seq<char>)
    ensures s.len() > 0 ==> blen(s) > 0 && (enc(s)[0] == 34 <==> s[0] == '"') && (enc(s)[0] as char == '"' <==> s[0] == '"'), s.len() == 0 ==> blen(s) == 0
{
    lemma_bpos_ends(s);
    if s.len() > 0 { lemma_char_at(s, 0, '"'); }
}
/// the byte at a boundary decides an ASCII character
pub proof fn lemma_char_at(s: Seq<char>, k: int, c: char)
    requires 0 <= k < s.len(), (c as u32) < 128
    ensures bpos(s, k) < blen(s), 0 <= bpos(s, k), enc(s)[bpos(s, k)] == c as u8 <==> s[k] == c, enc(s)[bpos(s, k)] as char == c <==> s[k] == c
{
    lemma_bpos_step(s, k);
    let cu = c as u32;
    let e = enc(s)[bpos(s, k)];
    assert(cu < 128 ==> (cu as u8) < 128) by (bit_vector);
    assert(e as char == c <==> e == c as u8);
    if (s[k] as u32) < 128 {
        let u = s[k] as u32;
        assert(u < 128 && cu < 128 && (u as u8) == (cu as u8) ==> u == cu) by (bit_vector);
    }
}
pub proof fn lemma_key_colon(s: Seq<char>)
    ensures forall|b: int| is_bpos(s, b) && cidx(s, b) < s.len() ==> (#[trigger] enc(s)[b] as char == ':' <==> s[cidx(s, b)] == ':')
{
    assert forall|b: int| is_bpos(s, b) && cidx(s, b) < s.len() implies (#[trigger] enc(s)[b] as char == ':' <==> s[cidx(s, b)] == ':') by {
        lemma_is_bpos(s, b);
        lemma_char_at(s, cidx(s, b), ':');
    }
}
} // verus!
}
