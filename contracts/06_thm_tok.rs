/// Theorems about tokens: what is written is read back.
pub mod vthm_tok {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
verus! {
broadcast use vstd::group_vstd_default;

pub open spec fn delim_ok(d: char) -> bool { d == ',' || d == '|' || d == '\t' }
// ---- f64: what std guarantees about Display and FromStr (trusted) ---------------------------
/// Display of a finite non-zero f64 is its shortest plain decimal: optional '-', digits, optional '.digits',
/// and FromStr gives the same value back
pub axiom fn ax_show_f64(f: f64)
    requires f_is_finite(f), !f_is_zero(f)
    ensures num_syntax(enc(show_f64(f))), parse_f64(show_f64(f)) == Some(f), show_f64(f).len() > 0,
      forall|i: int| 0 <= i < show_f64(f).len() ==> is_dig_c(#[trigger] show_f64(f)[i]) || show_f64(f)[i] == '-' || show_f64(f)[i] == '.';
pub axiom fn ax_zero()
    ensures parse_f64("0"@) == Some(f_zero()), f_is_zero(f_zero()), f_is_finite(f_zero()), !f_is_neg(f_zero());

/// the value a primitive comes back as
pub open spec fn norm_sp(p: SP) -> SP { match p { SP::Num(f) => norm_num(f), _ => p } }

// ---- escaping is inverted by unescaping -----------------------------------------------------
pub proof fn lemma_esc_cons(c: char, s: Seq<char>)
    ensures esc(seq![c] + s) == esc1(c) + esc(s)
    decreases s.len()
{
    let t = seq![c] + s;
    if s.len() == 0 {
        assert(t.drop_last() =~= Seq::<char>::empty());
        assert(t.last() == c);
        assert(esc(t.drop_last()).len() == 0);
        assert(esc(t) =~= esc1(c));
        assert(esc(t) =~= esc1(c) + esc(s));
    } else {
        assert(t.drop_last() =~= seq![c] + s.drop_last());
        assert(t.last() == s.last());
        lemma_esc_cons(c, s.drop_last());
        assert(esc(t) =~= esc1(c) + esc(s));
    }
}
pub proof fn lemma_esc_first(s: Seq<char>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]) + esc(s.skip(1))
{ assert(s =~= seq![s[0]] + s.skip(1)); lemma_esc_cons(s[0], s.skip(1)); }
pub proof fn lemma_unesc_esc(s: Seq<char>)
    ensures unesc(esc(s)) == Some(s)
    decreases s.len()
{
    if s.len() == 0 { }
    else {
        lemma_esc_first(s);
        lemma_unesc_esc(s.skip(1));
        let e = esc1(s[0]); let r = esc(s.skip(1)); let t = e + r;
        assert(s =~= seq![s[0]] + s.skip(1));
        if e.len() == 2 { assert(t.skip(2) =~= r); assert(t[0] == '\\'); assert(t[1] == e[1]); }
        else { assert(e.len() == 1); assert(t.skip(1) =~= r); assert(t[0] == s[0]); }
    }
}
// ---- scanning over an escaped body ----------------------------------------------------------
/// p + esc(s) + '"' + r: the closing quote is found right after the body
pub proof fn lemma_close_esc(p: Seq<char>, s: Seq<char>, r: Seq<char>)
    ensures c_close(p + esc(s) + seq!['"'] + r, p.len() as int) == Some((p.len() + esc(s).len()) as int)
    decreases s.len()
{
    let t = p + esc(s) + seq!['"'] + r;
    let i = p.len() as int;
    if s.len() == 0 { assert(esc(s).len() == 0); assert(t[i] == '"'); }
    else {
        lemma_esc_first(s);
        let e = esc1(s[0]);
        lemma_close_esc(p + e, s.skip(1), r);
        assert(t =~= (p + e) + esc(s.skip(1)) + seq!['"'] + r);
        assert(t[i] == e[0]);
        if e.len() == 2 { assert(t[i + 1] == e[1]); } else { }
    }
}
/// inside quotes nothing of an escaped body is seen
pub proof fn lemma_unq_esc(p: Seq<char>, s: Seq<char>, r: Seq<char>, c: char)
    requires c != '"'
    ensures c_unq(p + esc(s) + seq!['"'] + r, c, p.len() as int, true) == c_unq(p + esc(s) + seq!['"'] + r, c, p.len() as int + esc(s).len() + 1, false)
    decreases s.len()
{
    let t = p + esc(s) + seq!['"'] + r;
    let i = p.len() as int;
    if s.len() == 0 { assert(esc(s).len() == 0); assert(t[i] == '"'); }
    else {
        lemma_esc_first(s);
        let e = esc1(s[0]);
        lemma_unq_esc(p + e, s.skip(1), r, c);
        assert(t =~= (p + e) + esc(s.skip(1)) + seq!['"'] + r);
        assert(t[i] == e[0]);
        if e.len() == 2 { assert(t[i + 1] == e[1]); } else { }
    }
}
/// t is passed over by a scan for c outside quotes
pub open spec fn passes(t: Seq<char>, c: char) -> bool {
    forall|p: Seq<char>, r: Seq<char>| #[trigger] c_unq(p + t + r, c, p.len() as int, false) == c_unq(p + t + r, c, (p.len() + t.len()) as int, false)
}
pub proof fn lemma_passes_plain_at(p: Seq<char>, t: Seq<char>, r: Seq<char>, c: char, k: int)
    requires 0 <= k <= t.len(), !t.contains(c), !t.contains('"')
    ensures c_unq(p + t + r, c, p.len() + k, false) == c_unq(p + t + r, c, (p.len() + t.len()) as int, false)
    decreases t.len() - k
{
    if k < t.len() {
        let u = p + t + r;
        assert(u[p.len() + k] == t[k]);
        assert(t.contains(t[k]));
        lemma_passes_plain_at(p, t, r, c, k + 1);
    }
}
pub proof fn lemma_passes_plain(t: Seq<char>, c: char)
    requires !t.contains(c), !t.contains('"')
    ensures passes(t, c)
{ assert forall|p: Seq<char>, r: Seq<char>| #[trigger] c_unq(p + t + r, c, p.len() as int, false) == c_unq(p + t + r, c, (p.len() + t.len()) as int, false) by { lemma_passes_plain_at(p, t, r, c, 0); } }
pub proof fn lemma_passes_quote(s: Seq<char>, c: char)
    requires c != '"'
    ensures passes(quote(s), c)
{
    let t = quote(s);
    assert forall|p: Seq<char>, r: Seq<char>| #[trigger] c_unq(p + t + r, c, p.len() as int, false) == c_unq(p + t + r, c, (p.len() + t.len()) as int, false) by {
        let u = p + t + r;
        let p2 = p + seq!['"'];
        assert(u =~= p2 + esc(s) + seq!['"'] + r);
        assert(u[p.len() as int] == '"');
        lemma_unq_esc(p2, s, r, c);
    }
}
pub proof fn lemma_passes_enc_str(s: Seq<char>, d: char, c: char)
    requires c != '"', c == d || c == ':' || c == '[' || c == ']' || c == '{' || c == '}'
    ensures passes(enc_str(s, d), c)
{ if safe_unq(s, d) { lemma_passes_plain(s, c); } else { lemma_passes_quote(s, c); } }
pub proof fn lemma_unq_key_no(s: Seq<char>, c: char)
    requires unq_key(s), !is_alnum_us(c), c != '.'
    ensures !s.contains(c)
{ if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i == 0 { assert(is_alpha_us(s[0])); } else { assert(is_alnum_us(s[i]) || s[i] == '.'); } } }
pub proof fn lemma_passes_enc_key(s: Seq<char>, c: char)
    requires c != '"', !is_alnum_us(c), c != '.'
    ensures passes(enc_key(s), c)
{ if unq_key(s) { lemma_unq_key_no(s, c); lemma_unq_key_no(s, '"'); lemma_passes_plain(s, c); } else { lemma_passes_quote(s, c); } }

// ---- trimming -------------------------------------------------------------------------------
/// neither end is white space (or empty): trimming leaves it alone
pub open spec fn tight(s: Seq<char>) -> bool { s.len() == 0 || (!ws(s[0]) && !ws(s.last())) }
pub proof fn lemma_tight(s: Seq<char>)
    requires tight(s)
    ensures trim(s) == s, ltrim(s) == s
{ reveal_with_fuel(ltrim, 2); reveal_with_fuel(rtrim, 2); }
pub proof fn lemma_tight_rev(s: Seq<char>)
    requires trim(s) == s
    ensures tight(s)
{ lemma_trim(s); }
pub proof fn lemma_tight_quote(s: Seq<char>) ensures tight(quote(s)), quote(s).len() >= 2, quote(s)[0] == '"', quote(s).last() == '"' { assert(quote(s).last() == '"'); assert(!ws('"')); }
/// leading blanks go away
pub proof fn lemma_trim_lead(s: Seq<char>)
    requires tight(s)
    ensures trim(seq![' '] + s) == s
{ let t = seq![' '] + s; assert(ws(' ')); assert(t[0] == ' '); assert(t.skip(1) =~= s); lemma_tight(s); assert(ltrim(t) == ltrim(t.skip(1))); }

// ---- primitives -----------------------------------------------------------------------------
pub proof fn lemma_lits()
    ensures "true"@.len() == 4, "true"@[0] == 't', "true"@[1] == 'r', "true"@[2] == 'u', "true"@[3] == 'e',
      "false"@.len() == 5, "false"@[0] == 'f', "false"@[1] == 'a', "false"@[2] == 'l', "false"@[3] == 's', "false"@[4] == 'e',
      "null"@.len() == 4, "null"@[0] == 'n', "null"@[1] == 'u', "null"@[2] == 'l', "null"@[3] == 'l',
      "0"@.len() == 1, "0"@[0] == '0', "-"@.len() == 1, "-"@[0] == '-',
{ reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null"); reveal_strlit("0"); reveal_strlit("-"); }
pub proof fn lemma_quote_lit(s: Seq<char>)
    ensures p_str_lit(quote(s)) == Some(s)
{
    let t = quote(s);
    lemma_tight_quote(s); lemma_tight(t);
    lemma_close_esc(seq!['"'], s, Seq::empty());
    assert(t =~= seq!['"'] + esc(s) + seq!['"'] + Seq::<char>::empty());
    assert(t.subrange(1, t.len() - 1) =~= esc(s));
    lemma_unesc_esc(s);
}
pub proof fn lemma_num0()
    ensures num_syntax(enc("0"@)), enc("0"@) == seq![48u8]
{
    lemma_lits();
    assert("0"@ =~= seq!['0']);
    lemma_enc1('0');
    let b = enc("0"@);
    assert(b =~= seq![48u8]);
    reveal_with_fuel(dend, 2);
}
pub proof fn lemma_chars_tight(s: Seq<char>)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> is_dig_c(#[trigger] s[i]) || s[i] == '-' || s[i] == '.'
    ensures tight(s), forall|c: char| !is_dig_c(c) && c != '-' && c != '.' ==> !#[trigger] s.contains(c), s[0] != '"', s != "true"@, s != "false"@, s != "null"@
{ lemma_lits(); assert(is_dig_c(s[0]) || s[0] == '-' || s[0] == '.'); assert(is_dig_c(s[s.len() - 1]) || s[s.len() - 1] == '-' || s[s.len() - 1] == '.'); }
/// C03/C12: a primitive written as a token is read back as itself
pub proof fn thm_prim(p: SP, d: char)
    requires delim_ok(d)
    ensures p_prim(enc_prim(p, d)) == Some(norm_sp(p)), enc_prim(p, d).len() > 0, tight(enc_prim(p, d))
{
    lemma_lits();
    match p {
        SP::Null => { lemma_tight("null"@); }
        SP::Bool(b) => { lemma_tight("true"@); lemma_tight("false"@); }
        SP::Num(f) => {
            if f_is_zero(f) { ax_zero(); lemma_num0(); lemma_tight("0"@); ax_finite_zero(f); }
            else if f_is_finite(f) { ax_nan(f); ax_show_f64(f); lemma_chars_tight(show_f64(f)); lemma_tight(show_f64(f)); }
            else { lemma_tight("null"@); }
        }
        SP::Str(s) => {
            if safe_unq(s, d) {
                lemma_tight_rev(s); lemma_syntax_like(enc(s)); lemma_tight(s);
                if s[0] == '"' { assert(s.contains(s[0])); }
            } else { lemma_tight_quote(s); lemma_tight(quote(s)); lemma_quote_lit(s); }
        }
    }
}
pub axiom fn ax_finite_zero(f: f64) requires f_is_zero(f) ensures f_is_finite(f);
pub axiom fn ax_nan(f: f64) ensures f_is_nan(f) ==> !f_is_finite(f);
/// C03: a string token never classifies as anything but the string, and no non-string classifies as a string
pub proof fn thm_prim_type(p: SP, d: char)
    requires delim_ok(d)
    ensures p_prim(enc_prim(p, d)) is Some, (p is Str) <==> (p_prim(enc_prim(p, d))->0 is Str)
{ thm_prim(p, d); }
/// C12: the written number is plain decimal in the grammar of the format
pub proof fn thm_number(f: f64)
    ensures f_is_finite(f) ==> num_syntax(enc(fmt_num(f))) && (forall|i: int| 0 <= i < fmt_num(f).len() ==> is_dig_c(#[trigger] fmt_num(f)[i]) || fmt_num(f)[i] == '-' || fmt_num(f)[i] == '.')
        && p_prim(fmt_num(f)) == Some(SP::Num(if f_is_zero(f) { f_zero() } else { f })),
      f_is_finite(f) && f_is_zero(f) ==> fmt_num(f) == "0"@,
      !f_is_finite(f) ==> fmt_num(f) == "null"@ && p_prim(fmt_num(f)) == Some(SP::Null),
{
    lemma_lits();
    thm_prim(SP::Num(f), ',');
    if f_is_zero(f) { ax_finite_zero(f); lemma_num0(); } else if f_is_finite(f) { ax_nan(f); ax_show_f64(f); }
}
// ---- joined tokens --------------------------------------------------------------------------
pub open spec fn good_tok(t: Seq<char>, d: char) -> bool { t.len() > 0 && tight(t) && passes(t, d) }
pub proof fn lemma_join_cons(t: Seq<Seq<char>>, d: char)
    requires t.len() > 1
    ensures join(t, d) == t[0] + seq![d] + join(t.skip(1), d)
    decreases t.len()
{
    if t.len() == 2 {
        assert(t.drop_last().len() == 1); assert(t.skip(1).len() == 1);
        assert(join(t.drop_last(), d) == t[0]);
        assert(join(t.skip(1), d) == t[1]);
    } else {
        lemma_join_cons(t.drop_last(), d);
        assert(t.drop_last().skip(1) =~= t.skip(1).drop_last());
        let a = t[0] + seq![d]; let b = join(t.skip(1).drop_last(), d);
        assert(join(t, d) =~= t[0] + seq![d] + join(t.skip(1), d));
    }
}
pub proof fn lemma_toks_join(p: Seq<char>, t: Seq<Seq<char>>, d: char)
    requires t.len() > 0, d != '"', forall|i: int| 0 <= i < t.len() ==> good_tok(#[trigger] t[i], d)
    ensures toks(p + join(t, d), d, p.len() as int) == t, join(t, d).len() > 0
    decreases t.len()
{
    let s = p + join(t, d); let i = p.len() as int;
    assert(good_tok(t[0], d));
    lemma_tight(t[0]);
    if t.len() == 1 {
        assert(s =~= p + t[0] + Seq::<char>::empty());
        assert(c_unq(p + t[0] + Seq::<char>::empty(), d, i, false) == c_unq(p + t[0] + Seq::<char>::empty(), d, i + t[0].len(), false));
        assert(c_unq(s, d, i, false) is None);
        assert(s.skip(i) =~= t[0]);
        assert(toks(s, d, i) =~= t);
    } else {
        lemma_join_cons(t, d);
        let r = seq![d] + join(t.skip(1), d);
        assert(s =~= p + t[0] + r);
        let k = i + t[0].len();
        assert(c_unq(p + t[0] + r, d, i, false) == c_unq(p + t[0] + r, d, k, false));
        assert(s[k] == d);
        assert(c_unq(s, d, i, false) == Some(k));
        let p2 = p + t[0] + seq![d];
        assert forall|j: int| 0 <= j < t.skip(1).len() implies good_tok(#[trigger] t.skip(1)[j], d) by { assert(good_tok(t[j + 1], d)); }
        lemma_toks_join(p2, t.skip(1), d);
        assert(s =~= p2 + join(t.skip(1), d));
        assert(s.subrange(i, k) =~= t[0]);
        assert(toks(s, d, i) =~= t);
    }
}
pub proof fn lemma_split_join(t: Seq<Seq<char>>, d: char)
    requires t.len() > 0, d != '"', forall|i: int| 0 <= i < t.len() ==> good_tok(#[trigger] t[i], d)
    ensures split_vals(join(t, d), d) == t, join(t, d).len() > 0
{ lemma_toks_join(Seq::empty(), t, d); assert(Seq::<char>::empty() + join(t, d) =~= join(t, d)); }
pub proof fn lemma_passes_lits(c: char)
    requires delim_ok(c) || c == ':'
    ensures passes("true"@, c), passes("false"@, c), passes("null"@, c), passes("0"@, c)
{
    lemma_lits();
    assert(!"true"@.contains(c) && !"true"@.contains('"'));
    assert(!"false"@.contains(c) && !"false"@.contains('"'));
    assert(!"null"@.contains(c) && !"null"@.contains('"'));
    assert(!"0"@.contains(c) && !"0"@.contains('"'));
    lemma_passes_plain("true"@, c); lemma_passes_plain("false"@, c); lemma_passes_plain("null"@, c); lemma_passes_plain("0"@, c);
}
pub proof fn lemma_good_prim(p: SP, d: char, c: char)
    requires delim_ok(d), c == d || c == ':'
    ensures good_tok(enc_prim(p, d), d), passes(enc_prim(p, d), c)
{
    thm_prim(p, d);
    lemma_passes_lits(d); lemma_passes_lits(c);
    match p {
        SP::Num(f) => { if f_is_zero(f) { } else if f_is_finite(f) { ax_nan(f); ax_show_f64(f); lemma_chars_tight(show_f64(f)); lemma_passes_plain(show_f64(f), d); lemma_passes_plain(show_f64(f), c); } }
        SP::Str(s) => { lemma_passes_enc_str(s, d, d); lemma_passes_enc_str(s, d, c); }
        _ => {}
    }
}
pub open spec fn norm_sps(v: Seq<SP>) -> Seq<SP> { Seq::new(v.len(), |i: int| norm_sp(v[i])) }
pub proof fn lemma_p_prims_enc(v: Seq<SP>, d: char)
    requires delim_ok(d)
    ensures p_prims(enc_prims(v, d)) == Some(norm_sps(v))
    decreases v.len()
{
    let t = enc_prims(v, d);
    if v.len() > 0 {
        let u = v.drop_last();
        assert(t.drop_last() =~= enc_prims(u, d));
        lemma_p_prims_enc(u, d);
        thm_prim(v.last(), d);
        assert(norm_sps(v) =~= norm_sps(u).push(norm_sp(v.last())));
    } else { assert(norm_sps(v) =~= Seq::empty()); }
}
/// C03: a row or inline array of primitives is split into its tokens and read back as the same primitives
pub proof fn thm_row(v: Seq<SP>, d: char)
    requires delim_ok(d), v.len() > 0
    ensures split_vals(join_prims(v, d), d) == enc_prims(v, d), p_prims(split_vals(join_prims(v, d), d)) == Some(norm_sps(v)),
      join_prims(v, d).len() > 0
{
    let t = enc_prims(v, d);
    assert forall|i: int| 0 <= i < t.len() implies good_tok(#[trigger] t[i], d) by { lemma_good_prim(v[i], d, d); }
    lemma_split_join(t, d);
    lemma_p_prims_enc(v, d);
}
pub proof fn lemma_join_tight(t: Seq<Seq<char>>, d: char)
    requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0 && tight(t[i])
    ensures tight(join(t, d)), join(t, d).len() > 0, join(t, d)[0] == t[0][0], join(t, d).last() == t.last().last()
    decreases t.len()
{
    assert(t[0].len() > 0 && tight(t[0]));
    if t.len() > 1 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies (#[trigger] t.drop_last()[i]).len() > 0 && tight(t.drop_last()[i]) by { assert(t[i].len() > 0 && tight(t[i])); }
        lemma_join_tight(t.drop_last(), d);
        assert(t[t.len() - 1].len() > 0 && tight(t[t.len() - 1]));
        let j = join(t, d);
        assert(j.last() == t.last().last());
        assert(j[0] == join(t.drop_last(), d)[0]);
    }
}
// ---- keys -----------------------------------------------------------------------------------
/// C03: a key in front of its colon
pub proof fn thm_key(k: Seq<char>, r: Seq<char>)
    ensures p_key(enc_key(k) + seq![':'] + r) == Some((k, enc_key(k).len() as int + 1, !unq_key(k))),
      !(r.len() > 0) ==> true,
{
    let e = enc_key(k); let s = e + seq![':'] + r;
    if unq_key(k) {
        lemma_unq_key_no(k, ':'); lemma_unq_key_no(k, '"');
        assert(s[0] == k[0]); assert(k.contains(k[0]));
        assert(s[e.len() as int] == ':');
        assert forall|i: int| 0 <= i < e.len() implies s[i] != ':' by { assert(s[i] == k[i]); assert(k.contains(k[i])); }
        lemma_cfind_unique(s, ':', 0, e.len() as int);
        assert(s.take(e.len() as int) =~= k);
        lemma_key_tight(k); lemma_tight(k);
    } else {
        assert(s =~= seq!['"'] + esc(k) + seq!['"'] + (seq![':'] + r));
        lemma_close_esc(seq!['"'], k, seq![':'] + r);
        let c = 1 + esc(k).len() as int;
        assert(s.subrange(1, c) =~= esc(k));
        lemma_unesc_esc(k);
        assert(s[c + 1] == ':');
        assert(s[0] == '"');
    }
}
pub proof fn lemma_key_tight(k: Seq<char>)
    requires unq_key(k)
    ensures tight(k), k.len() > 0, k[0] != '"', is_alpha_us(k[0])
{ let l = k[k.len() - 1]; if k.len() > 1 { assert(is_alnum_us(k[k.len() - 1]) || k[k.len() - 1] == '.'); } }
pub proof fn lemma_enc_key_tight(k: Seq<char>)
    ensures tight(enc_key(k)), enc_key(k).len() > 0, p_field(enc_key(k)) == Some((k, !unq_key(k)))
{
    if unq_key(k) { lemma_key_tight(k); lemma_tight(k); } else { lemma_tight_quote(k); lemma_tight(quote(k)); lemma_quote_lit(k); }
}

// ---- headers --------------------------------------------------------------------------------
pub proof fn lemma_show_nat(n: nat)
    ensures show_nat(n).len() > 0, forall|i: int| 0 <= i < show_nat(n).len() ==> is_dig_c(#[trigger] show_nat(n)[i]), dval(show_nat(n)) == n
    decreases n
{
    reveal_with_fuel(dval, 2);
    if n < 10 { let s = show_nat(n); assert(s.drop_last() =~= Seq::empty()); }
    else {
        lemma_show_nat(n / 10);
        let s = show_nat(n);
        assert(s.drop_last() =~= show_nat(n / 10));
        assert(s.last() == digit(n % 10));
        assert forall|i: int| 0 <= i < s.len() implies is_dig_c(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == show_nat(n / 10)[i]); } }
    }
}
/// the bracket segment without its brackets
pub open spec fn seg(n: nat, d: char) -> Seq<char> { if d == ',' { show_nat(n) } else { show_nat(n) + seq![d] } }
pub proof fn lemma_seg(n: nat, d: char)
    requires delim_ok(d), n <= usize::MAX as nat
    ensures p_bracket(seg(n, d), ',') == Some((n as usize, d)), seg(n, d).len() > 0, is_dig_c(seg(n, d)[0]),
      forall|i: int| 0 <= i < seg(n, d).len() ==> is_dig_c(#[trigger] seg(n, d)[i]) || seg(n, d)[i] == d,
      fmt_len(n, d) == seq!['['] + seg(n, d) + seq![']'],
{
    lemma_show_nat(n);
    let s = show_nat(n); let g = seg(n, d);
    assert(is_dig_c(s[0])); assert(is_dig_c(s[s.len() - 1]));
    assert(g[0] == s[0]);
    if d != ',' { assert(g.drop_last() =~= s); assert(g.last() == d); assert(fmt_len(n, d) =~= seq!['['] + g + seq![']']); }
    assert forall|i: int| 0 <= i < g.len() implies is_dig_c(#[trigger] g[i]) || g[i] == d by { if i < s.len() { assert(g[i] == s[i]); } }
}
pub open spec fn kpart(key: Option<Seq<char>>) -> Seq<char> { match key { Some(k) => enc_key(k), None => Seq::empty() } }
pub open spec fn fpart(fields: Option<Seq<Seq<char>>>, d: char) -> Seq<char>
{ match fields { Some(f) => seq!['{'] + join(enc_keys(f), d) + seq!['}'], None => Seq::empty() } }
pub open spec fn qflags(f: Seq<Seq<char>>) -> Seq<(Seq<char>, bool)> { Seq::new(f.len(), |i: int| (f[i], !unq_key(f[i]))) }
pub open spec fn hdr_of(n: nat, key: Option<Seq<char>>, fields: Option<Seq<Seq<char>>>, d: char, inl: Option<Seq<char>>) -> SHdr {
    SHdr { key, kq: match key { Some(k) => !unq_key(k), None => false }, len: n as usize, delim: d,
        fields: match fields { Some(f) => Some(qflags(f)), None => None }, inl }
}
/// joined tokens are passed over by a scan for another character
pub proof fn lemma_passes_join_at(p: Seq<char>, t: Seq<Seq<char>>, d: char, c: char, r: Seq<char>)
    requires t.len() > 0, d != '"', c != d, forall|i: int| 0 <= i < t.len() ==> passes(#[trigger] t[i], c)
    ensures c_unq(p + join(t, d) + r, c, p.len() as int, false) == c_unq(p + join(t, d) + r, c, (p.len() + join(t, d).len()) as int, false)
    decreases t.len()
{
    let i = p.len() as int;
    assert(passes(t[0], c));
    if t.len() == 1 { }
    else {
        lemma_join_cons(t, d);
        let r2 = seq![d] + join(t.skip(1), d) + r;
        let s = p + join(t, d) + r;
        assert(s =~= p + t[0] + r2);
        let k = i + t[0].len();
        assert(c_unq(p + t[0] + r2, c, i, false) == c_unq(p + t[0] + r2, c, k, false));
        assert(s[k] == d);
        let p2 = p + t[0] + seq![d];
        assert forall|j: int| 0 <= j < t.skip(1).len() implies passes(#[trigger] t.skip(1)[j], c) by { assert(passes(t[j + 1], c)); }
        lemma_passes_join_at(p2, t.skip(1), d, c, r);
        assert(s =~= p2 + join(t.skip(1), d) + r);
    }
}
pub proof fn lemma_p_fields_enc(f: Seq<Seq<char>>)
    ensures p_fields(enc_keys(f)) == Some(qflags(f))
    decreases f.len()
{
    let t = enc_keys(f);
    if f.len() > 0 {
        let u = f.drop_last();
        assert(t.drop_last() =~= enc_keys(u));
        lemma_p_fields_enc(u);
        lemma_enc_key_tight(f.last());
        assert(qflags(f) =~= qflags(u).push((f.last(), !unq_key(f.last()))));
    } else { assert(qflags(f) =~= Seq::empty()); }
}
/// where the bracket of a written header is
proof fn lemma_hdr_start(key: Option<Seq<char>>, r: Seq<char>)
    ensures hdr_start(kpart(key) + seq!['['] + r) == Some(Some(kpart(key).len() as int)),
      hdr_key(kpart(key) + seq!['['] + r, kpart(key).len() as int) == Some((key, match key { Some(k) => !unq_key(k), None => false })),
{
    let e = kpart(key); let s = e + seq!['['] + r;
    assert(s[e.len() as int] == '[');
    assert(s.take(e.len() as int) =~= e);
    assert(!ws('[') && !ws('"'));
    match key {
        None => { assert(e.len() == 0); assert(s[0] == '['); reveal_with_fuel(ltrim, 2); assert(ltrim(s) == s); lemma_cfind(s, ':', 0); lemma_cfind_unique(s, '[', 0, 0); }
        Some(k) => {
            lemma_enc_key_tight(k);
            lemma_tight(e);
            assert(s[0] == e[0]);
            assert(!ws(s[0]));
            assert(ltrim(s) == s) by { reveal_with_fuel(ltrim, 2); }
            if unq_key(k) {
                lemma_key_tight(k);
                lemma_unq_key_no(k, ':'); lemma_unq_key_no(k, '['); lemma_unq_key_no(k, '"');
                assert forall|i: int| 0 <= i < e.len() implies s[i] != ':' && s[i] != '[' by { assert(s[i] == k[i]); assert(k.contains(k[i])); }
                lemma_cfind_unique(s, '[', 0, e.len() as int);
                lemma_cfind(s, ':', 0);
            } else {
                lemma_quote_lit(k); lemma_tight_quote(k); lemma_tight(quote(k));
                lemma_close_esc(seq!['"'], k, seq!['['] + r);
                assert(s =~= seq!['"'] + esc(k) + seq!['"'] + (seq!['['] + r));
                assert(e.len() == esc(k).len() + 2);
            }
        }
    }
}
pub proof fn lemma_hdr_asm(s: Seq<char>, bs: int, be: int, colon: int, h: SHdr)
    requires hdr_start(s) == Some(Some(bs)), cfind(s, ']', bs) == Some(be), cfind(s, ':', hdr_brace_end(s, be)) == Some(colon),
      hdr_key(s, bs) == Some((h.key, h.kq)), p_bracket(s.subrange(bs + 1, be), ',') == Some((h.len, h.delim)), h.len <= max_len(),
      hdr_fields(s, be, colon, h.delim) == Some(h.fields), h.inl == (if trim(s.skip(colon + 1)).len() == 0 { None } else { Some(trim(s.skip(colon + 1))) }),
    ensures hdr(s, ',') == HR::Yes(h)
{ hide(hdr_start); hide(hdr_key); hide(p_bracket); hide(hdr_fields); hide(hdr_brace_end); hide(cfind); hide(trim); }
proof fn lemma_hdr_bracket(n: nat, key: Option<Seq<char>>, d: char, r: Seq<char>, bs: int, be: int, s: Seq<char>)
    requires delim_ok(d), n <= max_len(), s == kpart(key) + seq!['['] + (seg(n, d) + seq![']'] + r), bs == kpart(key).len(), be == bs + 1 + seg(n, d).len()
    ensures cfind(s, ']', bs) == Some(be), p_bracket(s.subrange(bs + 1, be), ',') == Some((n as usize, d)), s.skip(be + 1) == r, s.take(be + 1) == kpart(key) + seq!['['] + seg(n, d) + seq![']'], s[be] == ']',
{
    hide(p_bracket); hide(kpart); hide(seg); hide(show_nat);
    lemma_seg(n, d);
    let e = kpart(key); let g = seg(n, d);
    assert(s[be] == ']');
    assert(s[bs] == '[');
    assert forall|i: int| bs <= i < be implies s[i] != ']' by { if i > bs { assert(s[i] == g[i - bs - 1]); assert(is_dig_c(g[i - bs - 1]) || g[i - bs - 1] == d); } }
    lemma_cfind_unique(s, ']', bs, be);
    assert(s.subrange(bs + 1, be) =~= g);
    assert(s.skip(be + 1) =~= r);
    assert(s.take(be + 1) =~= e + seq!['['] + g + seq![']']);
}
/// p ends at the bracket, then ':' follows
pub proof fn lemma_hdr_nofields(p: Seq<char>, r: Seq<char>, s: Seq<char>, be: int, d: char)
    requires s == p + seq![':'] + r, be + 1 == p.len()
    ensures hdr_brace_end(s, be) == be + 1, cfind(s, ':', be + 1) == Some(be + 1), hdr_fields(s, be, be + 1, d) == Some(None::<Seq<(Seq<char>, bool)>>), s.skip(be + 2) == r
{
    assert(s[be + 1] == ':');
    lemma_cfind_unique(s, ':', be + 1, be + 1);
    lemma_cfind(s, '{', be + 1);
    assert(s.skip(be + 2) =~= r);
}
proof fn lemma_hdr_withfields(p: Seq<char>, f: Seq<Seq<char>>, d: char, r: Seq<char>, s: Seq<char>, be: int, colon: int)
    requires s == p + seq!['{'] + join(enc_keys(f), d) + seq!['}'] + seq![':'] + r, be + 1 == p.len(), f.len() > 0, delim_ok(d), colon == p.len() + 2 + join(enc_keys(f), d).len()
    ensures cfind(s, ':', hdr_brace_end(s, be)) == Some(colon), hdr_fields(s, be, colon, d) == Some(Some(qflags(f))), s.skip(colon + 1) == r
{
    hide(enc_key); hide(passes); hide(tight); hide(p_fields); hide(toks); hide(join);
    let t = enc_keys(f); let j = join(t, d);
    assert(s[be + 1] == '{');
    lemma_cfind_unique(s, '{', be + 1, be + 1);
    lemma_cfind(s, ':', be + 1);
    let p1 = p + seq!['{'];
    let r2 = seq!['}'] + seq![':'] + r;
    assert(s =~= p1 + j + r2);
    let fe = (p1.len() + j.len()) as int;
    assert(s[fe] == '}');
    assert(s[colon] == ':');
    assert forall|i: int| 0 <= i < t.len() implies passes(#[trigger] t[i], '}') by { lemma_passes_enc_key(f[i], '}'); }
    lemma_passes_join_at(p1, t, d, '}', r2);
    assert(c_unq(s, '}', fe, false) == Some(fe));
    assert(c_unq(s, '}', be + 2, false) == Some(fe));
    assert(c_unq(s, '}', be + 1, false) == Some(fe));
    assert(cfind(s, ':', be + 1) is Some) by { if cfind(s, ':', be + 1) is None { assert(s[colon] != ':'); } }
    assert(hdr_brace_end(s, be) == fe + 1);
    lemma_cfind_unique(s, ':', fe + 1, colon);
    assert(s.subrange(be + 2, fe) =~= j);
    assert forall|i: int| 0 <= i < t.len() implies good_tok(#[trigger] t[i], d) by { lemma_passes_enc_key(f[i], d); lemma_enc_key_tight(f[i]); }
    lemma_split_join(t, d);
    lemma_p_fields_enc(f);
    assert(s.skip(colon + 1) =~= r);
}
/// C15/C18/C01: a written header is read back as the same header, whatever follows its colon
pub proof fn thm_header(n: nat, key: Option<Seq<char>>, fields: Option<Seq<Seq<char>>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), fields is Some ==> fields->0.len() > 0
    ensures hdr(fmt_header(n, key, fields, d) + r, ',') == HR::Yes(hdr_of(n, key, fields, d, if trim(r).len() == 0 { None } else { Some(trim(r)) }))
{
    hide(hdr); hide(cfind); hide(hdr_start); hide(hdr_key); hide(hdr_fields); hide(hdr_brace_end); hide(p_bracket); hide(trim); hide(enc_key); hide(seg); hide(show_nat); hide(fmt_len); hide(qflags);
    let e = kpart(key); let g = seg(n, d); let fp = fpart(fields, d);
    let s = fmt_header(n, key, fields, d) + r;
    lemma_seg(n, d);
    let r0 = fp + seq![':'] + r;
    let r1 = g + seq![']'] + r0;
    assert(s =~= e + seq!['['] + r1);
    lemma_hdr_start(key, r1);
    let bs = e.len() as int;
    let be = bs + 1 + g.len();
    lemma_hdr_bracket(n, key, d, r0, bs, be, s);
    let p = e + seq!['['] + g + seq![']'];
    let h = hdr_of(n, key, fields, d, if trim(r).len() == 0 { None } else { Some(trim(r)) });
    match fields {
        None => { assert(s =~= p + seq![':'] + r); lemma_hdr_nofields(p, r, s, be, d); lemma_hdr_asm(s, bs, be, be + 1, h); }
        Some(f) => {
            assert(s =~= p + seq!['{'] + join(enc_keys(f), d) + seq!['}'] + seq![':'] + r);
            let colon = (p.len() + 2 + join(enc_keys(f), d).len()) as int;
            lemma_hdr_withfields(p, f, d, r, s, be, colon);
            lemma_hdr_asm(s, bs, be, colon, h);
        }
    }
}
/// C15: a length above the cap is an error wherever the header parser is asked
pub proof fn thm_cap(s: Seq<char>)
    ensures hdr(s, ',') is Yes ==> hdr(s, ',')->Yes_0.len <= max_len()
{ }
/// C15: the cap rejects nothing below it (the header is refused only for other reasons, never for its size)
pub open spec fn hdr_nocap(s: Seq<char>) -> Option<nat> {
    match hdr_start(s) {
        Some(Some(bs)) => match cfind(s, ']', bs) {
            None => None,
            Some(be) => match cfind(s, ':', hdr_brace_end(s, be)) {
                None => None,
                Some(colon) => match hdr_key(s, bs) { None => None, Some(_) => match p_bracket(s.subrange(bs + 1, be), ',') { None => None, Some((len, _)) => Some(len as nat) } },
            } },
        _ => None,
    }
}
pub proof fn thm_cap_exact(s: Seq<char>)
    ensures match hdr_nocap(s) { Some(n) => n > max_len() ==> hdr(s, ',') is Err, None => !(hdr(s, ',') is Yes) },
{ }
} // verus!
}
