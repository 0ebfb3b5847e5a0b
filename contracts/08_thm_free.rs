/// Documents in any permitted layout: quoted or bare tokens, any array form that fits, padding, blank lines.
pub mod vthm_free {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::{WL, pr1, sp};
use crate::vspec_tree::*;
use crate::vspec_exp::{dec_text, dec_lines};
use crate::vthm_enc::{nonl, l_nonl_cat, l_nonl_no, l_nonl_quote, l_nonl_join, l_passes_cat, l_passes_join, l_passes_bracket, l_passes_use, l_trim_some};
use crate::vthm_rt::l_lines;
use crate::vthm_val::{l_nodes, l_nodef};
use crate::vthm_gen::*;
use crate::vthm_gen::seg as at_lines;
use crate::vthm_tok::seg as brk;
verus! {
broadcast use vstd::group_vstd_default;

// ---- spellings ------------------------------------------------------------------------------------
pub open spec fn num_chars(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> is_dig_c(#[trigger] t[i]) || t[i] == '-' || t[i] == '+' || t[i] == '.' || t[i] == 'e' || t[i] == 'E' }
/// a token that may stand for the primitive where d separates: a literal, any numeric spelling of the number
/// (exponents, trailing zeros, minus zero), the quoted string, or the bare string where that is safe
pub open spec fn spells(p: SP, t: Seq<char>, d: char) -> bool {
    match p {
        SP::Null => t == "null"@,
        SP::Bool(b) => t == (if b { "true"@ } else { "false"@ }),
        SP::Num(f) => t.len() > 0 && num_chars(t) && num_lit(t) && f == norm_f(parse_f64(t)->0),
        SP::Str(s) => t == quote(s) || (t == s && safe_unq(s, d)),
    }
}
/// a token that may stand for the key: quoted, or bare where that is allowed
pub open spec fn names(k: Seq<char>, e: Seq<char>) -> bool { e == quote(k) || (e == k && unq_key(k)) }
pub open spec fn hq(e: Seq<char>) -> bool { e.len() > 0 && e[0] == '"' }
proof fn l_num_tok(t: Seq<char>)
    requires t.len() > 0, num_chars(t)
    ensures tight(t), nonl(t), t[0] != '"', t != "true"@, t != "false"@, t != "null"@, forall|c: char| !is_dig_c(c) && c != '-' && c != '+' && c != '.' && c != 'e' && c != 'E' ==> !#[trigger] t.contains(c)
{
    lemma_lits();
    assert(is_dig_c(t[0]) || t[0] == '-' || t[0] == '+' || t[0] == '.' || t[0] == 'e' || t[0] == 'E');
    assert(is_dig_c(t[t.len() - 1]) || t[t.len() - 1] == '-' || t[t.len() - 1] == '+' || t[t.len() - 1] == '.' || t[t.len() - 1] == 'e' || t[t.len() - 1] == 'E');
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' && t[i] != '\r' by { assert(is_dig_c(t[i]) || t[i] == '-' || t[i] == '+' || t[i] == '.' || t[i] == 'e' || t[i] == 'E'); }
}
/// what a spelling is like
pub proof fn l_spell(p: SP, t: Seq<char>, d: char, c: char)
    requires spells(p, t, d), delim_ok(d), c == d || c == ':'
    ensures t.len() > 0, tight(t), nonl(t), p_prim(t) == Some(p), passes(t, c),
      (p is Str && t == quote(p->Str_0)) || (t[0] != '"' && !t.contains(':') && !t.contains('['))
{
    lemma_lits(); lemma_passes_lits(c);
    match p {
        SP::Null => { lemma_tight("null"@); l_lit("null"@); }
        SP::Bool(b) => { lemma_tight("true"@); lemma_tight("false"@); l_lit("true"@); l_lit("false"@); }
        SP::Num(f) => { l_num_tok(t); lemma_tight(t); lemma_passes_plain(t, c); }
        SP::Str(s) => if t == quote(s) { lemma_tight_quote(s); lemma_tight(t); lemma_quote_lit(s); l_nonl_quote(s); lemma_passes_quote(s, c); }
            else {
                lemma_tight_rev(s); lemma_syntax_like(crate::vutf::enc(s)); lemma_tight(s); l_nonl_no(s); lemma_passes_plain(s, c);
                assert(s.contains(s[0]));
            }
    }
}
proof fn l_lit(t: Seq<char>)
    requires t == "null"@ || t == "true"@ || t == "false"@
    ensures nonl(t), !t.contains(':'), !t.contains('[')
{ lemma_lits(); }
pub proof fn l_name(k: Seq<char>, e: Seq<char>, c: char)
    requires names(k, e), c != '"', !is_alnum_us(c), c != '.'
    ensures e.len() > 0, tight(e), nonl(e), passes(e, c), e[0] != '[', e[0] != '-', !ws(e[0]), p_field(e) == Some((k, hq(e))),
      hq(e) ==> e == quote(k), !hq(e) ==> e == k && unq_key(k)
{
    if e == quote(k) { lemma_tight_quote(k); lemma_tight(e); lemma_quote_lit(k); l_nonl_quote(k); lemma_passes_quote(k, c); }
    else { lemma_key_tight(k); lemma_tight(k); lemma_unq_key_no(k, '\n'); lemma_unq_key_no(k, '\r'); l_nonl_no(k); lemma_unq_key_no(k, c); lemma_unq_key_no(k, '"'); lemma_passes_plain(k, c); }
}
// ---- padding --------------------------------------------------------------------------------------
/// a token with blanks around it
pub struct Tk { pub a: nat, pub u: Seq<char>, pub b: nat }
pub open spec fn pad(t: Tk) -> Seq<char> { sp(t.a as int) + t.u + sp(t.b as int) }
pub open spec fn pads(t: Seq<Tk>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| pad(t[i])) }
pub open spec fn bare(t: Seq<Tk>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| t[i].u) }
proof fn l_ltrim_sp(n: nat, s: Seq<char>) ensures ltrim(sp(n as int) + s) == ltrim(s) decreases n
{
    let t = sp(n as int) + s;
    if n == 0 { assert(t =~= s); }
    else { assert(t[0] == ' ' && ws(' ')); assert(t.skip(1) =~= sp(n - 1) + s); l_ltrim_sp((n - 1) as nat, s); }
}
proof fn l_rtrim_sp(n: nat, s: Seq<char>) ensures rtrim(s + sp(n as int)) == rtrim(s) decreases n
{
    let t = s + sp(n as int);
    if n == 0 { assert(t =~= s); }
    else { assert(t.last() == ' ' && ws(' ')); assert(t.drop_last() =~= s + sp(n - 1)); l_rtrim_sp((n - 1) as nat, s); }
}
/// blanks around text that begins and ends visibly trim away
pub proof fn l_trim_pad(a: nat, u: Seq<char>, b: nat)
    requires tight(u), u.len() > 0
    ensures trim(sp(a as int) + u + sp(b as int)) == u, ltrim(sp(a as int) + u + sp(b as int)) == u + sp(b as int)
{
    let r = u + sp(b as int);
    assert(sp(a as int) + u + sp(b as int) =~= sp(a as int) + r);
    l_ltrim_sp(a, r);
    assert(r[0] == u[0]);
    assert(ltrim(r) == r) by { reveal_with_fuel(ltrim, 2); }
    l_rtrim_sp(b, u);
    assert(rtrim(u) == u) by { reveal_with_fuel(rtrim, 2); }
}
proof fn l_sp_plain(n: nat, c: char)
    requires c != ' ', c != '"'
    ensures passes(sp(n as int), c), nonl(sp(n as int)), !sp(n as int).contains(c)
{ let s = sp(n as int); assert(!s.contains(c) && !s.contains('"')); lemma_passes_plain(s, c); }
pub proof fn l_pad(t: Tk, c: char)
    requires c != ' ', c != '"', t.u.len() > 0, tight(t.u)
    ensures passes(t.u, c) ==> passes(pad(t), c), nonl(t.u) ==> nonl(pad(t)), trim(pad(t)) == t.u, pad(t).len() > 0
{
    hide(passes);
    l_sp_plain(t.a, c); l_sp_plain(t.b, c); l_trim_pad(t.a, t.u, t.b);
    if passes(t.u, c) { l_passes_cat(sp(t.a as int), t.u, c); l_passes_cat(sp(t.a as int) + t.u, sp(t.b as int), c); }
    if nonl(t.u) { l_nonl_cat(sp(t.a as int), t.u); l_nonl_cat(sp(t.a as int) + t.u, sp(t.b as int)); }
}
pub open spec fn trims(t: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| trim(t[i])) }
/// joined tokens, padded or not, are split at the delimiter and trimmed
proof fn l_toks(p: Seq<char>, t: Seq<Seq<char>>, d: char)
    requires t.len() > 0, d != '"', forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0 && passes(t[i], d)
    ensures toks(p + join(t, d), d, p.len() as int) == trims(t), join(t, d).len() > 0
    decreases t.len()
{
    let s = p + join(t, d); let i = p.len() as int;
    assert(t[0].len() > 0 && passes(t[0], d));
    if t.len() == 1 {
        assert(s =~= p + t[0] + Seq::<char>::empty());
        assert(c_unq(p + t[0] + Seq::<char>::empty(), d, i, false) == c_unq(p + t[0] + Seq::<char>::empty(), d, i + t[0].len(), false));
        assert(s.skip(i) =~= t[0]);
        assert(toks(s, d, i) =~= trims(t));
    } else {
        lemma_join_cons(t, d);
        let r = seq![d] + join(t.skip(1), d);
        assert(s =~= p + t[0] + r);
        let k = i + t[0].len();
        assert(c_unq(p + t[0] + r, d, i, false) == c_unq(p + t[0] + r, d, k, false));
        assert(s[k] == d);
        assert(c_unq(s, d, i, false) == Some(k));
        let p2 = p + t[0] + seq![d];
        assert forall|j: int| 0 <= j < t.skip(1).len() implies (#[trigger] t.skip(1)[j]).len() > 0 && passes(t.skip(1)[j], d) by { assert(t[j + 1].len() > 0 && passes(t[j + 1], d)); }
        l_toks(p2, t.skip(1), d);
        assert(s =~= p2 + join(t.skip(1), d));
        assert(s.subrange(i, k) =~= t[0]);
        assert(toks(s, d, i) =~= trims(t));
    }
}
/// padded tokens joined: how they read, and that they are one line
pub proof fn l_split(t: Seq<Tk>, d: char)
    requires t.len() > 0, delim_ok(d), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).u.len() > 0 && tight(t[i].u) && nonl(t[i].u) && passes(t[i].u, d)
    ensures split_vals(join(pads(t), d), d) == bare(t), join(pads(t), d).len() > 0, nonl(join(pads(t), d))
{
    hide(passes); hide(pad);
    let s = pads(t);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() > 0 && passes(s[i], d) by { assert(t[i].u.len() > 0); l_pad(t[i], d); }
    assert forall|i: int| 0 <= i < s.len() implies nonl(#[trigger] s[i]) by { assert(t[i].u.len() > 0); l_pad(t[i], d); }
    assert forall|i: int| 0 <= i < s.len() implies trims(s)[i] == bare(t)[i] by { assert(t[i].u.len() > 0); l_pad(t[i], d); }
    assert(trims(s) =~= bare(t));
    l_toks(Seq::empty(), s, d);
    assert(Seq::<char>::empty() + join(s, d) =~= join(s, d));
    l_nonl_join(s, d);
}
/// the ends of joined tokens
proof fn l_join_ends(t: Seq<Seq<char>>, d: char)
    requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0
    ensures join(t, d).len() > 0, join(t, d)[0] == t[0][0], join(t, d).last() == t.last().last()
    decreases t.len()
{
    assert(t[0].len() > 0); assert(t[t.len() - 1].len() > 0);
    if t.len() > 1 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies (#[trigger] t.drop_last()[i]).len() > 0 by { assert(t[i].len() > 0); }
        l_join_ends(t.drop_last(), d);
        assert(join(t, d)[0] == join(t.drop_last(), d)[0]);
    }
}
pub proof fn l_prims(v: Seq<SP>, t: Seq<Tk>, d: char)
    requires v.len() == t.len(), delim_ok(d), forall|i: int| 0 <= i < t.len() ==> spells(v[i], (#[trigger] t[i]).u, d)
    ensures p_prims(bare(t)) == Some(v)
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last(); let u = t.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies spells(w[i], (#[trigger] u[i]).u, d) by { assert(spells(v[i], t[i].u, d)); }
        assert(bare(t).drop_last() =~= bare(u));
        l_prims(w, u, d);
        assert(spells(v[v.len() - 1], t[t.len() - 1].u, d));
        l_spell(v.last(), t.last().u, d, d);
        assert(w.push(v.last()) =~= v);
    } else { assert(v =~= Seq::empty()); }
}
/// spelled primitives in a row
pub proof fn l_row(v: Seq<SP>, t: Seq<Tk>, d: char)
    requires v.len() == t.len(), t.len() > 0, delim_ok(d), forall|i: int| 0 <= i < t.len() ==> spells(v[i], (#[trigger] t[i]).u, d)
    ensures split_vals(join(pads(t), d), d) == bare(t), p_prims(bare(t)) == Some(v), join(pads(t), d).len() > 0, nonl(join(pads(t), d)),
      t[0].a == 0 ==> !ws(join(pads(t), d)[0]), t.last().b == 0 ==> !ws(join(pads(t), d).last())
{
    hide(passes); hide(spells);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).u.len() > 0 && tight(t[i].u) && nonl(t[i].u) && passes(t[i].u, d) by { assert(spells(v[i], t[i].u, d)); l_spell(v[i], t[i].u, d, d); }
    l_split(t, d); l_prims(v, t, d);
    assert(t[0].u.len() > 0 && tight(t[0].u)); assert(t[t.len() - 1].u.len() > 0 && tight(t[t.len() - 1].u));
    let s = pads(t);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() > 0 by { assert(t[i].u.len() > 0); }
    l_join_ends(s, d);
    if t[0].a == 0 { assert(s[0][0] == t[0].u[0]); }
    if t.last().b == 0 { assert(s.last().last() == t.last().u.last()); }
}
pub proof fn l_names(k: Seq<Seq<char>>, t: Seq<Tk>)
    requires k.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> names(k[i], (#[trigger] t[i]).u)
    ensures p_fields(bare(t)) == Some(kflags(k, t))
    decreases k.len()
{
    if k.len() > 0 {
        let w = k.drop_last(); let u = t.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies names(w[i], (#[trigger] u[i]).u) by { assert(names(k[i], t[i].u)); }
        assert(bare(t).drop_last() =~= bare(u));
        l_names(w, u);
        assert(names(k[k.len() - 1], t[t.len() - 1].u));
        l_name(k.last(), t.last().u, ':');
        assert(kflags(w, u).push((k.last(), hq(t.last().u))) =~= kflags(k, t));
    } else { assert(kflags(k, t) =~= Seq::empty()); }
}
pub open spec fn kflags(k: Seq<Seq<char>>, t: Seq<Tk>) -> Seq<(Seq<char>, bool)> { Seq::new(k.len(), |i: int| (k[i], hq(t[i].u))) }
// ---- headers --------------------------------------------------------------------------------------
/// the key in front of the bracket, if any
pub open spec fn head_key(key: Option<Seq<char>>, e: Seq<char>) -> bool { match key { Some(k) => names(k, e), None => e.len() == 0 } }
pub open spec fn ftext(f: Option<Seq<Tk>>, d: char) -> Seq<char> { match f { Some(t) => seq!['{'] + join(pads(t), d) + seq!['}'], None => Seq::empty() } }
pub open spec fn htext(n: nat, f: Option<Seq<Tk>>, d: char) -> Seq<char> { seq!['['] + brk(n, d) + seq![']'] + ftext(f, d) + seq![':'] }
proof fn l_hdr_start(key: Option<Seq<char>>, e: Seq<char>, r: Seq<char>)
    requires head_key(key, e)
    ensures hdr_start(e + seq!['['] + r) == Some(Some(e.len() as int)), hdr_key(e + seq!['['] + r, e.len() as int) == Some((key, hq(e)))
{
    let s = e + seq!['['] + r;
    assert(s[e.len() as int] == '[');
    assert(s.take(e.len() as int) =~= e);
    assert(!ws('[') && !ws('"'));
    match key {
        None => { assert(s[0] == '['); reveal_with_fuel(ltrim, 2); assert(ltrim(s) == s); lemma_cfind(s, ':', 0); lemma_cfind_unique(s, '[', 0, 0); }
        Some(k) => {
            l_name(k, e, ':');
            lemma_tight(e);
            assert(s[0] == e[0]);
            assert(ltrim(s) == s) by { reveal_with_fuel(ltrim, 2); }
            if !hq(e) {
                lemma_unq_key_no(k, ':'); lemma_unq_key_no(k, '['); lemma_unq_key_no(k, '"');
                assert forall|i: int| 0 <= i < e.len() implies s[i] != ':' && s[i] != '[' by { assert(s[i] == k[i]); assert(k.contains(k[i])); }
                lemma_cfind_unique(s, '[', 0, e.len() as int);
                lemma_cfind(s, ':', 0);
            } else {
                lemma_quote_lit(k); lemma_tight_quote(k);
                lemma_close_esc(seq!['"'], k, seq!['['] + r);
                assert(s =~= seq!['"'] + esc(k) + seq!['"'] + (seq!['['] + r));
                assert(e.len() == esc(k).len() + 2);
            }
        }
    }
}
proof fn l_hdr_bracket(n: nat, e: Seq<char>, d: char, r: Seq<char>, bs: int, be: int, s: Seq<char>)
    requires delim_ok(d), n <= max_len(), s == e + seq!['['] + (brk(n, d) + seq![']'] + r), bs == e.len(), be == bs + 1 + brk(n, d).len()
    ensures cfind(s, ']', bs) == Some(be), p_bracket(s.subrange(bs + 1, be), ',') == Some((n as usize, d)), s.skip(be + 1) == r, s[be] == ']',
{
    hide(p_bracket); hide(brk); hide(show_nat);
    lemma_seg(n, d);
    let g = brk(n, d);
    assert(s[be] == ']');
    assert(s[bs] == '[');
    assert forall|i: int| bs <= i < be implies s[i] != ']' by { if i > bs { assert(s[i] == g[i - bs - 1]); assert(is_dig_c(g[i - bs - 1]) || g[i - bs - 1] == d); } }
    lemma_cfind_unique(s, ']', bs, be);
    assert(s.subrange(bs + 1, be) =~= g);
    assert(s.skip(be + 1) =~= r);
}
proof fn l_hdr_fields(p: Seq<char>, k: Seq<Seq<char>>, f: Seq<Tk>, d: char, r: Seq<char>, s: Seq<char>, be: int, colon: int)
    requires k.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> names(k[i], (#[trigger] f[i]).u),
      s == p + seq!['{'] + join(pads(f), d) + seq!['}'] + seq![':'] + r, be + 1 == p.len(), f.len() > 0, delim_ok(d), colon == p.len() + 2 + join(pads(f), d).len()
    ensures cfind(s, ':', hdr_brace_end(s, be)) == Some(colon), hdr_fields(s, be, colon, d) == Some(Some(kflags(k, f))), s.skip(colon + 1) == r
{
    hide(passes); hide(tight); hide(p_fields); hide(toks); hide(join); hide(pad); hide(names);
    let t = pads(f); let j = join(t, d);
    assert(s[be + 1] == '{');
    lemma_cfind_unique(s, '{', be + 1, be + 1);
    lemma_cfind(s, ':', be + 1);
    let p1 = p + seq!['{'];
    let r2 = seq!['}'] + seq![':'] + r;
    assert(s =~= p1 + j + r2);
    let fe = (p1.len() + j.len()) as int;
    assert(s[fe] == '}');
    assert(s[colon] == ':');
    assert forall|i: int| 0 <= i < t.len() implies passes(#[trigger] t[i], '}') by { assert(names(k[i], f[i].u)); l_name(k[i], f[i].u, '}'); l_pad(f[i], '}'); }
    lemma_passes_join_at(p1, t, d, '}', r2);
    assert(c_unq(s, '}', fe, false) == Some(fe));
    assert(c_unq(s, '}', be + 2, false) == Some(fe));
    assert(c_unq(s, '}', be + 1, false) == Some(fe));
    assert(cfind(s, ':', be + 1) is Some) by { if cfind(s, ':', be + 1) is None { assert(s[colon] != ':'); } }
    assert(hdr_brace_end(s, be) == fe + 1);
    lemma_cfind_unique(s, ':', fe + 1, colon);
    assert(s.subrange(be + 2, fe) =~= j);
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).u.len() > 0 && tight(f[i].u) && nonl(f[i].u) && passes(f[i].u, d) by { assert(names(k[i], f[i].u)); l_name(k[i], f[i].u, d); }
    l_split(f, d);
    l_names(k, f);
    assert(s.skip(colon + 1) =~= r);
}
pub open spec fn hdr_is(n: nat, key: Option<Seq<char>>, e: Seq<char>, k: Seq<Seq<char>>, f: Option<Seq<Tk>>, d: char, r: Seq<char>) -> SHdr {
    SHdr { key, kq: hq(e), len: n as usize, delim: d, fields: match f { Some(t) => Some(kflags(k, t)), None => None }, inl: if trim(r).len() == 0 { None } else { Some(trim(r)) } }
}
/// any spelling of a header is read as that header
pub proof fn thm_any_header(n: nat, key: Option<Seq<char>>, e: Seq<char>, k: Seq<Seq<char>>, f: Option<Seq<Tk>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), head_key(key, e), f is Some ==> f->0.len() > 0 && k.len() == f->0.len() && (forall|i: int| 0 <= i < k.len() ==> names(k[i], (#[trigger] f->0[i]).u))
    ensures hdr(e + htext(n, f, d) + r, ',') == HR::Yes(hdr_is(n, key, e, k, f, d, r))
{
    hide(hdr); hide(cfind); hide(hdr_start); hide(hdr_key); hide(hdr_fields); hide(hdr_brace_end); hide(p_bracket); hide(trim); hide(brk); hide(show_nat); hide(kflags); hide(head_key); hide(names);
    let g = brk(n, d); let fp = ftext(f, d);
    let s = e + htext(n, f, d) + r;
    lemma_seg(n, d);
    let r0 = fp + seq![':'] + r;
    let r1 = g + seq![']'] + r0;
    assert(s =~= e + seq!['['] + r1);
    l_hdr_start(key, e, r1);
    let bs = e.len() as int;
    let be = bs + 1 + g.len();
    l_hdr_bracket(n, e, d, r0, bs, be, s);
    let p = e + seq!['['] + g + seq![']'];
    let h = hdr_is(n, key, e, k, f, d, r);
    match f {
        None => { assert(s =~= p + seq![':'] + r); lemma_hdr_nofields(p, r, s, be, d); lemma_hdr_asm(s, bs, be, be + 1, h); }
        Some(t) => {
            assert(s =~= p + seq!['{'] + join(pads(t), d) + seq!['}'] + seq![':'] + r);
            let colon = (p.len() + 2 + join(pads(t), d).len()) as int;
            l_hdr_fields(p, k, t, d, r, s, be, colon);
            lemma_hdr_asm(s, bs, be, colon, h);
        }
    }
}
// ---- lines ------------------------------------------------------------------------------------------
/// one line that shows at its start
pub open spec fn vis(c: Seq<char>) -> bool { c.len() > 0 && !ws(c[0]) && nonl(c) }
/// how a line with a key starts
proof fn l_key_first(k: Seq<char>, e: Seq<char>, r: Seq<char>, s: Seq<char>)
    requires s == e + r, names(k, e)
    ensures s.len() > 0, s[0] == e[0], !ws(s[0]), ltrim(s) == s, !("- "@).is_prefix_of(s), !is_arr_hdr_content(s), s[0] != '[',
{
    reveal_strlit("- ");
    l_name(k, e, ':');
    assert(s[0] == e[0]);
    reveal_with_fuel(ltrim, 2);
    if ("- "@).is_prefix_of(s) { assert("- "@[0] == s[0]); }
}
/// key: ...
proof fn l_kv(k: Seq<char>, e: Seq<char>, r: Seq<char>)
    requires names(k, e)
    ensures ({ let s = e + seq![':'] + r;
      hdr(s, ',') is No && !("- "@).is_prefix_of(s) && !is_arr_hdr_content(s) && is_kv_content(s) && is_kv_line(s) && s.len() > 0 && !ws(s[0])
      && p_key(s) == Some((k, e.len() as int + 1, hq(e))) && s.skip(e.len() as int + 1) == r })
{
    let s = e + seq![':'] + r;
    assert(s =~= e + (seq![':'] + r));
    l_key_first(k, e, seq![':'] + r, s);
    assert(s.skip(e.len() as int + 1) =~= r);
    assert(s[e.len() as int] == ':');
    l_name(k, e, ':');
    l_passes_use(e, ':', seq![':'] + r);
    if !hq(e) {
        lemma_key_tight(k); lemma_tight(k);
        lemma_unq_key_no(k, ':'); lemma_unq_key_no(k, '[');
        assert forall|i: int| 0 <= i < e.len() implies s[i] != ':' && s[i] != '[' by { assert(s[i] == k[i]); assert(k.contains(k[i])); }
        lemma_cfind_unique(s, ':', 0, e.len() as int);
        lemma_cfind(s, '[', 0);
        assert(s.contains(':'));
        assert(s.take(e.len() as int) =~= k);
    } else {
        assert(s =~= seq!['"'] + esc(k) + seq!['"'] + (seq![':'] + r));
        lemma_close_esc(seq!['"'], k, seq![':'] + r);
        let c = 1 + esc(k).len() as int;
        assert(s[c + 1] == ':');
        assert(s.skip(c + 1)[0] == ':');
        assert(s.subrange(1, c) =~= esc(k));
        lemma_unesc_esc(k);
    }
}
proof fn l_passes_ftext(k: Seq<Seq<char>>, f: Seq<Tk>, d: char)
    requires delim_ok(d), f.len() > 0, k.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> names(k[i], (#[trigger] f[i]).u)
    ensures passes(ftext(Some(f), d), ':'), nonl(ftext(Some(f), d))
{
    hide(passes); hide(join); hide(names); hide(pad); hide(tight);
    let t = pads(f); let j = join(t, d);
    assert forall|i: int| 0 <= i < t.len() implies passes(#[trigger] t[i], ':') by { assert(names(k[i], f[i].u)); l_name(k[i], f[i].u, ':'); l_pad(f[i], ':'); }
    assert forall|i: int| 0 <= i < t.len() implies nonl(#[trigger] t[i]) by { assert(names(k[i], f[i].u)); l_name(k[i], f[i].u, ':'); l_pad(f[i], ':'); }
    l_passes_join(t, d, ':'); l_nonl_join(t, d);
    assert(!seq!['{'].contains(':') && !seq!['{'].contains('"'));
    assert(!seq!['}'].contains(':') && !seq!['}'].contains('"'));
    lemma_passes_plain(seq!['{'], ':'); lemma_passes_plain(seq!['}'], ':');
    l_passes_cat(seq!['{'], j, ':'); l_passes_cat(seq!['{'] + j, seq!['}'], ':');
    l_nonl_cat(seq!['{'], j); l_nonl_cat(seq!['{'] + j, seq!['}']);
}
/// a header line: where it stands it is seen as a header
proof fn l_hdr_line(n: nat, key: Option<Seq<char>>, e: Seq<char>, k: Seq<Seq<char>>, f: Option<Seq<Tk>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), head_key(key, e), f is Some ==> f->0.len() > 0 && k.len() == f->0.len() && (forall|i: int| 0 <= i < k.len() ==> names(k[i], (#[trigger] f->0[i]).u))
    ensures ({ let s = e + htext(n, f, d) + r; is_kv_content(s) && s.len() > 0 && !ws(s[0]) && (nonl(r) ==> nonl(s))
        && (key is Some ==> !("- "@).is_prefix_of(s) && !is_arr_hdr_content(s) && is_kv_line(s)) && (key is None ==> is_arr_hdr_content(s) && trim(s).len() > 0) })
{
    hide(brk); hide(show_nat); hide(passes); hide(join); hide(fmt_len); hide(ftext); hide(names);
    let b = fmt_len(n, d); let fp = ftext(f, d);
    let s = e + htext(n, f, d) + r;
    lemma_seg(n, d);
    assert(htext(n, f, d) == b + fp + seq![':']);
    let z = Seq::<char>::empty();
    l_passes_bracket(n, d);
    assert(passes(z, ':') && nonl(z)) by { assert(!z.contains(':') && !z.contains('"')); lemma_passes_plain(z, ':'); }
    match key { Some(k0) => { l_name(k0, e, ':'); }, None => { assert(e =~= z); } }
    match f { Some(t) => { l_passes_ftext(k, t, d); }, None => { reveal(ftext); assert(fp == z); } }
    l_passes_cat(e, b, ':'); l_passes_cat(e + b, fp, ':');
    let h = e + b + fp;
    assert(s =~= h + (seq![':'] + r));
    l_passes_use(h, ':', seq![':'] + r);
    assert(s[h.len() as int] == ':');
    assert(c_unq(s, ':', 0, false) is Some);
    assert(nonl(b)) by { let g = brk(n, d); assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] != '\n' && g[i] != '\r' by { assert(is_dig_c(g[i]) || g[i] == d); } assert(nonl(seq!['['])); l_nonl_cat(seq!['['], g); l_nonl_cat(seq!['['] + g, seq![']']); }
    l_nonl_cat(e, b); l_nonl_cat(e + b, fp);
    assert(nonl(seq![':']));
    if nonl(r) { l_nonl_cat(seq![':'], r); l_nonl_cat(h, seq![':'] + r); }
    match key {
        Some(k0) => {
            let t = htext(n, f, d) + r;
            assert(s =~= e + t);
            l_key_first(k0, e, t, s);
            assert(s.contains(':'));
            if hq(e) {
                assert(e == quote(k0));
                assert(s =~= seq!['"'] + esc(k0) + seq!['"'] + t);
                lemma_close_esc(seq!['"'], k0, t);
                let c = 1 + esc(k0).len() as int;
                assert(s.skip(c + 1) =~= t);
                assert(t[h.len() - e.len()] == ':');
                assert(t.contains(':'));
            } else { assert(s[0] == e[0]); }
        },
        None => {
            assert(s[0] == b[0]);
            assert(!ws('['));
            reveal_with_fuel(ltrim, 2);
            assert(ltrim(s) == s);
            l_trim_some(s);
        },
    }
}
/// a primitive on a line of its own, with blanks around it
proof fn l_alone(p: SP, t: Tk)
    requires spells(p, t.u, '\t')
    ensures ({ let s = pad(t); hdr(s, ',') is No && !is_kv_content(s) && !is_arr_hdr_content(s) && (t.a == 0 ==> !is_kv_line(s)) && trim(s) == t.u && t.u.len() > 0 && p_prim(s) == Some(p) && p_prim(t.u) == Some(p) && nonl(s) && (t.a == 0 ==> !ws(s[0])) })
{
    let s = pad(t);
    l_spell(p, t.u, '\t', ':'); l_pad(t, ':'); l_trim_pad(t.a, t.u, t.b);
    lemma_tight(t.u);
    let z = Seq::<char>::empty();
    l_passes_use(s, ':', z);
    assert(s + z =~= s);
    assert(c_unq(s, ':', 0, false) is None);
    let l = ltrim(s);
    assert(l == t.u + sp(t.b as int));
    if t.a == 0 { assert(s =~= l); assert(s[0] == t.u[0]); }
    if p is Str && t.u == quote(p->Str_0) {
        let x = p->Str_0;
        let r = sp(t.b as int);
        assert(l =~= seq!['"'] + esc(x) + seq!['"'] + r);
        lemma_close_esc(seq!['"'], x, r);
        let c = 1 + esc(x).len() as int;
        assert(l.skip(c + 1) =~= r);
        l_sp_plain(t.b, ':'); l_sp_plain(t.b, '[');
        if c + 1 < l.len() { assert(l[c + 1] == r[0]); }
    } else {
        assert(l[0] == t.u[0]);
        l_sp_plain(t.a, ':'); l_sp_plain(t.b, ':'); l_sp_plain(t.a, '['); l_sp_plain(t.b, '[');
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '[' && s[i] != ':' by {
            if i < t.a { } else if i < t.a + t.u.len() { assert(s[i] == t.u[i - t.a]); assert(t.u.contains(t.u[i - t.a])); } else { }
        }
        lemma_cfind(s, '[', 0);
        assert(!s.contains(':'));
    }
}
// ---- layouts ------------------------------------------------------------------------------------------
/// A layout of a value: how every token is spelled and padded, which form every array takes, with which delimiter.
/// Inl: blanks after the colon, tokens, trailing blanks. Tab: column names, their tokens, the rows. Obj: key tokens.
pub enum LY { Prim(Tk), Inl(char, nat, Seq<Tk>, nat), Tab(char, Seq<Seq<char>>, Seq<Tk>, Seq<Seq<Tk>>), Lst(char, Seq<LY>), Obj(Seq<(Seq<char>, LY)>) }
pub open spec fn inl_fit(a: Seq<SV>, d: char, t: Seq<Tk>) -> bool {
    &&& delim_ok(d) && 0 < t.len() <= max_len() && a.len() == t.len() && t[0].a == 0 && t.last().b == 0
    &&& forall|i: int| 0 <= i < t.len() ==> a[i] is Prim && spells(a[i]->Prim_0, (#[trigger] t[i]).u, d)
}
pub open spec fn row_fit(v: SV, k: Seq<Seq<char>>, t: Seq<Tk>, d: char) -> bool {
    &&& v is Obj && v->Obj_0.len() == k.len() && t.len() == k.len() && t[0].a == 0
    &&& forall|j: int| 0 <= j < t.len() ==> v->Obj_0[j].0 == k[j] && v->Obj_0[j].1 is Prim && spells(v->Obj_0[j].1->Prim_0, (#[trigger] t[j]).u, d)
}
pub open spec fn tab_fit(a: Seq<SV>, d: char, k: Seq<Seq<char>>, f: Seq<Tk>, r: Seq<Seq<Tk>>) -> bool {
    &&& delim_ok(d) && k.len() > 0 && k.len() == f.len() && r.len() <= max_len() && a.len() == r.len()
    &&& forall|j: int| 0 <= j < k.len() ==> names(k[j], (#[trigger] f[j]).u)
    &&& forall|i: int| 0 <= i < r.len() ==> row_fit(a[i], k, #[trigger] r[i], d)
}
/// the layout is one of this value
#[verifier::opaque]
pub open spec fn fit(v: SV, y: LY) -> bool decreases y, 0int
{
    match (v, y) {
        (SV::Prim(p), LY::Prim(t)) => spells(p, t.u, '\t'),
        (SV::Arr(a), LY::Inl(d, s, t, e)) => inl_fit(a, d, t),
        (SV::Arr(a), LY::Tab(d, k, f, r)) => tab_fit(a, d, k, f, r),
        (SV::Arr(a), LY::Lst(d, b)) => delim_ok(d) && b.len() <= max_len() && fits(a, b),
        (SV::Obj(o), LY::Obj(f)) => fitf(o, f),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn fits(a: Seq<SV>, b: Seq<LY>) -> bool decreases b, 1int
{ a.len() == b.len() && (b.len() > 0 ==> fit(a[0], b[0]) && fits(a.skip(1), b.skip(1))) }
#[verifier::opaque]
pub open spec fn fitf(o: Seq<(Seq<char>, SV)>, f: Seq<(Seq<char>, LY)>) -> bool decreases f, 1int
{ o.len() == f.len() && (f.len() > 0 ==> names(o[0].0, f[0].0) && fit(o[0].1, f[0].1) && fitf(o.skip(1), f.skip(1))) }
/// what stands after the key
pub open spec fn lh(y: LY) -> Seq<char> {
    match y {
        LY::Prim(t) => seq![':'] + pad(t),
        LY::Inl(d, s, t, e) => htext(t.len(), None, d) + (sp(s as int) + join(pads(t), d) + sp(e as int)),
        LY::Tab(d, k, f, r) => htext(r.len(), Some(f), d) + Seq::empty(),
        LY::Lst(d, b) => htext(b.len(), None, d) + Seq::empty(),
        LY::Obj(f) => seq![':'] + Seq::empty(),
    }
}
pub open spec fn row_texts(r: Seq<Seq<Tk>>, d: char) -> Seq<Seq<char>> { Seq::new(r.len(), |i: int| join(pads(r[i]), d)) }
#[verifier::opaque]
pub open spec fn fb(y: LY) -> GB decreases y, 0int
{
    match y {
        LY::Tab(d, k, f, r) => GB::Rows(row_texts(r, d)),
        LY::Lst(d, b) => GB::Items(fis(b)),
        LY::Obj(f) => GB::Fields(ffs(f)),
        _ => GB::Leaf,
    }
}
#[verifier::opaque]
pub open spec fn ff(f: (Seq<char>, LY)) -> GF decreases f, 1int { GF { c: f.0 + lh(f.1), b: fb(f.1) } }
#[verifier::opaque]
pub open spec fn ffs(f: Seq<(Seq<char>, LY)>) -> Seq<GF> decreases f, 2int
{ if f.len() == 0 { Seq::empty() } else { seq![ff(f[0])] + ffs(f.skip(1)) } }
#[verifier::opaque]
pub open spec fn fi(y: LY) -> GI decreases y, 1int
{
    match y {
        LY::Prim(t) => GI::Val(pad(t)),
        LY::Obj(f) => if f.len() == 0 { GI::Bare } else { GI::Obj(ff(f[0]), ffs(f.skip(1))) },
        _ => GI::Arr(lh(y), fb(y)),
    }
}
#[verifier::opaque]
pub open spec fn fis(b: Seq<LY>) -> Seq<GI> decreases b, 2int
{ if b.len() == 0 { Seq::empty() } else { seq![fi(b[0])] + fis(b.skip(1)) } }
/// the document of a layout
pub open spec fn fr(y: LY) -> GR { match y { LY::Prim(t) => GR::Prim(pad(t)), LY::Obj(f) => GR::Obj(ffs(f)), _ => GR::Arr(lh(y), fb(y)) } }
proof fn e_fit(v: SV, y: LY) ensures fit(v, y) == (match (v, y) {
        (SV::Prim(p), LY::Prim(t)) => spells(p, t.u, '\t'),
        (SV::Arr(a), LY::Inl(d, s, t, e)) => inl_fit(a, d, t),
        (SV::Arr(a), LY::Tab(d, k, f, r)) => tab_fit(a, d, k, f, r),
        (SV::Arr(a), LY::Lst(d, b)) => delim_ok(d) && b.len() <= max_len() && fits(a, b),
        (SV::Obj(o), LY::Obj(f)) => fitf(o, f),
        _ => false,
    })
{ reveal(fit); reveal(fits); reveal(fitf); }
proof fn e_fits(a: Seq<SV>, b: Seq<LY>) ensures fits(a, b) == (a.len() == b.len() && (b.len() > 0 ==> fit(a[0], b[0]) && fits(a.skip(1), b.skip(1)))) { reveal(fit); reveal(fits); reveal(fitf); }
proof fn e_fitf(o: Seq<(Seq<char>, SV)>, f: Seq<(Seq<char>, LY)>) ensures fitf(o, f) == (o.len() == f.len() && (f.len() > 0 ==> names(o[0].0, f[0].0) && fit(o[0].1, f[0].1) && fitf(o.skip(1), f.skip(1)))) { reveal(fit); reveal(fits); reveal(fitf); }
proof fn e_fb(y: LY) ensures fb(y) == (match y { LY::Tab(d, k, f, r) => GB::Rows(row_texts(r, d)), LY::Lst(d, b) => GB::Items(fis(b)), LY::Obj(f) => GB::Fields(ffs(f)), _ => GB::Leaf })
{ reveal(fb); reveal(ff); reveal(ffs); reveal(fi); reveal(fis); }
proof fn e_ff(f: (Seq<char>, LY)) ensures ff(f) == (GF { c: f.0 + lh(f.1), b: fb(f.1) }) { reveal(fb); reveal(ff); reveal(ffs); reveal(fi); reveal(fis); }
proof fn e_ffs(f: Seq<(Seq<char>, LY)>) ensures ffs(f) == (if f.len() == 0 { Seq::empty() } else { seq![ff(f[0])] + ffs(f.skip(1)) }) { reveal(fb); reveal(ff); reveal(ffs); reveal(fi); reveal(fis); }
proof fn e_fi(y: LY) ensures fi(y) == (match y { LY::Prim(t) => GI::Val(pad(t)), LY::Obj(f) => if f.len() == 0 { GI::Bare } else { GI::Obj(ff(f[0]), ffs(f.skip(1))) }, _ => GI::Arr(lh(y), fb(y)) })
{ reveal(fb); reveal(ff); reveal(ffs); reveal(fi); reveal(fis); }
proof fn e_fis(b: Seq<LY>) ensures fis(b) == (if b.len() == 0 { Seq::empty() } else { seq![fi(b[0])] + fis(b.skip(1)) }) { reveal(fb); reveal(ff); reveal(ffs); reveal(fi); reveal(fis); }
// ---- a layout is a conforming document that means the value ----------------------------------------------
pub open spec fn seen(l: Seq<WL>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).n >= 0 && vis(l[i].c) }
proof fn l_seen_cat(a: Seq<WL>, b: Seq<WL>) requires seen(a), seen(b) ensures seen(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).n >= 0 && vis(s[i].c) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
proof fn l_seen_one(n: int, c: Seq<char>) requires n >= 0, vis(c) ensures seen(seq![WL { n, c }]) { }
proof fn l_vis_hy(c: Seq<char>) requires nonl(c) ensures vis(hy(c)), vis(seq!['-'])
{ let h = seq!['-', ' ']; assert(!ws('-')); assert(nonl(h)); l_nonl_cat(h, c); assert((h + c)[0] == '-'); assert(nonl(seq!['-'])); }
/// the value of an object / array in the decoded tree, member by member
proof fn l_dsv_obj(a: Seq<DF>, o: Seq<(Seq<char>, SV)>)
    requires a.len() == o.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == o[i].0 && dsv(a[i].2) == o[i].1
    ensures dsv(DV::Obj(a)) == SV::Obj(o)
{
    l_nodef(a);
    let m = nodef(a);
    assert forall|i: int| 0 <= i < o.len() implies nsvf(m)[i] == o[i] by { assert(a[i].0 == o[i].0); assert(m[i] == (a[i].0, node(a[i].2))); assert(nsv(m[i].1) == o[i].1); }
    assert(nsvf(m) =~= o);
}
proof fn l_dsv_arr(n: nat, a: Seq<DV>, o: Seq<SV>)
    requires a.len() == o.len(), forall|i: int| 0 <= i < a.len() ==> dsv(#[trigger] a[i]) == o[i]
    ensures dsv(DV::Arr(n, a)) == SV::Arr(o)
{
    l_nodes(a);
    let m = nodes(a);
    assert forall|i: int| 0 <= i < o.len() implies nsvs(m)[i] == o[i] by { assert(dsv(a[i]) == o[i]); assert(m[i] == node(a[i])); }
    assert(nsvs(m) =~= o);
}
proof fn l_dsv_prim(p: SP) ensures dsv(DV::Prim(p)) == SV::Prim(p) { }
/// the header of an array layout
pub open spec fn lhdr(y: LY, key: Option<Seq<char>>, e: Seq<char>) -> SHdr {
    match y {
        LY::Inl(d, s, t, z) => hdr_is(t.len(), key, e, Seq::empty(), None, d, sp(s as int) + join(pads(t), d) + sp(z as int)),
        LY::Tab(d, k, f, r) => hdr_is(r.len(), key, e, k, Some(f), d, Seq::empty()),
        LY::Lst(d, b) => hdr_is(b.len(), key, e, Seq::empty(), None, d, Seq::empty()),
        _ => arbitrary(),
    }
}
proof fn inl_prims(a: Seq<SV>, d: char, s: nat, t: Seq<Tk>, z: nat)
    requires inl_fit(a, d, t)
    ensures ({ let j = join(pads(t), d); let r = sp(s as int) + j + sp(z as int);
      trim(r) == j && j.len() > 0 && nonl(r) && trim(j).len() > 0 && ({ let p = Seq::new(a.len(), |i: int| a[i]->Prim_0); p_prims(split_vals(j, d)) == Some(p) }) })
{
    hide(spells); hide(passes); hide(split_vals); hide(p_prims); hide(trim);
    let j = join(pads(t), d);
    let p = Seq::new(a.len(), |i: int| a[i]->Prim_0);
    assert forall|i: int| 0 <= i < t.len() implies spells(p[i], (#[trigger] t[i]).u, d) by { assert(spells(a[i]->Prim_0, t[i].u, d)); }
    l_row(p, t, d);
    l_trim_pad(s, j, z);
    lemma_tight(j);
    l_sp_plain(s, ':'); l_sp_plain(z, ':');
    l_nonl_cat(sp(s as int), j); l_nonl_cat(sp(s as int) + j, sp(z as int));
}
proof fn l_trim_none() ensures trim(Seq::<char>::empty()) == Seq::<char>::empty() { lemma_tight(Seq::empty()); }
/// the line of an array
proof fn m_head(a: Seq<SV>, y: LY, key: Option<Seq<char>>, e: Seq<char>)
    requires fit(SV::Arr(a), y), head_key(key, e)
    ensures ({ let c = e + lh(y); hdr(c, ',') == HR::Yes(lhdr(y, key, e)) && is_kv_content(c) && vis(c) && !(y is Prim) && !(y is Obj)
        && (key is Some ==> !("- "@).is_prefix_of(c) && !is_arr_hdr_content(c) && is_kv_line(c)) && (key is None ==> is_arr_hdr_content(c) && trim(c).len() > 0) })
{
    hide(hdr); hide(htext); hide(hdr_is); hide(names); hide(is_kv_content); hide(is_arr_hdr_content); hide(is_kv_line); hide(head_key); hide(trim); hide(join); hide(pads); hide(row_fit);
    e_fit(SV::Arr(a), y);
    let z = Seq::<char>::empty();
    let c = e + lh(y);
    match y {
        LY::Inl(d, s, t, q) => {
            let r = sp(s as int) + join(pads(t), d) + sp(q as int);
            inl_prims(a, d, s, t, q);
            thm_any_header(t.len(), key, e, z0(), None, d, r); l_hdr_line(t.len(), key, e, z0(), None, d, r);
            assert(c =~= e + htext(t.len(), None, d) + r);
        },
        LY::Tab(d, k, f, r) => {
            thm_any_header(r.len(), key, e, k, Some(f), d, z); l_hdr_line(r.len(), key, e, k, Some(f), d, z);
            assert(c =~= e + htext(r.len(), Some(f), d) + z);
        },
        LY::Lst(d, b) => {
            thm_any_header(b.len(), key, e, z0(), None, d, z); l_hdr_line(b.len(), key, e, z0(), None, d, z);
            assert(c =~= e + htext(b.len(), None, d) + z);
        },
        _ => {},
    }
}
pub open spec fn z0() -> Seq<Seq<char>> { Seq::empty() }
proof fn l_row_obj(v: SV, k: Seq<Seq<char>>, f: Seq<Tk>, t: Seq<Tk>, d: char)
    requires row_fit(v, k, t, d), delim_ok(d), k.len() > 0, k.len() == f.len()
    ensures d_row(true, kflags(k, f), d, join(pads(t), d)) is Some, dsv(d_row(true, kflags(k, f), d, join(pads(t), d))->0) == v, vis(join(pads(t), d))
{
    hide(spells); hide(passes); hide(split_vals); hide(p_prims); hide(dsv);
    let o = v->Obj_0;
    let p = Seq::new(o.len(), |j: int| o[j].1->Prim_0);
    assert forall|i: int| 0 <= i < t.len() implies spells(p[i], (#[trigger] t[i]).u, d) by { assert(spells(o[i].1->Prim_0, t[i].u, d)); }
    l_row(p, t, d);
    let g = row_fields(kflags(k, f), p);
    assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).0 == o[j].0 && dsv(g[j].2) == o[j].1 by { assert(spells(p[j], t[j].u, d)); assert(o[j].0 == k[j] && o[j].1 is Prim); l_dsv_prim(p[j]); }
    l_dsv_obj(g, o);
}
proof fn m_arr(a: Seq<SV>, y: LY, key: Option<Seq<char>>, e: Seq<char>, n: int)
    requires fit(SV::Arr(a), y), n >= 0
    ensures ok_arr(lhdr(y, key, e), fb(y)), dsv(gm_arr(lhdr(y, key, e), fb(y))) == SV::Arr(a), seen(gl_body(fb(y), n))
    decreases y, 0int
{
    hide(spells); hide(split_vals); hide(p_prims); hide(trim); hide(row_fit); hide(dsv); hide(d_row); hide(kflags); hide(join); hide(pads); hide(vis);
    let h = lhdr(y, key, e);
    e_fit(SV::Arr(a), y); e_fb(y); e_gl_body(fb(y), n); e_gm_arr(h, fb(y)); e_ok_arr(h, fb(y));
    l_trim_none();
    match y {
        LY::Inl(d, s, t, q) => {
            inl_prims(a, d, s, t, q);
            let p = Seq::new(a.len(), |i: int| a[i]->Prim_0);
            let g = prim_items(p);
            assert forall|i: int| 0 <= i < g.len() implies dsv(#[trigger] g[i]) == a[i] by { assert(spells(a[i]->Prim_0, t[i].u, d)); l_dsv_prim(p[i]); }
            l_dsv_arr(a.len(), g, a);
        },
        LY::Tab(d, k, f, r) => {
            let w = row_texts(r, d);
            assert(h.fields == Some(kflags(k, f)) && kflags(k, f).len() > 0) by { reveal(kflags); }
            assert forall|i: int| 0 <= i < r.len() implies d_row(true, kflags(k, f), d, #[trigger] w[i]) is Some && dsv(d_row(true, kflags(k, f), d, w[i])->0) == a[i] && vis(w[i]) by { assert(row_fit(a[i], k, r[i], d)); l_row_obj(a[i], k, f, r[i], d); }
            let g = Seq::new(w.len(), |i: int| d_row(true, h.fields->0, h.delim, w[i])->0);
            assert forall|i: int| 0 <= i < g.len() implies dsv(#[trigger] g[i]) == a[i] by { assert(d_row(true, kflags(k, f), d, w[i]) is Some); }
            l_dsv_arr(h.len as nat, g, a);
            assert forall|i: int| 0 <= i < gl_body(fb(y), n).len() implies (#[trigger] gl_body(fb(y), n)[i]).n >= 0 && vis(gl_body(fb(y), n)[i].c) by { assert(gl_body(fb(y), n)[i].c == w[i]); }
        },
        LY::Lst(d, b) => {
            m_items(a, b, n);
            e_fits(a, b);
            l_dsv_arr(h.len as nat, gm_items(fis(b)), a);
        },
        _ => {},
    }
}
proof fn m_items(a: Seq<SV>, b: Seq<LY>, n: int)
    requires fits(a, b), n >= 0
    ensures ok_items(fis(b)), fis(b).len() == b.len(), gm_items(fis(b)).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> dsv(#[trigger] gm_items(fis(b))[i]) == a[i], seen(gl_items(fis(b), n))
    decreases b, 2int
{
    hide(dsv); hide(vis);
    e_fits(a, b); e_fis(b);
    let g = fis(b);
    e_ok_items(g); e_gm_items(g); e_gl_items(g, n);
    if b.len() > 0 {
        m_item(a[0], b[0], n);
        m_items(a.skip(1), b.skip(1), n);
        assert(g.skip(1) =~= fis(b.skip(1)));
        let m = gm_items(g); let m1 = gm_items(g.skip(1));
        assert forall|i: int| 0 <= i < a.len() implies dsv(#[trigger] m[i]) == a[i] by { if i > 0 { assert(m[i] == m1[i - 1]); assert(a[i] == a.skip(1)[i - 1]); } }
        l_seen_cat(gl_item(g[0], n), gl_items(g.skip(1), n));
    }
}
proof fn m_item(v: SV, y: LY, n: int)
    requires fit(v, y), n >= 0
    ensures ok_item(fi(y)), dsv(gm_item(fi(y))) == v, seen(gl_item(fi(y), n))
    decreases y, 1int
{
    hide(spells); hide(trim); hide(dsv); hide(lh); hide(lhdr); hide(hdr); hide(is_kv_content); hide(is_arr_hdr_content); hide(p_prim); hide(pad); hide(hy);
    e_fit(v, y); e_fi(y);
    let g = fi(y);
    e_ok_item(g); e_gm_item(g); e_gl_item(g, n);
    match (v, y) {
        (SV::Prim(p), LY::Prim(t)) => { l_alone(p, t); l_dsv_prim(p); l_vis_hy(pad(t)); l_seen_one(n, hy(pad(t))); },
        (SV::Obj(o), LY::Obj(f)) => {
            e_fitf(o, f);
            if f.len() == 0 { l_vis_hy(Seq::empty()); l_seen_one(n, seq!['-']); l_dsv_obj(Seq::empty(), o); }
            else {
                m_field(o[0].0, o[0].1, f[0], n + 1);
                m_fields(o.skip(1), f.skip(1), n + 1);
                let x = ff(f[0]); let r = ffs(f.skip(1));
                l_vis_hy(x.c); l_seen_one(n, hy(x.c));
                l_seen_cat(seq![WL { n, c: hy(x.c) }], gl_body(x.b, n + 2));
                l_seen_cat(seq![WL { n, c: hy(x.c) }] + gl_body(x.b, n + 2), gl_fields(r, n + 1));
                let m = seq![gm_field(x)] + gm_fields(r);
                assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 == o[i].0 && dsv(m[i].2) == o[i].1 by { if i > 0 { assert(m[i] == gm_fields(r)[i - 1]); assert(o[i] == o.skip(1)[i - 1]); } }
                l_dsv_obj(m, o);
            }
        },
        (SV::Arr(a), _) => {
            let e = Seq::<char>::empty();
            m_head(a, y, None, e);
            assert(e + lh(y) =~= lh(y));
            m_arr(a, y, None, e, n + 1);
            l_vis_hy(lh(y)); l_seen_one(n, hy(lh(y)));
            l_seen_cat(seq![WL { n, c: hy(lh(y)) }], gl_body(fb(y), n + 1));
        },
        _ => {},
    }
}
proof fn m_field(k: Seq<char>, v: SV, f: (Seq<char>, LY), n: int)
    requires names(k, f.0), fit(v, f.1), n >= 0
    ensures ok_field(ff(f)), gm_field(ff(f)).0 == k, dsv(gm_field(ff(f)).2) == v, seen(gl_body(ff(f).b, n + 1)),
      ({ let c = ff(f).c; vis(c) && is_kv_content(c) && !is_arr_hdr_content(c) && is_kv_line(c) && trim(c).len() > 0 })
    decreases f, 1int
{
    hide(spells); hide(trim); hide(dsv); hide(lhdr); hide(hdr); hide(is_kv_content); hide(is_arr_hdr_content); hide(is_kv_line); hide(p_prim); hide(p_key); hide(pad); hide(names); hide(htext);
    let e = f.0; let y = f.1;
    e_fit(v, y); e_ff(f); e_fb(y);
    let g = ff(f);
    e_ok_field(g); e_gm_field(g); e_gm_sub(g.b); e_gl_body(g.b, n + 1);
    match (v, y) {
        (SV::Prim(p), LY::Prim(t)) => {
            l_kv(k, e, pad(t)); l_alone(p, t); l_dsv_prim(p);
            assert(g.c =~= e + seq![':'] + pad(t));
            l_name(k, e, ':'); assert(nonl(seq![':'])); l_nonl_cat(e, seq![':']); l_nonl_cat(e + seq![':'], pad(t));
        },
        (SV::Obj(o), LY::Obj(u)) => {
            let z = Seq::<char>::empty();
            l_kv(k, e, z); l_trim_none();
            assert(g.c =~= e + seq![':'] + z);
            l_name(k, e, ':'); assert(nonl(seq![':'])); l_nonl_cat(e, seq![':']); assert(nonl(z)); l_nonl_cat(e + seq![':'], z);
            m_fields(o, u, n + 1);
            e_fitf(o, u);
            l_dsv_obj(gm_fields(ffs(u)), o);
        },
        (SV::Arr(a), _) => {
            m_head(a, y, Some(k), e);
            m_arr(a, y, Some(k), e, n + 1);
            assert(lhdr(y, Some(k), e).key == Some(k)) by { reveal(lhdr); }
        },
        _ => {},
    }
    l_trim_some(g.c);
}
proof fn m_fields(o: Seq<(Seq<char>, SV)>, f: Seq<(Seq<char>, LY)>, n: int)
    requires fitf(o, f), n >= 0
    ensures ok_fields(ffs(f)), ffs(f).len() == f.len(), gm_fields(ffs(f)).len() == o.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] gm_fields(ffs(f))[i]).0 == o[i].0 && dsv(gm_fields(ffs(f))[i].2) == o[i].1, seen(gl_fields(ffs(f), n)),
      f.len() > 0 ==> ({ let c = ffs(f)[0].c; is_kv_line(c) && !is_arr_hdr_content(c) })
    decreases f, 2int
{
    hide(dsv); hide(vis); hide(is_kv_line); hide(is_arr_hdr_content); hide(names);
    e_fitf(o, f); e_ffs(f);
    let g = ffs(f);
    e_ok_fields(g); e_gm_fields(g); e_gl_fields(g, n);
    if f.len() > 0 {
        m_field(o[0].0, o[0].1, f[0], n);
        m_fields(o.skip(1), f.skip(1), n);
        assert(g.skip(1) =~= ffs(f.skip(1)));
        let m = gm_fields(g); let m1 = gm_fields(g.skip(1));
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] m[i]).0 == o[i].0 && dsv(m[i].2) == o[i].1 by { if i > 0 { assert(m[i] == m1[i - 1]); assert(o[i] == o.skip(1)[i - 1]); } }
        e_gl_field(g[0], n);
        l_seen_one(n, g[0].c);
        l_seen_cat(seq![WL { n, c: g[0].c }], gl_body(g[0].b, n + 1));
        l_seen_cat(gl_field(g[0], n), gl_fields(g.skip(1), n));
    }
}
/// a document in a layout of the value: at the root a primitive's line is not indented
pub open spec fn lays(v: SV, y: LY) -> bool { fit(v, y) && (y is Prim ==> y->Prim_0.a == 0) }
proof fn m_doc(v: SV, y: LY)
    requires lays(v, y)
    ensures ok_doc(fr(y)), dsv(gm_doc(fr(y))) == v, seen(gl_doc(fr(y)))
{
    hide(spells); hide(trim); hide(dsv); hide(lh); hide(lhdr); hide(hdr); hide(is_kv_content); hide(is_arr_hdr_content); hide(is_kv_line); hide(p_prim); hide(pad);
    e_fit(v, y);
    match (v, y) {
        (SV::Prim(p), LY::Prim(t)) => { l_alone(p, t); l_dsv_prim(p); assert(vis(pad(t))) by { reveal(pad); } l_seen_one(0, pad(t)); },
        (SV::Obj(o), LY::Obj(f)) => { m_fields(o, f, 0); l_dsv_obj(gm_fields(ffs(f)), o); },
        (SV::Arr(a), _) => {
            let e = Seq::<char>::empty();
            m_head(a, y, None, e);
            assert(e + lh(y) =~= lh(y));
            m_arr(a, y, None, e, 1);
            l_seen_one(0, lh(y));
            l_seen_cat(seq![WL { n: 0, c: lh(y) }], gl_body(fb(y), 1));
        },
        _ => {},
    }
}
// ---- the text -----------------------------------------------------------------------------------------
/// a line of a document, or a blank line (white space only)
pub enum BL { Blank(Seq<char>), Line(WL) }
pub open spec fn btext(b: BL, w: nat) -> Seq<char> { match b { BL::Blank(s) => s, BL::Line(x) => pr1(x, w) } }
pub open spec fn btexts(o: Seq<BL>, w: nat) -> Seq<Seq<char>> { Seq::new(o.len(), |i: int| btext(o[i], w)) }
pub open spec fn blanks_ok(o: Seq<BL>) -> bool { forall|i: int| 0 <= i < o.len() ==> ((#[trigger] o[i]) is Blank ==> !o[i]->Blank_0.contains('\n') && (forall|j: int| 0 <= j < o[i]->Blank_0.len() ==> ws(#[trigger] o[i]->Blank_0[j]))) }
/// the lines without the blank ones
pub open spec fn kept(o: Seq<BL>) -> Seq<WL> decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { match o.last() { BL::Blank(_) => kept(o.drop_last()), BL::Line(x) => kept(o.drop_last()).push(x) } } }
/// the same lines with their numbers, and the numbers of the blank lines
pub open spec fn nums(o: Seq<BL>) -> Seq<SL> decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { match o.last() { BL::Blank(_) => nums(o.drop_last()), BL::Line(x) => nums(o.drop_last()).push(SL { depth: x.n, c: x.c, n: o.len() as int }) } } }
pub open spec fn gaps(o: Seq<BL>) -> Seq<int> decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { match o.last() { BL::Blank(_) => gaps(o.drop_last()).push(o.len() as int), BL::Line(x) => gaps(o.drop_last()) } } }
/// no blank line stands between the first and the last line below an array's header (only strict decoding minds)
pub open spec fn spaced(o: Seq<BL>, y: LY, strict: bool) -> bool { nq_doc(DC { l: nums(o), b: gaps(o), strict }, fr(y)) }
proof fn l_ws_trim(s: Seq<char>) requires forall|j: int| 0 <= j < s.len() ==> ws(#[trigger] s[j]) ensures trim(s).len() == 0 decreases s.len()
{
    if s.len() > 0 { assert(ws(s[0])); let t = s.skip(1); assert forall|j: int| 0 <= j < t.len() implies ws(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); assert(ws(s[j + 1])); } l_ws_trim(t); }
    else { l_trim_none(); assert(s =~= Seq::empty()); }
}
proof fn l_blank(s: Seq<char>, w: nat, strict: bool)
    requires forall|j: int| 0 <= j < s.len() ==> ws(#[trigger] s[j])
    ensures p_line(s, w, strict) is Blank
{
    lemma_lead(s);
    let k = lead(s) as int; let t = s.skip(k);
    assert forall|j: int| 0 <= j < t.len() implies ws(#[trigger] t[j]) by { assert(t[j] == s[j + k]); assert(ws(s[j + k])); }
    l_ws_trim(t);
}
proof fn l_nums(o: Seq<BL>)
    ensures nums(o).len() == kept(o).len(), forall|i: int| 0 <= i < kept(o).len() ==> nums(o)[i].depth == (#[trigger] kept(o)[i]).n && nums(o)[i].c == kept(o)[i].c
    decreases o.len()
{ if o.len() > 0 { l_nums(o.drop_last()); } }
proof fn l_bscan(o: Seq<BL>, w: nat, strict: bool)
    requires blanks_ok(o), seen(kept(o)), w > 0
    ensures scan(btexts(o, w), 0, w, strict) == Some((nums(o), gaps(o)))
    decreases o.len()
{
    hide(p_line);
    let r = btexts(o, w);
    if o.len() > 0 {
        let q = o.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies ((#[trigger] q[i]) is Blank ==> !q[i]->Blank_0.contains('\n') && (forall|j: int| 0 <= j < q[i]->Blank_0.len() ==> ws(#[trigger] q[i]->Blank_0[j]))) by { assert(q[i] == o[i]); }
        let l = kept(o);
        if o.last() is Line { assert(l.drop_last() =~= kept(q)); assert forall|i: int| 0 <= i < kept(q).len() implies (#[trigger] kept(q)[i]).n >= 0 && vis(kept(q)[i].c) by { assert(l[i] == kept(q)[i]); } }
        l_bscan(q, w, strict);
        assert(r.drop_last() =~= btexts(q, w));
        assert(r.last() == btext(o.last(), w));
        match o.last() {
            BL::Blank(s) => { assert(o[o.len() - 1] is Blank); l_blank(s, w, strict); },
            BL::Line(x) => { assert(l[l.len() - 1] == x); l_trim_some(x.c); assert(ws(' ') && ws('\t')); l_line(x, w, strict); },
        }
    } else { assert(r =~= Seq::empty()); }
}
proof fn l_no_nl(o: Seq<BL>, w: nat, i: int)
    requires blanks_ok(o), seen(kept(o)), 0 <= i < o.len()
    ensures !btext(o[i], w).contains('\n')
    decreases o.len()
{
    let q = o.drop_last();
    if i < q.len() {
        assert(q[i] == o[i]);
        assert forall|i: int| 0 <= i < q.len() implies ((#[trigger] q[i]) is Blank ==> !q[i]->Blank_0.contains('\n') && (forall|j: int| 0 <= j < q[i]->Blank_0.len() ==> ws(#[trigger] q[i]->Blank_0[j]))) by { assert(q[i] == o[i]); }
        if o.last() is Line { assert(kept(o).drop_last() =~= kept(q)); assert forall|i: int| 0 <= i < kept(q).len() implies (#[trigger] kept(q)[i]).n >= 0 && vis(kept(q)[i].c) by { assert(kept(o)[i] == kept(q)[i]); } }
        l_no_nl(q, w, i);
    } else {
        match o.last() {
            BL::Blank(s) => { assert(o[i] is Blank); },
            BL::Line(x) => { let l = kept(o); assert(l[l.len() - 1] == x); let k = sp(x.n * w); assert(nonl(k)); l_nonl_cat(k, x.c); },
        }
    }
}
/// C18: a document in any layout of a value, any indent w > 0, blank lines outside its arrays (in lenient mode: anywhere),
/// is decoded to that value
pub proof fn thm_any_layout(v: SV, y: LY, o: Seq<BL>, w: nat, strict: bool)
    requires lays(v, y), w > 0, kept(o) == gl_doc(fr(y)), blanks_ok(o), spaced(o, y, strict)
    ensures dec_text(join(btexts(o, w), '\n'), w, strict, false) == Some(v)
{
    hide(d_root); hide(gl_doc); hide(ok_doc); hide(gm_doc); hide(fr); hide(dsv);
    m_doc(v, y);
    let r = btexts(o, w);
    l_bscan(o, w, strict);
    l_nums(o);
    let x = DC { l: nums(o), b: gaps(o), strict };
    assert(at_lines(x, 0, gl_doc(fr(y))));
    g_root(x, fr(y));
    assert(d_doc(r, w, strict) == Some(gm_doc(fr(y))));
    reveal(dsv);
    if o.len() > 0 {
        assert forall|i: int| 0 <= i < r.len() implies !(#[trigger] r[i]).contains('\n') by { l_no_nl(o, w, i); }
        l_lines(r, '\n');
    } else {
        let z = Seq::<char>::empty();
        let e = seq![z];
        assert(join(r, '\n') =~= z);
        assert(split_on(z, '\n') == e);
        l_blank(z, w, strict);
        assert(e.drop_last() =~= Seq::empty()); assert(e.last() == z);
        assert(r =~= Seq::empty());
        reveal_with_fuel(scan, 3);
        assert(scan(e, 0, w, strict) == Some((Seq::<SL>::empty(), Seq::<int>::empty().push(1))));
        assert(scan(r, 0, w, strict) == Some((Seq::<SL>::empty(), Seq::<int>::empty())));
        reveal(d_root);
    }
}
} // verus!
}
