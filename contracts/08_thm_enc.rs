/// The encoder's lines are a conforming document whose meaning is the layout's tree.
pub mod vthm_enc {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::*;
use crate::vthm_gen::{GB, GF, GI, GR, gl_body, gl_field, gl_fields, gl_item, gl_items, gl_doc, hy, gm_arr, gm_sub, gm_field, gm_fields, gm_item, gm_items, gm_doc, ok_arr, ok_field, ok_fields, ok_item, ok_items, ok_doc, e_gl_body, e_gl_field, e_gl_fields, e_gl_item, e_gl_items, e_gm_arr, e_gm_sub, e_gm_field, e_gm_fields, e_gm_item, e_gm_items, e_ok_arr, e_ok_field, e_ok_fields, e_ok_item, e_ok_items, good_line, good_lines, thm_conforming};
verus! {
broadcast use vstd::group_vstd_default;

// ---- what the lines are made of ----------------------------------------------------------------------
/// no line break of any kind
pub open spec fn nonl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' }
/// one line: not empty, no blank at either end, no line break
pub open spec fn clean(c: Seq<char>) -> bool { c.len() > 0 && tight(c) && nonl(c) }
pub proof fn l_nonl_cat(a: Seq<char>, b: Seq<char>) requires nonl(a), nonl(b) ensures nonl(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' && s[i] != '\r' by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
proof fn l_nonl_esc(s: Seq<char>) ensures nonl(esc(s)) decreases s.len()
{ if s.len() > 0 { l_nonl_esc(s.drop_last()); assert(nonl(esc1(s.last()))); l_nonl_cat(esc(s.drop_last()), esc1(s.last())); } }
pub proof fn l_nonl_quote(s: Seq<char>) ensures nonl(quote(s))
{ l_nonl_esc(s); l_nonl_cat(seq!['"'], esc(s)); l_nonl_cat(seq!['"'] + esc(s), seq!['"']); }
pub proof fn l_nonl_no(s: Seq<char>) requires !s.contains('\n'), !s.contains('\r') ensures nonl(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' && s[i] != '\r' by { assert(s.contains(s[i])); } }
pub proof fn l_nonl_key(k: Seq<char>) ensures nonl(enc_key(k))
{ if unq_key(k) { lemma_unq_key_no(k, '\n'); lemma_unq_key_no(k, '\r'); l_nonl_no(k); } else { l_nonl_quote(k); } }
/// a primitive's token: quoted text, or text without any structural character
pub proof fn l_prim_chars(p: SP, d: char)
    requires delim_ok(d)
    ensures nonl(enc_prim(p, d)),
      (p is Str && enc_prim(p, d) == quote(p->Str_0)) || (enc_prim(p, d).len() > 0 && enc_prim(p, d)[0] != '"' && !enc_prim(p, d).contains(':') && !enc_prim(p, d).contains('['))
{
    lemma_lits();
    let s = enc_prim(p, d);
    match p {
        SP::Num(f) => { if f_is_zero(f) { } else if f_is_finite(f) { ax_nan(f); ax_show_f64(f); lemma_chars_tight(show_f64(f)); l_nonl_no(s); } else { ax_nan(f); } }
        SP::Str(x) => { if safe_unq(x, d) { l_nonl_no(x); assert(x.contains(x[0])); } else { l_nonl_quote(x); } }
        _ => {}
    }
}
pub proof fn l_nonl_join(t: Seq<Seq<char>>, d: char)
    requires delim_ok(d), forall|i: int| 0 <= i < t.len() ==> nonl(#[trigger] t[i])
    ensures nonl(join(t, d))
    decreases t.len()
{
    if t.len() == 1 { assert(nonl(t[0])); }
    else if t.len() > 1 {
        let u = t.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies nonl(#[trigger] u[i]) by { assert(nonl(t[i])); }
        l_nonl_join(u, d);
        assert(nonl(seq![d]));
        l_nonl_cat(join(u, d), seq![d]);
        assert(nonl(t[t.len() - 1]));
        l_nonl_cat(join(u, d) + seq![d], t.last());
    }
}
/// a row of primitives
pub proof fn l_row(v: Seq<SP>, d: char)
    requires delim_ok(d), v.len() > 0
    ensures clean(join_prims(v, d))
{
    let t = enc_prims(v, d);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() > 0 && tight(t[i]) by { thm_prim(v[i], d); }
    assert forall|i: int| 0 <= i < t.len() implies nonl(#[trigger] t[i]) by { l_prim_chars(v[i], d); }
    lemma_join_tight(t, d); l_nonl_join(t, d);
}
/// how a line with a key starts
proof fn l_key_first(k: Seq<char>, r: Seq<char>, s: Seq<char>)
    requires s == enc_key(k) + r
    ensures s.len() > 0, s[0] == enc_key(k)[0], s[0] != '[', s[0] != '-', !ws(s[0]), ltrim(s) == s, !("- "@).is_prefix_of(s), !is_arr_hdr_content(s),
      (s[0] == '"') <==> !unq_key(k)
{
    reveal_strlit("- ");
    lemma_enc_key_tight(k);
    assert(s[0] == enc_key(k)[0]);
    if unq_key(k) { lemma_key_tight(k); } else { lemma_tight_quote(k); }
    reveal_with_fuel(ltrim, 2);
    if ("- "@).is_prefix_of(s) { assert("- "@[0] == s[0]); }
}
/// key: ...
pub proof fn l_kv_line(k: Seq<char>, r: Seq<char>)
    ensures ({ let s = enc_key(k) + seq![':'] + r;
      hdr(s, ',') is No && !("- "@).is_prefix_of(s) && !is_arr_hdr_content(s) && is_kv_content(s) && is_kv_line(s)
      && p_key(s) == Some((k, enc_key(k).len() as int + 1, !unq_key(k))) && s.skip(enc_key(k).len() as int + 1) == r })
{
    let e = enc_key(k); let s = e + seq![':'] + r;
    thm_key(k, r);
    assert(s =~= e + (seq![':'] + r));
    l_key_first(k, seq![':'] + r, s);
    assert(s.skip(e.len() as int + 1) =~= r);
    assert(s[e.len() as int] == ':');
    lemma_passes_enc_key(k, ':');
    assert(s =~= Seq::<char>::empty() + e + (seq![':'] + r));
    assert(c_unq(Seq::<char>::empty() + e + (seq![':'] + r), ':', 0, false) == c_unq(Seq::<char>::empty() + e + (seq![':'] + r), ':', e.len() as int, false));
    if unq_key(k) {
        lemma_key_tight(k);
        lemma_unq_key_no(k, ':'); lemma_unq_key_no(k, '[');
        assert forall|i: int| 0 <= i < e.len() implies s[i] != ':' && s[i] != '[' by { assert(s[i] == k[i]); assert(k.contains(k[i])); }
        lemma_cfind_unique(s, ':', 0, e.len() as int);
        lemma_cfind(s, '[', 0);
        assert(s.contains(':'));
    } else {
        assert(s =~= seq!['"'] + esc(k) + seq!['"'] + (seq![':'] + r));
        lemma_close_esc(seq!['"'], k, seq![':'] + r);
        let c = 1 + esc(k).len() as int;
        assert(s[c + 1] == ':');
        assert(s.skip(c + 1)[0] == ':');
    }
}
pub proof fn l_passes_cat(a: Seq<char>, b: Seq<char>, c: char)
    requires passes(a, c), passes(b, c)
    ensures passes(a + b, c)
{
    let t = a + b;
    assert forall|p: Seq<char>, r: Seq<char>| #[trigger] c_unq(p + t + r, c, p.len() as int, false) == c_unq(p + t + r, c, (p.len() + t.len()) as int, false) by {
        let u = p + t + r; let p2 = p + a; let r2 = b + r;
        assert(u =~= p + a + r2); assert(u =~= p2 + b + r);
        assert(c_unq(p + a + r2, c, p.len() as int, false) == c_unq(p + a + r2, c, (p.len() + a.len()) as int, false));
        assert(c_unq(p2 + b + r, c, p2.len() as int, false) == c_unq(p2 + b + r, c, (p2.len() + b.len()) as int, false));
    }
}
pub proof fn l_passes_join(t: Seq<Seq<char>>, d: char, c: char)
    requires t.len() > 0, d != '"', c != d, forall|i: int| 0 <= i < t.len() ==> passes(#[trigger] t[i], c)
    ensures passes(join(t, d), c)
{
    let j = join(t, d);
    assert forall|p: Seq<char>, r: Seq<char>| #[trigger] c_unq(p + j + r, c, p.len() as int, false) == c_unq(p + j + r, c, (p.len() + j.len()) as int, false) by { lemma_passes_join_at(p, t, d, c, r); }
}
proof fn l_passes_fpart(f: Seq<Seq<char>>, d: char)
    requires delim_ok(d), f.len() > 0
    ensures passes(fpart(Some(f), d), ':')
{
    hide(passes); hide(join); hide(enc_key);
    let t = enc_keys(f); let j = join(t, d);
    assert forall|i: int| 0 <= i < t.len() implies passes(#[trigger] t[i], ':') by { lemma_passes_enc_key(f[i], ':'); }
    l_passes_join(t, d, ':');
    assert(!seq!['{'].contains(':') && !seq!['{'].contains('"'));
    assert(!seq!['}'].contains(':') && !seq!['}'].contains('"'));
    lemma_passes_plain(seq!['{'], ':'); lemma_passes_plain(seq!['}'], ':');
    l_passes_cat(seq!['{'], j, ':'); l_passes_cat(seq!['{'] + j, seq!['}'], ':');
}
pub proof fn l_passes_bracket(n: nat, d: char)
    requires delim_ok(d), n <= max_len()
    ensures passes(fmt_len(n, d), ':'), fmt_len(n, d)[0] == '[', fmt_len(n, d).len() > 0
{
    hide(passes); hide(show_nat);
    lemma_seg(n, d);
    let g = seg(n, d); let b = seq!['['] + g + seq![']'];
    assert(fmt_len(n, d) == b);
    assert forall|i: int| 0 <= i < b.len() implies b[i] != '"' && b[i] != ':' by { if 0 < i < b.len() - 1 { assert(b[i] == g[i - 1]); assert(is_dig_c(g[i - 1]) || g[i - 1] == d); } }
    assert(!b.contains('"') && !b.contains(':'));
    lemma_passes_plain(b, ':');
}
/// a header has a colon outside quotes
proof fn l_hdr_colon(n: nat, key: Option<Seq<char>>, fields: Option<Seq<Seq<char>>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), fields is Some ==> fields->0.len() > 0
    ensures ({ let s = fmt_header(n, key, fields, d) + r; is_kv_content(s) && s.contains(':') && s[kpart(key).len() as int] == '[' })
{
    hide(enc_key); hide(show_nat); hide(passes); hide(join); hide(fmt_len); hide(fpart);
    let e = kpart(key); let b = fmt_len(n, d); let fp = fpart(fields, d);
    let s = fmt_header(n, key, fields, d) + r;
    assert(fmt_header(n, key, fields, d) == e + b + fp + seq![':']) by { reveal(fpart); }
    let z = Seq::<char>::empty();
    l_passes_bracket(n, d);
    assert(passes(z, ':')) by { assert(!z.contains(':') && !z.contains('"')); lemma_passes_plain(z, ':'); }
    match key { Some(k) => { lemma_passes_enc_key(k, ':'); }, None => { assert(e == z); } }
    match fields { Some(f) => { l_passes_fpart(f, d); }, None => { reveal(fpart); assert(fp == z); } }
    l_passes_cat(e, b, ':'); l_passes_cat(e + b, fp, ':');
    let h = e + b + fp;
    assert(s =~= z + h + (seq![':'] + r));
    l_passes_use(h, ':', seq![':'] + r);
    assert(s[h.len() as int] == ':');
    assert(s[e.len() as int] == b[0]);
}
pub proof fn l_passes_use(h: Seq<char>, c: char, r: Seq<char>)
    requires passes(h, c)
    ensures c_unq(h + r, c, 0, false) == c_unq(h + r, c, h.len() as int, false)
{ let z = Seq::<char>::empty(); assert(h + r =~= z + h + r); assert(c_unq(z + h + r, c, z.len() as int, false) == c_unq(z + h + r, c, (z.len() + h.len()) as int, false)); }
/// key[n]...: ...
pub proof fn l_hdr_line(n: nat, k: Seq<char>, fields: Option<Seq<Seq<char>>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), fields is Some ==> fields->0.len() > 0
    ensures ({ let s = fmt_header(n, Some(k), fields, d) + r; !("- "@).is_prefix_of(s) && !is_arr_hdr_content(s) && is_kv_content(s) && is_kv_line(s) })
{
    let s = fmt_header(n, Some(k), fields, d) + r;
    let e = enc_key(k);
    l_hdr_colon(n, Some(k), fields, d, r);
    let t = s.skip(e.len() as int);
    assert(s =~= e + t) by { assert(s.take(e.len() as int) =~= e); }
    l_key_first(k, t, s);
    if !unq_key(k) {
        assert(s =~= seq!['"'] + esc(k) + seq!['"'] + t);
        lemma_close_esc(seq!['"'], k, t);
        let c = 1 + esc(k).len() as int;
        assert(s.skip(c + 1) =~= t);
        let fp = fpart(fields, d);
        let i = fmt_header(n, Some(k), fields, d).len() - 1;
        assert(s[i] == ':');
        assert(t[i - e.len()] == ':');
        assert(t.contains(':'));
    }
}
/// [n]...: ...
pub proof fn l_hdr_bare(n: nat, fields: Option<Seq<Seq<char>>>, d: char, r: Seq<char>)
    requires delim_ok(d), n <= max_len(), fields is Some ==> fields->0.len() > 0
    ensures ({ let s = fmt_header(n, None, fields, d) + r; is_arr_hdr_content(s) && trim(s).len() > 0 })
{
    let s = fmt_header(n, None, fields, d) + r;
    l_hdr_colon(n, None, fields, d, r);
    assert(s[0] == '[');
    assert(!ws('['));
    reveal_with_fuel(ltrim, 2);
    assert(ltrim(s) == s);
    l_trim_some(s);
}
/// text that begins with something visible does not trim away
pub proof fn l_trim_some(s: Seq<char>) requires s.len() > 0, !ws(s[0]) ensures trim(s).len() > 0
{ reveal_with_fuel(ltrim, 2); l_rtrim_some(s); }
proof fn l_rtrim_some(s: Seq<char>) requires s.len() > 0, !ws(s[0]) ensures rtrim(s).len() > 0 decreases s.len()
{ if ws(s.last()) { if s.len() == 1 { assert(s.last() == s[0]); } assert(s.drop_last()[0] == s[0]); l_rtrim_some(s.drop_last()); } }
/// a primitive on a line of its own
pub proof fn l_prim_line(p: SP, d: char)
    requires delim_ok(d)
    ensures ({ let s = enc_prim(p, d); hdr(s, ',') is No && !is_kv_content(s) && !is_arr_hdr_content(s) && !is_kv_line(s) && trim(s) == s && clean(s) })
{
    let s = enc_prim(p, d);
    thm_prim(p, d); lemma_tight(s); l_prim_chars(p, d);
    lemma_good_prim(p, d, ':');
    let z = Seq::<char>::empty();
    assert(s =~= z + s + z);
    assert(c_unq(z + s + z, ':', 0, false) == c_unq(z + s + z, ':', s.len() as int, false));
    assert(c_unq(s, ':', 0, false) is None);
    if p is Str && s == quote(p->Str_0) {
        let x = p->Str_0;
        assert(s =~= seq!['"'] + esc(x) + seq!['"'] + z);
        lemma_close_esc(seq!['"'], x, z);
        assert(s[0] == '"');
        let c = 1 + esc(x).len() as int;
        assert(s.skip(c + 1).len() == 0);
    } else {
        assert(ltrim(s) == s);
        lemma_cfind(s, '[', 0);
        if cfind(s, '[', 0) is Some { assert(s.contains('[')); }
    }
}
pub proof fn l_nonl_header(n: nat, key: Option<Seq<char>>, fields: Option<Seq<Seq<char>>>, d: char)
    requires delim_ok(d), n <= max_len()
    ensures nonl(fmt_header(n, key, fields, d)), fmt_header(n, key, fields, d).len() > 0, !ws(fmt_header(n, key, fields, d)[0]), fmt_header(n, key, fields, d).last() == ':'
{
    let h = fmt_header(n, key, fields, d);
    let e = kpart(key); let g = seg(n, d); let fp = fpart(fields, d);
    lemma_seg(n, d);
    assert(h =~= e + (seq!['['] + g + seq![']']) + fp + seq![':']);
    match key { Some(k) => { l_nonl_key(k); lemma_enc_key_tight(k); assert(h[0] == e[0]); }, None => { assert(h[0] == '['); } }
    assert(nonl(g)) by { assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] != '\n' && g[i] != '\r' by { assert(is_dig_c(g[i]) || g[i] == d); } }
    l_nonl_cat(seq!['['], g); l_nonl_cat(seq!['['] + g, seq![']']);
    match fields { Some(f) => {
        let t = enc_keys(f);
        assert forall|i: int| 0 <= i < t.len() implies nonl(#[trigger] t[i]) by { l_nonl_key(f[i]); }
        l_nonl_join(t, d);
        l_nonl_cat(seq!['{'], join(t, d)); l_nonl_cat(seq!['{'] + join(t, d), seq!['}']);
    }, None => {} }
    l_nonl_cat(e, seq!['['] + g + seq![']']); l_nonl_cat(e + (seq!['['] + g + seq![']']), fp); l_nonl_cat(e + (seq!['['] + g + seq![']']) + fp, seq![':']);
}
// ---- the layout as a conforming document -----------------------------------------------------------
#[verifier::opaque]
pub open spec fn cb(v: LV, d: char) -> GB decreases v, 0int
{
    match v {
        LV::Prim(_) => GB::Leaf,
        LV::Inl(p) => if p.len() == 0 { GB::Items(Seq::empty()) } else { GB::Leaf },
        LV::Tab(f, r) => GB::Rows(Seq::new(r.len(), |i: int| join_prims(r[i], d))),
        LV::Lst(a) => GB::Items(cis(a, d)),
        LV::Obj(f) => GB::Fields(cfs(f, d)),
    }
}
#[verifier::opaque]
pub open spec fn cf(f: LF, d: char) -> GF decreases f, 1int { GF { c: head(f.0, f.1, d), b: cb(f.1, d) } }
#[verifier::opaque]
pub open spec fn cfs(f: Seq<LF>, d: char) -> Seq<GF> decreases f, 2int
{ if f.len() == 0 { Seq::empty() } else { seq![cf(f[0], d)] + cfs(f.skip(1), d) } }
#[verifier::opaque]
pub open spec fn ci(v: LV, d: char) -> GI decreases v, 1int
{
    match v {
        LV::Prim(p) => GI::Val(enc_prim(p, d)),
        LV::Obj(f) => if f.len() == 0 { GI::Bare } else { GI::Obj(cf(f[0], d), cfs(f.skip(1), d)) },
        _ => GI::Arr(head_a(None, v, d), cb(v, d)),
    }
}
#[verifier::opaque]
pub open spec fn cis(a: Seq<LV>, d: char) -> Seq<GI> decreases a, 2int
{ if a.len() == 0 { Seq::empty() } else { seq![ci(a[0], d)] + cis(a.skip(1), d) } }
pub open spec fn cr(v: LV, d: char) -> GR
{ match v { LV::Prim(p) => GR::Prim(enc_prim(p, d)), LV::Obj(f) => GR::Obj(cfs(f, d)), _ => GR::Arr(head_a(None, v, d), cb(v, d)) } }

/// the tree a layout stands for
#[verifier::opaque]
pub open spec fn tr(v: LV) -> DV decreases v
{
    match v {
        LV::Prim(p) => DV::Prim(norm_sp(p)),
        LV::Inl(p) => DV::Arr(p.len(), prim_items(norm_sps(p))),
        LV::Tab(f, r) => DV::Arr(r.len(), Seq::new(r.len(), |i: int| DV::Obj(row_fields(qflags(f), norm_sps(r[i]))))),
        LV::Lst(a) => DV::Arr(a.len(), trs(a)),
        LV::Obj(f) => DV::Obj(trf(f)),
    }
}
#[verifier::opaque]
pub open spec fn trs(a: Seq<LV>) -> Seq<DV> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { tr(a[i]) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn trf(f: Seq<LF>) -> Seq<DF> decreases f
{ Seq::new(f.len(), |i: int| if 0 <= i < f.len() { (f[i].0, !unq_key(f[i].0), tr(f[i].1)) } else { arbitrary() }) }
/// lengths fit a header, rows fit their columns
#[verifier::opaque]
pub open spec fn wf(v: LV) -> bool decreases v
{
    match v {
        LV::Prim(p) => true,
        LV::Inl(p) => p.len() <= max_len(),
        LV::Tab(f, r) => r.len() <= max_len() && f.len() > 0 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == f.len(),
        LV::Lst(a) => a.len() <= max_len() && wfs(a),
        LV::Obj(f) => wff(f),
    }
}
#[verifier::opaque]
pub open spec fn wfs(a: Seq<LV>) -> bool decreases a { forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]) }
#[verifier::opaque]
pub open spec fn wff(f: Seq<LF>) -> bool decreases f { forall|i: int| 0 <= i < f.len() ==> wf((#[trigger] f[i]).1) }

// ---- unfolding ---------------------------------------------------------------------------------------
pub proof fn e_cb(v: LV, d: char) ensures cb(v, d) == ({
    match v {
        LV::Prim(_) => GB::Leaf,
        LV::Inl(p) => if p.len() == 0 { GB::Items(Seq::empty()) } else { GB::Leaf },
        LV::Tab(f, r) => GB::Rows(Seq::new(r.len(), |i: int| join_prims(r[i], d))),
        LV::Lst(a) => GB::Items(cis(a, d)),
        LV::Obj(f) => GB::Fields(cfs(f, d)),
    }
})
{ reveal(cb); reveal(cf); reveal(cfs); reveal(ci); reveal(cis); }
pub proof fn e_cf(f: LF, d: char) ensures cf(f, d) == ({ GF { c: head(f.0, f.1, d), b: cb(f.1, d) } })
{ reveal(cb); reveal(cf); reveal(cfs); reveal(ci); reveal(cis); }
pub proof fn e_cfs(f: Seq<LF>, d: char) ensures cfs(f, d) == ({ if f.len() == 0 { Seq::empty() } else { seq![cf(f[0], d)] + cfs(f.skip(1), d) } })
{ reveal(cb); reveal(cf); reveal(cfs); reveal(ci); reveal(cis); }
pub proof fn e_ci(v: LV, d: char) ensures ci(v, d) == ({
    match v {
        LV::Prim(p) => GI::Val(enc_prim(p, d)),
        LV::Obj(f) => if f.len() == 0 { GI::Bare } else { GI::Obj(cf(f[0], d), cfs(f.skip(1), d)) },
        _ => GI::Arr(head_a(None, v, d), cb(v, d)),
    }
})
{ reveal(cb); reveal(cf); reveal(cfs); reveal(ci); reveal(cis); }
pub proof fn e_cis(a: Seq<LV>, d: char) ensures cis(a, d) == ({ if a.len() == 0 { Seq::empty() } else { seq![ci(a[0], d)] + cis(a.skip(1), d) } })
{ reveal(cb); reveal(cf); reveal(cfs); reveal(ci); reveal(cis); }
pub proof fn e_tr(v: LV) ensures tr(v) == ({
    match v {
        LV::Prim(p) => DV::Prim(norm_sp(p)),
        LV::Inl(p) => DV::Arr(p.len(), prim_items(norm_sps(p))),
        LV::Tab(f, r) => DV::Arr(r.len(), Seq::new(r.len(), |i: int| DV::Obj(row_fields(qflags(f), norm_sps(r[i]))))),
        LV::Lst(a) => DV::Arr(a.len(), trs(a)),
        LV::Obj(f) => DV::Obj(trf(f)),
    }
})
{ reveal(tr); reveal(trs); reveal(trf); }
pub proof fn e_trs(a: Seq<LV>) ensures trs(a) == ({ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { tr(a[i]) } else { arbitrary() }) })
{ reveal(tr); reveal(trs); reveal(trf); }
pub proof fn e_trf(f: Seq<LF>) ensures trf(f) == ({ Seq::new(f.len(), |i: int| if 0 <= i < f.len() { (f[i].0, !unq_key(f[i].0), tr(f[i].1)) } else { arbitrary() }) })
{ reveal(tr); reveal(trs); reveal(trf); }
pub proof fn e_wf(v: LV) ensures wf(v) == ({
    match v {
        LV::Prim(p) => true,
        LV::Inl(p) => p.len() <= max_len(),
        LV::Tab(f, r) => r.len() <= max_len() && f.len() > 0 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == f.len(),
        LV::Lst(a) => a.len() <= max_len() && wfs(a),
        LV::Obj(f) => wff(f),
    }
})
{ reveal(wf); reveal(wfs); reveal(wff); }
pub proof fn e_wfs(a: Seq<LV>) ensures wfs(a) == ({ forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]) })
{ reveal(wf); reveal(wfs); reveal(wff); }
pub proof fn e_wff(f: Seq<LF>) ensures wff(f) == ({ forall|i: int| 0 <= i < f.len() ==> wf((#[trigger] f[i]).1) })
{ reveal(wf); reveal(wfs); reveal(wff); }
// ---- the lines are the same --------------------------------------------------------------------------
proof fn l_fields_front(f: Seq<LF>, n: int, d: char)
    requires f.len() > 0
    ensures w_fields(f, n, d) == w_field(f[0], n, d) + w_fields(f.skip(1), n, d)
    decreases f.len()
{
    let g = f.drop_last();
    if g.len() == 0 { assert(f.skip(1) =~= Seq::empty()); assert(w_fields(g, n, d) =~= Seq::empty()); assert(w_fields(f, n, d) =~= w_field(f[0], n, d)); assert(w_fields(f.skip(1), n, d) =~= Seq::empty()); }
    else {
        l_fields_front(g, n, d);
        assert(f.skip(1).drop_last() =~= g.skip(1));
        assert(w_fields(f, n, d) =~= w_field(f[0], n, d) + (w_fields(g.skip(1), n, d) + w_field(f.last(), n, d)));
    }
}
proof fn l_items_front(a: Seq<LV>, n: int, d: char)
    requires a.len() > 0
    ensures w_items(a, n, d) == w_item(a[0], n, d) + w_items(a.skip(1), n, d)
    decreases a.len()
{
    let g = a.drop_last();
    if g.len() == 0 { assert(a.skip(1) =~= Seq::empty()); assert(w_items(g, n, d) =~= Seq::empty()); assert(w_items(a, n, d) =~= w_item(a[0], n, d)); assert(w_items(a.skip(1), n, d) =~= Seq::empty()); }
    else {
        l_items_front(g, n, d);
        assert(a.skip(1).drop_last() =~= g.skip(1));
        assert(w_items(a, n, d) =~= w_item(a[0], n, d) + (w_items(g.skip(1), n, d) + w_item(a.last(), n, d)));
    }
}
proof fn s_body(v: LV, n: int, d: char)
    ensures gl_body(cb(v, d), n) == body(v, n, d)
    decreases v, 0int
{
    e_cb(v, d); e_gl_body(cb(v, d), n);
    match v {
        LV::Inl(p) => { e_gl_items(Seq::empty(), n); },
        LV::Tab(f, r) => { assert(gl_body(cb(v, d), n) =~= w_rows(r, n, d)); },
        LV::Lst(a) => { s_items(a, n, d); },
        LV::Obj(f) => { s_fields(f, n, d); },
        _ => {},
    }
}
proof fn s_field(f: LF, n: int, d: char)
    ensures gl_field(cf(f, d), n) == w_field(f, n, d)
    decreases f, 1int
{ hide(head); e_cf(f, d); e_gl_field(cf(f, d), n); s_body(f.1, n + 1, d); }
proof fn s_fields(f: Seq<LF>, n: int, d: char)
    ensures gl_fields(cfs(f, d), n) == w_fields(f, n, d)
    decreases f, 2int
{
    e_cfs(f, d); e_gl_fields(cfs(f, d), n);
    if f.len() > 0 {
        let r = cfs(f.skip(1), d);
        assert((seq![cf(f[0], d)] + r).skip(1) =~= r);
        s_field(f[0], n, d); s_fields(f.skip(1), n, d); l_fields_front(f, n, d);
    }
}
proof fn s_item(v: LV, n: int, d: char)
    ensures gl_item(ci(v, d), n) == w_item(v, n, d)
    decreases v, 1int
{
    hide(head); hide(head_a);
    e_ci(v, d); e_gl_item(ci(v, d), n);
    match v {
        LV::Prim(p) => {},
        LV::Obj(f) => if f.len() > 0 {
            e_cf(f[0], d); s_body(f[0].1, n + 2, d); s_fields(f.skip(1), n + 1, d);
        },
        _ => { s_body(v, n + 1, d); },
    }
}
proof fn s_items(a: Seq<LV>, n: int, d: char)
    ensures gl_items(cis(a, d), n) == w_items(a, n, d)
    decreases a, 2int
{
    e_cis(a, d); e_gl_items(cis(a, d), n);
    if a.len() > 0 {
        let r = cis(a.skip(1), d);
        assert((seq![ci(a[0], d)] + r).skip(1) =~= r);
        s_item(a[0], n, d); s_items(a.skip(1), n, d); l_items_front(a, n, d);
    }
}
pub proof fn s_doc(v: LV, d: char)
    requires delim_ok(d)
    ensures gl_doc(cr(v, d)) == w_doc(v, d)
{
    match v { LV::Prim(p) => { thm_prim(p, d); }, LV::Obj(f) => { s_fields(f, 0, d); }, _ => { s_body(v, 1, d); } }
}
// ---- every line is conforming and means what the layout says ---------------------------------------------
/// an array after its header, with or without a key
proof fn c_arr(k: Option<Seq<char>>, v: LV, d: char)
    requires wf(v), delim_ok(d), v is Inl || v is Tab || v is Lst
    ensures ({ let s = head_a(k, v, d); let h = hdr(s, ',')->Yes_0;
      hdr(s, ',') is Yes && ok_arr(h, cb(v, d)) && gm_arr(h, cb(v, d)) == tr(v) && h.key == k && (k is Some ==> h.kq == !unq_key(k->0))
      && (k is Some ==> !("- "@).is_prefix_of(s) && !is_arr_hdr_content(s) && is_kv_content(s) && is_kv_line(s))
      && (k is None ==> is_arr_hdr_content(s)) && trim(s).len() > 0 && clean(s) })
    decreases v, 0int
{
    hide(hdr); hide(fmt_header); hide(is_arr_hdr_content); hide(is_kv_content); hide(is_kv_line); hide(trim); hide(split_vals); hide(p_prims); hide(enc_key);
    e_wf(v); e_tr(v); e_cb(v, d);
    let s = head_a(k, v, d);
    let (n, fields, r) = match v {
        LV::Inl(p) => (p.len(), None::<Seq<Seq<char>>>, if p.len() == 0 { Seq::<char>::empty() } else { seq![' '] + join_prims(p, d) }),
        LV::Tab(f, w) => (w.len(), Some(f), Seq::<char>::empty()),
        LV::Lst(a) => (a.len(), None, Seq::<char>::empty()),
        _ => (0, None, Seq::<char>::empty()),
    };
    let fh = fmt_header(n, k, fields, d);
    assert(s =~= fh + r);
    thm_header(n, k, fields, d, r);
    match k { Some(k) => { l_hdr_line(n, k, fields, d, r); }, None => { l_hdr_bare(n, fields, d, r); } }
    l_nonl_header(n, k, fields, d);
    assert(s[0] == fh[0]);
    l_trim_some(s);
    assert(!ws(':'));
    assert(trim(Seq::<char>::empty()) == Seq::<char>::empty()) by { lemma_tight(Seq::<char>::empty()); }
    let h = hdr(s, ',')->Yes_0;
    e_ok_arr(h, cb(v, d)); e_gm_arr(h, cb(v, d));
    match v {
        LV::Inl(p) => if p.len() > 0 {
            let j = join_prims(p, d);
            l_row(p, d); thm_row(p, d); lemma_trim_lead(j); lemma_tight(j);
            l_nonl_cat(fh, seq![' ']); assert(nonl(seq![' '])); l_nonl_cat(seq![' '], j); l_nonl_cat(fh, r);
            assert(s.last() == j.last());
        } else {
            assert(s =~= fh);
            e_ok_items(Seq::empty()); e_gm_items(Seq::empty());
            assert(prim_items(norm_sps(p)) =~= Seq::empty());
        },
        LV::Tab(f, w) => {
            assert(s =~= fh);
            let rr = cb(v, d)->Rows_0;
            assert(h.fields == Some(qflags(f)));
            assert forall|i: int| 0 <= i < rr.len() implies d_row(true, qflags(f), d, #[trigger] rr[i]) == Some(DV::Obj(row_fields(qflags(f), norm_sps(w[i])))) by {
                assert(rr[i] == join_prims(w[i], d)); thm_row(w[i], d);
            }
            assert(gm_arr(h, cb(v, d))->Arr_1 =~= tr(v)->Arr_1);
        },
        LV::Lst(a) => { assert(s =~= fh); c_items(a, d); l_cis_len(a, d); },
        _ => {},
    }
}
proof fn l_cis_len(a: Seq<LV>, d: char) ensures cis(a, d).len() == a.len() decreases a.len()
{ e_cis(a, d); if a.len() > 0 { l_cis_len(a.skip(1), d); } }
proof fn c_items(a: Seq<LV>, d: char)
    requires wfs(a), delim_ok(d)
    ensures ok_items(cis(a, d)), gm_items(cis(a, d)) == trs(a)
    decreases a, 2int
{
    let b = cis(a, d);
    e_cis(a, d); e_trs(a); e_wfs(a); e_ok_items(b); e_gm_items(b);
    if a.len() > 0 {
        let r = a.skip(1);
        e_wfs(r); e_trs(r);
        assert forall|i: int| 0 <= i < r.len() implies wf(#[trigger] r[i]) by { assert(wf(a[i + 1])); }
        assert(b.skip(1) =~= cis(r, d));
        assert(wf(a[0]));
        c_item(a[0], d); c_items(r, d);
        assert(gm_items(b) =~= trs(a));
    } else { assert(gm_items(b) =~= trs(a)); }
}
proof fn c_item(v: LV, d: char)
    requires wf(v), delim_ok(d)
    ensures ok_item(ci(v, d)), gm_item(ci(v, d)) == tr(v)
    decreases v, 1int
{
    hide(hdr); hide(is_arr_hdr_content); hide(is_kv_content); hide(is_kv_line); hide(trim); hide(p_prim); hide(head); hide(head_a);
    e_ci(v, d); e_tr(v); e_wf(v); e_ok_item(ci(v, d)); e_gm_item(ci(v, d));
    match v {
        LV::Prim(p) => { l_prim_line(p, d); thm_prim(p, d); },
        LV::Obj(f) => {
            e_trf(f); e_wff(f);
            if f.len() == 0 { assert(trf(f) =~= Seq::empty()); }
            else {
                let r = f.skip(1);
                e_wff(r); e_trf(r);
                assert forall|i: int| 0 <= i < r.len() implies wf((#[trigger] r[i]).1) by { assert(wf(f[i + 1].1)); }
                assert(wf(f[0].1));
                c_field(f[0], d); c_fields(r, d); e_cf(f[0], d);
                assert(seq![gm_field(cf(f[0], d))] + gm_fields(cfs(r, d)) =~= trf(f));
            }
        },
        _ => { c_arr(None, v, d); },
    }
}
proof fn c_fields(f: Seq<LF>, d: char)
    requires wff(f), delim_ok(d)
    ensures ok_fields(cfs(f, d)), gm_fields(cfs(f, d)) == trf(f)
    decreases f, 2int
{
    let b = cfs(f, d);
    e_cfs(f, d); e_trf(f); e_wff(f); e_ok_fields(b); e_gm_fields(b);
    if f.len() > 0 {
        let r = f.skip(1);
        e_wff(r); e_trf(r);
        assert forall|i: int| 0 <= i < r.len() implies wf((#[trigger] r[i]).1) by { assert(wf(f[i + 1].1)); }
        assert(b.skip(1) =~= cfs(r, d));
        assert(wf(f[0].1));
        c_field(f[0], d); c_fields(r, d);
        assert(gm_fields(b) =~= trf(f));
    } else { assert(gm_fields(b) =~= trf(f)); }
}
/// the line of a field, and what stands below it
proof fn c_field(f: LF, d: char)
    requires wf(f.1), delim_ok(d)
    ensures ({ let g = cf(f, d); ok_field(g) && gm_field(g) == (f.0, !unq_key(f.0), tr(f.1))
      && trim(g.c).len() > 0 && !is_arr_hdr_content(g.c) && is_kv_content(g.c) && is_kv_line(g.c) && clean(g.c) })
    decreases f, 1int
{
    hide(hdr); hide(p_key); hide(is_arr_hdr_content); hide(is_kv_content); hide(is_kv_line); hide(trim); hide(p_prim); hide(head_a); hide(enc_key);
    let k = f.0; let v = f.1; let g = cf(f, d); let e = enc_key(k);
    e_cf(f, d); e_wf(v); e_tr(v); e_cb(v, d); e_ok_field(g); e_gm_field(g);
    lemma_enc_key_tight(k); l_nonl_key(k);
    assert(!ws(':'));
    match v {
        LV::Prim(p) => {
            let tok = enc_prim(p, d);
            thm_prim(p, d); l_prim_chars(p, d); lemma_tight(tok);
            let r = seq![' '] + tok;
            assert(g.c =~= e + seq![':'] + r);
            l_kv_line(k, r); lemma_trim_lead(tok);
            assert(g.c[0] == e[0]); l_trim_some(g.c);
            assert(nonl(seq![':'])); assert(nonl(seq![' ']));
            l_nonl_cat(e, seq![':']); l_nonl_cat(seq![' '], tok); l_nonl_cat(e + seq![':'], r);
            assert(g.c.last() == tok.last());
        },
        LV::Obj(fs) => {
            let r = Seq::<char>::empty();
            assert(g.c =~= e + seq![':'] + r);
            l_kv_line(k, r); lemma_tight(r);
            assert(g.c[0] == e[0]); l_trim_some(g.c);
            assert(nonl(seq![':']));
            l_nonl_cat(e, seq![':']);
            assert(g.c =~= e + seq![':']);
            c_fields(fs, d);
            e_gm_sub(cb(v, d));
        },
        _ => { c_arr(Some(k), v, d); },
    }
}
pub proof fn l_field_clean(f: LF, d: char) requires wf(f.1), delim_ok(d) ensures clean(head(f.0, f.1, d))
{ e_cf(f, d); c_field(f, d); }
pub proof fn l_head_clean(v: LV, d: char) requires wf(v), delim_ok(d), v is Inl || v is Tab || v is Lst ensures clean(head_a(None, v, d))
{ c_arr(None, v, d); }
pub proof fn c_ok_doc(v: LV, d: char)
    requires wf(v), delim_ok(d)
    ensures ok_doc(cr(v, d)), gm_doc(cr(v, d)) == tr(v)
{
    hide(hdr); hide(is_arr_hdr_content); hide(is_kv_content); hide(is_kv_line); hide(trim); hide(p_prim); hide(head); hide(head_a); hide(clean);
    e_tr(v); e_wf(v);
    match v {
        LV::Prim(p) => { l_prim_line(p, d); thm_prim(p, d); },
        LV::Obj(f) => { e_wff(f); e_cfs(f, d); c_fields(f, d); if f.len() > 0 { assert(wf(f[0].1)); c_field(f[0], d); assert(cfs(f, d)[0] == cf(f[0], d)); } },
        _ => { c_arr(None, v, d); },
    }
}
} // verus!
}
