/// Encode, then decode: the value comes back.
pub mod vthm_rt {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::*;
use crate::vspec_tree::*;
use crate::vspec_exp::{dec_text, dec_lines};
use crate::vthm_gen::{gl_doc, gm_doc, ok_doc, good_line, good_lines, thm_conforming, GR};
use crate::vthm_enc::*;
verus! {
broadcast use vstd::group_vstd_default;

// ---- every line is clean ---------------------------------------------------------------------------
pub open spec fn cleans(l: Seq<WL>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).n >= 0 && clean(l[i].c) }
proof fn l_cleans_cat(a: Seq<WL>, b: Seq<WL>) requires cleans(a), cleans(b) ensures cleans(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).n >= 0 && clean(s[i].c) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
proof fn l_clean_one(n: int, c: Seq<char>) requires n >= 0, clean(c) ensures cleans(seq![WL { n, c }]) { }
proof fn l_clean_hy(c: Seq<char>) requires clean(c) ensures clean(seq!['-', ' '] + c), clean(seq!['-'])
{ let h = seq!['-', ' ']; assert(!ws('-')); assert(nonl(h)); l_nonl_cat(h, c); assert((h + c).last() == c.last()); assert(nonl(seq!['-'])); }
pub proof fn c_body(v: LV, n: int, d: char)
    requires wf(v), delim_ok(d), n >= 0
    ensures cleans(body(v, n, d))
    decreases v, 0int
{
    e_wf(v);
    match v {
        LV::Tab(f, r) => { assert forall|i: int| 0 <= i < r.len() implies clean(#[trigger] join_prims(r[i], d)) by { assert(r[i].len() == f.len()); l_row(r[i], d); } },
        LV::Lst(a) => { e_wfs(a); assert(forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i])); c_witems(a, n, d); },
        LV::Obj(f) => { e_wff(f); c_wfields(f, n, d); },
        _ => {},
    }
}
proof fn c_wfield(f: LF, n: int, d: char)
    requires wf(f.1), delim_ok(d), n >= 0
    ensures cleans(w_field(f, n, d))
    decreases f, 1int
{ l_field_clean(f, d); c_body(f.1, n + 1, d); l_clean_one(n, head(f.0, f.1, d)); l_cleans_cat(seq![WL { n, c: head(f.0, f.1, d) }], body(f.1, n + 1, d)); }
proof fn c_wfields(f: Seq<LF>, n: int, d: char)
    requires forall|i: int| 0 <= i < f.len() ==> wf((#[trigger] f[i]).1), delim_ok(d), n >= 0
    ensures cleans(w_fields(f, n, d))
    decreases f, 2int
{
    if f.len() > 0 {
        let g = f.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies wf((#[trigger] g[i]).1) by { assert(wf(f[i].1)); }
        assert(wf(f[f.len() - 1].1));
        c_wfields(g, n, d); c_wfield(f.last(), n, d); l_cleans_cat(w_fields(g, n, d), w_field(f.last(), n, d));
    }
}
proof fn c_witem(v: LV, n: int, d: char)
    requires wf(v), delim_ok(d), n >= 0
    ensures cleans(w_item(v, n, d))
    decreases v, 1int
{
    hide(head); hide(head_a); hide(clean);
    e_wf(v);
    let h = seq!['-', ' '];
    match v {
        LV::Prim(p) => { l_prim_line(p, d); l_clean_hy(enc_prim(p, d)); l_clean_one(n, h + enc_prim(p, d)); },
        LV::Obj(f) => {
            e_wff(f);
            if f.len() == 0 { assert(clean(seq!['-'])) by { reveal(clean); assert(!ws('-')); assert(nonl(seq!['-'])); } l_clean_one(n, seq!['-']); }
            else {
                let r = f.skip(1); let c = h + head(f[0].0, f[0].1, d);
                assert forall|i: int| 0 <= i < r.len() implies wf((#[trigger] r[i]).1) by { assert(wf(f[i + 1].1)); }
                assert(wf(f[0].1));
                l_field_clean(f[0], d); l_clean_hy(head(f[0].0, f[0].1, d)); l_clean_one(n, c);
                c_body(f[0].1, n + 2, d); c_wfields(r, n + 1, d);
                l_cleans_cat(seq![WL { n, c }], body(f[0].1, n + 2, d));
                l_cleans_cat(seq![WL { n, c }] + body(f[0].1, n + 2, d), w_fields(r, n + 1, d));
            }
        },
        _ => {
            let c = h + head_a(None, v, d);
            l_head_clean(v, d); l_clean_hy(head_a(None, v, d)); l_clean_one(n, c); c_body(v, n + 1, d);
            l_cleans_cat(seq![WL { n, c }], body(v, n + 1, d));
        },
    }
}
proof fn c_witems(a: Seq<LV>, n: int, d: char)
    requires forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]), delim_ok(d), n >= 0
    ensures cleans(w_items(a, n, d))
    decreases a, 2int
{
    if a.len() > 0 {
        let g = a.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies wf(#[trigger] g[i]) by { assert(wf(a[i])); }
        assert(wf(a[a.len() - 1]));
        c_witems(g, n, d); c_witem(a.last(), n, d); l_cleans_cat(w_items(g, n, d), w_item(a.last(), n, d));
    }
}
pub proof fn c_doc(v: LV, d: char)
    requires wf(v), delim_ok(d)
    ensures cleans(w_doc(v, d))
{
    e_wf(v);
    match v {
        LV::Prim(p) => { l_prim_line(p, d); l_clean_one(0, enc_prim(p, d)); },
        LV::Obj(f) => { e_wff(f); c_wfields(f, 0, d); },
        _ => { l_head_clean(v, d); l_clean_one(0, head_a(None, v, d)); c_body(v, 1, d); l_cleans_cat(seq![WL { n: 0, c: head_a(None, v, d) }], body(v, 1, d)); },
    }
}
/// the lines of a layout are read back as the layout's tree
pub proof fn thm_layout(v: LV, d: char, w: nat, strict: bool)
    requires wf(v), delim_ok(d), w > 0
    ensures d_doc(pr(w_doc(v, d), w), w, strict) == Some(tr(v))
{
    hide(gl_doc); hide(w_doc); hide(gm_doc); hide(ok_doc); hide(cr); hide(d_doc);
    s_doc(v, d); c_doc(v, d); c_ok_doc(v, d);
    let l = w_doc(v, d);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).n >= 0 && good_line(l[i].c) by { l_good(l[i].c); }
    thm_conforming(cr(v, d), w, strict);
}
proof fn l_good(c: Seq<char>) requires clean(c) ensures good_line(c) { assert(ws(' ') && ws('\t')); l_trim_some(c); }

// ---- text and lines ------------------------------------------------------------------------------------
proof fn l_split_none(s: Seq<char>, c: char) requires !s.contains(c) ensures split_on(s, c) == seq![s] decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(!t.contains(c)) by { if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); } }
        l_split_none(t, c);
        assert(s.contains(s.last()));
        assert(t.push(s.last()) =~= s);
        assert(split_on(s, c) =~= seq![s]);
    } else { assert(s =~= Seq::empty()); assert(split_on(s, c) =~= seq![s]); }
}
proof fn l_split_cat(a: Seq<char>, b: Seq<char>, c: char) requires !b.contains(c) ensures split_on(a + seq![c] + b, c) == split_on(a, c).push(b) decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() == 0 {
        assert(s.drop_last() =~= a); assert(s.last() == c);
        assert(b =~= Seq::empty());
    } else {
        let t = b.drop_last();
        assert(!t.contains(c)) by { if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(b[i] == c); } }
        l_split_cat(a, t, c);
        assert(s.drop_last() =~= a + seq![c] + t);
        assert(b.contains(b.last()));
        assert(s.last() == b.last());
        assert(t.push(b.last()) =~= b);
        assert(split_on(a, c).push(t).drop_last() =~= split_on(a, c));
        assert(split_on(s, c) =~= split_on(a, c).push(b));
    }
}
/// lines joined and split again
pub proof fn l_lines(l: Seq<Seq<char>>, c: char)
    requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).contains(c)
    ensures split_on(join(l, c), c) == l
    decreases l.len()
{
    assert(!l[0].contains(c));
    if l.len() == 1 { l_split_none(l[0], c); assert(seq![l[0]] =~= l); }
    else {
        let g = l.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies !(#[trigger] g[i]).contains(c) by { assert(!l[i].contains(c)); }
        l_lines(g, c);
        assert(!l[l.len() - 1].contains(c));
        l_split_cat(join(g, c), l.last(), c);
        assert(g.push(l.last()) =~= l);
    }
}
/// C08: what a written line looks like: n * w blanks, then text that begins and ends visibly, and no line break
pub open spec fn neat(s: Seq<char>, w: nat) -> bool {
    exists|n: nat, c: Seq<char>| #[trigger] (sp((n * w) as int) + c) == s && clean(c)
}
pub proof fn l_neat(x: WL, w: nat)
    requires x.n >= 0, clean(x.c)
    ensures neat(pr1(x, w), w), nonl(pr1(x, w)), pr1(x, w).len() > 0, !ws(pr1(x, w).last())
{
    let n = x.n as nat;
    assert(x.n * w >= 0) by (nonlinear_arith) requires x.n >= 0, w >= 0;
    assert(sp((n * w) as int) + x.c == pr1(x, w));
    assert(nonl(sp((n * w) as int)));
    l_nonl_cat(sp((n * w) as int), x.c);
    assert(pr1(x, w).last() == x.c.last());
}
pub proof fn l_no_break(s: Seq<char>) requires nonl(s) ensures !s.contains('\n'), !s.contains('\r') { }
/// C01: the text of a layout is read back as the layout's tree
pub proof fn thm_text(v: LV, d: char, w: nat, strict: bool)
    requires wf(v), delim_ok(d), w > 0
    ensures dec_text(join(pr(w_doc(v, d), w), '\n'), w, strict, false) == Some(dsv(tr(v))),
        d_doc(split_on(join(pr(w_doc(v, d), w), '\n'), '\n'), w, strict) == Some(tr(v))
{
    hide(w_doc); hide(d_root);
    let l = pr(w_doc(v, d), w);
    thm_layout(v, d, w, strict);
    c_doc(v, d);
    assert forall|i: int| 0 <= i < l.len() implies !(#[trigger] l[i]).contains('\n') by { l_neat(w_doc(v, d)[i], w); l_no_break(l[i]); }
    if l.len() > 0 { l_lines(l, '\n'); }
    else {
        let z = Seq::<char>::empty();
        let e = seq![z];
        assert(split_on(join(l, '\n'), '\n') == e);
        assert(p_line(z, w, strict) is Blank) by { lemma_tight(z); assert(z.skip(0) =~= z); assert(lead(z) == 0); }
        assert(e.drop_last() =~= Seq::empty()); assert(e.last() == z);
        assert(l =~= Seq::empty());
        reveal_with_fuel(scan, 3);
        assert(scan(e, 0, w, strict) == Some((Seq::<SL>::empty(), Seq::<int>::empty().push(1))));
        assert(scan(l, 0, w, strict) == Some((Seq::<SL>::empty(), Seq::<int>::empty())));
        reveal(d_root);
    }
}
} // verus!
}
