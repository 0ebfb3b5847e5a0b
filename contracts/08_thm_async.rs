/// Decoding a document of which a prefix of `key: value` lines has already been given out.
pub mod vthm_async {
use vstd::prelude::*;
use crate::vspec::*;
use crate::vspec_tok::*;
use crate::vspec_dec::*;
verus! {
broadcast use {vstd::group_vstd_default, crate::vax::vgroup};
/// the member a `key: value` line gives, if it is one
pub open spec fn simple_f(c: Seq<char>) -> Option<DF> {
    match p_key(c) { None => None, Some((k, e, q)) => if trim(c.skip(e)).len() == 0 { None } else { match p_prim(trim(c.skip(e))) { None => None, Some(v) => Some((k, q, DV::Prim(v))) } } }
}
pub open spec fn simple_l(l: Seq<SL>, i: int) -> bool {
    &&& i == 0 || l[i].depth == 0
    &&& i == 0 ==> is_kv_line(l[0].c)
    &&& hdr(l[i].c, ',') is No && simple_f(l[i].c) is Some
}
/// the first m lines are members of the root object
pub open spec fn simple(l: Seq<SL>, m: int) -> bool { 0 <= m <= l.len() && forall|i: int| 0 <= i < m ==> #[trigger] simple_l(l, i) }
pub open spec fn accs(l: Seq<SL>, m: int) -> Seq<DF> { Seq::new(m as nat, |i: int| simple_f(l[i].c)->0) }
/// what the first m members yield
pub open spec fn head_evs(l: Seq<SL>, m: int) -> Seq<SE> { if m == 0 { Seq::empty() } else { seq![SE::StartObject] + flatf(accs(l, m)) } }
/// the line refuses to be a member
pub open spec fn bad_l(l: Seq<SL>, i: int) -> bool {
    &&& i == 0 || l[i].depth == 0
    &&& i == 0 ==> is_kv_line(l[0].c)
    &&& match hdr(l[i].c, ',') {
        HR::Err => true,
        HR::Yes(h) => false,
        HR::No => match p_key(l[i].c) { None => true, Some((k, e, q)) => trim(l[i].c.skip(e)).len() > 0 && p_prim(trim(l[i].c.skip(e))) is None },
    }
}
pub proof fn l_pre(a: Seq<Seq<char>>, b: Seq<Seq<char>>, w: nat, st: bool)
    ensures scan(a, 0, w, st) is None ==> scan(a + b, 0, w, st) is None,
      scan(a + b, 0, w, st) is Some ==> scan(a, 0, w, st) is Some && (scan(a, 0, w, st)->0).0.is_prefix_of((scan(a + b, 0, w, st)->0).0),
      scan(a, 0, w, st) is Some ==> (scan(a, 0, w, st)->0).0.len() <= a.len()
    decreases a.len() + 2 * b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        l_pre(a, c, w, st);
        assert((a + b).drop_last() =~= a + c);
    } else {
        assert(a + b =~= a);
        if a.len() > 0 { l_pre(a.drop_last(), b, w, st); assert(a.drop_last() + b =~= a.drop_last()); }
    }
}
/// one more line: blank, refused, or the last of the scanned lines
pub proof fn l_step(a: Seq<Seq<char>>, x: Seq<char>, w: nat, st: bool)
    requires scan(a, 0, w, st) is Some
    ensures ({ let r = scan(a.push(x), 0, w, st); let l = (scan(a, 0, w, st)->0).0;
        match p_line(x, w, st) { LR::Err => r is None, LR::Blank => r is Some && (r->0).0 == l, LR::Line(d, c) => r is Some && (r->0).0 == l.push(SL { depth: d, c, n: (a.len() + 1) as int }) } })
{ assert(a.push(x).drop_last() =~= a); assert(a.push(x).last() == x); }
proof fn l_d_top(x: DC, acc: Seq<DF>, p: int)
    ensures match d_top(x, acc, p) { None => true, Some(DV::Obj(f)) => acc.is_prefix_of(f), _ => false }
    decreases x.l.len() - p
{
    hide(hdr); hide(p_key); hide(p_prim);
    if p < 0 || p >= x.l.len() || x.l[p].depth != 0 { }
    else { match d_kv(x, p + 1, x.l[p].c, 0) { None => {}, Some((f, q)) => if p < q <= x.l.len() { l_d_top(x, acc.push(f), q); if let Some(DV::Obj(g)) = d_top(x, acc.push(f), q) { assert forall|i: int| 0 <= i < acc.len() implies acc[i] == g[i] by { assert(acc.push(f)[i] == acc[i]); assert(acc.push(f)[i] == g[i]); } } } } }
}
proof fn l_kv(x: DC, l: Seq<SL>, i: int)
    requires 0 <= i < l.len(), l.is_prefix_of(x.l)
    ensures simple_l(l, i) ==> d_kv(x, i + 1, x.l[i].c, 0) == Some((simple_f(l[i].c)->0, i + 1)),
      bad_l(l, i) ==> d_kv(x, i + 1, x.l[i].c, 0) is None
{
    hide(hdr); hide(p_key); hide(p_prim);
    assert(l[i] == x.l[i]);
}
proof fn l_root(x: DC, l: Seq<SL>)
    requires l.len() > 0, l.is_prefix_of(x.l), is_kv_line(l[0].c), hdr(l[0].c, ',') is No || hdr(l[0].c, ',') is Err
    ensures d_root(x) == (match d_kv(x, 1, l[0].c, 0) { None => None, Some((f, q)) => if 0 < q <= x.l.len() { d_top(x, seq![f], q) } else { None } })
      || (d_root(x) is None && hdr(l[0].c, ',') is Err)
{
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line); hide(is_arr_hdr_content);
    assert(l[0] == x.l[0]);
}
/// after m members the root object goes on with what they gave
proof fn l_root_m(x: DC, l: Seq<SL>, m: int)
    requires m >= 1, simple(l, m), l.is_prefix_of(x.l)
    ensures d_root(x) == d_top(x, accs(l, m), m)
    decreases m
{
    hide(hdr); hide(p_key); hide(p_prim); hide(simple_f); hide(is_kv_line);
    assert(simple_l(l, 0));
    if m == 1 {
        l_root(x, l); l_kv(x, l, 0);
        assert(accs(l, 1) =~= seq![simple_f(l[0].c)->0]);
    } else {
        assert(simple(l, m - 1)) by { assert forall|i: int| 0 <= i < m - 1 implies #[trigger] simple_l(l, i) by {} }
        l_root_m(x, l, m - 1);
        assert(simple_l(l, m - 1));
        l_kv(x, l, m - 1);
        assert(l[m - 1] == x.l[m - 1]);
        assert(accs(l, m) =~= accs(l, m - 1).push(simple_f(l[m - 1].c)->0));
    }
}
pub proof fn l_accs(l: Seq<SL>, m: int)
    requires simple(l, m)
    ensures flatf(accs(l, m)).len() == 2 * m, head_evs(l, m).len() == (if m == 0 { 0 } else { 1 + 2 * m }),
      m > 0 ==> flatf(accs(l, m)) == flatf(accs(l, m - 1)) + seq![SE::Key((simple_f(l[m - 1].c)->0).0, (simple_f(l[m - 1].c)->0).1), SE::Prim((simple_f(l[m - 1].c)->0).2->Prim_0)]
    decreases m
{
    hide(hdr); hide(is_kv_line);
    if m > 0 {
        assert(simple(l, m - 1)) by { assert forall|i: int| 0 <= i < m - 1 implies #[trigger] simple_l(l, i) by {} }
        l_accs(l, m - 1);
        assert(simple_l(l, m - 1));
        let f = simple_f(l[m - 1].c)->0;
        assert(accs(l, m) =~= accs(l, m - 1).push(f));
        assert(accs(l, m).drop_last() =~= accs(l, m - 1));
        assert(flatk(f) =~= seq![SE::Key(f.0, f.1), SE::Prim(f.2->Prim_0)]);
    } else { assert(accs(l, m) =~= Seq::empty()); }
}
/// one more line changes nothing about the first m
pub proof fn l_ext(l: Seq<SL>, x: SL, m: int)
    requires simple(l, m)
    ensures simple(l.push(x), m), head_evs(l.push(x), m) == head_evs(l, m)
{
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line);
    let k = l.push(x);
    assert forall|i: int| 0 <= i < m implies #[trigger] simple_l(k, i) by { assert(k[i] == l[i]); assert(simple_l(l, i)); }
    assert(accs(k, m) =~= accs(l, m)) by { assert forall|i: int| 0 <= i < m implies accs(k, m)[i] == accs(l, m)[i] by { assert(k[i] == l[i]); } }
}
proof fn l_flatf_pre(a: Seq<DF>, f: Seq<DF>)
    requires a.is_prefix_of(f)
    ensures flatf(a).is_prefix_of(flatf(f))
    decreases f.len()
{
    if a.len() == f.len() { assert(a =~= f); }
    else { assert(a.is_prefix_of(f.drop_last())); l_flatf_pre(a, f.drop_last()); assert(flatf(f) == flatf(f.drop_last()) + flatk(f.last())); }
}
/// What the first m members yield is what the document yields first, unless the document is refused
pub proof fn thm_prefix(a: Seq<Seq<char>>, b: Seq<Seq<char>>, w: nat, st: bool, m: int)
    requires scan(a, 0, w, st) is Some, simple((scan(a, 0, w, st)->0).0, m)
    ensures d_doc(a + b, w, st) is Some ==> head_evs((scan(a, 0, w, st)->0).0, m).is_prefix_of(flat(d_doc(a + b, w, st)->0))
{
    let l = (scan(a, 0, w, st)->0).0;
    l_pre(a, b, w, st);
    if d_doc(a + b, w, st) is Some && m > 0 {
        let x = DC { l: (scan(a + b, 0, w, st)->0).0, b: (scan(a + b, 0, w, st)->0).1, strict: st };
        l_root_m(x, l, m);
        l_d_top(x, accs(l, m), m);
        let f = d_root(x)->0->Obj_0;
        l_flatf_pre(accs(l, m), f);
        assert(flat(DV::Obj(f)) == seq![SE::StartObject] + flatf(f) + seq![SE::EndObject]);
        let h = head_evs(l, m); let g = flat(DV::Obj(f));
        assert forall|i: int| 0 <= i < h.len() implies h[i] == g[i] by { if i > 0 { assert(h[i] == flatf(accs(l, m))[i - 1]); assert(flatf(f)[i - 1] == g[i]); } }
    }
}
/// a line that refuses to be the next member: the document is refused
pub proof fn thm_bad(a: Seq<Seq<char>>, b: Seq<Seq<char>>, w: nat, st: bool, m: int)
    requires scan(a, 0, w, st) is Some, simple((scan(a, 0, w, st)->0).0, m), m < (scan(a, 0, w, st)->0).0.len(), bad_l((scan(a, 0, w, st)->0).0, m)
    ensures d_doc(a + b, w, st) is None
{
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line);
    let l = (scan(a, 0, w, st)->0).0;
    l_pre(a, b, w, st);
    if scan(a + b, 0, w, st) is Some {
        let x = DC { l: (scan(a + b, 0, w, st)->0).0, b: (scan(a + b, 0, w, st)->0).1, strict: st };
        l_kv(x, l, m);
        assert(l[m] == x.l[m]);
        if m == 0 { l_root(x, l); } else { l_root_m(x, l, m); }
    }
}
/// every line was a member: nothing but the end is left
pub proof fn thm_all(a: Seq<Seq<char>>, w: nat, st: bool)
    requires scan(a, 0, w, st) is Some, simple((scan(a, 0, w, st)->0).0, (scan(a, 0, w, st)->0).0.len() as int), (scan(a, 0, w, st)->0).0.len() > 0
    ensures d_doc(a, w, st) is Some, flat(d_doc(a, w, st)->0) == head_evs((scan(a, 0, w, st)->0).0, (scan(a, 0, w, st)->0).0.len() as int) + seq![SE::EndObject]
{
    let l = (scan(a, 0, w, st)->0).0; let m = l.len() as int;
    let x = DC { l, b: (scan(a, 0, w, st)->0).1, strict: st };
    l_root_m(x, l, m);
    assert(d_top(x, accs(l, m), m) == Some(DV::Obj(accs(l, m))));
}
} // verus!
}
