/// JSON: what the renderers write is a JSON text for the value (C09).
pub mod vthm_json {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::{SF, sp};
use crate::vspec_tree::*;
use crate::vthm_val::{l_nodes, l_nodef};
use crate::vspec_json::*;
verus! {
broadcast use vstd::group_vstd_default;

proof fn l_ws_cat(a: Seq<char>, b: Seq<char>) requires j_ws(a), j_ws(b) ensures j_ws(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() implies j_wsc(#[trigger] s[i]) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
proof fn l_sep_ws(n: int, w: nat) ensures j_ws(w_sep(n, w)) { }
// ---- strings ------------------------------------------------------------------------------------------
proof fn l_t_char(c: char) ensures j_char(t_char(c), c) { }
proof fn l_t_chars(s: Seq<char>) ensures j_chars(t_chars(s), s) decreases s.len()
{
    if s.len() > 0 {
        let g = s.drop_last(); let a = t_chars(g); let b = t_char(s.last()); let t = a + b;
        l_t_chars(g); l_t_char(s.last());
        assert(t.take(a.len() as int) =~= a); assert(t.skip(a.len() as int) =~= b);
    }
}
proof fn l_str(s: Seq<char>, t: bool) ensures j_str(w_str(s, t), s)
{
    if t { let x = w_str(s, t); l_t_chars(s); assert(x.subrange(1, x.len() - 1) =~= t_chars(s)); } else { ax_serde_str(s); }
}
// ---- items with blanks around them -----------------------------------------------------------------------
proof fn l_item(p: Seq<char>, s: Seq<char>, q: Seq<char>, v: SV)
    requires j_ws(p), j_ws(q), j_val(s, v)
    ensures j_item(p + s + q, v)
{
    let x = p + s + q; let i = p.len() as int; let j = i + s.len();
    assert(x.take(i) =~= p); assert(x.subrange(i, j) =~= s); assert(x.skip(j) =~= q);
}
proof fn l_item_more(s: Seq<char>, v: SV, q: Seq<char>)
    requires j_item(s, v), j_ws(q)
    ensures j_item(s + q, v)
{
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && j_ws(s.take(i)) && j_val(#[trigger] s.subrange(i, j), v) && j_ws(s.skip(j));
    let x = s + q;
    assert(x.take(i) =~= s.take(i)); assert(x.subrange(i, j) =~= s.subrange(i, j)); assert(x.skip(j) =~= s.skip(j) + q);
    l_ws_cat(s.skip(j), q);
}
proof fn l_items_more(s: Seq<char>, a: Seq<SV>, q: Seq<char>)
    requires j_items(s, a), j_ws(q)
    ensures j_items(s + q, a)
{
    if a.len() == 1 { l_item_more(s, a.last(), q); }
    else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == ',' && j_items(#[trigger] s.take(i), a.drop_last()) && j_item(s.skip(i + 1), a.last());
        let x = s + q;
        l_item_more(s.skip(i + 1), a.last(), q);
        assert(x.take(i) =~= s.take(i)); assert(x.skip(i + 1) =~= s.skip(i + 1) + q); assert(x[i] == ',');
    }
}
proof fn l_member_more(s: Seq<char>, k: Seq<char>, v: SV, q: Seq<char>)
    requires j_member(s, k, v), j_ws(q)
    ensures j_member(s + q, k, v)
{
    let i = choose|i: int| 0 <= i < s.len() && s[i] == ':' && j_key(#[trigger] s.take(i), k) && j_item(s.skip(i + 1), v);
    let x = s + q;
    l_item_more(s.skip(i + 1), v, q);
    assert(x.take(i) =~= s.take(i)); assert(x.skip(i + 1) =~= s.skip(i + 1) + q); assert(x[i] == ':');
}
proof fn l_members_more(s: Seq<char>, f: Seq<SF>, q: Seq<char>)
    requires j_members(s, f), j_ws(q)
    ensures j_members(s + q, f)
{
    if f.len() == 1 { l_member_more(s, f.last().0, f.last().1, q); }
    else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == ',' && j_members(#[trigger] s.take(i), f.drop_last()) && j_member(s.skip(i + 1), f.last().0, f.last().1);
        let x = s + q;
        l_member_more(s.skip(i + 1), f.last().0, f.last().1, q);
        assert(x.take(i) =~= s.take(i)); assert(x.skip(i + 1) =~= s.skip(i + 1) + q); assert(x[i] == ',');
    }
}
/// blanks, a written string, a colon with or without a blank, a value
#[verifier::rlimit(60)]
proof fn l_member(p: Seq<char>, k: Seq<char>, t: bool, w: nat, s: Seq<char>, v: SV)
    requires j_ws(p), j_val(s, v)
    ensures j_member(p + w_str(k, t) + w_colon(w) + s, k, v)
{
    let z = w_str(k, t); let x = p + z + w_colon(w) + s; let i = (p + z).len() as int;
    let y = p + z; let e = Seq::<char>::empty();
    let q = if w > 0 { seq![' '] } else { e };
    assert(j_key(y, k)) by {
        l_str(k, t);
        assert(y.take(p.len() as int) =~= p); assert(y.subrange(p.len() as int, i) =~= z); assert(y.skip(i) =~= e);
    }
    assert(j_item(q + s + e, v)) by { l_item(q, s, e, v); }
    assert(w_colon(w) =~= seq![':'] + q);
    assert(x.take(i) =~= y); assert(x.skip(i + 1) =~= q + s + e); assert(x[i] == ':');
}
proof fn l_nrm_len(a: Seq<SV>, f: Seq<SF>)
    ensures j_nrms(a).len() == a.len(), j_nrmf(f).len() == f.len()
    decreases a.len() + f.len()
{ if a.len() > 0 { l_nrm_len(a.drop_last(), Seq::empty()); } if f.len() > 0 { l_nrm_len(Seq::empty(), f.drop_last()); } }
/// C09: the text the renderers write for a value is a JSON text that stands for the value
#[verifier::rlimit(60)]
pub proof fn l_val(v: SV, n: int, w: nat, t: bool)
    ensures j_val(jw_val(v, n, w, t), j_nrm(v))
    decreases v, 0int
{
    let s = jw_val(v, n, w, t);
    match v {
        SV::Prim(p) => { match p { SP::Str(x) => { l_str(x, t); }, SP::Num(f) => { if f_is_finite(f) { ax_show_json(f); } }, _ => {} } },
        SV::Arr(a) => {
            l_nrm_len(a, Seq::empty());
            let b = s.subrange(1, s.len() - 1);
            if a.len() == 0 { assert(b =~= Seq::empty()); assert(s[0] == '['); }
            else { l_witems(a, n + 1, w, t); l_sep_ws(n, w); l_items_more(jw_items(a, n + 1, w, t), j_nrms(a), w_sep(n, w)); assert(b =~= jw_items(a, n + 1, w, t) + w_sep(n, w)); assert(s[0] == '['); }
        },
        SV::Obj(f) => {
            l_nrm_len(Seq::empty(), f);
            let b = s.subrange(1, s.len() - 1);
            if f.len() == 0 { assert(b =~= Seq::empty()); assert(s[0] == '{'); }
            else { l_wmembers(f, n + 1, w, t); l_sep_ws(n, w); l_members_more(jw_members(f, n + 1, w, t), j_nrmf(f), w_sep(n, w)); assert(b =~= jw_members(f, n + 1, w, t) + w_sep(n, w)); assert(s[0] == '{'); }
        },
    }
}
proof fn l_witems(a: Seq<SV>, n: int, w: nat, t: bool)
    requires a.len() > 0
    ensures j_items(jw_items(a, n, w, t), j_nrms(a))
    decreases a, 1int
{
    let g = a.drop_last(); let v = a.last(); let x = jw_val(v, n, w, t); let e = Seq::<char>::empty(); let s = jw_items(a, n, w, t);
    l_val(v, n, w, t); l_sep_ws(n, w); l_item(w_sep(n, w), x, e, j_nrm(v)); l_nrm_len(a, Seq::empty()); l_nrm_len(g, Seq::empty());
    let r = w_sep(n, w) + x;
    assert(r + e =~= r);
    assert(j_nrms(a).drop_last() =~= j_nrms(g)); assert(j_nrms(a).last() == j_nrm(v));
    if a.len() == 1 { assert(g =~= Seq::empty()); assert(jw_items(g, n, w, t) =~= e); assert(s =~= r); }
    else {
        l_witems(g, n, w, t);
        let y = jw_items(g, n, w, t); let i = y.len() as int;
        assert(s =~= y + seq![','] + r);
        assert(s.take(i) =~= y); assert(s.skip(i + 1) =~= r); assert(s[i] == ',');
    }
}
#[verifier::rlimit(60)]
proof fn l_wmembers(f: Seq<SF>, n: int, w: nat, t: bool)
    requires f.len() > 0
    ensures j_members(jw_members(f, n, w, t), j_nrmf(f))
    decreases f, 1int
{
    let g = f.drop_last(); let k = f.last().0; let v = f.last().1; let x = jw_val(v, n, w, t); let s = jw_members(f, n, w, t);
    l_val(v, n, w, t); l_sep_ws(n, w); l_member(w_sep(n, w), k, t, w, x, j_nrm(v)); l_nrm_len(Seq::empty(), f); l_nrm_len(Seq::empty(), g);
    let r = w_sep(n, w) + w_str(k, t) + w_colon(w) + x;
    assert(j_nrmf(f).drop_last() =~= j_nrmf(g)); assert(j_nrmf(f).last() == (k, j_nrm(v)));
    assert(j_member(r, k, j_nrm(v)));
    if f.len() == 1 { assert(g =~= Seq::empty()); assert(jw_members(g, n, w, t) =~= Seq::empty()); assert(s =~= r); }
    else {
        l_wmembers(g, n, w, t);
        assert(s =~= jw_members(g, n, w, t) + seq![','] + r);
        l_members_cat(jw_members(g, n, w, t), r, j_nrmf(f));
    }
}
proof fn l_members_cat(y: Seq<char>, r: Seq<char>, f: Seq<SF>)
    requires f.len() > 1, j_members(y, f.drop_last()), j_member(r, f.last().0, f.last().1)
    ensures j_members(y + seq![','] + r, f)
{ let s = y + seq![','] + r; let i = y.len() as int; assert(s.take(i) =~= y); assert(s.skip(i + 1) =~= r); assert(s[i] == ','); }
pub proof fn thm_json_tree(v: SV, w: nat)
    ensures json(jw_val(v, 0, w, true), j_nrm(v))
{ let e = Seq::<char>::empty(); let s = jw_val(v, 0, w, true); l_val(v, 0, w, true); l_item(e, s, e, j_nrm(v)); assert(e + s + e =~= s); }

// ---- the stream renderer ---------------------------------------------------------------------------------
proof fn l_run_cat(st: Seq<JC>, e: Seq<SE>, f: Seq<SE>, w: nat)
    ensures s_run(st, e + f, w) == (match s_run(st, e, w) { None => None, Some(x) => match s_run(x.0, f, w) { None => None, Some(y) => Some((y.0, x.1 + y.1)) } })
    decreases f.len()
{
    if f.len() == 0 { assert(e + f =~= e); match s_run(st, e, w) { Some(x) => assert(x.1 + Seq::<char>::empty() =~= x.1), None => {} } }
    else {
        let g = f.drop_last();
        l_run_cat(st, e, g, w);
        assert((e + f).drop_last() =~= e + g); assert((e + f).last() == f.last());
        match s_run(st, e, w) { Some(x) => match s_run(x.0, g, w) { Some(y) => match s_step(y.0, f.last(), w) { Some(z) => assert(x.1 + (y.1 + z.1) =~= x.1 + y.1 + z.1), None => {} }, None => {} }, None => {} }
    }
}
proof fn l_run1(st: Seq<JC>, e: SE, w: nat) ensures s_run(st, seq![e], w) == s_step(st, e, w)
{
    reveal_with_fuel(s_run, 2); assert(seq![e].drop_last() =~= Seq::empty()); assert(seq![e].last() == e);
    match s_step(st, e, w) { Some(y) => assert(Seq::<char>::empty() + y.1 =~= y.1), None => {} }
}
proof fn e_arr(a: Seq<SV>, n: int, w: nat, t: bool) ensures jw_val(SV::Arr(a), n, w, t) == seq!['['] + jw_items(a, n + 1, w, t) + w_close(a.len() > 0, n, w, ']') { }
proof fn e_obj(f: Seq<SF>, n: int, w: nat, t: bool) ensures jw_val(SV::Obj(f), n, w, t) == seq!['{'] + jw_members(f, n + 1, w, t) + w_close(f.len() > 0, n, w, '}') { }
proof fn e_prim(p: SP, n: int, w: nat, t: bool) ensures jw_val(SV::Prim(p), n, w, t) == w_prim(p, t) { }
proof fn e_items(a: Seq<SV>, n: int, w: nat, t: bool) ensures a.len() > 0 ==> jw_items(a, n, w, t) == jw_items(a.drop_last(), n, w, t) + w_comma(a.len() > 1) + w_sep(n, w) + jw_val(a.last(), n, w, t), a.len() == 0 ==> jw_items(a, n, w, t).len() == 0 { }
proof fn e_members(f: Seq<SF>, n: int, w: nat, t: bool) ensures f.len() > 0 ==> jw_members(f, n, w, t) == jw_members(f.drop_last(), n, w, t) + w_comma(f.len() > 1) + w_sep(n, w) + w_str(f.last().0, t) + w_colon(w) + jw_val(f.last().1, n, w, t), f.len() == 0 ==> jw_members(f, n, w, t).len() == 0 { }
proof fn l_run0(st: Seq<JC>, w: nat) ensures s_run(st, Seq::empty(), w) == Some((st, Seq::<char>::empty())) { }
/// a value may come here: at the root, in an array, after a key
pub open spec fn open_for(st: Seq<JC>) -> bool { st.len() == 0 || st.last() is Arr || st.last() == JC::Obj(true, true) }
pub proof fn l_stream(st: Seq<JC>, v: DV, w: nat)
    requires open_for(st)
    ensures s_run(st, flat(v), w) == Some((s_done(st), s_pre(st, w) + jw_val(dsv(v), st.len() as int, w, false)))
    decreases v, 0int
{
    hide(s_run); hide(jw_val); hide(jw_items); hide(jw_members); hide(w_prim); hide(sp);
    let n = st.len() as int; let pre = s_pre(st, w); let e = Seq::<char>::empty();
    match v {
        DV::Prim(p) => { l_run1(st, SE::Prim(p), w); e_prim(p, n, w, false); if n > 0 && st.last() is Obj { assert(pre + w_prim(p, false) =~= w_prim(p, false)); } else if n == 0 { assert(pre + w_prim(p, false) =~= w_prim(p, false)); } },
        DV::Arr(k, a) => {
            let b = st.push(JC::Arr(false)); let c = st.push(JC::Arr(a.len() > 0));
            l_run1(st, SE::StartArray(k), w); l_sitems(st, a, w); l_run1(c, SE::EndArray, w); l_nodes(a);
            l_run_cat(st, seq![SE::StartArray(k)], flats(a), w);
            l_run_cat(st, seq![SE::StartArray(k)] + flats(a), seq![SE::EndArray], w);
            assert(c.drop_last() =~= st);
            let x = nsvs(nodes(a)); e_arr(x, n, w, false);
            assert(pre + seq!['['] + jw_items(x, n + 1, w, false) + w_close(a.len() > 0, n, w, ']') =~= pre + jw_val(dsv(v), n, w, false));
        },
        DV::Obj(f) => {
            let b = st.push(JC::Obj(false, false)); let c = st.push(JC::Obj(f.len() > 0, false));
            l_run1(st, SE::StartObject, w); l_smembers(st, f, w); l_run1(c, SE::EndObject, w); l_nodef(f);
            l_run_cat(st, seq![SE::StartObject], flatf(f), w);
            l_run_cat(st, seq![SE::StartObject] + flatf(f), seq![SE::EndObject], w);
            assert(c.drop_last() =~= st);
            let x = nsvf(nodef(f)); e_obj(x, n, w, false);
            assert(pre + seq!['{'] + jw_members(x, n + 1, w, false) + w_close(f.len() > 0, n, w, '}') =~= pre + jw_val(dsv(v), n, w, false));
        },
    }
}
proof fn l_sitems(st: Seq<JC>, a: Seq<DV>, w: nat)
    ensures s_run(st.push(JC::Arr(false)), flats(a), w) == Some((st.push(JC::Arr(a.len() > 0)), jw_items(nsvs(nodes(a)), st.len() as int + 1, w, false)))
    decreases a, 1int
{
    hide(s_run); hide(jw_val); hide(jw_items); hide(jw_members); hide(sp);
    let b = st.push(JC::Arr(false)); let n = st.len() as int + 1;
    if a.len() == 0 { l_run0(b, w); assert(flats(a) =~= Seq::empty()); }
    l_nodes(a);
    let x = nsvs(nodes(a)); e_items(x, n, w, false);
    if a.len() > 0 {
        let g = a.drop_last(); let c = st.push(JC::Arr(g.len() > 0)); let v = a.last();
        l_nodes(g);
        let y = nsvs(nodes(g));
        l_sitems(st, g, w); l_stream(c, v, w);
        l_run_cat(b, flats(g), flat(v), w);
        assert(x.drop_last() =~= y); assert(x.last() == dsv(v));
        assert(c.drop_last() =~= st);
        assert(jw_items(y, n, w, false) + (w_comma(g.len() > 0) + w_sep(n, w) + jw_val(dsv(v), n, w, false)) =~= jw_items(x, n, w, false));
    }
}
proof fn l_smembers(st: Seq<JC>, f: Seq<DF>, w: nat)
    ensures s_run(st.push(JC::Obj(false, false)), flatf(f), w) == Some((st.push(JC::Obj(f.len() > 0, false)), jw_members(nsvf(nodef(f)), st.len() as int + 1, w, false)))
    decreases f, 1int
{
    hide(s_run); hide(jw_val); hide(jw_items); hide(jw_members); hide(sp);
    let b = st.push(JC::Obj(false, false)); let n = st.len() as int + 1;
    if f.len() == 0 { l_run0(b, w); assert(flatf(f) =~= Seq::empty()); }
    l_nodef(f);
    let x = nsvf(nodef(f)); e_members(x, n, w, false);
    if f.len() > 0 {
        let g = f.drop_last(); let c = st.push(JC::Obj(g.len() > 0, false)); let d = st.push(JC::Obj(true, true)); let k = f.last().0; let v = f.last().2; let ke = SE::Key(k, f.last().1);
        l_nodef(g);
        let y = nsvf(nodef(g));
        l_smembers(st, g, w); l_stream(d, v, w); l_run1(c, ke, w);
        l_run_cat(c, seq![ke], flat(v), w);
        l_run_cat(b, flatf(g), seq![ke] + flat(v), w);
        assert(x.drop_last() =~= y); assert(x.last() == (k, dsv(v)));
        assert(c.drop_last() =~= st); assert(d.drop_last() =~= st);
        let m = w_comma(g.len() > 0) + w_sep(n, w) + serde_str(k) + w_colon(w); let z = jw_val(dsv(v), n, w, false);
        assert(s_pre(d, w) + z =~= z);
        assert(jw_members(y, n, w, false) + (m + z) =~= jw_members(x, n, w, false));
    }
}
/// C09: the stream renderer's text for the events of a decoded tree is a JSON text that stands for the tree's value
pub proof fn thm_json_stream(v: DV, w: nat)
    ensures s_text(flat(v), w) == Some(jw_val(dsv(v), 0, w, false)), json(jw_val(dsv(v), 0, w, false), j_nrm(dsv(v)))
{
    let e = Seq::<char>::empty(); let st = Seq::<JC>::empty(); let s = jw_val(dsv(v), 0, w, false);
    l_stream(st, v, w); assert(s_pre(st, w) + s =~= s);
    l_val(dsv(v), 0, w, false); l_item(e, s, e, j_nrm(dsv(v))); assert(e + s + e =~= s);
}
/// C09: in an event list with a text every end matches the open start, no start is left open, every key is inside an object, and
/// every value (primitive, object or array) inside an object directly follows a key
pub proof fn thm_json_refused(e: Seq<SE>, k: int, w: nat)
    requires s_text(e, w) is Some, 0 <= k < e.len()
    ensures opens(e) == Some(Seq::<bool>::empty()), opens(e.take(k)) is Some, opens(e.take(k + 1)) is Some,
      e[k] is Key ==> inside_object(opens(e.take(k))->0),
      (e[k] is Prim || e[k] is StartObject || e[k] is StartArray) && inside_object(opens(e.take(k))->0) ==> k > 0 && e[k - 1] is Key,
{
    l_prefix(e, k, w); l_prefix(e, k + 1, w); l_opens(e.take(k), w); l_opens(e.take(k + 1), w); l_opens(e, w);
    assert(opens(e)->0 =~= Seq::<bool>::empty());
    let f = e.take(k + 1); assert(f.drop_last() =~= e.take(k)); assert(f.last() == e[k]);
    let o = opens(e.take(k))->0; let st = (s_run(Seq::empty(), e.take(k), w)->0).0;
    if o.len() > 0 { assert(o.last() == (st.last() is Obj)); if k > 0 { assert(e.take(k).last() == e[k - 1]); } }
}
proof fn l_prefix(e: Seq<SE>, k: int, w: nat)
    requires s_run(Seq::empty(), e, w) is Some, 0 <= k <= e.len()
    ensures s_run(Seq::empty(), e.take(k), w) is Some
    decreases e.len()
{ if k == e.len() { assert(e.take(k) =~= e); } else { l_prefix(e.drop_last(), k, w); assert(e.drop_last().take(k) =~= e.take(k)); } }
proof fn l_opens(e: Seq<SE>, w: nat)
    requires s_run(Seq::empty(), e, w) is Some
    ensures opens(e) is Some, ({ let st = (s_run(Seq::empty(), e, w)->0).0; let o = opens(e)->0;
      o.len() == st.len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (st[i] is Obj))
      && (st.len() > 0 && st.last() is Obj && st.last()->Obj_1 ==> e.len() > 0 && e.last() is Key) })
    decreases e.len()
{
    if e.len() > 0 {
        l_opens(e.drop_last(), w);
        let st = (s_run(Seq::empty(), e.drop_last(), w)->0).0; let o = opens(e.drop_last())->0;
        if o.len() > 0 { assert(o[o.len() - 1] == (st[st.len() - 1] is Obj)); }
        let o2 = opens(e)->0; let s2 = (s_run(Seq::empty(), e, w)->0).0;
        assert forall|i: int| 0 <= i < o2.len() implies #[trigger] o2[i] == (s2[i] is Obj) by { if i < o.len() { assert(o[i] == (st[i] is Obj)); } }
    }
}
} // verus!
}
