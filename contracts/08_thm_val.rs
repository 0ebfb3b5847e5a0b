/// What a layout's tree says about the value it was made from.
pub mod vthm_val {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::*;
use crate::vspec_tree::*;
use crate::vspec_exp::{dec_text, dec_lines};
use crate::vthm_enc::*;
use crate::vthm_rt::*;
verus! {
broadcast use vstd::group_vstd_default;

// ---- the value of a tree, element by element ---------------------------------------------------------
pub proof fn l_nodes(a: Seq<DV>)
    ensures nodes(a).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> nodes(a)[i] == node(#[trigger] a[i])
    decreases a.len()
{
    if a.len() > 0 {
        let g = a.drop_last();
        l_nodes(g);
        assert forall|i: int| 0 <= i < a.len() implies nodes(a)[i] == node(#[trigger] a[i]) by { if i < g.len() { assert(g[i] == a[i]); assert(nodes(a)[i] == nodes(g)[i]); } }
    }
}
pub proof fn l_nodef(f: Seq<DF>)
    ensures nodef(f).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> nodef(f)[i] == ((#[trigger] f[i]).0, node(f[i].2))
    decreases f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        l_nodef(g);
        assert forall|i: int| 0 <= i < f.len() implies nodef(f)[i] == ((#[trigger] f[i]).0, node(f[i].2)) by { if i < g.len() { assert(g[i] == f[i]); assert(nodef(f)[i] == nodef(g)[i]); } }
    }
}
proof fn l_nsvf(a: Seq<NF>)
    ensures nsvf(a).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> nsvf(a)[i] == ((#[trigger] a[i]).0, nsv(a[i].1))
{ }
/// the value of a layout
pub proof fn l_val(v: LV)
    requires wf(v)
    ensures match v {
        LV::Prim(p) => dsv(tr(v)) == SV::Prim(norm_sp(p)),
        LV::Inl(p) => dsv(tr(v)) == SV::Arr(Seq::new(p.len(), |i: int| SV::Prim(norm_sp(p[i])))),
        LV::Tab(f, r) => dsv(tr(v)) == SV::Arr(Seq::new(r.len(), |i: int| SV::Obj(Seq::new(f.len(), |j: int| (f[j], SV::Prim(norm_sp(r[i][j]))))))),
        LV::Lst(a) => dsv(tr(v)) == SV::Arr(Seq::new(a.len(), |i: int| dsv(tr(a[i])))),
        LV::Obj(f) => dsv(tr(v)) == SV::Obj(Seq::new(f.len(), |i: int| (f[i].0, dsv(tr(f[i].1))))),
    }
{
    e_tr(v); e_wf(v);
    match v {
        LV::Prim(p) => {},
        LV::Inl(p) => {
            let a = prim_items(norm_sps(p));
            l_nodes(a);
            assert forall|i: int| 0 <= i < p.len() implies nsv(nodes(a)[i]) == SV::Prim(norm_sp(p[i])) by { assert(a[i] == DV::Prim(norm_sp(p[i]))); }
            assert(nsvs(nodes(a)) =~= Seq::new(p.len(), |i: int| SV::Prim(norm_sp(p[i]))));
        },
        LV::Tab(f, r) => {
            let a = tr(v)->Arr_1;
            l_nodes(a);
            let z = Seq::new(r.len(), |i: int| SV::Obj(Seq::new(f.len(), |j: int| (f[j], SV::Prim(norm_sp(r[i][j]))))));
            assert forall|i: int| 0 <= i < r.len() implies nsv(nodes(a)[i]) == #[trigger] z[i] by {
                let g = row_fields(qflags(f), norm_sps(r[i]));
                assert(a[i] == DV::Obj(g));
                l_nodef(g); l_nsvf(nodef(g));
                assert(r[i].len() == f.len());
                assert forall|j: int| 0 <= j < f.len() implies nsvf(nodef(g))[j] == (f[j], SV::Prim(norm_sp(r[i][j]))) by { assert(g[j].0 == f[j]); assert(g[j].2 == DV::Prim(norm_sp(r[i][j]))); }
                assert(nsvf(nodef(g)) =~= z[i]->Obj_0);
            }
            assert(nsvs(nodes(a)) =~= z);
        },
        LV::Lst(a) => {
            e_trs(a);
            l_nodes(trs(a));
            assert forall|i: int| 0 <= i < a.len() implies nsv(nodes(trs(a))[i]) == dsv(tr(a[i])) by { assert(trs(a)[i] == tr(a[i])); }
            assert(nsvs(nodes(trs(a))) =~= Seq::new(a.len(), |i: int| dsv(tr(a[i]))));
        },
        LV::Obj(f) => {
            e_trf(f);
            let g = trf(f);
            l_nodef(g); l_nsvf(nodef(g));
            assert forall|i: int| 0 <= i < f.len() implies nsvf(nodef(g))[i] == (f[i].0, dsv(tr(f[i].1))) by { assert(g[i].2 == tr(f[i].1)); assert(g[i].0 == f[i].0); }
            assert(nsvf(nodef(g)) =~= Seq::new(f.len(), |i: int| (f[i].0, dsv(tr(f[i].1)))));
        },
    }
}
// ---- the layout, element by element -------------------------------------------------------------------
pub proof fn l_lay_fields(f: Seq<SF>, sib: Seq<Seq<char>>, s: FS, o: EO)
    ensures lay_fields(f, sib, s, o).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> lay_fields(f, sib, s, o)[i] == lay_field((#[trigger] f[i]).0, f[i].1, sib, s, o)
    decreases f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        l_lay_fields(g, sib, s, o);
        assert forall|i: int| 0 <= i < f.len() implies lay_fields(f, sib, s, o)[i] == lay_field((#[trigger] f[i]).0, f[i].1, sib, s, o) by { if i < g.len() { assert(g[i] == f[i]); assert(lay_fields(f, sib, s, o)[i] == lay_fields(g, sib, s, o)[i]); } }
    }
}
pub proof fn l_lay_items(a: Seq<SV>, o: EO)
    ensures lay_items(a, o).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> lay_items(a, o)[i] == lay_item(#[trigger] a[i], o)
    decreases a.len()
{
    if a.len() > 0 {
        let g = a.drop_last();
        l_lay_items(g, o);
        assert forall|i: int| 0 <= i < a.len() implies lay_items(a, o)[i] == lay_item(#[trigger] a[i], o) by { if i < g.len() { assert(g[i] == a[i]); assert(lay_items(a, o)[i] == lay_items(g, o)[i]); } }
    }
}
/// the member i of an object in a list
pub open spec fn iobj_at(f: Seq<SF>, i: int, o: EO) -> LF
{ if i == 0 { (f[0].0, lay_v(f[0].1, fs0(o), o)) } else { lay_field(f[i].0, f[i].1, keys_of(f), fs0(o), o) } }
pub proof fn l_lay_iobj(f: Seq<SF>, o: EO)
    ensures lay_iobj(f, o).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> (#[trigger] lay_iobj(f, o)[i]) == iobj_at(f, i, o)
{
    if f.len() > 0 {
        let r = f.skip(1);
        l_lay_fields(r, keys_of(f), fs0(o), o);
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] lay_iobj(f, o)[i]) == iobj_at(f, i, o) by { if i > 0 { assert(r[i - 1] == f[i]); } }
    }
}
// ---- sizes ------------------------------------------------------------------------------------------------
/// no array is longer than a header may declare
pub open spec fn small(v: SV) -> bool decreases v
{ match v { SV::Prim(_) => true, SV::Arr(a) => a.len() <= max_len() && forall|i: int| 0 <= i < a.len() ==> small(#[trigger] a[i]),
    SV::Obj(f) => forall|i: int| 0 <= i < f.len() ==> small((#[trigger] f[i]).1) } }
pub proof fn l_small_chain(s: Seq<Seq<char>>, v: SV, max: nat)
    requires small(v)
    ensures small(chain(s, v, max).1)
    decreases v
{ match v { SV::Obj(f) => if s.len() < max && f.len() == 1 { assert(small(f[0].1)); l_small_chain(s.push(f[0].0), f[0].1, max); }, _ => {} } }
pub proof fn w_lay(v: SV, s: FS, o: EO)
    requires small(v)
    ensures wf(lay_v(v, s, o))
    decreases ht(v), 1int
{
    e_wf(lay_v(v, s, o));
    match v { SV::Prim(_) => {}, SV::Arr(a) => { w_lay_arr(a, o); }, SV::Obj(f) => { w_lay_fields(f, keys_of(f), s, o); e_wff(lay_v(v, s, o)->Obj_0); } }
}
proof fn w_lay_field(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO)
    requires small(v)
    ensures wf(lay_field(k, v, sib, s, o).1)
    decreases ht(v), 2int
{
    let c = chain(seq![k], v, s.rem);
    l_chain(seq![k], v, s.rem); l_small_chain(seq![k], v, s.rem);
    if can_fold(k, v, sib, s, o) { w_lay(c.1, FS { lits: s.lits, pre: Some(dotted(s.pre, join(c.0, '.'))), rem: (s.rem - c.0.len()) as nat }, o); }
    else { w_lay(v, FS { lits: s.lits, pre: Some(dotted(s.pre, k)), rem: s.rem }, o); }
}
proof fn w_lay_fields(f: Seq<SF>, sib: Seq<Seq<char>>, s: FS, o: EO)
    requires forall|i: int| 0 <= i < f.len() ==> small((#[trigger] f[i]).1)
    ensures forall|i: int| 0 <= i < f.len() ==> wf((#[trigger] lay_fields(f, sib, s, o)[i]).1), lay_fields(f, sib, s, o).len() == f.len()
    decreases htf(f), 3int
{
    l_lay_fields(f, sib, s, o);
    let l = lay_fields(f, sib, s, o);
    assert forall|i: int| 0 <= i < f.len() implies wf((#[trigger] l[i]).1) by { assert(l[i] == lay_field(f[i].0, f[i].1, sib, s, o)); l_htf(f, i); assert(small(f[i].1)); w_lay_field(f[i].0, f[i].1, sib, s, o); }
}
proof fn w_lay_arr(a: Seq<SV>, o: EO)
    requires small(SV::Arr(a))
    ensures wf(lay_arr(a, o))
    decreases 1 + hts(a), 0int
{
    let v = lay_arr(a, o);
    e_wf(v);
    if is_prims(a) { } else if tabular(a) {
        let r = rows_of(a);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == cols_of(a).len() by {}
    } else { w_lay_items(a, o); e_wfs(lay_items(a, o)); l_lay_items(a, o); }
}
proof fn w_lay_items(a: Seq<SV>, o: EO)
    requires forall|i: int| 0 <= i < a.len() ==> small(#[trigger] a[i])
    ensures forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] lay_items(a, o)[i]), lay_items(a, o).len() == a.len()
    decreases hts(a), 3int
{
    l_lay_items(a, o);
    let l = lay_items(a, o);
    assert forall|i: int| 0 <= i < a.len() implies wf(#[trigger] l[i]) by { assert(l[i] == lay_item(a[i], o)); l_hts(a, i); assert(small(a[i])); w_lay_item(a[i], o); }
}
proof fn w_lay_item(v: SV, o: EO)
    requires small(v)
    ensures wf(lay_item(v, o))
    decreases ht(v), 2int
{
    let l = lay_item(v, o);
    e_wf(l);
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => if !is_prims(a) { w_lay_items(a, o); e_wfs(lay_items(a, o)); },
        SV::Obj(f) => {
            let g = lay_iobj(f, o);
            e_wff(g); l_lay_iobj(f, o);
            assert forall|i: int| 0 <= i < g.len() implies wf((#[trigger] g[i]).1) by {
                assert(g[i] == iobj_at(f, i, o)); l_htf(f, i); assert(small(f[i].1));
                if i == 0 { w_lay(f[0].1, fs0(o), o); } else { w_lay_field(f[i].0, f[i].1, keys_of(f), fs0(o), o); }
            }
        },
    }
}
// ---- the value that comes back --------------------------------------------------------------------------
/// the value with the rows of tabular arrays in the key order of their first row
pub open spec fn canon(v: SV) -> SV decreases v, 1int
{
    match v {
        SV::Prim(_) => v,
        SV::Arr(a) => if !is_prims(a) && tabular(a) { SV::Arr(Seq::new(a.len(), |i: int| row_obj(a[i], cols_of(a)))) } else { SV::Arr(canon_is(a)) },
        SV::Obj(f) => SV::Obj(Seq::new(f.len(), |i: int| if 0 <= i < f.len() { (f[i].0, canon(f[i].1)) } else { arbitrary() })),
    }
}
pub open spec fn row_obj(v: SV, h: Seq<Seq<char>>) -> SV { SV::Obj(Seq::new(h.len(), |j: int| (h[j], oget(v->Obj_0, h[j])->0))) }
/// an element of a list: arrays directly inside a list are never written in tabular form
pub open spec fn canon_i(v: SV) -> SV decreases v, 2int
{ match v { SV::Arr(a) => SV::Arr(canon_is(a)), _ => canon(v) } }
pub open spec fn canon_is(a: Seq<SV>) -> Seq<SV> decreases a, 3int
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { canon_i(a[i]) } else { arbitrary() }) }
pub proof fn l_prims_canon(a: Seq<SV>)
    requires is_prims(a), nrms(a) == a
    ensures canon_is(a) == a, Seq::new(prims_of(a).len(), |i: int| SV::Prim(norm_sp(prims_of(a)[i]))) == a
{
    assert forall|i: int| 0 <= i < a.len() implies canon_is(a)[i] == a[i] && SV::Prim(norm_sp(prims_of(a)[i])) == a[i] by { assert(a[i] is Prim); assert(nrms(a)[i] == a[i]); assert(nrm(a[i]) == a[i]); assert(canon_i(a[i]) == canon(a[i])); assert(canon(a[i]) == a[i]); assert(nrm(a[i]) == SV::Prim(norm_sp(a[i]->Prim_0))); assert(canon_is(a)[i] == canon_i(a[i])); }
    assert(canon_is(a) =~= a);
    assert(Seq::new(prims_of(a).len(), |i: int| SV::Prim(norm_sp(prims_of(a)[i]))) =~= a);
}
pub proof fn v_lay(v: SV, s: FS, o: EO)
    requires !o.fold, nrm(v) == v, small(v)
    ensures dsv(tr(lay_v(v, s, o))) == canon(v)
    decreases v, 1int
{
    let l = lay_v(v, s, o);
    w_lay(v, s, o);
    l_val(l);
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => if is_prims(a) { l_prims_canon(a); }
            else if tabular(a) { v_rows(a); }
            else { v_items(a, o); },
        SV::Obj(f) => {
            let g = l->Obj_0;
            l_lay_fields(f, keys_of(f), s, o);
            let c = canon(v)->Obj_0;
            let z = Seq::new(g.len(), |i: int| (g[i].0, dsv(tr(g[i].1))));
            assert forall|i: int| 0 <= i < f.len() implies z[i] == c[i] by {
                assert(g[i] == lay_field(f[i].0, f[i].1, keys_of(f), s, o));
                assert(nrmf(f)[i] == f[i]); assert(small(f[i].1));
                v_lay(f[i].1, FS { lits: s.lits, pre: Some(dotted(s.pre, f[i].0)), rem: s.rem }, o);
            }
            assert(z =~= c);
        },
    }
}
pub proof fn v_rows(a: Seq<SV>)
    requires tabular(a), nrms(a) == a
    ensures Seq::new(rows_of(a).len(), |i: int| SV::Obj(Seq::new(cols_of(a).len(), |j: int| (cols_of(a)[j], SV::Prim(norm_sp(rows_of(a)[i][j])))))) == Seq::new(a.len(), |i: int| row_obj(a[i], cols_of(a)))
{
    let h = cols_of(a); let r = rows_of(a);
    let x = Seq::new(r.len(), |i: int| SV::Obj(Seq::new(h.len(), |j: int| (h[j], SV::Prim(norm_sp(r[i][j]))))));
    let y = Seq::new(a.len(), |i: int| row_obj(a[i], h));
    assert forall|i: int| 0 <= i < a.len() implies x[i] == y[i] by {
        assert(row_ok(a[i], h));
        let f = a[i]->Obj_0;
        assert(nrms(a)[i] == a[i]);
        assert(nrm(a[i]) == a[i]);
        assert(nrmf(f) == f);
        assert forall|j: int| 0 <= j < h.len() implies SV::Prim(norm_sp(r[i][j])) == oget(f, h[j])->0 by {
            assert(oget(f, h[j]) is Some && oget(f, h[j])->0 is Prim);
            l_oget(f, h[j]);
            let m = choose|m: int| 0 <= m < f.len() && (#[trigger] f[m]).0 == h[j] && f[m].1 == oget(f, h[j])->0;
            assert(nrmf(f)[m] == f[m]);
            assert(r[i] == row_of(a[i], h));
        }
        assert(x[i]->Obj_0 =~= y[i]->Obj_0);
    }
    assert(x =~= y);
}
proof fn v_items(a: Seq<SV>, o: EO)
    requires !o.fold, nrms(a) == a, forall|i: int| 0 <= i < a.len() ==> small(#[trigger] a[i])
    ensures Seq::new(lay_items(a, o).len(), |i: int| dsv(tr(lay_items(a, o)[i]))) == canon_is(a)
    decreases a, 3int
{
    let l = lay_items(a, o);
    l_lay_items(a, o);
    let z = Seq::new(l.len(), |i: int| dsv(tr(l[i])));
    assert forall|i: int| 0 <= i < a.len() implies z[i] == canon_is(a)[i] by {
        assert(l[i] == lay_item(a[i], o));
        assert(nrms(a)[i] == a[i]); assert(small(a[i]));
        v_item(a[i], o);
    }
    assert(z =~= canon_is(a));
}
proof fn v_item(v: SV, o: EO)
    requires !o.fold, nrm(v) == v, small(v)
    ensures dsv(tr(lay_item(v, o))) == canon_i(v)
    decreases v, 2int
{
    let l = lay_item(v, o);
    w_lay_item(v, o);
    l_val(l);
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => if is_prims(a) { l_prims_canon(a); } else { v_items(a, o); },
        SV::Obj(f) => {
            let g = l->Obj_0;
            l_lay_iobj(f, o);
            let c = canon(v)->Obj_0;
            let z = Seq::new(g.len(), |i: int| (g[i].0, dsv(tr(g[i].1))));
            assert forall|i: int| 0 <= i < f.len() implies z[i] == c[i] by {
                assert(g[i] == iobj_at(f, i, o));
                assert(nrmf(f)[i] == f[i]); assert(small(f[i].1));
                if i == 0 { v_lay(f[0].1, fs0(o), o); }
                else { v_lay(f[i].1, FS { lits: fs0(o).lits, pre: Some(dotted(fs0(o).pre, f[i].0)), rem: fs0(o).rem }, o); }
            }
            assert(z =~= c);
        },
    }
}
// ---- normalised values -------------------------------------------------------------------------------------
pub proof fn l_nrm(v: SV) ensures nrm(nrm(v)) == nrm(v) decreases v
{
    match v {
        SV::Prim(p) => { ax_zero(); match p { SP::Num(f) => { }, _ => {} } },
        SV::Arr(a) => { let b = nrms(a); assert forall|i: int| 0 <= i < a.len() implies nrms(b)[i] == b[i] by { l_nrm(a[i]); } assert(nrms(b) =~= b); },
        SV::Obj(f) => { let b = nrmf(f); assert forall|i: int| 0 <= i < f.len() implies nrmf(b)[i] == b[i] by { l_nrm(f[i].1); } assert(nrmf(b) =~= b); },
    }
}
pub proof fn l_nrm_small(v: SV) requires small(v) ensures small(nrm(v)) decreases v
{
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => { let b = nrms(a); assert forall|i: int| 0 <= i < b.len() implies small(#[trigger] b[i]) by { assert(small(a[i])); l_nrm_small(a[i]); } },
        SV::Obj(f) => { let b = nrmf(f); assert forall|i: int| 0 <= i < b.len() implies small((#[trigger] b[i]).1) by { assert(small(f[i].1)); l_nrm_small(f[i].1); } },
    }
}
/// C01, C03: encoding (folding off) and decoding gives the normalised value, tabular rows in the key order of the first row
pub proof fn thm_roundtrip(v: SV, o: EO, w: nat, strict: bool)
    requires small(v), delim_ok(o.d), !o.fold, w > 0
    ensures dec_text(join(enc_lines(nrm(v), o, w), '\n'), w, strict, false) == Some(canon(nrm(v)))
{
    let u = nrm(v);
    l_nrm(v); l_nrm_small(v);
    let s = FS { lits: match u { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat };
    w_lay(u, s, o); v_lay(u, s, o);
    thm_text(lay_root(u, o), o.d, w, strict);
}
// ---- the value is the same up to member order -----------------------------------------------------------------
pub open spec fn uniq(v: SV) -> bool decreases v
{ match v { SV::Prim(_) => true, SV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i]),
    SV::Obj(f) => keys_of(f).no_duplicates() && forall|i: int| 0 <= i < f.len() ==> uniq((#[trigger] f[i]).1) } }
/// the same value, whatever the order of the members of its objects
pub open spec fn same(v: SV, w: SV) -> bool decreases v
{
    match (v, w) {
        (SV::Prim(p), SV::Prim(q)) => p == q,
        (SV::Arr(a), SV::Arr(b)) => a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i]),
        (SV::Obj(f), SV::Obj(g)) => f.len() == g.len() && forall|i: int| 0 <= i < f.len() ==> oget(g, (#[trigger] f[i]).0) is Some && same(f[i].1, oget(g, f[i].0)->0),
        _ => false,
    }
}
proof fn l_oget_uniq(f: Seq<SF>, i: int)
    requires keys_of(f).no_duplicates(), 0 <= i < f.len()
    ensures oget(f, f[i].0) == Some(f[i].1)
{ assert forall|j: int| 0 <= j < i implies (#[trigger] f[j]).0 != f[i].0 by { assert(keys_of(f)[j] == f[j].0); assert(keys_of(f)[i] == f[i].0); } l_oget_at(f, f[i].0, i); }
/// a row has no member outside the columns
proof fn l_row_cols(f: Seq<SF>, h: Seq<Seq<char>>, i: int)
    requires keys_of(f).no_duplicates(), h.no_duplicates(), f.len() == h.len(), forall|j: int| 0 <= j < h.len() ==> oget(f, #[trigger] h[j]) is Some, 0 <= i < f.len()
    ensures h.contains(f[i].0)
{
    let k = keys_of(f);
    k.unique_seq_to_set(); h.unique_seq_to_set();
    assert forall|x: Seq<char>| h.to_set().contains(x) implies k.to_set().contains(x) by {
        assert(h.contains(x));
        let j = choose|j: int| 0 <= j < h.len() && h[j] == x;
        assert(oget(f, h[j]) is Some);
        l_oget(f, h[j]);
        let m = choose|m: int| 0 <= m < f.len() && (#[trigger] f[m]).0 == h[j];
        assert(k[m] == x);
        assert(k.contains(x));
    }
    assert(h.to_set().subset_of(k.to_set()));
    vstd::set_lib::lemma_subset_equality(h.to_set(), k.to_set());
    assert(k[i] == f[i].0);
    assert(k.contains(f[i].0));
    assert(h.to_set().contains(f[i].0));
}
pub proof fn l_same(v: SV) requires uniq(v) ensures same(v, canon(v)) decreases v, 1int
{
    match v {
        SV::Prim(_) => {},
        SV::Arr(a) => {
            assert(forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i]));
            if !is_prims(a) && tabular(a) {
                let h = cols_of(a);
                assert(uniq(a[0]));
                assert(h.no_duplicates());
                let b = canon(v)->Arr_0;
                assert forall|i: int| 0 <= i < a.len() implies same(#[trigger] a[i], b[i]) by {
                    assert(row_ok(a[i], h)); assert(uniq(a[i]));
                    let f = a[i]->Obj_0; let g = b[i]->Obj_0;
                    assert(keys_of(g) =~= h);
                    assert forall|m: int| 0 <= m < f.len() implies oget(g, (#[trigger] f[m]).0) is Some && same(f[m].1, oget(g, f[m].0)->0) by {
                        l_row_cols(f, h, m);
                        let j = choose|j: int| 0 <= j < h.len() && h[j] == f[m].0;
                        l_oget_uniq(f, m); l_oget_uniq(g, j);
                        assert(g[j] == (h[j], oget(f, h[j])->0));
                        assert(oget(f, h[j])->0 is Prim);
                    }
                }
            } else { l_sames(a); }
        },
        SV::Obj(f) => {
            let g = canon(v)->Obj_0;
            assert(keys_of(g) =~= keys_of(f));
            assert forall|i: int| 0 <= i < f.len() implies oget(g, (#[trigger] f[i]).0) is Some && same(f[i].1, oget(g, f[i].0)->0) by { l_oget_uniq(g, i); assert(uniq(f[i].1)); l_same(f[i].1); assert(g[i].1 == canon(f[i].1)); }
        },
    }
}
proof fn l_sames(a: Seq<SV>) requires forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i]) ensures same(SV::Arr(a), SV::Arr(canon_is(a))) decreases a, 3int
{ let b = canon_is(a); assert forall|i: int| 0 <= i < a.len() implies same(#[trigger] a[i], b[i]) by { assert(uniq(a[i])); l_same_i(a[i]); assert(b[i] == canon_i(a[i])); } }
proof fn l_same_i(v: SV) requires uniq(v) ensures same(v, canon_i(v)) decreases v, 2int
{ match v { SV::Arr(a) => { assert(forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i])); l_sames(a); }, _ => { l_same(v); } } }
pub proof fn l_nrm_uniq(v: SV) requires uniq(v) ensures uniq(nrm(v)) decreases v
{
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => { let b = nrms(a); assert forall|i: int| 0 <= i < b.len() implies uniq(#[trigger] b[i]) by { assert(uniq(a[i])); l_nrm_uniq(a[i]); } },
        SV::Obj(f) => { let b = nrmf(f); assert(keys_of(b) =~= keys_of(f)); assert forall|i: int| 0 <= i < b.len() implies uniq((#[trigger] b[i]).1) by { assert(uniq(f[i].1)); l_nrm_uniq(f[i].1); } },
    }
}
/// C01: what comes back is the same value: every member and element, nothing added, nothing lost
pub proof fn thm_same(v: SV)
    requires uniq(v)
    ensures same(nrm(v), canon(nrm(v)))
{ l_nrm_uniq(v); l_same(nrm(v)); }
// ---- events ---------------------------------------------------------------------------------------------------
/// the events the decoder emits for a layout are the events of its value
pub proof fn l_events(v: LV)
    requires wf(v)
    ensures flat(tr(v)) == ev(dsv(tr(v)))
    decreases v
{
    e_tr(v); e_wf(v); l_val(v);
    match v {
        LV::Prim(p) => {},
        LV::Inl(p) => { let a = prim_items(norm_sps(p)); let b = dsv(tr(v))->Arr_0;
            assert forall|i: int| 0 <= i < a.len() implies flat(#[trigger] a[i]) == ev(b[i]) by { assert(a[i] == DV::Prim(norm_sp(p[i]))); assert(b[i] == SV::Prim(norm_sp(p[i]))); }
            l_flats_ev(a, b); },
        LV::Tab(f, r) => {
            let a = tr(v)->Arr_1; let b = dsv(tr(v))->Arr_0;
            assert forall|i: int| 0 <= i < a.len() implies flat(#[trigger] a[i]) == ev(b[i]) by {
                let g = row_fields(qflags(f), norm_sps(r[i])); let k = b[i]->Obj_0;
                assert(r[i].len() == f.len());
                assert(a[i] == DV::Obj(g));
                assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).0 == k[j].0 && g[j].1 == !unq_key(k[j].0) && flat(g[j].2) == ev(k[j].1) by { assert(g[j].2 == DV::Prim(norm_sp(r[i][j]))); assert(k[j].1 == SV::Prim(norm_sp(r[i][j]))); }
                l_flatf_ev(g, k);
            }
            l_flats_ev(a, b);
        },
        LV::Lst(a) => {
            e_trs(a); e_wfs(a);
            let x = trs(a); let b = dsv(tr(v))->Arr_0;
            assert forall|i: int| 0 <= i < x.len() implies flat(#[trigger] x[i]) == ev(b[i]) by { assert(x[i] == tr(a[i])); assert(wf(a[i])); l_events(a[i]); }
            l_flats_ev(x, b);
        },
        LV::Obj(f) => {
            e_trf(f); e_wff(f);
            let g = trf(f); let k = dsv(tr(v))->Obj_0;
            assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).0 == k[j].0 && g[j].1 == !unq_key(k[j].0) && flat(g[j].2) == ev(k[j].1) by { assert(wf(f[j].1)); l_events(f[j].1); }
            l_flatf_ev(g, k);
        },
    }
}
proof fn l_flats_ev(a: Seq<DV>, b: Seq<SV>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> flat(#[trigger] a[i]) == ev(b[i])
    ensures flats(a) == evs(b)
    decreases a.len()
{
    if a.len() > 0 {
        let c = a.drop_last(); let d = b.drop_last();
        assert forall|i: int| 0 <= i < c.len() implies flat(#[trigger] c[i]) == ev(d[i]) by { assert(flat(a[i]) == ev(b[i])); }
        assert(flat(a[a.len() - 1]) == ev(b[b.len() - 1]));
        l_flats_ev(c, d);
    }
}
proof fn l_flatf_ev(a: Seq<DF>, b: Seq<SF>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && a[i].1 == !unq_key(b[i].0) && flat(a[i].2) == ev(b[i].1)
    ensures flatf(a) == evf(b)
    decreases a.len()
{
    if a.len() > 0 {
        let c = a.drop_last(); let d = b.drop_last();
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).0 == d[i].0 && c[i].1 == !unq_key(d[i].0) && flat(c[i].2) == ev(d[i].1) by { assert(a[i].0 == b[i].0); }
        assert(a[a.len() - 1].0 == b[b.len() - 1].0);
        l_flatf_ev(c, d);
    }
}
/// C17: the decoder's events for the encoded text are the events of the value that comes back
pub proof fn thm_events(v: SV, o: EO, w: nat, strict: bool)
    requires small(v), delim_ok(o.d), !o.fold, w > 0
    ensures d_doc(split_on(join(enc_lines(nrm(v), o, w), '\n'), '\n'), w, strict) is Some,
      flat(d_doc(split_on(join(enc_lines(nrm(v), o, w), '\n'), '\n'), w, strict)->0) == ev(canon(nrm(v)))
{
    let u = nrm(v);
    l_nrm(v); l_nrm_small(v);
    let s = FS { lits: match u { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat };
    w_lay(u, s, o); v_lay(u, s, o);
    thm_text(lay_root(u, o), o.d, w, strict);
    l_events(lay_root(u, o));
}
// ---- the shape of the text --------------------------------------------------------------------------------------
/// C08: every line is a multiple of the indent followed by text that begins and ends visibly; no line break inside a
/// line, no empty line; the text neither begins nor ends with a line break, and its lines are the lines joined
pub proof fn thm_lines(v: SV, o: EO, w: nat)
    requires small(v), delim_ok(o.d)
    ensures forall|i: int| 0 <= i < enc_lines(v, o, w).len() ==> neat(#[trigger] enc_lines(v, o, w)[i], w) && nonl(enc_lines(v, o, w)[i]) && enc_lines(v, o, w)[i].len() > 0,
      enc_lines(v, o, w).len() > 0 ==> split_on(join(enc_lines(v, o, w), '\n'), '\n') == enc_lines(v, o, w) && join(enc_lines(v, o, w), '\n').len() > 0 && !ws(join(enc_lines(v, o, w), '\n').last()),
      enc_lines(v, o, w).len() == 0 ==> join(enc_lines(v, o, w), '\n').len() == 0
{
    hide(w_doc);
    let s = FS { lits: match v { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat };
    w_lay(v, s, o);
    let y = lay_root(v, o); let l = enc_lines(v, o, w);
    c_doc(y, o.d);
    assert forall|i: int| 0 <= i < l.len() implies neat(#[trigger] l[i], w) && nonl(l[i]) && l[i].len() > 0 && !l[i].contains('\n') && !ws(l[i].last()) by { l_neat(w_doc(y, o.d)[i], w); l_no_break(l[i]); }
    if l.len() > 0 {
        l_lines(l, '\n');
        let q = l.len() - 1;
        assert(l[q].len() > 0 && !ws(l[q].last()));
        if l.len() == 1 { assert(join(l, '\n') == l[0]); }
        else { assert(join(l, '\n') == join(l.drop_last(), '\n') + seq!['\n'] + l.last()); assert(join(l, '\n').last() == l[q].last()); }
    }
}
/// C08: the form of every array follows the data: primitives inline, uniform objects of primitives as rows, all else as a list
pub proof fn thm_forms(a: Seq<SV>, o: EO)
    ensures is_prims(a) ==> lay_arr(a, o) == LV::Inl(prims_of(a)),
      !is_prims(a) && tabular(a) ==> lay_arr(a, o) == LV::Tab(cols_of(a), rows_of(a)) && rows_of(a).len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] rows_of(a)[i]).len() == cols_of(a).len(),
      !is_prims(a) && !tabular(a) ==> lay_arr(a, o) == LV::Lst(lay_items(a, o)) && lay_items(a, o).len() == a.len()
{ l_lay_items_len(a, o); }
} // verus!
}
