/// Key folding undone by path expansion.
pub mod vthm_fold {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::*;
use crate::vspec_tree::*;
use crate::vspec_exp::*;
use crate::vthm_exp::{plain, strip, l_plain, thm_strip};
use crate::vthm_enc::*;
use crate::vthm_rt::*;
use crate::vthm_val::*;
verus! {
broadcast use vstd::group_vstd_default;

/// no key has a dot
pub open spec fn nodots(v: SV) -> bool decreases v
{ match v { SV::Prim(_) => true, SV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> nodots(#[trigger] a[i]),
    SV::Obj(f) => forall|i: int| 0 <= i < f.len() ==> !(#[trigger] f[i]).0.contains('.') && nodots(f[i].1) } }
/// x under the path s of single-member objects
pub open spec fn wrap(s: Seq<Seq<char>>, x: SV) -> SV decreases s.len()
{ if s.len() == 0 { x } else { SV::Obj(seq![(s[0], wrap(s.skip(1), x))]) } }
pub open spec fn nwrap(s: Seq<Seq<char>>, x: NV) -> NV decreases s.len()
{ if s.len() == 0 { x } else { NV::Obj(seq![(s[0], nwrap(s.skip(1), x))], Set::empty()) } }
proof fn l_nwrap(s: Seq<Seq<char>>, x: NV)
    ensures nsv(nwrap(s, x)) == wrap(s, nsv(x))
    decreases s.len()
{
    if s.len() > 0 {
        l_nwrap(s.skip(1), x);
        let f = seq![(s[0], nwrap(s.skip(1), x))];
        assert(nsvf(f) =~= seq![(s[0], wrap(s.skip(1), nsv(x)))]);
    }
}
// ---- folded keys ---------------------------------------------------------------------------------------
proof fn l_ident_nodot(s: Seq<char>) requires ident_seg(s) ensures !s.contains('.'), unq_key(s)
{ if s.contains('.') { let i = choose|i: int| 0 <= i < s.len() && s[i] == '.'; if i == 0 { assert(is_alpha_us(s[0])); } else { assert(is_alnum_us(s[i])); } } }
/// identifiers joined by dots: an unquoted key that splits into them again
proof fn l_join_ident(c: Seq<Seq<char>>)
    requires c.len() > 0, idents(c)
    ensures unq_key(join(c, '.')), c.len() >= 2 ==> join(c, '.').contains('.'), split_on(join(c, '.'), '.') == c
    decreases c.len()
{
    assert forall|i: int| 0 <= i < c.len() implies !(#[trigger] c[i]).contains('.') by { assert(ident_seg(c[i])); l_ident_nodot(c[i]); }
    l_lines(c, '.');
    assert(ident_seg(c[0])); assert(ident_seg(c[c.len() - 1]));
    l_ident_nodot(c[0]);
    if c.len() >= 2 {
        let g = c.drop_last(); let a = join(g, '.'); let z = join(c, '.');
        assert forall|i: int| 0 <= i < g.len() implies ident_seg(#[trigger] g[i]) by { assert(ident_seg(c[i])); }
        l_join_ident(g);
        assert(z == a + seq!['.'] + c.last());
        assert(z[a.len() as int] == '.');
        assert(z[0] == a[0]);
        assert forall|i: int| 1 <= i < z.len() implies is_alnum_us(#[trigger] z[i]) || z[i] == '.' by {
            if i < a.len() { assert(z[i] == a[i]); }
            else if i > a.len() { let j = i - a.len() - 1; assert(z[i] == c.last()[j]); if j == 0 { assert(is_alpha_us(c.last()[0])); } }
        }
    }
}
/// a chain keeps what is at its end
proof fn l_chain_keeps(s: Seq<Seq<char>>, v: SV, max: nat)
    ensures nrm(v) == v ==> nrm(chain(s, v, max).1) == chain(s, v, max).1, uniq(v) ==> uniq(chain(s, v, max).1), nodots(v) ==> nodots(chain(s, v, max).1)
    decreases v
{ match v { SV::Obj(f) => if s.len() < max && f.len() == 1 {
    l_chain_keeps(s.push(f[0].0), f[0].1, max);
    if nrm(v) == v { assert(nrmf(f)[0] == f[0]); }
    if uniq(v) { assert(uniq(f[0].1)); }
    if nodots(v) { assert(nodots(f[0].1)); }
  }, _ => {} } }
/// and is the value under its keys
proof fn l_chain_canon(s: Seq<Seq<char>>, v: SV, max: nat)
    ensures canon(v) == wrap(chain(s, v, max).0.skip(s.len() as int), canon(chain(s, v, max).1))
    decreases v
{
    let c = chain(s, v, max);
    l_chain(s, v, max);
    match v {
        SV::Obj(f) => if s.len() < max && f.len() == 1 {
            let t = s.push(f[0].0);
            l_chain(t, f[0].1, max);
            l_chain_canon(t, f[0].1, max);
            let r = c.0.skip(s.len() as int);
            assert(c.0[s.len() as int] == t[s.len() as int]);
            assert(r[0] == f[0].0);
            assert(r.skip(1) =~= c.0.skip(t.len() as int));
            assert(canon(v)->Obj_0 =~= seq![(f[0].0, canon(f[0].1))]);
        } else { assert(c.0.skip(s.len() as int) =~= Seq::empty()); },
        _ => { assert(c.0.skip(s.len() as int) =~= Seq::empty()); }
    }
}
// ---- one member -------------------------------------------------------------------------------------------
/// member g of the layout stands for the path s down from key k with value c
pub open spec fn fok_s(s: Seq<Seq<char>>, g: LF, k: Seq<char>, c: SV, strict: bool, dep: int) -> bool {
    &&& s.len() >= 1 && s[0] == k && dep + 1 + s.len() < max_x()
    &&& x_val(node(tr(g.1)), strict, dep + 1) is Some
    &&& c == wrap(s.skip(1), nsv(x_val(node(tr(g.1)), strict, dep + 1)->0))
    &&& if s.len() == 1 { g.0 == k && !k.contains('.') } else { idents(s) && g.0 == join(s, '.') }
}
pub open spec fn fok(g: LF, k: Seq<char>, c: SV, strict: bool, dep: int) -> bool { exists|s: Seq<Seq<char>>| fok_s(s, g, k, c, strict, dep) }
proof fn l_fresh_path(s: Seq<Seq<char>>, x: NV, strict: bool, dep: int)
    requires s.len() > 0, dep + s.len() < max_x()
    ensures x_path(Seq::empty(), s, x, strict, dep) == Some(seq![(s[0], nwrap(s.skip(1), x))])
    decreases s.len()
{
    let e = Seq::<NF>::empty();
    l_fidx_none(e, s[0]);
    if s.len() == 1 { assert(e.push((s[0], x)) =~= seq![(s[0], nwrap(s.skip(1), x))]); }
    else {
        let r = s.skip(1);
        l_fresh_path(r, x, strict, dep + 1);
        assert(e.push((s[0], NV::Obj(seq![(r[0], nwrap(r.skip(1), x))], Set::empty()))) =~= seq![(s[0], nwrap(r, x))]);
    }
}
proof fn l_member(t: Seq<NF>, g: LF, k: Seq<char>, c: SV, q: Set<Seq<char>>, strict: bool, dep: int)
    requires fok(g, k, c, strict, dep), fidx(t, k) is None, q.contains(g.0) ==> !unq_key(g.0)
    ensures x_val(node(tr(g.1)), strict, dep + 1) is Some,
      ({ let m = x_member(t, g.0, x_val(node(tr(g.1)), strict, dep + 1)->0, q, strict, dep);
         m is Some && m->0.len() == t.len() + 1 && m->0.drop_last() == t && m->0.last().0 == k && nsv(m->0.last().1) == c })
{
    let s = choose|s: Seq<Seq<char>>| fok_s(s, g, k, c, strict, dep);
    let x = x_val(node(tr(g.1)), strict, dep + 1)->0;
    let r = s.skip(1);
    l_nwrap(r, x);
    if s.len() == 1 {
        assert(!is_path(g.0, q));
        assert(t.push((k, x)).drop_last() =~= t);
    } else {
        l_join_ident(s);
        assert forall|i: int| 0 <= i < s.len() implies ident_seg(#[trigger] s[i]) by {}
        assert(is_path(g.0, q));
        l_fresh_path(r, x, strict, dep + 2);
        assert(x_path(t, s, x, strict, dep + 1) == Some(t.push((k, NV::Obj(seq![(r[0], nwrap(r.skip(1), x))], Set::empty())))));
        assert(nwrap(r, x) == NV::Obj(seq![(r[0], nwrap(r.skip(1), x))], Set::empty()));
        assert(t.push((k, nwrap(r, x))).drop_last() =~= t);
    }
}
/// all members
pub open spec fn foks(g: Seq<LF>, f: Seq<SF>, strict: bool, dep: int) -> bool
{ g.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> fok(g[i], (#[trigger] f[i]).0, canon(f[i].1), strict, dep) }
proof fn l_obj(g: Seq<LF>, f: Seq<SF>, d: Seq<DF>, q: Set<Seq<char>>, strict: bool, dep: int)
    requires foks(g, f, strict, dep), keys_of(f).no_duplicates(), d.len() == g.len(),
      forall|i: int| 0 <= i < g.len() ==> (#[trigger] d[i]).0 == g[i].0 && d[i].2 == tr(g[i].1),
      forall|k: Seq<char>| q.contains(k) ==> !#[trigger] unq_key(k)
    ensures x_obj(nodef(d), q, strict, dep) is Some, ({ let t = x_obj(nodef(d), q, strict, dep)->0;
      t.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] t[i]).0 == f[i].0 && nsv(t[i].1) == canon(f[i].1) })
    decreases f.len()
{
    if f.len() > 0 {
        let n = f.len() - 1; let g1 = g.drop_last(); let f1 = f.drop_last(); let d1 = d.drop_last();
        assert(foks(g1, f1, strict, dep)) by { assert forall|i: int| 0 <= i < f1.len() implies fok(g1[i], (#[trigger] f1[i]).0, canon(f1[i].1), strict, dep) by { assert(f1[i] == f[i]); assert(fok(g[i], f[i].0, canon(f[i].1), strict, dep)); } }
        assert(keys_of(f1).no_duplicates()) by { assert(keys_of(f1) =~= keys_of(f).drop_last()); }
        assert forall|i: int| 0 <= i < g1.len() implies (#[trigger] d1[i]).0 == g1[i].0 && d1[i].2 == tr(g1[i].1) by { assert(d1[i] == d[i]); }
        l_obj(g1, f1, d1, q, strict, dep);
        let t = x_obj(nodef(d1), q, strict, dep)->0;
        let k = f[n].0;
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 != k by { assert(t[j].0 == f1[j].0); assert(keys_of(f)[j] == f[j].0); assert(keys_of(f)[n] == k); }
        l_fidx_none(t, k);
        assert(fok(g[n], f[n].0, canon(f[n].1), strict, dep));
        l_member(t, g[n], k, canon(f[n].1), q, strict, dep);
        assert(d[n].0 == g[n].0);
        assert(nodef(d) == nodef(d1).push((g[n].0, node(tr(g[n].1)))));
        assert(nodef(d).drop_last() =~= nodef(d1));
        let u = x_obj(nodef(d), q, strict, dep)->0;
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] u[i]).0 == f[i].0 && nsv(u[i].1) == canon(f[i].1) by { if i < n { assert(u.drop_last()[i] == t[i]); assert(f1[i] == f[i]); } }
    }
}
proof fn l_quoted(f: Seq<LF>, k: Seq<char>)
    ensures quoted(trf(f)).contains(k) ==> !unq_key(k)
    decreases f.len()
{
    e_trf(f);
    if f.len() > 0 { l_quoted(f.drop_last(), k); e_trf(f.drop_last()); assert(trf(f).drop_last() =~= trf(f.drop_last())); }
}
/// an object of the layout expands to the members it was made from
proof fn l_lobj(g: Seq<LF>, f: Seq<SF>, strict: bool, dep: int)
    requires foks(g, f, strict, dep + 1), keys_of(f).no_duplicates(), dep + 1 < max_x()
    ensures x_val(node(tr(LV::Obj(g))), strict, dep) is Some, nsv(x_val(node(tr(LV::Obj(g))), strict, dep)->0) == canon(SV::Obj(f))
{
    let v = LV::Obj(g);
    e_tr(v); e_trf(g);
    let d = trf(g);
    assert forall|k: Seq<char>| quoted(d).contains(k) implies !#[trigger] unq_key(k) by { l_quoted(g, k); }
    l_obj(g, f, d, quoted(d), strict, dep + 1);
    let t = x_obj(nodef(d), quoted(d), strict, dep + 1)->0;
    assert(nsvf(t) =~= canon(SV::Obj(f))->Obj_0);
}
// ---- every value ------------------------------------------------------------------------------------------
pub open spec fn good(v: SV) -> bool { nrm(v) == v && small(v) && uniq(v) && nodots(v) }
proof fn g_item(a: Seq<SV>, i: int) requires good(SV::Arr(a)), 0 <= i < a.len() ensures good(a[i]) { assert(nrms(a)[i] == a[i]); assert(small(a[i]) && uniq(a[i]) && nodots(a[i])); }
proof fn g_field(f: Seq<SF>, i: int) requires good(SV::Obj(f)), 0 <= i < f.len() ensures good(f[i].1), !f[i].0.contains('.') { assert(nrmf(f)[i] == f[i]); assert(small(f[i].1) && uniq(f[i].1) && nodots(f[i].1)); }
pub open spec fn fits(v: SV, dep: int) -> bool { dep + 2 * ht(v) + 3 <= max_x() }
pub open spec fn back(l: LV, c: SV, strict: bool, dep: int) -> bool { x_val(node(tr(l)), strict, dep) is Some && nsv(x_val(node(tr(l)), strict, dep)->0) == c }
proof fn f_prims(a: Seq<SV>, strict: bool, dep: int)
    requires is_prims(a), good(SV::Arr(a)), dep + 1 < max_x()
    ensures back(LV::Inl(prims_of(a)), SV::Arr(canon_is(a)), strict, dep)
{
    let l = LV::Inl(prims_of(a));
    assert(nrms(a) == a);
    e_wf(l); l_val(l); l_prims_canon(a); e_tr(l);
    let n = node(tr(l)); let x = prim_items(norm_sps(prims_of(a)));
    l_nodes(x);
    assert(plain(n, dep)) by { assert forall|i: int| 0 <= i < nodes(x).len() implies plain(#[trigger] nodes(x)[i], dep + 1) by { assert(x[i] is Prim); assert(nodes(x)[i] == node(x[i])); } }
    l_plain(n, strict, dep); thm_strip(n);
}
proof fn f_rows(a: Seq<SV>, strict: bool, dep: int)
    requires tabular(a), good(SV::Arr(a)), dep + 4 < max_x()
    ensures back(LV::Tab(cols_of(a), rows_of(a)), SV::Arr(Seq::new(a.len(), |i: int| row_obj(a[i], cols_of(a)))), strict, dep)
{
    let h = cols_of(a); let r = rows_of(a);
    let l = LV::Tab(h, r);
    assert(nrms(a) == a);
    e_wf(l);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == h.len() by {}
    l_val(l); v_rows(a); e_tr(l);
    assert(uniq(a[0])); assert(h.no_duplicates());
    assert(nodots(a[0]));
    let x = tr(l)->Arr_1; let n = node(tr(l));
    l_nodes(x);
    assert(plain(n, dep)) by {
        assert forall|i: int| 0 <= i < nodes(x).len() implies plain(#[trigger] nodes(x)[i], dep + 1) by {
            let d = row_fields(qflags(h), norm_sps(r[i]));
            assert(x[i] == DV::Obj(d));
            l_nodef(d);
            let f = nodef(d); let q = quoted(d);
            assert forall|j: int| 0 <= j < f.len() implies !is_path((#[trigger] f[j]).0, q) && plain(f[j].1, dep + 3) by { assert(f[j] == (d[j].0, node(d[j].2))); assert(d[j].0 == h[j]); assert(h[j] == a[0]->Obj_0[j].0); assert(d[j].2 is Prim); }
            assert forall|j: int, m: int| 0 <= j < m < f.len() implies (#[trigger] f[j]).0 != (#[trigger] f[m]).0 by { assert(f[j].0 == h[j] && f[m].0 == h[m]) by { assert(f[j] == (d[j].0, node(d[j].2))); assert(f[m] == (d[m].0, node(d[m].2))); } }
        }
    }
    l_plain(n, strict, dep); thm_strip(n);
}
pub proof fn f_val(v: SV, s: FS, o: EO, strict: bool, dep: int)
    requires good(v), fits(v, dep)
    ensures back(lay_v(v, s, o), canon(v), strict, dep)
    decreases ht(v), 1int, 0int
{
    let l = lay_v(v, s, o);
    match v {
        SV::Prim(p) => { e_tr(l); },
        SV::Arr(a) => if is_prims(a) { f_prims(a, strict, dep); } else if tabular(a) { assert(ht(a[0]) <= hts(a)) by { l_hts(a, 0); } f_rows(a, strict, dep); } else { f_list(a, o, strict, dep); },
        SV::Obj(f) => { f_fields(f, keys_of(f), s, o, strict, dep + 1); l_lobj(lay_fields(f, keys_of(f), s, o), f, strict, dep); },
    }
}
proof fn f_list(a: Seq<SV>, o: EO, strict: bool, dep: int)
    requires good(SV::Arr(a)), fits(SV::Arr(a), dep)
    ensures back(LV::Lst(lay_items(a, o)), SV::Arr(canon_is(a)), strict, dep)
    decreases 1 + hts(a), 0int, 1int
{
    let l = LV::Lst(lay_items(a, o));
    e_tr(l);
    assert forall|i: int| 0 <= i < a.len() implies good(#[trigger] a[i]) by { g_item(a, i); }
    f_items(a, o, strict, dep);
    let b = x_vals(nodes(trs(lay_items(a, o))), strict, dep)->0;
    assert(nsvs(b) =~= canon_is(a));
}
proof fn f_items(a: Seq<SV>, o: EO, strict: bool, dep: int)
    requires forall|i: int| 0 <= i < a.len() ==> good(#[trigger] a[i]), dep + 2 * hts(a) + 4 <= max_x()
    ensures x_vals(nodes(trs(lay_items(a, o))), strict, dep) is Some,
      ({ let b = x_vals(nodes(trs(lay_items(a, o))), strict, dep)->0; b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> nsv(#[trigger] b[i]) == canon_i(a[i]) })
    decreases hts(a), 3int, a.len()
{
    let l = lay_items(a, o);
    e_trs(l);
    if a.len() > 0 {
        let g = a.drop_last(); let n = a.len() - 1;
        assert forall|i: int| 0 <= i < g.len() implies good(#[trigger] g[i]) by { assert(good(a[i])); }
        f_items(g, o, strict, dep);
        assert(good(a[n]));
        f_item(a[n], o, strict, dep + 1);
        let m = lay_items(g, o);
        e_trs(m);
        assert(l == m.push(lay_item(a[n], o)));
        assert(trs(l) =~= trs(m).push(tr(lay_item(a[n], o))));
        assert(trs(l).drop_last() =~= trs(m));
        assert(nodes(trs(l)).drop_last() =~= nodes(trs(m)));
        let b = x_vals(nodes(trs(l)), strict, dep)->0; let c = x_vals(nodes(trs(m)), strict, dep)->0;
        assert forall|i: int| 0 <= i < a.len() implies nsv(#[trigger] b[i]) == canon_i(a[i]) by { if i < n { assert(b[i] == c[i]); assert(g[i] == a[i]); } }
    } else { assert(trs(l) =~= Seq::empty()); }
}
proof fn f_item(v: SV, o: EO, strict: bool, dep: int)
    requires good(v), fits(v, dep)
    ensures back(lay_item(v, o), canon_i(v), strict, dep)
    decreases ht(v), 2int, 0int
{
    match v {
        SV::Prim(p) => { e_tr(lay_item(v, o)); },
        SV::Arr(a) => if is_prims(a) { f_prims(a, strict, dep); } else { f_list(a, o, strict, dep); },
        SV::Obj(f) => {
            let g = lay_iobj(f, o);
            l_lay_iobj(f, o);
            assert forall|i: int| 0 <= i < f.len() implies fok(g[i], (#[trigger] f[i]).0, canon(f[i].1), strict, dep + 1) by {
                assert(g[i] == iobj_at(f, i, o));
                l_htf(f, i); g_field(f, i);
                if i == 0 {
                    f_val(f[0].1, fs0(o), o, strict, dep + 2);
                    assert(seq![f[0].0].skip(1) =~= Seq::empty());
                    assert(fok_s(seq![f[0].0], g[0], f[0].0, canon(f[0].1), strict, dep + 1));
                } else { f_field(f[i].0, f[i].1, keys_of(f), fs0(o), o, strict, dep + 1); }
            }
            l_lobj(g, f, strict, dep);
        },
    }
}
proof fn f_fields(f: Seq<SF>, sib: Seq<Seq<char>>, s: FS, o: EO, strict: bool, dep: int)
    requires good(SV::Obj(f)), dep + 2 * htf(f) + 4 <= max_x()
    ensures foks(lay_fields(f, sib, s, o), f, strict, dep)
    decreases htf(f), 3int, 0int
{
    l_lay_fields(f, sib, s, o);
    let g = lay_fields(f, sib, s, o);
    assert forall|i: int| 0 <= i < f.len() implies fok(g[i], (#[trigger] f[i]).0, canon(f[i].1), strict, dep) by {
        assert(g[i] == lay_field(f[i].0, f[i].1, sib, s, o));
        l_htf(f, i); g_field(f, i);
        f_field(f[i].0, f[i].1, sib, s, o, strict, dep);
    }
}
proof fn f_field(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO, strict: bool, dep: int)
    requires good(v), !k.contains('.'), dep + 2 * ht(v) + 4 <= max_x()
    ensures fok(lay_field(k, v, sib, s, o), k, canon(v), strict, dep)
    decreases ht(v), 2int, 0int
{
    let c = chain(seq![k], v, s.rem);
    let g = lay_field(k, v, sib, s, o);
    l_chain(seq![k], v, s.rem); l_small_chain(seq![k], v, s.rem); l_chain_keeps(seq![k], v, s.rem);
    if can_fold(k, v, sib, s, o) {
        f_val(c.1, FS { lits: s.lits, pre: Some(dotted(s.pre, join(c.0, '.'))), rem: (s.rem - c.0.len()) as nat }, o, strict, dep + 1);
        l_chain_canon(seq![k], v, s.rem);
        assert(c.0[0] == seq![k][0]);
        assert(fok_s(c.0, g, k, canon(v), strict, dep));
    } else {
        f_val(v, FS { lits: s.lits, pre: Some(dotted(s.pre, k)), rem: s.rem }, o, strict, dep + 1);
        assert(seq![k].skip(1) =~= Seq::empty());
        assert(fok_s(seq![k], g, k, canon(v), strict, dep));
    }
}
proof fn l_nrm_nodots(v: SV) requires nodots(v) ensures nodots(nrm(v)) decreases v
{
    match v {
        SV::Prim(p) => {},
        SV::Arr(a) => { let b = nrms(a); assert forall|i: int| 0 <= i < b.len() implies nodots(#[trigger] b[i]) by { assert(nodots(a[i])); l_nrm_nodots(a[i]); } },
        SV::Obj(f) => { let b = nrmf(f); assert forall|i: int| 0 <= i < b.len() implies !(#[trigger] b[i]).0.contains('.') && nodots(b[i].1) by { assert(nodots(f[i].1)); l_nrm_nodots(f[i].1); } },
    }
}
proof fn l_nrm_ht(v: SV) ensures ht(nrm(v)) == ht(v) decreases v
{ match v { SV::Prim(p) => {}, SV::Arr(a) => { l_nrms_hts(a); }, SV::Obj(f) => { l_nrmf_htf(f); } } }
proof fn l_nrms_hts(a: Seq<SV>) ensures hts(nrms(a)) == hts(a) decreases a
{ if a.len() > 0 { l_nrms_hts(a.drop_last()); l_nrm_ht(a.last()); assert(nrms(a).drop_last() =~= nrms(a.drop_last())); assert(nrms(a).last() == nrm(a.last())); } }
proof fn l_nrmf_htf(a: Seq<SF>) ensures htf(nrmf(a)) == htf(a) decreases a
{ if a.len() > 0 { l_nrmf_htf(a.drop_last()); l_nrm_ht(a.last().1); assert(nrmf(a).drop_last() =~= nrmf(a.drop_last())); assert(nrmf(a).last() == (a.last().0, nrm(a.last().1))); } }
/// C06: whatever folding and flatten depth were used to encode, decoding with path expansion gives the value
pub proof fn thm_fold(v: SV, o: EO, w: nat, strict: bool)
    requires small(v), uniq(v), nodots(v), ht(v) <= 120, delim_ok(o.d), w > 0
    ensures dec_text(join(enc_lines(nrm(v), o, w), '\n'), w, strict, true) == Some(canon(nrm(v))), same(nrm(v), canon(nrm(v)))
{
    let u = nrm(v);
    l_nrm(v); l_nrm_small(v); l_nrm_uniq(v); l_nrm_nodots(v); l_nrm_ht(v);
    let s = FS { lits: match u { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat };
    w_lay(u, s, o);
    assert(max_x() == 256);
    f_val(u, s, o, strict, 0);
    thm_text(lay_root(u, o), o.d, w, strict);
    thm_same(v);
}
// ---- folding alone: no member merged, dropped or overwritten --------------------------------------------------
/// u is v with some chains of single-member objects written as one dotted key
pub open spec fn folds(u: SV, v: SV) -> bool decreases u, 0int
{
    match (u, v) {
        (SV::Prim(p), SV::Prim(q)) => p == q,
        (SV::Arr(a), SV::Arr(b)) => a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> folds(#[trigger] a[i], b[i]),
        (SV::Obj(f), SV::Obj(g)) => f.len() == g.len() && forall|i: int| 0 <= i < f.len() ==> folds1((#[trigger] f[i]).0, f[i].1, g[i]),
        _ => false,
    }
}
/// the member k: u is member m, its path shortened to one key
pub open spec fn folds1(k: Seq<char>, u: SV, m: SF) -> bool decreases u, 1int
{ exists|s: Seq<Seq<char>>, x: SV| #[trigger] under(s, x, k, m) && folds(u, x) }
/// member m is x under the path s, whose dotted form is k
pub open spec fn under(s: Seq<Seq<char>>, x: SV, k: Seq<char>, m: SF) -> bool
{ s.len() >= 1 && s[0] == m.0 && k == join(s, '.') && m.1 == wrap(s.skip(1), x) }
proof fn l_under1(k: Seq<char>, x: SV) ensures under(seq![k], x, k, (k, x)) { assert(seq![k].skip(1) =~= Seq::empty()); }
proof fn l_folds_self(v: SV) ensures folds(v, v) decreases v
{
    match v {
        SV::Prim(_) => {},
        SV::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies folds(#[trigger] a[i], a[i]) by { l_folds_self(a[i]); } },
        SV::Obj(f) => { assert forall|i: int| 0 <= i < f.len() implies folds1((#[trigger] f[i]).0, f[i].1, f[i]) by {
            l_folds_self(f[i].1); l_under1(f[i].0, f[i].1); assert(f[i] == (f[i].0, f[i].1)); assert(under(seq![f[i].0], f[i].1, f[i].0, f[i])); } },
    }
}
/// what key a member of the layout may have: its own, or a folded one no sibling has
pub open spec fn lkey_s(s: Seq<Seq<char>>, g: LF, k: Seq<char>, sib: Seq<Seq<char>>) -> bool
{ s.len() >= 1 && s[0] == k && g.0 == join(s, '.') && (s.len() == 1 || (idents(s) && !has_key(sib, g.0))) }
pub open spec fn lkey(g: LF, k: Seq<char>, sib: Seq<Seq<char>>) -> bool { exists|s: Seq<Seq<char>>| lkey_s(s, g, k, sib) }
proof fn l_lkeys(g: LF, k: Seq<char>, h: LF, m: Seq<char>, sib: Seq<Seq<char>>)
    requires lkey(g, k, sib), lkey(h, m, sib), k != m, has_key(sib, k), has_key(sib, m)
    ensures g.0 != h.0
{
    let s = choose|s: Seq<Seq<char>>| lkey_s(s, g, k, sib);
    let t = choose|s: Seq<Seq<char>>| lkey_s(s, h, m, sib);
    if s.len() >= 2 && t.len() >= 2 { l_join_ident(s); l_join_ident(t); }
}
/// a member: its key, and what its value says
pub open spec fn kok(g: LF, f: SF, sib: Seq<Seq<char>>) -> bool
{ lkey(g, f.0, sib) && uniq(dsv(tr(g.1))) && folds1(g.0, dsv(tr(g.1)), (f.0, canon(f.1))) }
pub open spec fn okv(v: SV) -> bool { nrm(v) == v && small(v) && uniq(v) }
proof fn o_item(a: Seq<SV>, i: int) requires okv(SV::Arr(a)), 0 <= i < a.len() ensures okv(a[i]) { assert(nrms(a)[i] == a[i]); assert(small(a[i]) && uniq(a[i])); }
proof fn o_field(f: Seq<SF>, i: int) requires okv(SV::Obj(f)), 0 <= i < f.len() ensures okv(f[i].1) { assert(nrmf(f)[i] == f[i]); assert(small(f[i].1) && uniq(f[i].1)); }
pub open spec fn kept(l: LV, c: SV) -> bool { wf(l) && uniq(dsv(tr(l))) && folds(dsv(tr(l)), c) }
proof fn k_obj(g: Seq<LF>, f: Seq<SF>)
    requires g.len() == f.len(), keys_of(f).no_duplicates(), wf(LV::Obj(g)), forall|i: int| 0 <= i < f.len() ==> kok(g[i], #[trigger] f[i], keys_of(f))
    ensures kept(LV::Obj(g), canon(SV::Obj(f)))
{
    let l = LV::Obj(g); let k = keys_of(f);
    l_val(l);
    let u = dsv(tr(l))->Obj_0; let c = canon(SV::Obj(f))->Obj_0;
    assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies keys_of(u)[i] != keys_of(u)[j] by {
        assert(kok(g[i], f[i], k)); assert(kok(g[j], f[j], k));
        assert(k[i] == f[i].0 && k[j] == f[j].0);
        l_lkeys(g[i], f[i].0, g[j], f[j].0, k);
    }
    assert forall|i: int| 0 <= i < u.len() implies uniq((#[trigger] u[i]).1) by { assert(kok(g[i], f[i], k)); }
    assert forall|i: int| 0 <= i < u.len() implies folds1((#[trigger] u[i]).0, u[i].1, c[i]) by { assert(kok(g[i], f[i], k)); assert(c[i] == (f[i].0, canon(f[i].1))); }
}
proof fn k_prims(a: Seq<SV>)
    requires is_prims(a), okv(SV::Arr(a))
    ensures kept(LV::Inl(prims_of(a)), SV::Arr(canon_is(a)))
{
    let l = LV::Inl(prims_of(a));
    assert(nrms(a) == a);
    e_wf(l); l_val(l); l_prims_canon(a); l_folds_self(SV::Arr(a));
}
proof fn k_rows(a: Seq<SV>)
    requires tabular(a), okv(SV::Arr(a))
    ensures kept(LV::Tab(cols_of(a), rows_of(a)), SV::Arr(Seq::new(a.len(), |i: int| row_obj(a[i], cols_of(a)))))
{
    let h = cols_of(a); let r = rows_of(a);
    let l = LV::Tab(h, r);
    assert(nrms(a) == a);
    e_wf(l);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == h.len() by {}
    l_val(l); v_rows(a);
    assert(uniq(a[0])); assert(h.no_duplicates());
    let u = dsv(tr(l))->Arr_0;
    assert forall|i: int| 0 <= i < u.len() implies uniq(#[trigger] u[i]) by { let x = u[i]->Obj_0; assert(keys_of(x) =~= h); assert forall|j: int| 0 <= j < x.len() implies uniq((#[trigger] x[j]).1) by { assert(x[j].1 is Prim); } }
    l_folds_self(dsv(tr(l)));
}
pub proof fn k_val(v: SV, s: FS, o: EO)
    requires okv(v)
    ensures kept(lay_v(v, s, o), canon(v))
    decreases ht(v), 1int, 0int
{
    let l = lay_v(v, s, o);
    w_lay(v, s, o);
    match v {
        SV::Prim(p) => { l_val(l); },
        SV::Arr(a) => if is_prims(a) { k_prims(a); } else if tabular(a) { k_rows(a); } else { k_list(a, o); },
        SV::Obj(f) => {
            let g = lay_fields(f, keys_of(f), s, o);
            l_lay_fields(f, keys_of(f), s, o);
            assert forall|i: int| 0 <= i < f.len() implies kok(g[i], #[trigger] f[i], keys_of(f)) by {
                assert(g[i] == lay_field(f[i].0, f[i].1, keys_of(f), s, o));
                l_htf(f, i); o_field(f, i);
                k_field(f[i].0, f[i].1, keys_of(f), s, o);
            }
            k_obj(g, f);
        },
    }
}
proof fn k_list(a: Seq<SV>, o: EO)
    requires okv(SV::Arr(a)), wf(LV::Lst(lay_items(a, o)))
    ensures kept(LV::Lst(lay_items(a, o)), SV::Arr(canon_is(a)))
    decreases 1 + hts(a), 0int, 1int
{
    let l = LV::Lst(lay_items(a, o)); let m = lay_items(a, o);
    l_val(l); l_lay_items(a, o);
    let u = dsv(tr(l))->Arr_0; let c = canon_is(a);
    assert forall|i: int| 0 <= i < a.len() implies uniq(#[trigger] u[i]) && folds(u[i], c[i]) by {
        assert(m[i] == lay_item(a[i], o)); l_hts(a, i); o_item(a, i);
        e_wf(l); e_wfs(m); assert(wf(m[i]));
        k_item(a[i], o);
        assert(u[i] == dsv(tr(m[i]))); assert(c[i] == canon_i(a[i]));
    }
}
proof fn k_item(v: SV, o: EO)
    requires okv(v), wf(lay_item(v, o))
    ensures kept(lay_item(v, o), canon_i(v))
    decreases ht(v), 2int, 0int
{
    let l = lay_item(v, o);
    match v {
        SV::Prim(p) => { l_val(l); },
        SV::Arr(a) => if is_prims(a) { k_prims(a); } else { k_list(a, o); },
        SV::Obj(f) => {
            let g = lay_iobj(f, o);
            l_lay_iobj(f, o);
            assert forall|i: int| 0 <= i < f.len() implies kok(g[i], #[trigger] f[i], keys_of(f)) by {
                assert(g[i] == iobj_at(f, i, o));
                l_htf(f, i); o_field(f, i);
                if i == 0 {
                    k_val(f[0].1, fs0(o), o);
                    l_under1(f[0].0, canon(f[0].1));
                    assert(under(seq![f[0].0], canon(f[0].1), g[0].0, (f[0].0, canon(f[0].1))));
                    assert(lkey_s(seq![f[0].0], g[0], f[0].0, keys_of(f)));
                } else { k_field(f[i].0, f[i].1, keys_of(f), fs0(o), o); }
            }
            k_obj(g, f);
        },
    }
}
proof fn k_field(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO)
    requires okv(v)
    ensures kok(lay_field(k, v, sib, s, o), (k, v), sib)
    decreases ht(v), 2int, 0int
{
    let c = chain(seq![k], v, s.rem);
    let g = lay_field(k, v, sib, s, o);
    l_chain(seq![k], v, s.rem); l_small_chain(seq![k], v, s.rem); l_chain_keeps(seq![k], v, s.rem);
    if can_fold(k, v, sib, s, o) {
        k_val(c.1, FS { lits: s.lits, pre: Some(dotted(s.pre, join(c.0, '.'))), rem: (s.rem - c.0.len()) as nat }, o);
        l_chain_canon(seq![k], v, s.rem);
        assert(c.0[0] == seq![k][0]);
        assert(lkey_s(c.0, g, k, sib));
        assert(under(c.0, canon(c.1), g.0, (k, canon(v))));
    } else {
        k_val(v, FS { lits: s.lits, pre: Some(dotted(s.pre, k)), rem: s.rem }, o);
        l_under1(k, canon(v));
        assert(lkey_s(seq![k], g, k, sib));
        assert(under(seq![k], canon(v), g.0, (k, canon(v))));
    }
}
/// C06: read without expansion, a folded text is the value with chains under dotted keys: members and elements are all there, and no object has a key twice
pub proof fn thm_fold_keys(v: SV, o: EO, w: nat, strict: bool)
    requires small(v), uniq(v), delim_ok(o.d), w > 0
    ensures dec_text(join(enc_lines(nrm(v), o, w), '\n'), w, strict, false) is Some,
      ({ let u = dec_text(join(enc_lines(nrm(v), o, w), '\n'), w, strict, false)->0; uniq(u) && folds(u, canon(nrm(v))) })
{
    let u = nrm(v);
    l_nrm(v); l_nrm_small(v); l_nrm_uniq(v);
    let s = FS { lits: match u { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat };
    w_lay(u, s, o);
    k_val(u, s, o);
    thm_text(lay_root(u, o), o.d, w, strict);
}
} // verus!
}
