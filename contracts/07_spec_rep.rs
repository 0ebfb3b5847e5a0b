/// The replacer: the calls made and what the tree becomes, as the documentation states it.
pub mod vspec_rep {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_enc::*;
verus! {
broadcast use vstd::group_vstd_default;
/// one step of a path
pub enum PS { Key(Seq<char>), Idx(nat) }
/// one call of the replacer (key, value, path) and its answer
pub struct RC { pub k: Seq<char>, pub v: SV, pub p: Seq<PS>, pub a: Option<SV> }
/// the calls so far
pub tracked struct RpLog { pub ghost l: Seq<RC> }
/// The traversal of the children of v, whose calls are l from i on: the new value, and where its calls end.
/// None: the calls are not the documented ones.
pub open spec fn rp_v(v: SV, p: Seq<PS>, l: Seq<RC>, i: int) -> Option<(SV, int)> decreases l.len() - i, 1int, 0int
{
    match v {
        SV::Prim(_) => Some((v, i)),
        SV::Arr(a) => match rp_a(a, p, l, i) { None => None, Some(x) => Some((SV::Arr(x.0), x.1)) },
        SV::Obj(f) => match rp_f(f, p, l, i) { None => None, Some(x) => Some((SV::Obj(x.0), x.1)) },
    }
}
/// call j is for this key, value and path
pub open spec fn rp_is(l: Seq<RC>, j: int, k: Seq<char>, v: SV, p: Seq<PS>) -> bool { 0 <= j < l.len() && l[j].k == k && l[j].v == v && l[j].p == p }
pub open spec fn rp_f(f: Seq<SF>, p: Seq<PS>, l: Seq<RC>, i: int) -> Option<(Seq<SF>, int)> decreases l.len() - i, 0int, f.len()
{
    if f.len() == 0 { Some((Seq::empty(), i)) } else {
        match rp_f(f.drop_last(), p, l, i) {
            None => None,
            Some(x) => { let j = x.1; let q = p.push(PS::Key(f.last().0));
                if j < i || !rp_is(l, j, f.last().0, f.last().1, q) { None } else {
                    match l[j].a { None => Some((x.0, j + 1)), Some(a) => match rp_v(nrm(a), q, l, j + 1) { None => None, Some(y) => Some((x.0.push((f.last().0, y.0)), y.1)) } } } },
        }
    }
}
pub open spec fn rp_a(a: Seq<SV>, p: Seq<PS>, l: Seq<RC>, i: int) -> Option<(Seq<SV>, int)> decreases l.len() - i, 0int, a.len()
{
    if a.len() == 0 { Some((Seq::empty(), i)) } else {
        match rp_a(a.drop_last(), p, l, i) {
            None => None,
            Some(x) => { let j = x.1; let n = (a.len() - 1) as nat; let q = p.push(PS::Idx(n));
                if j < i || !rp_is(l, j, show_nat(n), a.last(), q) { None } else {
                    match l[j].a { None => Some((x.0, j + 1)), Some(b) => match rp_v(nrm(b), q, l, j + 1) { None => None, Some(y) => Some((x.0.push(y.0), y.1)) } } } },
        }
    }
}
/// the whole: the root first, with an empty key and path; no answer there keeps the original
pub open spec fn rp_root(v: SV, l: Seq<RC>, i: int) -> Option<(SV, int)>
{
    if !rp_is(l, i, Seq::empty(), v, Seq::empty()) { None } else { rp_v(match l[i].a { Some(a) => nrm(a), None => v }, Seq::empty(), l, i + 1) }
}
pub broadcast proof fn l_pre_last(l: Seq<RC>, x: RC, m: Seq<RC>) requires #[trigger] l.push(x).is_prefix_of(m) ensures m.len() > l.len(), m[l.len() as int] == x, l.is_prefix_of(m)
{ assert(l.push(x)[l.len() as int] == x); assert forall|i: int| 0 <= i < l.len() implies l[i] == m[i] by { assert(l.push(x)[i] == l[i]); } }
/// the value that is written: normalised, and through the replacer when there is one
pub open spec fn enc_val(v: SV, rp: bool, x: SV) -> bool
{ if rp { exists|l: Seq<RC>| #[trigger] rp_root(nrm(v), l, 0) == Some((x, l.len() as int)) } else { x == nrm(v) } }
// ---- more calls after the end change nothing ---------------------------------------------------
pub proof fn l_rp_v(v: SV, p: Seq<PS>, l: Seq<RC>, m: Seq<RC>, i: int)
    requires l.is_prefix_of(m), 0 <= i <= l.len(), rp_v(v, p, l, i) is Some
    ensures rp_v(v, p, m, i) == rp_v(v, p, l, i), i <= (rp_v(v, p, l, i)->0).1 <= l.len()
    decreases l.len() - i, 1int, 0int
{ match v { SV::Arr(a) => l_rp_a(a, p, l, m, i), SV::Obj(f) => l_rp_f(f, p, l, m, i), _ => {} } }
pub proof fn l_rp_f(f: Seq<SF>, p: Seq<PS>, l: Seq<RC>, m: Seq<RC>, i: int)
    requires l.is_prefix_of(m), 0 <= i <= l.len(), rp_f(f, p, l, i) is Some
    ensures rp_f(f, p, m, i) == rp_f(f, p, l, i), i <= (rp_f(f, p, l, i)->0).1 <= l.len()
    decreases l.len() - i, 0int, f.len()
{
    if f.len() > 0 {
        l_rp_f(f.drop_last(), p, l, m, i);
        let j = (rp_f(f.drop_last(), p, l, i)->0).1;
        assert(l[j] == m[j]);
        if l[j].a is Some { l_rp_v(nrm(l[j].a->0), p.push(PS::Key(f.last().0)), l, m, j + 1); }
    }
}
pub proof fn l_rp_a(a: Seq<SV>, p: Seq<PS>, l: Seq<RC>, m: Seq<RC>, i: int)
    requires l.is_prefix_of(m), 0 <= i <= l.len(), rp_a(a, p, l, i) is Some
    ensures rp_a(a, p, m, i) == rp_a(a, p, l, i), i <= (rp_a(a, p, l, i)->0).1 <= l.len()
    decreases l.len() - i, 0int, a.len()
{
    if a.len() > 0 {
        l_rp_a(a.drop_last(), p, l, m, i);
        let j = (rp_a(a.drop_last(), p, l, i)->0).1;
        assert(l[j] == m[j]);
        if l[j].a is Some { l_rp_v(nrm(l[j].a->0), p.push(PS::Idx((a.len() - 1) as nat)), l, m, j + 1); }
    }
}
/// one member more
pub proof fn l_rp_f_step(f: Seq<SF>, n: int, p: Seq<PS>, l: Seq<RC>, m: Seq<RC>, i: int)
    requires 0 <= n < f.len(), 0 <= i <= l.len(), rp_f(f.take(n), p, l, i) is Some, (rp_f(f.take(n), p, l, i)->0).1 == l.len(), l.is_prefix_of(m), rp_is(m, l.len() as int, f[n].0, f[n].1, p.push(PS::Key(f[n].0)))
    ensures rp_f(f.take(n + 1), p, m, i) == ({ let o = (rp_f(f.take(n), p, l, i)->0).0; match m[l.len() as int].a { None => Some((o, l.len() as int + 1)), Some(a) => match rp_v(nrm(a), p.push(PS::Key(f[n].0)), m, l.len() as int + 1) { None => None, Some(y) => Some((o.push((f[n].0, y.0)), y.1)) } } })
{ l_rp_f(f.take(n), p, l, m, i); assert(f.take(n + 1).drop_last() =~= f.take(n)); }
pub proof fn l_rp_a_step(a: Seq<SV>, n: int, p: Seq<PS>, l: Seq<RC>, m: Seq<RC>, i: int)
    requires 0 <= n < a.len(), 0 <= i <= l.len(), rp_a(a.take(n), p, l, i) is Some, (rp_a(a.take(n), p, l, i)->0).1 == l.len(), l.is_prefix_of(m), rp_is(m, l.len() as int, show_nat(n as nat), a[n], p.push(PS::Idx(n as nat)))
    ensures rp_a(a.take(n + 1), p, m, i) == ({ let o = (rp_a(a.take(n), p, l, i)->0).0; match m[l.len() as int].a { None => Some((o, l.len() as int + 1)), Some(b) => match rp_v(nrm(b), p.push(PS::Idx(n as nat)), m, l.len() as int + 1) { None => None, Some(y) => Some((o.push(y.0), y.1)) } } })
{ l_rp_a(a.take(n), p, l, m, i); assert(a.take(n + 1).drop_last() =~= a.take(n)); }
// ---- a replacer that answers with the value itself changes nothing -----------------------------
pub open spec fn ident(l: Seq<RC>) -> bool { forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).a == Some(l[j].v) }
pub proof fn thm_ident_v(v: SV, p: Seq<PS>, l: Seq<RC>, i: int)
    requires ident(l), 0 <= i <= l.len(), nrm(v) == v, rp_v(v, p, l, i) is Some
    ensures (rp_v(v, p, l, i)->0).0 == v
    decreases l.len() - i, 1int, 0int
{
    match v {
        SV::Arr(a) => { assert(nrms(a) == a); assert forall|k: int| 0 <= k < a.len() implies nrm(#[trigger] a[k]) == a[k] by { assert(nrms(a)[k] == nrm(a[k])); } thm_ident_a(a, p, l, i); },
        SV::Obj(f) => { assert(nrmf(f) == f); assert forall|k: int| 0 <= k < f.len() implies nrm((#[trigger] f[k]).1) == f[k].1 by { assert(nrmf(f)[k] == (f[k].0, nrm(f[k].1))); } thm_ident_f(f, p, l, i); },
        _ => {}
    }
}
pub proof fn thm_ident_f(f: Seq<SF>, p: Seq<PS>, l: Seq<RC>, i: int)
    requires ident(l), 0 <= i <= l.len(), forall|k: int| 0 <= k < f.len() ==> nrm((#[trigger] f[k]).1) == f[k].1, rp_f(f, p, l, i) is Some
    ensures (rp_f(f, p, l, i)->0).0 == f
    decreases l.len() - i, 0int, f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        assert forall|k: int| 0 <= k < g.len() implies nrm((#[trigger] g[k]).1) == g[k].1 by { assert(g[k] == f[k]); }
        thm_ident_f(g, p, l, i);
        l_rp_f(g, p, l, l, i);
        let j = (rp_f(g, p, l, i)->0).1;
        assert(l[j].a == Some(l[j].v)); assert(nrm(f[f.len() - 1].1) == f.last().1);
        thm_ident_v(f.last().1, p.push(PS::Key(f.last().0)), l, j + 1);
        assert(g.push(f.last()) =~= f);
    } else { assert(f =~= Seq::empty()); }
}
pub proof fn thm_ident_a(a: Seq<SV>, p: Seq<PS>, l: Seq<RC>, i: int)
    requires ident(l), 0 <= i <= l.len(), forall|k: int| 0 <= k < a.len() ==> nrm(#[trigger] a[k]) == a[k], rp_a(a, p, l, i) is Some
    ensures (rp_a(a, p, l, i)->0).0 == a
    decreases l.len() - i, 0int, a.len()
{
    if a.len() > 0 {
        let g = a.drop_last();
        assert forall|k: int| 0 <= k < g.len() implies nrm(#[trigger] g[k]) == g[k] by { assert(g[k] == a[k]); }
        thm_ident_a(g, p, l, i);
        l_rp_a(g, p, l, l, i);
        let j = (rp_a(g, p, l, i)->0).1;
        assert(l[j].a == Some(l[j].v)); assert(nrm(a[a.len() - 1]) == a.last());
        thm_ident_v(a.last(), p.push(PS::Idx((a.len() - 1) as nat)), l, j + 1);
        assert(g.push(a.last()) =~= a);
    } else { assert(a =~= Seq::empty()); }
}
} // verus!
}
