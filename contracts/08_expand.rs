/// Path expansion as a function on nodes.
pub mod vspec_exp {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_tree::*;
use crate::vspec_dec::*;
verus! {
broadcast use vstd::group_vstd_default;

pub open spec fn max_x() -> int { crate::decode::expand::MAX_EXPAND_DEPTH as int }
/// first member with key k
pub open spec fn fidx(f: Seq<NF>, k: Seq<char>) -> Option<int> decreases f.len()
{ if f.len() == 0 { None } else { match fidx(f.drop_last(), k) { Some(i) => Some(i), None => if f.last().0 == k { Some(f.len() - 1) } else { None } } } }
pub open spec fn fields_of(v: NV) -> Seq<NF> { match v { NV::Obj(f, _) => f, _ => Seq::empty() } }
pub open spec fn quotes_of(v: NV) -> Set<Seq<char>> { match v { NV::Obj(_, q) => q, _ => Set::empty() } }
/// key k gets v: added, merged (two objects), an error (strict) or replaced
pub open spec fn x_put(t: Seq<NF>, k: Seq<char>, v: NV, strict: bool, dep: int) -> Option<Seq<NF>> decreases v, 0int
{
    match fidx(t, k) {
        None => Some(t.push((k, v))),
        Some(i) => match (t[i].1, v) {
            (NV::Obj(f, q), NV::Obj(g, _)) => match x_merge(f, g, strict, dep + 1) { None => None, Some(m) => Some(t.update(i, (t[i].0, NV::Obj(m, q)))) },
            _ => if strict { None } else { Some(t.update(i, (t[i].0, v))) },
        },
    }
}
pub open spec fn x_fold(t: Seq<NF>, s: Seq<NF>, strict: bool, dep: int) -> Option<Seq<NF>> decreases s, 1int
{ if s.len() == 0 { Some(t) } else { match x_fold(t, s.drop_last(), strict, dep) { None => None, Some(u) => x_put(u, s.last().0, s.last().1, strict, dep) } } }
pub open spec fn x_merge(t: Seq<NF>, s: Seq<NF>, strict: bool, dep: int) -> Option<Seq<NF>> decreases s, 2int
{ if dep >= max_x() { None } else { x_fold(t, s, strict, dep) } }
pub open spec fn x_lit(t: Seq<NF>, k: Seq<char>, v: NV, strict: bool, dep: int) -> Option<Seq<NF>>
{ if dep >= max_x() { None } else { x_put(t, k, v, strict, dep) } }
/// a path of segments gets v
pub open spec fn x_path(t: Seq<NF>, s: Seq<Seq<char>>, v: NV, strict: bool, dep: int) -> Option<Seq<NF>> decreases s.len()
{
    if dep >= max_x() { None }
    else if s.len() == 0 { Some(t) }
    else if s.len() == 1 { x_lit(t, s[0], v, strict, dep + 1) }
    else { match fidx(t, s[0]) {
        Some(i) => if !(t[i].1 is Obj) && strict { None }
            else { match x_path(fields_of(t[i].1), s.skip(1), v, strict, dep + 1) { None => None, Some(m) => Some(t.update(i, (t[i].0, NV::Obj(m, quotes_of(t[i].1))))) } },
        None => match x_path(Seq::empty(), s.skip(1), v, strict, dep + 1) { None => None, Some(m) => Some(t.push((s[0], NV::Obj(m, Set::empty())))) },
    } }
}
pub open spec fn all_ident(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> ident_seg(#[trigger] s[i]) }
/// a key that is split: unquoted, with a dot, all segments identifiers
pub open spec fn is_path(k: Seq<char>, q: Set<Seq<char>>) -> bool { k.contains('.') && !q.contains(k) && all_ident(split_on(k, '.')) }
pub open spec fn x_val(v: NV, strict: bool, dep: int) -> Option<NV> decreases v, 2int
{
    if dep >= max_x() { None }
    else { match v {
        NV::Prim(p) => Some(v),
        NV::Arr(a) => match x_vals(a, strict, dep) { None => None, Some(b) => Some(NV::Arr(b)) },
        NV::Obj(f, q) => if dep + 1 >= max_x() { None } else { match x_obj(f, q, strict, dep + 1) { None => None, Some(g) => Some(NV::Obj(g, Set::empty())) } },
    } }
}
pub open spec fn x_vals(a: Seq<NV>, strict: bool, dep: int) -> Option<Seq<NV>> decreases a, 1int
{
    if a.len() == 0 { Some(Seq::empty()) }
    else { match x_vals(a.drop_last(), strict, dep) { None => None, Some(b) => match x_val(a.last(), strict, dep + 1) { None => None, Some(v) => Some(b.push(v)) } } }
}
pub open spec fn x_obj(f: Seq<NF>, q: Set<Seq<char>>, strict: bool, dep: int) -> Option<Seq<NF>> decreases f, 1int
{
    if f.len() == 0 { Some(Seq::empty()) }
    else { match x_obj(f.drop_last(), q, strict, dep) { None => None, Some(t) => match x_val(f.last().1, strict, dep + 1) { None => None, Some(v) => x_member(t, f.last().0, v, q, strict, dep) } } }
}
pub open spec fn x_member(t: Seq<NF>, k: Seq<char>, v: NV, q: Set<Seq<char>>, strict: bool, dep: int) -> Option<Seq<NF>>
{ if is_path(k, q) { x_path(t, split_on(k, '.'), v, strict, dep + 1) } else { x_lit(t, k, v, strict, dep + 1) } }

/// the value a text decodes to (None: an error), from the decoded tree, its node and path expansion
pub open spec fn dec_lines(l: Seq<Seq<char>>, w: nat, strict: bool, safe: bool) -> Option<SV>
{ match d_doc(l, w, strict) { None => None, Some(v) => if safe { match x_val(node(v), strict, 0) { None => None, Some(n) => Some(nsv(n)) } } else { Some(nsv(node(v))) } } }
pub open spec fn dec_text(t: Seq<char>, w: nat, strict: bool, safe: bool) -> Option<SV> { dec_lines(split_on(t, '\n'), w, strict, safe) }

// ---- prefixes of the folds -------------------------------------------------------------------------
pub proof fn l_vals_none(a: Seq<NV>, k: int, strict: bool, dep: int)
    requires 0 <= k <= a.len()
    ensures x_vals(a.take(k), strict, dep) is None ==> x_vals(a, strict, dep) is None
    decreases a.len()
{ if k == a.len() { assert(a.take(k) =~= a); } else { l_vals_none(a.drop_last(), k, strict, dep); assert(a.drop_last().take(k) =~= a.take(k)); } }
pub proof fn l_obj_none(f: Seq<NF>, q: Set<Seq<char>>, k: int, strict: bool, dep: int)
    requires 0 <= k <= f.len()
    ensures x_obj(f.take(k), q, strict, dep) is None ==> x_obj(f, q, strict, dep) is None
    decreases f.len()
{ if k == f.len() { assert(f.take(k) =~= f); } else { l_obj_none(f.drop_last(), q, k, strict, dep); assert(f.drop_last().take(k) =~= f.take(k)); } }
pub proof fn l_fold_none(t: Seq<NF>, s: Seq<NF>, k: int, strict: bool, dep: int)
    requires 0 <= k <= s.len()
    ensures x_fold(t, s.take(k), strict, dep) is None ==> x_fold(t, s, strict, dep) is None
    decreases s.len()
{ if k == s.len() { assert(s.take(k) =~= s); } else { l_fold_none(t, s.drop_last(), k, strict, dep); assert(s.drop_last().take(k) =~= s.take(k)); } }
pub proof fn l_fidx(f: Seq<NF>, k: Seq<char>)
    ensures match fidx(f, k) { Some(i) => 0 <= i < f.len() && f[i].0 == k && (forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).0 != k), None => forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).0 != k }
    decreases f.len()
{ if f.len() > 0 { l_fidx(f.drop_last(), k); let g = f.drop_last(); assert forall|j: int| 0 <= j < g.len() implies g[j] == #[trigger] f[j] by {} } }
pub proof fn l_fidx_is(f: Seq<NF>, k: Seq<char>, i: int)
    requires 0 <= i < f.len(), f[i].0 == k, forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).0 != k
    ensures fidx(f, k) == Some(i)
{ l_fidx(f, k); if fidx(f, k) is None { assert(f[i].0 != k); } else { let m = fidx(f, k)->0; if m < i { assert(f[m].0 != k); } if i < m { assert(f[i].0 != k); } } }
pub proof fn l_fidx_none(f: Seq<NF>, k: Seq<char>)
    requires forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).0 != k
    ensures fidx(f, k) is None
{ l_fidx(f, k); if fidx(f, k) is Some { assert(f[fidx(f, k)->0].0 != k); } }
} // verus!
}
