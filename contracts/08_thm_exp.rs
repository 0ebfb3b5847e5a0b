/// Theorems about path expansion.
pub mod vthm_exp {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_tree::*;
use crate::vspec_dec::*;
use crate::vspec_exp::*;
verus! {
broadcast use vstd::group_vstd_default;

// ---- what strict expansion accepts, lenient expansion reads the same way ------------------------
proof fn l_put_sl(t: Seq<NF>, k: Seq<char>, v: NV, dep: int)
    requires x_put(t, k, v, true, dep) is Some
    ensures x_put(t, k, v, false, dep) == x_put(t, k, v, true, dep)
    decreases v, 0int
{
    l_fidx(t, k);
    if let Some(i) = fidx(t, k) { if let (NV::Obj(f, q), NV::Obj(g, _)) = (t[i].1, v) { l_merge_sl(f, g, dep + 1); } }
}
proof fn l_fold_sl(t: Seq<NF>, s: Seq<NF>, dep: int)
    requires x_fold(t, s, true, dep) is Some
    ensures x_fold(t, s, false, dep) == x_fold(t, s, true, dep)
    decreases s, 1int
{
    if s.len() > 0 { l_fold_sl(t, s.drop_last(), dep); let u = x_fold(t, s.drop_last(), true, dep)->0;
        assert(x_fold(t, s, true, dep) == x_put(u, s.last().0, s.last().1, true, dep));
        l_put_sl(u, s.last().0, s.last().1, dep);
        assert(x_fold(t, s, false, dep) == x_put(u, s.last().0, s.last().1, false, dep)); }
}
proof fn l_merge_sl(t: Seq<NF>, s: Seq<NF>, dep: int)
    requires x_merge(t, s, true, dep) is Some
    ensures x_merge(t, s, false, dep) == x_merge(t, s, true, dep)
    decreases s, 2int
{ l_fold_sl(t, s, dep); }
proof fn l_path_sl(t: Seq<NF>, s: Seq<Seq<char>>, v: NV, dep: int)
    requires x_path(t, s, v, true, dep) is Some
    ensures x_path(t, s, v, false, dep) == x_path(t, s, v, true, dep)
    decreases s.len()
{
    if s.len() == 1 { l_put_sl(t, s[0], v, dep + 1); }
    else if s.len() > 1 { match fidx(t, s[0]) { Some(i) => l_path_sl(fields_of(t[i].1), s.skip(1), v, dep + 1), None => l_path_sl(Seq::empty(), s.skip(1), v, dep + 1) } }
}
proof fn l_val_sl(v: NV, dep: int)
    requires x_val(v, true, dep) is Some
    ensures x_val(v, false, dep) == x_val(v, true, dep)
    decreases v, 2int
{ match v { NV::Prim(_) => {}, NV::Arr(a) => l_vals_sl(a, dep), NV::Obj(f, q) => l_obj_sl(f, q, dep + 1) } }
proof fn l_vals_sl(a: Seq<NV>, dep: int)
    requires x_vals(a, true, dep) is Some
    ensures x_vals(a, false, dep) == x_vals(a, true, dep)
    decreases a, 1int
{ if a.len() > 0 { l_vals_sl(a.drop_last(), dep); assert(x_val(a.last(), true, dep + 1) is Some); l_val_sl(a.last(), dep + 1); } }
proof fn l_obj_sl(f: Seq<NF>, q: Set<Seq<char>>, dep: int)
    requires x_obj(f, q, true, dep) is Some
    ensures x_obj(f, q, false, dep) == x_obj(f, q, true, dep)
    decreases f, 1int
{
    if f.len() > 0 {
        l_obj_sl(f.drop_last(), q, dep);
        let t = x_obj(f.drop_last(), q, true, dep)->0;
        assert(x_val(f.last().1, true, dep + 1) is Some);
        l_val_sl(f.last().1, dep + 1);
        let w = x_val(f.last().1, true, dep + 1)->0;
        let k = f.last().0;
        assert(x_obj(f, q, true, dep) == x_member(t, k, w, q, true, dep));
        if is_path(k, q) { l_path_sl(t, split_on(k, '.'), w, dep + 1); } else { l_put_sl(t, k, w, dep + 1); }
        assert(x_obj(f, q, false, dep) == x_member(t, k, w, q, false, dep));
    }
}
/// C07: an expansion strict mode accepts is the one lenient mode makes
pub proof fn thm_expand_lenient(v: NV)
    requires x_val(v, true, 0) is Some
    ensures x_val(v, false, 0) == x_val(v, true, 0)
{ l_val_sl(v, 0); }
/// C16: the value of a document in strict mode is its value in lenient mode, with and without expansion
pub proof fn thm_value_lenient(r: Seq<Seq<char>>, w: nat, safe: bool)
    requires dec_lines(r, w, true, safe) is Some
    ensures dec_lines(r, w, false, safe) == dec_lines(r, w, true, safe)
{
    crate::vthm_dec::thm_strict_lenient(r, w);
    if safe { thm_expand_lenient(node(d_doc(r, w, true)->0)); }
}

// ---- where no key is a path nothing changes --------------------------------------------------------
/// no path keys, no repeated keys, and within the depth limit
pub open spec fn plain(v: NV, dep: int) -> bool decreases v
{
    dep < max_x() && match v {
        NV::Prim(_) => true,
        NV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i], dep + 1),
        NV::Obj(f, q) => dep + 1 < max_x() && dep + 2 < max_x()
            && (forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0)
            && (forall|i: int| 0 <= i < f.len() ==> !is_path((#[trigger] f[i]).0, q) && plain(f[i].1, dep + 2)),
    }
}
/// the same node without the record of which keys were quoted
pub open spec fn strip(v: NV) -> NV decreases v
{ match v { NV::Prim(p) => v, NV::Arr(a) => NV::Arr(strips(a)), NV::Obj(f, _) => NV::Obj(stripf(f), Set::empty()) } }
pub open spec fn strips(a: Seq<NV>) -> Seq<NV> decreases a { if a.len() == 0 { Seq::empty() } else { strips(a.drop_last()).push(strip(a.last())) } }
pub open spec fn stripf(f: Seq<NF>) -> Seq<NF> decreases f { if f.len() == 0 { Seq::empty() } else { stripf(f.drop_last()).push((f.last().0, strip(f.last().1))) } }
proof fn l_stripf(f: Seq<NF>)
    ensures stripf(f).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> (#[trigger] stripf(f)[i]) == (f[i].0, strip(f[i].1))
    decreases f.len()
{ if f.len() > 0 { l_stripf(f.drop_last()); } }
proof fn l_strips(f: Seq<NV>)
    ensures strips(f).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> (#[trigger] strips(f)[i]) == strip(f[i])
    decreases f.len()
{ if f.len() > 0 { l_strips(f.drop_last()); } }
pub proof fn thm_strip(v: NV)
    ensures nsv(strip(v)) == nsv(v)
    decreases v
{
    match v {
        NV::Prim(_) => {},
        NV::Arr(a) => { l_strips(a); assert forall|i: int| 0 <= i < a.len() implies nsv(#[trigger] strips(a)[i]) == nsv(a[i]) by { thm_strip(a[i]); } assert(nsvs(strips(a)) =~= nsvs(a)); },
        NV::Obj(f, _) => { l_stripf(f); assert forall|i: int| 0 <= i < f.len() implies nsv((#[trigger] stripf(f)[i]).1) == nsv(f[i].1) by { thm_strip(f[i].1); } assert(nsvf(stripf(f)) =~= nsvf(f)); },
    }
}
pub proof fn l_plain(v: NV, strict: bool, dep: int)
    requires plain(v, dep)
    ensures x_val(v, strict, dep) == Some(strip(v))
    decreases v, 2int
{
    match v {
        NV::Prim(_) => {},
        NV::Arr(a) => l_plains(a, strict, dep),
        NV::Obj(f, q) => l_plainf(f, q, strict, dep + 1),
    }
}
proof fn l_plains(a: Seq<NV>, strict: bool, dep: int)
    requires forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i], dep + 1)
    ensures x_vals(a, strict, dep) == Some(strips(a))
    decreases a, 1int
{
    if a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies plain(#[trigger] b[i], dep + 1) by { assert(b[i] == a[i]); }
        l_plains(b, strict, dep); assert(plain(a[a.len() - 1], dep + 1)); l_plain(a.last(), strict, dep + 1);
    }
}
proof fn l_plainf(f: Seq<NF>, q: Set<Seq<char>>, strict: bool, dep: int)
    requires dep + 1 < max_x(), forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0,
        forall|i: int| 0 <= i < f.len() ==> !is_path((#[trigger] f[i]).0, q) && plain(f[i].1, dep + 1)
    ensures x_obj(f, q, strict, dep) == Some(stripf(f))
    decreases f, 1int
{
    if f.len() > 0 {
        let b = f.drop_last(); let k = f.last().0; let n = f.len() - 1;
        assert forall|i: int| 0 <= i < b.len() implies !is_path((#[trigger] b[i]).0, q) && plain(b[i].1, dep + 1) by { assert(b[i] == f[i]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(b[i] == f[i] && b[j] == f[j]); }
        l_plainf(b, q, strict, dep);
        assert(f[n].0 == k && plain(f[n].1, dep + 1));
        l_plain(f.last().1, strict, dep + 1);
        let t = stripf(b); let w = strip(f.last().1);
        l_stripf(b);
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 != k by { assert(t[j].0 == b[j].0 && b[j] == f[j]); assert(f[j].0 != f[n].0); }
        l_fidx_none(t, k);
        assert(x_put(t, k, w, strict, dep + 1) == Some(t.push((k, w))));
        assert(x_lit(t, k, w, strict, dep + 1) == x_put(t, k, w, strict, dep + 1));
        assert(x_obj(f, q, strict, dep) == x_member(t, k, w, q, strict, dep));
    }
}
/// C07: keys that were quoted, have no dot or have a segment that is no identifier stay literal: where no key is a path, expansion changes nothing
pub proof fn thm_expand_plain(v: NV, strict: bool)
    requires plain(v, 0)
    ensures x_val(v, strict, 0) == Some(strip(v)), nsv(strip(v)) == nsv(v)
{ l_plain(v, strict, 0); thm_strip(v); }

// ---- what writing at a path does -------------------------------------------------------------------
/// the node at a path
pub open spec fn get(f: Seq<NF>, p: Seq<Seq<char>>) -> Option<NV> decreases p.len()
{ if p.len() == 0 { None } else { match fidx(f, p[0]) { None => None, Some(i) => if p.len() == 1 { Some(f[i].1) } else { get(fields_of(f[i].1), p.skip(1)) } } } }
pub open spec fn prefix(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] }
proof fn l_prefix_skip(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.len() > 0, b.len() > 0, a[0] == b[0]
    ensures prefix(a, b) == prefix(a.skip(1), b.skip(1))
{
    let c = a.skip(1); let d = b.skip(1);
    if prefix(c, d) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { if i > 0 { assert(c[i - 1] == d[i - 1]); } } }
    if prefix(a, b) { assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == d[i] by { assert(a[i + 1] == b[i + 1]); } }
}
/// replacing the value of key k or adding k leaves the lookup of every other key alone
proof fn l_fidx_upd(t: Seq<NF>, k: Seq<char>, v: NV, o: Seq<char>)
    ensures match fidx(t, k) {
        Some(i) => fidx(t.update(i, (t[i].0, v)), k) == Some(i) && fidx(t.update(i, (t[i].0, v)), o) == fidx(t, o),
        None => fidx(t.push((k, v)), k) == Some(t.len() as int) && (o != k ==> fidx(t.push((k, v)), o) == fidx(t, o)) }
{
    l_fidx(t, k); l_fidx(t, o);
    match fidx(t, k) {
        Some(i) => {
            let u = t.update(i, (t[i].0, v));
            assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).0 == t[j].0 by {}
            l_fidx_is(u, k, i);
            match fidx(t, o) { Some(m) => { l_fidx_is(u, o, m); }, None => { l_fidx_none(u, o); } }
        },
        None => {
            let u = t.push((k, v));
            assert(u.drop_last() =~= t);
            l_fidx_is(u, k, t.len() as int);
        },
    }
}
proof fn l_put_shape(t: Seq<NF>, k: Seq<char>, v: NV, strict: bool, dep: int)
    requires x_put(t, k, v, strict, dep) is Some
    ensures ({ let m = x_put(t, k, v, strict, dep)->0;
      match fidx(t, k) {
        None => m == t.push((k, v)),
        Some(i) => 0 <= i < t.len() && m == t.update(i, (t[i].0, m[i].1)) && (!(t[i].1 is Obj && v is Obj) ==> m[i].1 == v) && (t[i].1 is Obj && v is Obj ==> m[i].1 is Obj) } })
{ l_fidx(t, k); let m = x_put(t, k, v, strict, dep)->0;
  if let Some(i) = fidx(t, k) { assert(m[i].0 == t[i].0); assert(m =~= t.update(i, (t[i].0, m[i].1))); } }
/// C07: writing at path s leaves every path that is neither along s nor below it alone
pub proof fn thm_path_frame(t: Seq<NF>, s: Seq<Seq<char>>, v: NV, strict: bool, dep: int, p: Seq<Seq<char>>)
    requires x_path(t, s, v, strict, dep) is Some, s.len() > 0, p.len() > 0, !prefix(s, p), !prefix(p, s)
    ensures get(x_path(t, s, v, strict, dep)->0, p) == get(t, p)
    decreases s.len()
{
    let m = x_path(t, s, v, strict, dep)->0;
    l_fidx(t, s[0]); l_fidx(t, p[0]);
    if s.len() == 1 {
        if p[0] == s[0] { assert(prefix(s, p)); }
        l_put_shape(t, s[0], v, strict, dep + 1);
        match fidx(t, s[0]) { Some(i) => l_fidx_upd(t, s[0], m[i].1, p[0]), None => l_fidx_upd(t, s[0], v, p[0]) }
    } else {
        let sub = match fidx(t, s[0]) { Some(i) => fields_of(t[i].1), None => Seq::empty() };
        let r = x_path(sub, s.skip(1), v, strict, dep + 1)->0;
        let w = match fidx(t, s[0]) { Some(i) => NV::Obj(r, quotes_of(t[i].1)), None => NV::Obj(r, Set::empty()) };
        l_fidx_upd(t, s[0], w, p[0]);
        if p[0] == s[0] {
            l_prefix_skip(s, p); l_prefix_skip(p, s);
            if p.len() == 1 { assert(prefix(p, s)); }
            if fidx(t, s[0]) is None { assert forall|z: Seq<Seq<char>>| #[trigger] get(Seq::empty(), z) is None by {} }
            thm_path_frame(sub, s.skip(1), v, strict, dep + 1, p.skip(1));
        }
    }
}
/// C07: the value is found at its path, unless it was merged into the object already there
pub proof fn thm_path_set(t: Seq<NF>, s: Seq<Seq<char>>, v: NV, strict: bool, dep: int)
    requires x_path(t, s, v, strict, dep) is Some, s.len() > 0
    ensures ({ let m = x_path(t, s, v, strict, dep)->0;
        get(m, s) is Some && (v is Obj && get(t, s) is Some && get(t, s)->0 is Obj ==> get(m, s)->0 is Obj)
        && (!(v is Obj && get(t, s) is Some && get(t, s)->0 is Obj) ==> get(m, s) == Some(v)) })
    decreases s.len()
{
    let m = x_path(t, s, v, strict, dep)->0;
    l_fidx(t, s[0]);
    if s.len() == 1 {
        l_put_shape(t, s[0], v, strict, dep + 1);
        match fidx(t, s[0]) { Some(i) => l_fidx_upd(t, s[0], m[i].1, s[0]), None => l_fidx_upd(t, s[0], v, s[0]) }
    } else {
        let sub = match fidx(t, s[0]) { Some(i) => fields_of(t[i].1), None => Seq::empty() };
        let r = x_path(sub, s.skip(1), v, strict, dep + 1)->0;
        let w = match fidx(t, s[0]) { Some(i) => NV::Obj(r, quotes_of(t[i].1)), None => NV::Obj(r, Set::empty()) };
        l_fidx_upd(t, s[0], w, s[0]);
        thm_path_set(sub, s.skip(1), v, strict, dep + 1);
        if fidx(t, s[0]) is None { assert forall|z: Seq<Seq<char>>| #[trigger] get(Seq::empty(), z) is None by {} }
    }
}
/// C07: in strict mode a path that runs into a non-object, or an object and a non-object at one place, is an error
pub proof fn thm_path_conflict(t: Seq<NF>, s: Seq<Seq<char>>, v: NV, dep: int, k: int)
    requires 0 < k <= s.len(), get(t, s.take(k)) is Some, !(get(t, s.take(k))->0 is Obj) || (k == s.len() && !(v is Obj))
    ensures x_path(t, s, v, true, dep) is None
    decreases s.len()
{
    l_fidx(t, s[0]);
    let p = s.take(k);
    assert(p[0] == s[0]);
    if s.len() > 1 && dep < max_x() {
        let i = fidx(t, s[0])->0;
        if k > 1 {
            assert(p.skip(1) =~= s.skip(1).take(k - 1));
            if t[i].1 is Obj { thm_path_conflict(fields_of(t[i].1), s.skip(1), v, dep + 1, k - 1); }
            else { assert(fields_of(t[i].1).len() == 0); }
        }
    }
}
} // verus!
}
