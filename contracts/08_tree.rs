/// Building a value from an event list, and the value a decoded tree stands for.
pub mod vspec_tree {
use vstd::prelude::*;
use crate::vspec_tok::*;
use crate::vspec_dec::*;
verus! {
broadcast use vstd::group_vstd_default;

/// A built node: objects carry the set of keys that were quoted.
pub enum NV { Prim(SP), Arr(Seq<NV>), Obj(Seq<(Seq<char>, NV)>, Set<Seq<char>>) }
pub type NF = (Seq<char>, NV);
/// an open object (members so far, pending key, quoted keys) or array
pub enum CX { Obj(Seq<NF>, Option<Seq<char>>, Set<Seq<char>>), Arr(Seq<NV>) }
pub struct BS { pub st: Seq<CX>, pub root: Option<NV> }

/// a finished node goes to the innermost open container, or becomes the root
pub open spec fn place(b: BS, v: NV) -> Option<BS> {
    if b.st.len() == 0 { Some(BS { st: b.st, root: Some(v) }) }
    else { match b.st.last() {
        CX::Obj(f, k, q) => match k { None => None, Some(k) => Some(BS { st: b.st.drop_last().push(CX::Obj(f.push((k, v)), None, q)), root: b.root }) },
        CX::Arr(a) => Some(BS { st: b.st.drop_last().push(CX::Arr(a.push(v))), root: b.root }),
    } }
}
pub open spec fn b_step(b: BS, e: SE) -> Option<BS> {
    match e {
        SE::StartObject => Some(BS { st: b.st.push(CX::Obj(Seq::empty(), None, Set::empty())), root: b.root }),
        SE::StartArray(_) => Some(BS { st: b.st.push(CX::Arr(Seq::empty())), root: b.root }),
        SE::EndObject => if b.st.len() == 0 { None } else { match b.st.last() {
            CX::Obj(f, _, q) => place(BS { st: b.st.drop_last(), root: b.root }, NV::Obj(f, q)), _ => None } },
        SE::EndArray => if b.st.len() == 0 { None } else { match b.st.last() {
            CX::Arr(a) => place(BS { st: b.st.drop_last(), root: b.root }, NV::Arr(a)), _ => None } },
        SE::Key(k, q) => if b.st.len() == 0 { None } else { match b.st.last() {
            CX::Obj(f, _, s) => Some(BS { st: b.st.drop_last().push(CX::Obj(f, Some(k), if q { s.insert(k) } else { s })), root: b.root }), _ => None } },
        SE::Prim(p) => place(b, NV::Prim(p)),
    }
}
pub open spec fn b_run(b: BS, e: Seq<SE>) -> Option<BS> decreases e.len()
{ if e.len() == 0 { Some(b) } else { match b_run(b, e.drop_last()) { None => None, Some(c) => b_step(c, e.last()) } } }
pub open spec fn b_empty() -> BS { BS { st: Seq::empty(), root: None } }
/// the value an event list stands for: nothing left open, and a root
pub open spec fn b_build(e: Seq<SE>) -> Option<NV>
{ match b_run(b_empty(), e) { None => None, Some(b) => if b.st.len() > 0 { None } else { b.root } } }

// ---- the tree as a node, a node as a value -------------------------------------------------------
pub open spec fn node(v: DV) -> NV decreases v
{ match v { DV::Prim(p) => NV::Prim(p), DV::Arr(n, a) => NV::Arr(nodes(a)), DV::Obj(f) => NV::Obj(nodef(f), quoted(f)) } }
pub open spec fn nodes(a: Seq<DV>) -> Seq<NV> decreases a { if a.len() == 0 { Seq::empty() } else { nodes(a.drop_last()).push(node(a.last())) } }
pub open spec fn nodef(f: Seq<DF>) -> Seq<NF> decreases f { if f.len() == 0 { Seq::empty() } else { nodef(f.drop_last()).push((f.last().0, node(f.last().2))) } }
pub open spec fn quoted(f: Seq<DF>) -> Set<Seq<char>> decreases f.len()
{ if f.len() == 0 { Set::empty() } else { let q = quoted(f.drop_last()); if f.last().1 { q.insert(f.last().0) } else { q } } }
pub open spec fn nsv(v: NV) -> SV decreases v
{ match v { NV::Prim(p) => SV::Prim(p), NV::Arr(a) => SV::Arr(nsvs(a)), NV::Obj(f, _) => SV::Obj(nsvf(f)) } }
pub open spec fn nsvs(a: Seq<NV>) -> Seq<SV> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { nsv(a[i]) } else { arbitrary() }) }
pub open spec fn nsvf(a: Seq<NF>) -> Seq<(Seq<char>, SV)> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { (a[i].0, nsv(a[i].1)) } else { arbitrary() }) }
/// the value of a decoded tree (no path expansion)
pub open spec fn dsv(v: DV) -> SV { nsv(node(v)) }

// ---- theorems -----------------------------------------------------------------------------------
proof fn l_run_cat(b: BS, e: Seq<SE>, f: Seq<SE>)
    ensures b_run(b, e + f) == (match b_run(b, e) { None => None, Some(c) => b_run(c, f) })
    decreases f.len()
{
    if f.len() == 0 { assert(e + f =~= e); }
    else { l_run_cat(b, e, f.drop_last()); assert((e + f).drop_last() =~= e + f.drop_last()); assert((e + f).last() == f.last()); }
}
proof fn l_run1(b: BS, e: SE) ensures b_run(b, seq![e]) == b_step(b, e)
{ reveal_with_fuel(b_run, 2); assert(seq![e].drop_last() =~= Seq::empty()); assert(seq![e].last() == e); }
/// running the events of a tree places its node
pub proof fn l_flat(b: BS, v: DV)
    ensures b_run(b, flat(v)) == place(b, node(v))
    decreases v
{
    match v {
        DV::Prim(p) => { l_run1(b, SE::Prim(p)); },
        DV::Arr(n, a) => {
            let b1 = BS { st: b.st.push(CX::Arr(Seq::empty())), root: b.root };
            l_run1(b, SE::StartArray(n));
            l_run_cat(b, seq![SE::StartArray(n)], flats(a));
            l_flats(b1, a, b.st, Seq::empty());
            let b2 = BS { st: b.st.push(CX::Arr(nodes(a))), root: b.root };
            assert(Seq::<NV>::empty() + nodes(a) =~= nodes(a));
            l_run1(b2, SE::EndArray);
            l_run_cat(b, seq![SE::StartArray(n)] + flats(a), seq![SE::EndArray]);
            assert(b2.st.drop_last() =~= b.st);
        },
        DV::Obj(f) => {
            let b1 = BS { st: b.st.push(CX::Obj(Seq::empty(), None, Set::empty())), root: b.root };
            l_run1(b, SE::StartObject);
            l_run_cat(b, seq![SE::StartObject], flatf(f));
            l_flatf(b1, f, b.st);
            let b2 = BS { st: b.st.push(CX::Obj(nodef(f), None, quoted(f))), root: b.root };
            l_run1(b2, SE::EndObject);
            l_run_cat(b, seq![SE::StartObject] + flatf(f), seq![SE::EndObject]);
            assert(b2.st.drop_last() =~= b.st);
        },
    }
}
proof fn l_flats(b: BS, a: Seq<DV>, s: Seq<CX>, pre: Seq<NV>)
    requires b.st == s.push(CX::Arr(pre))
    ensures b_run(b, flats(a)) == Some(BS { st: s.push(CX::Arr(pre + nodes(a))), root: b.root })
    decreases a
{
    if a.len() == 0 { assert(pre + nodes(a) =~= pre); }
    else {
        l_flats(b, a.drop_last(), s, pre);
        let c = BS { st: s.push(CX::Arr(pre + nodes(a.drop_last()))), root: b.root };
        l_flat(c, a.last());
        l_run_cat(b, flats(a.drop_last()), flat(a.last()));
        assert(c.st.drop_last() =~= s);
        assert((pre + nodes(a.drop_last())).push(node(a.last())) =~= pre + nodes(a));
    }
}
proof fn l_flatf(b: BS, f: Seq<DF>, s: Seq<CX>)
    requires b.st == s.push(CX::Obj(Seq::empty(), None, Set::empty()))
    ensures b_run(b, flatf(f)) == Some(BS { st: s.push(CX::Obj(nodef(f), None, quoted(f))), root: b.root })
    decreases f
{
    if f.len() == 0 { }
    else {
        let g = f.drop_last(); let l = f.last();
        l_flatf(b, g, s);
        let c = BS { st: s.push(CX::Obj(nodef(g), None, quoted(g))), root: b.root };
        let c2 = BS { st: s.push(CX::Obj(nodef(g), Some(l.0), quoted(f))), root: b.root };
        l_run1(c, SE::Key(l.0, l.1));
        assert(c.st.drop_last() =~= s);
        assert(b_step(c, SE::Key(l.0, l.1)) == Some(c2));
        l_flat(c2, l.2);
        assert(c2.st.drop_last() =~= s);
        l_run_cat(c, seq![SE::Key(l.0, l.1)], flat(l.2));
        l_run_cat(b, flatf(g), seq![SE::Key(l.0, l.1)] + flat(l.2));
    }
}
/// C05: building from the events of a tree gives the tree's value
pub broadcast proof fn thm_build(v: DV)
    ensures #[trigger] b_build(flat(v)) == Some(node(v))
{ l_flat(b_empty(), v); }

// ---- refusing malformed event lists ----------------------------------------------------------------
/// the containers open after an event list, innermost last (true: an object), or None if an end matches no open start
pub open spec fn opens(e: Seq<SE>) -> Option<Seq<bool>> decreases e.len()
{
    if e.len() == 0 { Some(Seq::empty()) }
    else { match opens(e.drop_last()) { None => None, Some(o) => match e.last() {
        SE::StartObject => Some(o.push(true)),
        SE::StartArray(_) => Some(o.push(false)),
        SE::EndObject => if o.len() > 0 && o.last() { Some(o.drop_last()) } else { None },
        SE::EndArray => if o.len() > 0 && !o.last() { Some(o.drop_last()) } else { None },
        _ => Some(o),
    } } }
}
pub open spec fn inside_object(o: Seq<bool>) -> bool { o.len() > 0 && o.last() }
proof fn l_run_prefix(b: BS, e: Seq<SE>, k: int)
    requires 0 <= k <= e.len(), b_run(b, e) is Some
    ensures b_run(b, e.take(k)) is Some
    decreases e.len()
{ if k == e.len() { assert(e.take(k) =~= e); } else { l_run_prefix(b, e.drop_last(), k); assert(e.drop_last().take(k) =~= e.take(k)); } }
pub proof fn l_run_none(b: BS, e: Seq<SE>, k: int)
    requires 0 <= k <= e.len()
    ensures b_run(b, e.take(k)) is None ==> b_run(b, e) is None
{ if b_run(b, e) is Some { l_run_prefix(b, e, k); } }
/// an open object without a pending key below the innermost container can never be closed over
proof fn l_stuck(b: BS, e: Seq<SE>, j: int)
    requires 0 <= j < b.st.len() - 1, b.st[j] is Obj, b.st[j]->Obj_1 is None, b_run(b, e) is Some
    ensures (b_run(b, e)->0).st.len() > j + 1, (b_run(b, e)->0).st[j] == b.st[j]
    decreases e.len()
{ if e.len() > 0 { l_stuck(b, e.drop_last(), j); } }
proof fn l_run_cut(b: BS, e: Seq<SE>, k: int)
    requires 0 <= k <= e.len(), b_run(b, e) is Some
    ensures b_run(b, e.take(k)) is Some, b_run(b_run(b, e.take(k))->0, e.skip(k)) == b_run(b, e)
{ l_run_prefix(b, e, k); l_run_cat(b, e.take(k), e.skip(k)); assert(e.take(k) + e.skip(k) =~= e); }
proof fn l_opens(e: Seq<SE>)
    requires b_run(b_empty(), e) is Some
    ensures opens(e) is Some, ({ let st = (b_run(b_empty(), e)->0).st; let o = opens(e)->0;
      o.len() == st.len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (st[i] is Obj))
      && (st.len() > 0 && st.last() is Obj && st.last()->Obj_1 is Some ==> e.len() > 0 && e.last() is Key) })
    decreases e.len()
{
    if e.len() > 0 {
        l_opens(e.drop_last());
        let st = (b_run(b_empty(), e.drop_last())->0).st; let o = opens(e.drop_last())->0;
        if o.len() > 0 { assert(o[o.len() - 1] == (st[st.len() - 1] is Obj)); }
        let o2 = opens(e)->0; let s2 = (b_run(b_empty(), e)->0).st;
        assert forall|i: int| 0 <= i < o2.len() implies #[trigger] o2[i] == (s2[i] is Obj) by { if i < o.len() { assert(o[i] == (st[i] is Obj)); } }
    }
}
/// C05, C09: in an event list that becomes a value every end matches the open start, no start is left open, every key is inside an
/// object, and every value (primitive, object or array) inside an object directly follows a key; an empty list is refused
pub proof fn thm_build_refused(e: Seq<SE>, k: int)
    requires b_build(e) is Some, 0 <= k < e.len() || e.len() == 0
    ensures e.len() > 0, opens(e) == Some(Seq::<bool>::empty()), opens(e.take(k)) is Some, opens(e.take(k + 1)) is Some,
      e[k] is Key ==> inside_object(opens(e.take(k))->0),
      (e[k] is Prim || e[k] is StartObject || e[k] is StartArray) && inside_object(opens(e.take(k))->0) ==> k > 0 && e[k - 1] is Key,
{
    let z = b_empty();
    l_run_cut(z, e, k); l_run_cut(z, e, k + 1); l_opens(e.take(k)); l_opens(e.take(k + 1)); l_opens(e);
    assert(opens(e)->0 =~= Seq::<bool>::empty());
    let f = e.take(k + 1); assert(f.drop_last() =~= e.take(k)); assert(f.last() == e[k]);
    let o = opens(e.take(k))->0; let st = (b_run(z, e.take(k))->0).st;
    if o.len() > 0 {
        assert(o[o.len() - 1] == (st[st.len() - 1] is Obj));
        if k > 0 { assert(e.take(k).last() == e[k - 1]); }
        if o.last() && st.last()->Obj_1 is None && (e[k] is StartObject || e[k] is StartArray) {
            let b = b_run(z, f)->0; assert(b.st.drop_last() =~= st); assert(b.st[st.len() - 1] == st.last());
            l_stuck(b, e.skip(k + 1), st.len() - 1);
        }
    }
}
} // verus!
}
