/// The encoder: a layout of the value, and the layout written as lines.
pub mod vspec_enc {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::norm_sp;
verus! {
broadcast use vstd::group_vstd_default;

pub type SF = (Seq<char>, SV);
/// A value with its written form chosen: primitives on one line, tabular rows, list, nested fields.
pub enum LV { Prim(SP), Inl(Seq<SP>), Tab(Seq<Seq<char>>, Seq<Seq<SP>>), Lst(Seq<LV>), Obj(Seq<(Seq<char>, LV)>) }
pub type LF = (Seq<char>, LV);
/// A line: indentation steps and content.
pub struct WL { pub n: int, pub c: Seq<char> }
/// delimiter, safe key folding, flatten depth
pub struct EO { pub d: char, pub fold: bool, pub flat: nat }
/// folding state: literal dotted keys of the root, path so far, levels left
pub struct FS { pub lits: Option<Set<Seq<char>>>, pub pre: Option<Seq<char>>, pub rem: nat }

// ---- normalisation ---------------------------------------------------------------------------
pub open spec fn nrm(v: SV) -> SV decreases v
{ match v { SV::Prim(p) => SV::Prim(norm_sp(p)), SV::Arr(a) => SV::Arr(nrms(a)), SV::Obj(f) => SV::Obj(nrmf(f)) } }
pub open spec fn nrms(a: Seq<SV>) -> Seq<SV> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { nrm(a[i]) } else { arbitrary() }) }
pub open spec fn nrmf(a: Seq<SF>) -> Seq<SF> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { (a[i].0, nrm(a[i].1)) } else { arbitrary() }) }

// ---- height, and a bound on the number of lines ------------------------------------------------
pub open spec fn ht(v: SV) -> nat decreases v
{ match v { SV::Prim(_) => 0, SV::Arr(a) => 1 + hts(a), SV::Obj(f) => 1 + htf(f) } }
pub open spec fn hts(a: Seq<SV>) -> nat decreases a
{ if a.len() == 0 { 0 } else if hts(a.drop_last()) > ht(a.last()) { hts(a.drop_last()) } else { ht(a.last()) } }
pub open spec fn htf(f: Seq<SF>) -> nat decreases f
{ if f.len() == 0 { 0 } else if htf(f.drop_last()) > ht(f.last().1) { htf(f.drop_last()) } else { ht(f.last().1) } }
pub proof fn l_hts(a: Seq<SV>, i: int) requires 0 <= i < a.len() ensures ht(a[i]) <= hts(a) decreases a.len()
{ if i < a.len() - 1 { l_hts(a.drop_last(), i); } }
pub proof fn l_htf(f: Seq<SF>, i: int) requires 0 <= i < f.len() ensures ht(f[i].1) <= htf(f) decreases f.len()
{ if i < f.len() - 1 { l_htf(f.drop_last(), i); } }
pub proof fn l_htf_skip(f: Seq<SF>) requires f.len() > 0 ensures htf(f.skip(1)) <= htf(f) decreases f.len()
{ let g = f.skip(1); if g.len() > 0 { l_htf_skip(f.drop_last()); assert(g.drop_last() =~= f.drop_last().skip(1)); assert(g.last() == f.last()); } }
pub open spec fn est(v: SV) -> nat decreases v
{ match v { SV::Prim(_) => 1, SV::Arr(a) => 1 + ests(a), SV::Obj(f) => if estf(f) == 0 { 1 } else { estf(f) } } }
pub open spec fn ests(a: Seq<SV>) -> nat decreases a { if a.len() == 0 { 0 } else { ests(a.drop_last()) + est(a.last()) } }
pub open spec fn estf(f: Seq<SF>) -> nat decreases f { if f.len() == 0 { 0 } else { estf(f.drop_last()) + est(f.last().1) } }

// ---- choosing the form of an array -----------------------------------------------------------------
pub open spec fn keys_of(f: Seq<SF>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].0) }
pub open spec fn is_prims(a: Seq<SV>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Prim }
pub open spec fn prims_of(a: Seq<SV>) -> Seq<SP> { Seq::new(a.len(), |i: int| a[i]->Prim_0) }
/// value of the first member with key k
pub open spec fn oget(f: Seq<SF>, k: Seq<char>) -> Option<SV> decreases f.len()
{ if f.len() == 0 { None } else { match oget(f.drop_last(), k) { Some(v) => Some(v), None => if f.last().0 == k { Some(f.last().1) } else { None } } } }
/// a row for these columns: an object with as many members, each column present and primitive
pub open spec fn row_ok(v: SV, h: Seq<Seq<char>>) -> bool
{ v is Obj && v->Obj_0.len() == h.len() && forall|j: int| 0 <= j < h.len() ==> oget(v->Obj_0, #[trigger] h[j]) is Some && oget(v->Obj_0, h[j])->0 is Prim }
pub open spec fn cols_of(a: Seq<SV>) -> Seq<Seq<char>> { keys_of(a[0]->Obj_0) }
pub open spec fn tabular(a: Seq<SV>) -> bool
{ a.len() > 0 && a[0] is Obj && a[0]->Obj_0.len() > 0 && forall|i: int| 0 <= i < a.len() ==> row_ok(#[trigger] a[i], cols_of(a)) }
pub open spec fn row_of(v: SV, h: Seq<Seq<char>>) -> Seq<SP> { Seq::new(h.len(), |j: int| oget(v->Obj_0, h[j])->0->Prim_0) }
pub open spec fn rows_of(a: Seq<SV>) -> Seq<Seq<SP>> { Seq::new(a.len(), |i: int| row_of(a[i], cols_of(a))) }

// ---- key folding ---------------------------------------------------------------------------------
/// the chain of single-member objects from key k on: keys and what is at its end
pub open spec fn chain(s: Seq<Seq<char>>, v: SV, max: nat) -> (Seq<Seq<char>>, SV) decreases v
{ match v { SV::Obj(f) => if s.len() < max && f.len() == 1 { chain(s.push(f[0].0), f[0].1, max) } else { (s, v) }, _ => (s, v) } }
pub open spec fn dotted(p: Option<Seq<char>>, k: Seq<char>) -> Seq<char> { match p { Some(p) => p + seq!['.'] + k, None => k } }
pub open spec fn idents(a: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < a.len() ==> ident_seg(#[trigger] a[i]) }
pub open spec fn has_key(a: Seq<Seq<char>>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] a[i] == k }
pub open spec fn can_fold(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO) -> bool {
    let c = chain(seq![k], v, s.rem);
    let fk = join(c.0, '.');
    &&& o.fold && v is Obj && s.rem >= 2 && c.0.len() >= 2
    &&& idents(c.0)
    &&& !has_key(sib, fk)
    &&& !(s.lits is Some && s.lits->0.contains(dotted(s.pre, fk)))
}
pub proof fn l_chain(s: Seq<Seq<char>>, v: SV, max: nat)
    ensures chain(s, v, max).0.len() >= s.len(), ht(chain(s, v, max).1) + chain(s, v, max).0.len() == ht(v) + s.len(),
      chain(s, v, max).0.len() == s.len() ==> chain(s, v, max).1 == v, s.is_prefix_of(chain(s, v, max).0),
      chain(s, v, max).0.len() <= max || chain(s, v, max).0.len() == s.len()
    decreases v
{ match v { SV::Obj(f) => if s.len() < max && f.len() == 1 {
    l_chain(s.push(f[0].0), f[0].1, max); assert(htf(f.drop_last()) == 0); assert(ht(v) == 1 + ht(f[0].1));
    let c = chain(s.push(f[0].0), f[0].1, max).0;
    assert forall|i: int| 0 <= i < s.len() implies s[i] == c[i] by { assert(s.push(f[0].0)[i] == c[i]); }
  }, _ => {} } }

// ---- the layout of a value -----------------------------------------------------------------------
pub open spec fn fs0(o: EO) -> FS { FS { lits: None, pre: None, rem: o.flat } }
pub open spec fn lay_v(v: SV, s: FS, o: EO) -> LV decreases ht(v), 1int, 0int
{ match v { SV::Prim(p) => LV::Prim(p), SV::Arr(a) => lay_arr(a, o), SV::Obj(f) => LV::Obj(lay_fields(f, keys_of(f), s, o)) } }
pub open spec fn lay_fields(f: Seq<SF>, sib: Seq<Seq<char>>, s: FS, o: EO) -> Seq<LF> decreases htf(f), 3int, f.len()
{ if f.len() == 0 { Seq::empty() } else { lay_fields(f.drop_last(), sib, s, o).push(lay_field(f.last().0, f.last().1, sib, s, o)) } }
pub open spec fn lay_field(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO) -> LF decreases ht(v), 2int, 0int via lay_field_dec
{
    let c = chain(seq![k], v, s.rem);
    let fk = join(c.0, '.');
    if can_fold(k, v, sib, s, o) { (fk, lay_v(c.1, FS { lits: s.lits, pre: Some(dotted(s.pre, fk)), rem: (s.rem - c.0.len()) as nat }, o)) }
    else { (k, lay_v(v, FS { lits: s.lits, pre: Some(dotted(s.pre, k)), rem: s.rem }, o)) }
}
#[via_fn]
proof fn lay_field_dec(k: Seq<char>, v: SV, sib: Seq<Seq<char>>, s: FS, o: EO) { l_chain(seq![k], v, s.rem); }
pub open spec fn lay_arr(a: Seq<SV>, o: EO) -> LV decreases 1 + hts(a), 0int, 0int
{ if is_prims(a) { LV::Inl(prims_of(a)) } else if tabular(a) { LV::Tab(cols_of(a), rows_of(a)) } else { LV::Lst(lay_items(a, o)) } }
pub open spec fn lay_items(a: Seq<SV>, o: EO) -> Seq<LV> decreases hts(a), 3int, a.len()
{ if a.len() == 0 { Seq::empty() } else { lay_items(a.drop_last(), o).push(lay_item(a.last(), o)) } }
/// list items: arrays of primitives inline, other arrays as lists, objects with their first member on the item's line
pub open spec fn lay_item(v: SV, o: EO) -> LV decreases ht(v), 2int, 0int
{
    match v {
        SV::Prim(p) => LV::Prim(p),
        SV::Arr(a) => if is_prims(a) { LV::Inl(prims_of(a)) } else { LV::Lst(lay_items(a, o)) },
        SV::Obj(f) => LV::Obj(lay_iobj(f, o)),
    }
}
pub open spec fn lay_iobj(f: Seq<SF>, o: EO) -> Seq<LF> decreases htf(f), 4int, f.len() via lay_iobj_dec
{
    if f.len() == 0 { Seq::empty() }
    else { seq![(f[0].0, lay_v(f[0].1, fs0(o), o))] + lay_fields(f.skip(1), keys_of(f), fs0(o), o) }
}
#[via_fn]
proof fn lay_iobj_dec(f: Seq<SF>, o: EO) { if f.len() > 0 { l_htf(f, 0); l_htf_skip(f); } }
/// keys of the root that contain a dot
pub open spec fn root_lits(f: Seq<SF>) -> Set<Seq<char>> { dotted_keys(keys_of(f)) }
pub open spec fn dotted_keys(k: Seq<Seq<char>>) -> Set<Seq<char>> decreases k.len()
{ if k.len() == 0 { Set::empty() } else { let s = dotted_keys(k.drop_last()); if k.last().contains('.') { s.insert(k.last()) } else { s } } }
pub open spec fn lay_root(v: SV, o: EO) -> LV
{ lay_v(v, FS { lits: match v { SV::Obj(f) => Some(root_lits(f)), _ => None }, pre: None, rem: o.flat }, o) }

// ---- writing a layout ------------------------------------------------------------------------------
pub open spec fn head_a(k: Option<Seq<char>>, v: LV, d: char) -> Seq<char> {
    match v {
        LV::Inl(p) => if p.len() == 0 { fmt_header(0, k, None, d) } else { fmt_header(p.len(), k, None, d) + seq![' '] + join_prims(p, d) },
        LV::Tab(f, r) => fmt_header(r.len(), k, Some(f), d),
        LV::Lst(a) => fmt_header(a.len(), k, None, d),
        _ => Seq::empty(),
    }
}
pub open spec fn head(k: Seq<char>, v: LV, d: char) -> Seq<char> {
    match v {
        LV::Prim(p) => enc_key(k) + seq![':', ' '] + enc_prim(p, d),
        LV::Obj(_) => enc_key(k) + seq![':'],
        _ => head_a(Some(k), v, d),
    }
}
pub open spec fn body(v: LV, n: int, d: char) -> Seq<WL> decreases v, 0int
{
    match v {
        LV::Prim(_) => Seq::empty(),
        LV::Inl(_) => Seq::empty(),
        LV::Tab(f, r) => w_rows(r, n, d),
        LV::Lst(a) => w_items(a, n, d),
        LV::Obj(f) => w_fields(f, n, d),
    }
}
pub open spec fn w_rows(r: Seq<Seq<SP>>, n: int, d: char) -> Seq<WL> { Seq::new(r.len(), |i: int| WL { n, c: join_prims(r[i], d) }) }
pub open spec fn w_field(f: LF, n: int, d: char) -> Seq<WL> decreases f, 1int
{ seq![WL { n, c: head(f.0, f.1, d) }] + body(f.1, n + 1, d) }
pub open spec fn w_fields(f: Seq<LF>, n: int, d: char) -> Seq<WL> decreases f, 2int
{ if f.len() == 0 { Seq::empty() } else { w_fields(f.drop_last(), n, d) + w_field(f.last(), n, d) } }
pub open spec fn w_items(a: Seq<LV>, n: int, d: char) -> Seq<WL> decreases a, 2int
{ if a.len() == 0 { Seq::empty() } else { w_items(a.drop_last(), n, d) + w_item(a.last(), n, d) } }
pub open spec fn w_item(v: LV, n: int, d: char) -> Seq<WL> decreases v, 1int
{
    match v {
        LV::Prim(p) => seq![WL { n, c: seq!['-', ' '] + enc_prim(p, d) }],
        LV::Obj(f) => if f.len() == 0 { seq![WL { n, c: seq!['-'] }] }
            else { seq![WL { n, c: seq!['-', ' '] + head(f[0].0, f[0].1, d) }] + body(f[0].1, n + 2, d) + w_fields(f.skip(1), n + 1, d) },
        _ => seq![WL { n, c: seq!['-', ' '] + head_a(None, v, d) }] + body(v, n + 1, d),
    }
}
pub open spec fn w_doc(v: LV, d: char) -> Seq<WL> {
    match v {
        LV::Prim(p) => if enc_prim(p, d).len() == 0 { Seq::empty() } else { seq![WL { n: 0, c: enc_prim(p, d) }] },
        LV::Obj(f) => w_fields(f, 0, d),
        _ => seq![WL { n: 0, c: head_a(None, v, d) }] + body(v, 1, d),
    }
}
pub open spec fn sp(k: int) -> Seq<char> { Seq::new(k as nat, |i: int| ' ') }
pub open spec fn pr1(x: WL, w: nat) -> Seq<char> { sp(x.n * w) + x.c }
/// the lines as text
pub open spec fn pr(l: Seq<WL>, w: nat) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| pr1(l[i], w)) }
/// the lines of a value
pub open spec fn enc_lines(v: SV, o: EO, w: nat) -> Seq<Seq<char>> { pr(w_doc(lay_root(v, o), o.d), w) }

// ---- the events of a value ---------------------------------------------------------------------------
pub open spec fn ev(v: SV) -> Seq<SE> decreases v
{
    match v {
        SV::Prim(p) => seq![SE::Prim(p)],
        SV::Arr(a) => seq![SE::StartArray(a.len())] + evs(a) + seq![SE::EndArray],
        SV::Obj(f) => seq![SE::StartObject] + evf(f) + seq![SE::EndObject],
    }
}
pub open spec fn evs(a: Seq<SV>) -> Seq<SE> decreases a
{ if a.len() == 0 { Seq::empty() } else { evs(a.drop_last()) + ev(a.last()) } }
pub open spec fn evf(f: Seq<SF>) -> Seq<SE> decreases f
{ if f.len() == 0 { Seq::empty() } else { evf(f.drop_last()) + (seq![SE::Key(f.last().0, !unq_key(f.last().0))] + ev(f.last().1)) } }

// ---- one step of the loops over members and items ---
pub proof fn l_fields_step(f: Seq<SF>, i: int, sib: Seq<Seq<char>>, s: FS, o: EO, n: int, d: char)
    requires 0 <= i < f.len()
    ensures w_fields(lay_fields(f.take(i + 1), sib, s, o), n, d) == w_fields(lay_fields(f.take(i), sib, s, o), n, d) + w_field(lay_field(f[i].0, f[i].1, sib, s, o), n, d)
{
    assert(f.take(i + 1).drop_last() =~= f.take(i));
    let l = lay_fields(f.take(i), sib, s, o); let x = lay_field(f[i].0, f[i].1, sib, s, o);
    assert(l.push(x).drop_last() =~= l);
}
pub proof fn l_items_step(a: Seq<SV>, i: int, o: EO, n: int, d: char)
    requires 0 <= i < a.len()
    ensures w_items(lay_items(a.take(i + 1), o), n, d) == w_items(lay_items(a.take(i), o), n, d) + w_item(lay_item(a[i], o), n, d)
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    let l = lay_items(a.take(i), o); let x = lay_item(a[i], o);
    assert(l.push(x).drop_last() =~= l);
}
pub proof fn l_lay_items_len(a: Seq<SV>, o: EO) ensures lay_items(a, o).len() == a.len() decreases a.len()
{ if a.len() > 0 { l_lay_items_len(a.drop_last(), o); } }
pub proof fn l_oget_at(f: Seq<SF>, k: Seq<char>, i: int)
    requires 0 <= i < f.len(), f[i].0 == k, forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).0 != k ensures oget(f, k) == Some(f[i].1) decreases f.len()
{ l_oget(f, k); l_oget(f.drop_last(), k); if i < f.len() - 1 { l_oget_at(f.drop_last(), k, i); } else if oget(f.drop_last(), k) is Some {
    let g = f.drop_last(); let j = choose|j: int| 0 <= j < g.len() && (#[trigger] g[j]).0 == k; assert(f[j].0 == k); } }
pub proof fn l_oget(f: Seq<SF>, k: Seq<char>)
    ensures match oget(f, k) { Some(v) => exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == k && f[i].1 == v && forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).0 != k,
        None => forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0 != k }
    decreases f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        l_oget(g, k);
        assert(forall|i: int| 0 <= i < g.len() ==> (#[trigger] f[i]) == g[i]);
        if oget(g, k) is Some {
            let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == k && g[i].1 == oget(g, k)->0 && forall|j: int| 0 <= j < i ==> (#[trigger] g[j]).0 != k;
            assert(f[i] == g[i]);
        } else if f.last().0 == k { assert(f[f.len() - 1].0 == k); }
    }
}
pub proof fn l_dotted(k: Seq<Seq<char>>, i: int) requires 0 <= i < k.len()
    ensures dotted_keys(k.take(i + 1)) == (if k[i].contains('.') { dotted_keys(k.take(i)).insert(k[i]) } else { dotted_keys(k.take(i)) })
{ assert(k.take(i + 1).drop_last() =~= k.take(i)); }
/// the header of an array with a key is the key followed by the header without one
pub proof fn l_header_key(n: nat, k: Seq<char>, f: Option<Seq<Seq<char>>>, d: char)
    ensures enc_key(k) + fmt_header(n, None, f, d) == fmt_header(n, Some(k), f, d)
{ assert(enc_key(k) + fmt_header(n, None, f, d) =~= fmt_header(n, Some(k), f, d)); }
pub proof fn l_head_key(k: Seq<char>, v: LV, d: char)
    requires v is Inl || v is Tab || v is Lst
    ensures enc_key(k) + head_a(None, v, d) == head_a(Some(k), v, d)
{ assert(enc_key(k) + head_a(None, v, d) =~= head_a(Some(k), v, d)); }
pub proof fn l_root(v: SV, o: EO)
    ensures lay_root(v, o) == (match v { SV::Prim(p) => LV::Prim(p), SV::Arr(a) => lay_arr(a, o), SV::Obj(f) => LV::Obj(lay_fields(f, keys_of(f), FS { lits: Some(root_lits(f)), pre: None, rem: o.flat }, o)) }),
      v is Arr ==> lay_root(v, o) is Inl || lay_root(v, o) is Tab || lay_root(v, o) is Lst
{ }

// ---- lemmas for the code -----------------------------------------------------------------------------
pub broadcast proof fn bc_pr1(e: Seq<Seq<char>>, x: WL, w: nat)
    ensures #[trigger] (e + pr(seq![x], w)) == e.push(pr1(x, w))
{ assert(e + pr(seq![x], w) =~= e.push(pr1(x, w))); }
pub broadcast proof fn bc_pr_cat(e: Seq<Seq<char>>, a: Seq<WL>, b: Seq<WL>, w: nat)
    ensures #[trigger] (e + pr(a + b, w)) == e + pr(a, w) + pr(b, w)
{ assert(e + pr(a + b, w) =~= e + pr(a, w) + pr(b, w)); }
pub broadcast proof fn bc_pr_none(e: Seq<Seq<char>>, w: nat)
    ensures #[trigger] (e + pr(Seq::empty(), w)) == e
{ assert(e + pr(Seq::empty(), w) =~= e); }
} // verus!
}
