@file src/encode/replacer.rs mod encode::replacer
@use use crate::options::pv; use crate::{svs, sos};
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::options::l_pv, crate::options::l_pv0, crate::vspec_rep::l_pre_last
@fn apply_replacer
@ret r
@ghost Tracked(tr): Tracked<&mut RpLog>
@gcall replacer transform_children => Tracked(tr)
@spec
    ensures old(tr).l.is_prefix_of(final(tr).l), rp_root(root.sv(), final(tr).l, old(tr).l.len() as int) == Some((r.sv(), final(tr).l.len() as int))
@attr #[verifier::exec_allows_no_decreases_clause]
@at entry
    proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); }
    let ghost l0 = tr.l;
@fn transform_children
@ret r
@ghost Tracked(tr): Tracked<&mut RpLog>
@gcall transform_object transform_array => Tracked(tr)
@spec
    ensures old(tr).l.is_prefix_of(final(tr).l), rp_v(value.sv(), pv(path@), final(tr).l, old(tr).l.len() as int) == Some((r.sv(), final(tr).l.len() as int))
@attr #[verifier::exec_allows_no_decreases_clause]
@fn transform_object
@ret r
@ghost Tracked(tr): Tracked<&mut RpLog>
@gcall replacer transform_children => Tracked(tr)
@spec
    ensures old(tr).l.is_prefix_of(final(tr).l), rp_f(sos(entries@), pv(path@), final(tr).l, old(tr).l.len() as int) == Some((sos(r@), final(tr).l.len() as int))
@attr #[verifier::exec_allows_no_decreases_clause]
@at entry
    let ghost e0 = entries@; let ghost f = sos(entries@); let ghost l0 = tr.l;
@at before_loop 0
    proof { assert(f.take(0) =~= Seq::empty()); assert(sos(result@) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == e0, f == sos(e0), l0.is_prefix_of(tr.l), rp_f(f.take(it0.index() as int), pv(path@), tr.l, l0.len() as int) == Some((sos(result@), tr.l.len() as int))
@at loop_start 0
    let ghost n = it0.index() as int; let ghost l1 = tr.l; let ghost r1 = result@;
    proof { assert(f[n] == (e0[n].0@, e0[n].1.sv())); }
@at loop_end 0
    proof { l_rp_f_step(f, n, pv(path@), l1, tr.l, l0.len() as int); if result@.len() > r1.len() { assert(sos(result@) =~= sos(r1).push((result@[r1.len() as int].0@, result@[r1.len() as int].1.sv()))); } }
@at after_loop 0
    proof { assert(f.take(e0.len() as int) =~= f); }
@fn transform_array
@ret r
@ghost Tracked(tr): Tracked<&mut RpLog>
@gcall replacer transform_children => Tracked(tr)
@spec
    ensures old(tr).l.is_prefix_of(final(tr).l), rp_a(svs(values@), pv(path@), final(tr).l, old(tr).l.len() as int) == Some((svs(r@), final(tr).l.len() as int))
@attr #[verifier::exec_allows_no_decreases_clause]
@at entry
    let ghost e0 = values@; let ghost f = svs(values@); let ghost l0 = tr.l;
@at before_loop 0
    proof { assert(f.take(0) =~= Seq::empty()); assert(svs(result@) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == e0.len(), forall|i: int| 0 <= i < e0.len() ==> (#[trigger] it0.seq()[i]).0 == i && it0.seq()[i].1 == e0[i], f == svs(e0), l0.is_prefix_of(tr.l), rp_a(f.take(it0.index() as int), pv(path@), tr.l, l0.len() as int) == Some((svs(result@), tr.l.len() as int))
@at loop_start 0
    let ghost n = it0.index() as int; let ghost l1 = tr.l; let ghost r1 = result@;
    proof { assert(f[n] == e0[n].sv()); }
@at loop_end 0
    proof { l_rp_a_step(f, n, pv(path@), l1, tr.l, l0.len() as int); if result@.len() > r1.len() { assert(svs(result@) =~= svs(r1).push(result@[r1.len() as int].sv())); } }
@at after_loop 0
    proof { assert(f.take(e0.len() as int) =~= f); }
