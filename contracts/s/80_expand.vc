@file src/decode/expand.rs mod decode::expand
@dropuse std::collections::HashSet
@use use crate::vstubs::HashSet; use crate::decode::event_builder::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup
@fn depth_error
@fn expand_paths_safe
@ret r
@spec
    ensures match r { Ok(n) => x_val(value.nv(), strict, 0) == Some(n.nv()), Err(_) => x_val(value.nv(), strict, 0) is None }
@fn expand_paths_safe_inner
@ret r
@spec
    requires depth <= 100_000
    ensures match r { Ok(n) => x_val(value.nv(), strict, depth as int) == Some(n.nv()), Err(_) => x_val(value.nv(), strict, depth as int) is None }
    decreases value, 1int
@at entry
    broadcast use crate::vlem_build::gbuild;
    let ghost v0 = value;
    proof { assert(nvs(Seq::empty()) =~= Seq::empty()); }
@loop 0
    invariant v0 is Array, v0 == value, it0.seq() == v0->Array_0@, x_vals(nvs(it0.seq()).take(it0.index() as int), strict, depth as int) == Some(nvs(expanded@)), depth < MAX_EXPAND_DEPTH
@at loop_start 0
    broadcast use crate::vlem_build::gbuild;
    let ghost i = it0.index() as int;
    proof { crate::vlem_build::l_nvs_step(v0->Array_0@, i); l_vals_none(nvs(v0->Array_0@), i + 1, strict, depth as int); assert(decreases_to!(v0 => v0->Array_0@[i])); }
@at after_loop 0
    proof { let a = v0->Array_0@; assert(nvs(a).take(a.len() as int) =~= nvs(a)); }
@fn expand_object
@ret r
@spec
    requires depth <= 100_000
    ensures match r { Ok(n) => depth < max_x() && x_obj(nfs(obj.entries@), obj.quoted_keys.set(), strict, depth as int) == Some(nfs(n.entries@)) && n.quoted_keys.set() == Set::<Seq<char>>::empty(),
       Err(_) => depth >= max_x() || x_obj(nfs(obj.entries@), obj.quoted_keys.set(), strict, depth as int) is None }
    decreases obj, 0int
@at entry
    let ghost o0 = obj;
    proof { assert(nfs(Seq::empty()) =~= Seq::empty()); }
@loop 0
    invariant o0 == obj, it0.seq() == o0.entries@, quoted_keys == o0.quoted_keys, depth < MAX_EXPAND_DEPTH, expanded.quoted_keys.set() == Set::<Seq<char>>::empty(),
        x_obj(nfs(it0.seq()).take(it0.index() as int), o0.quoted_keys.set(), strict, depth as int) == Some(nfs(expanded.entries@))
@at loop_start 0
    let ghost i = it0.index() as int;
    broadcast use crate::vlem_build::bc_all_ident;
    let ghost t1 = nfs(expanded.entries@);
    proof { bc_has_char(o0.entries@[i].0@, '.'); crate::vlem_build::l_nfs_step(o0.entries@, i); l_obj_none(nfs(o0.entries@), o0.quoted_keys.set(), i + 1, strict, depth as int); assert(decreases_to!(o0 => o0.entries@[i].1));
        assert(x_val(o0.entries@[i].1.nv(), strict, depth + 1) is Some ==> x_obj(nfs(o0.entries@).take(i + 1), o0.quoted_keys.set(), strict, depth as int) == x_member(t1, o0.entries@[i].0@, x_val(o0.entries@[i].1.nv(), strict, depth + 1)->0, o0.quoted_keys.set(), strict, depth as int)); }
@at after_loop 0
    proof { let a = o0.entries@; assert(nfs(a).take(a.len() as int) =~= nfs(a)); }
@closure all:0
    |$1: &&str| -> (q: bool) ensures q == ident_seg($1@)
@fn insert_path_entries
@ret r
@spec
    requires depth <= 100_000
    ensures match r { Ok(_) => x_path(nfs(old(entries)@), rstrs(segments@), value.nv(), strict, depth as int) == Some(nfs(final(entries)@)),
       Err(_) => x_path(nfs(old(entries)@), rstrs(segments@), value.nv(), strict, depth as int) is None }
    decreases segments@.len()
@at entry
    broadcast use crate::vlem_build::gbuild;
    let ghost e0 = entries@;
    proof { assert(nfs(Seq::empty()) =~= Seq::empty()); if segments@.len() > 0 { assert(rstrs(segments@.skip(1)) =~= rstrs(segments@).skip(1)); } }
@fn insert_literal_entry
@ret r
@spec
    requires depth <= 100_000
    ensures match r { Ok(_) => x_lit(nfs(old(entries)@), key@, value.nv(), strict, depth as int) == Some(nfs(final(entries)@)),
       Err(_) => x_lit(nfs(old(entries)@), key@, value.nv(), strict, depth as int) is None }
@at entry
    broadcast use crate::vlem_build::gbuild;
@fn merge_objects
@ret r
@spec
    requires depth <= 100_000
    ensures match r { Ok(_) => x_merge(nfs(old(target).entries@), nfs(source.entries@), strict, depth as int) == Some(nfs(final(target).entries@)) && final(target).quoted_keys.set() == old(target).quoted_keys.set(),
       Err(_) => x_merge(nfs(old(target).entries@), nfs(source.entries@), strict, depth as int) is None }
    decreases source
@at entry
    let ghost o0 = source; let ghost t0 = *target;
@loop 0
    invariant o0 == source, t0 == *old(target), it0.seq() == o0.entries@, depth < MAX_EXPAND_DEPTH, target.quoted_keys.set() == t0.quoted_keys.set(),
        x_fold(nfs(t0.entries@), nfs(it0.seq()).take(it0.index() as int), strict, depth as int) == Some(nfs(target.entries@))
@at loop_start 0
    broadcast use crate::vlem_build::gbuild;
    let ghost i = it0.index() as int;
    proof { crate::vlem_build::l_nfs_step(o0.entries@, i); l_fold_none(nfs(t0.entries@), nfs(o0.entries@), i + 1, strict, depth as int); assert(decreases_to!(o0 => o0.entries@[i].1));
        assert(x_fold(nfs(t0.entries@), nfs(o0.entries@).take(i + 1), strict, depth as int) == x_put(nfs(target.entries@), o0.entries@[i].0@, o0.entries@[i].1.nv(), strict, depth as int)); }
@at after_loop 0
    proof { let a = o0.entries@; assert(nfs(a).take(a.len() as int) =~= nfs(a)); }
@fn find_entry_index
@ret r
@spec
    ensures fidx(nfs(entries@), key@) == (match r { Some(i) => Some(i as int), None => None }), r is Some ==> r->0 < entries@.len()
@closure position:0
    |v_p: &(String, NodeValue)| -> (q: bool) ensures q == (v_p.0@ == key@) ;; let $1 = v_p;
@tail
    proof { let f = nfs(entries@); assert(forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).0 == entries@[j].0@); assert forall|j: int| 0 <= j < (match vres_ { Some(i) => i as int, None => f.len() as int }) implies (#[trigger] f[j]).0 != key@ by { let x = entries@[j]; } match vres_ { Some(i) => l_fidx_is(f, key@, i as int), None => l_fidx_none(f, key@) } }
@fn can_merge
@ret r
@spec
    ensures r == (left is Object && right is Object)
@fn extract_object
@ret r
@spec
    ensures r == (match value { NodeValue::Object(o) => Ok::<ObjectNode, crate::error::ToonError>(o), _ => r }), r is Err <==> !(value is Object)
@fn node_type_name
