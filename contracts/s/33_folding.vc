@file src/encode/folding.rs mod encode::folding
@dropuse std::collections::HashSet
@dropuse std::borrow::Cow
@use use crate::{svs, sos, strs, ax_texts_len}; use crate::vstubs::rstrs; use crate::vstubs::{HashSet, Cow};
pub broadcast proof fn l_idents(v: Seq<String>)
    ensures #[trigger] idents(strs(v)) == (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> ident_seg(v[i]@))
{ let r = strs(v); assert forall|i: int| 0 <= i < v.len() implies r[i] == #[trigger] v[i]@ by {} }
pub broadcast proof fn l_has_key(v: Seq<&str>, k: Seq<char>)
    ensures #[trigger] has_key(rstrs(v), k) == (exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i]@ == k)
{ let r = rstrs(v); assert forall|i: int| 0 <= i < v.len() implies r[i] == #[trigger] v[i]@ by {} }
@type FoldResult
@fn try_fold_key_chain
@ret r
@spec
    ensures ({ let s = FS { lits: match root_literal_keys { Some(h) => Some(h.set()), None => None }, pre: match path_prefix { Some(p) => Some(p@), None => None }, rem: flatten_depth as nat };
      let c = chain(seq![key@], value.sv(), flatten_depth as nat);
      match r {
        None => !can_fold(key@, value.sv(), rstrs(siblings@), s, options.eo()),
        Some(x) => can_fold(key@, value.sv(), rstrs(siblings@), s, options.eo()) && x.folded_key@ == join(c.0, '.') && x.leaf_value.sv() == c.1
          && x.segment_count == c.0.len() && (match x.remainder { Some(t) => t.sv() == c.1 && c.1 is Obj && c.1->Obj_0.len() > 0, None => !(c.1 is Obj && c.1->Obj_0.len() > 0) }) } })
@at entry
    broadcast use l_idents; broadcast use l_has_key;
@closure all:0
    |$1: &String| -> (q: bool) ensures q == ident_seg($1@)
@closure any:0
    |$1: &&str| -> (q: bool) ensures q == ($1@ == folded_key@)
@closure map_or_else:0
    || -> (q: Cow<str>) ensures q.cv() == folded_key@
@closure map_or_else:1
    |$1: &str| -> (q: Cow<str>) ensures q.cv() == $1@ + seq!['.'] + folded_key@
@closure sum:0
    |$1: &String| -> (q: usize) ensures q == blen($1@)
@at before let mut folded_key
    let ghost sg = strs(segments@);
    proof { assert(idents(sg)); ax_texts_len(&segments); assert(sg.take(0) =~= Seq::empty()); }
@loop 0
    invariant folded_key@ == join(sg.take(i as int), '.'), sg == strs(segments@)
@at loop_start 0
    proof { lemma_join_step(sg, i as int, '.'); }
@at after_loop 0
    proof { assert(sg.take(segments@.len() as int) =~= sg); }
@fn collect_single_key_chain
@ret r
@spec
    ensures ({ let c = chain(seq![start_key@], start_value.sv(), max_depth as nat);
      strs(r.0@) == c.0 && r.2.sv() == c.1 && (match r.1 { Some(t) => t.sv() == c.1 && c.1 is Obj && c.1->Obj_0.len() > 0, None => !(c.1 is Obj && c.1->Obj_0.len() > 0) }) })
@loop 0
    invariant chain(seq![start_key@], start_value.sv(), max_depth as nat) == chain(strs(segments@), current_value.sv(), max_depth as nat)
    ensures chain(strs(segments@), current_value.sv(), max_depth as nat) == (strs(segments@), current_value.sv())
    decreases max_depth - segments@.len()
@at before_loop 0
    proof { assert(strs(segments@) =~= seq![start_key@]); }
@at before let (next_key
    let ghost s0 = segments@; let ghost v0 = current_value.sv();
    proof { assert(v0->Obj_0[0] == (obj@[0].0@, obj@[0].1.sv())); assert(v0->Obj_0.len() == 1); }
@at loop_end 0
    proof { assert(strs(segments@) =~= strs(s0).push(v0->Obj_0[0].0)); assert(current_value.sv() == v0->Obj_0[0].1);
      assert(chain(strs(s0), v0, max_depth as nat) == chain(strs(s0).push(v0->Obj_0[0].0), v0->Obj_0[0].1, max_depth as nat)); }
