@file src/encode/encoders.rs mod encode::encoders
@dropuse std::collections::HashSet
@use use crate::{svs, sos, sps, strs}; use crate::vstubs::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::lemma_strs_push, crate::vspec_enc::bc_pr1, crate::vspec_enc::bc_pr_cat, crate::vspec_enc::bc_pr_none
/// memory: a value holds one block of at least 24 bytes for each level of nesting and for each node, so both stay below an eighth of the address space
pub axiom fn ax_mem(v: &JsonValue) ensures ht(v.sv()) * 8 <= usize::MAX, est(v.sv()) * 8 <= usize::MAX;
pub proof fn l_sp_len(k: nat) ensures blen(sp(k as int)) == k decreases k
{
    lemma_enc_empty();
    if k == 0 { assert(sp(0) =~= Seq::empty()); } else { l_sp_len((k - 1) as nat); assert(sp(k as int) =~= sp(k as int - 1) + seq![' ']); lemma_enc_concat(sp(k as int - 1), seq![' ']); lemma_enc1(' '); }
}
/// indentation written so far fits a String, so the saturated product was exact
pub proof fn l_indent(out: &String, k: usize, a: usize, b: usize)
    requires out@ == sp(k as int), k == (if a * b > usize::MAX { usize::MAX as int } else { a * b }),
    ensures out@ == sp(b * a)
{
    crate::vax::ax_string_len(out);
    l_sp_len(k as nat);
    assert(a * b == b * a) by (nonlinear_arith);
}
pub proof fn l_lits() ensures "- "@ == seq!['-', ' '], ": "@ == seq![':', ' '], "-"@ == seq!['-']
{ reveal_strlit("- "); reveal_strlit(": "); reveal_strlit("-"); assert("- "@ =~= seq!['-', ' ']); assert(": "@ =~= seq![':', ' ']); assert("-"@ =~= seq!['-']); }
/// what each item adds to the line estimate
pub open spec fn est_a(a: Seq<JsonValue>) -> Seq<nat> { Seq::new(a.len(), |i: int| est(a[i].sv())) }
pub open spec fn est_o(a: Seq<(String, JsonValue)>) -> Seq<nat> { Seq::new(a.len(), |i: int| est(a[i].1.sv())) }
pub proof fn l_est_a(a: Seq<JsonValue>) ensures nsum(est_a(a)) == ests(svs(a)), forall|i: int| 0 <= i < a.len() ==> ht((#[trigger] a[i]).sv()) <= hts(svs(a)) && est(a[i].sv()) <= ests(svs(a)) decreases a.len()
{ if a.len() > 0 { l_est_a(a.drop_last()); assert(svs(a.drop_last()) =~= svs(a).drop_last()); assert(est_a(a.drop_last()) =~= est_a(a).drop_last());
    assert forall|i: int| 0 <= i < a.len() implies ht((#[trigger] a[i]).sv()) <= hts(svs(a)) && est(a[i].sv()) <= ests(svs(a)) by { if i < a.len() - 1 { assert(a[i] == a.drop_last()[i]); } } } }
pub proof fn l_est_o(a: Seq<(String, JsonValue)>) ensures nsum(est_o(a)) == estf(sos(a)), forall|i: int| 0 <= i < a.len() ==> ht((#[trigger] a[i]).1.sv()) <= htf(sos(a)) && est(a[i].1.sv()) <= estf(sos(a)) decreases a.len()
{ if a.len() > 0 { l_est_o(a.drop_last()); assert(sos(a.drop_last()) =~= sos(a).drop_last()); assert(est_o(a.drop_last()) =~= est_o(a).drop_last());
    assert forall|i: int| 0 <= i < a.len() implies ht((#[trigger] a[i]).1.sv()) <= htf(sos(a)) && est(a[i].1.sv()) <= estf(sos(a)) by { if i < a.len() - 1 { assert(a[i] == a.drop_last()[i]); } } } }
pub broadcast proof fn l_tab_objs(a: Seq<JsonValue>)
    ensures #[trigger] tabular(svs(a)) ==> forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] is Object
{ if tabular(svs(a)) { assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies a[i] is Object by { assert(row_ok(svs(a)[i], cols_of(svs(a)))); } } }
pub open spec fn okey(k: Option<&str>) -> Option<Seq<char>> { match k { Some(k) => Some(k@), None => None } }
pub open spec fn obj_fs(f: Seq<SF>, depth: usize, lits: Option<&HashSet<String>>, pre: Option<&str>, rem: Option<usize>, o: EO) -> FS {
    FS { lits: match lits { Some(h) => Some(h.set()), None => if depth == 0 { Some(root_lits(f)) } else { None } }, pre: okey(pre), rem: match rem { Some(r) => r as nat, None => o.flat } }
}
pub proof fn l_inline(a: Seq<JsonValue>, w: Seq<Option<JsonPrimitive>>)
    requires is_prims(svs(a)), w.len() == a.len(), forall|i: int| 0 <= i < w.len() ==> (a[i] is Primitive ==> (#[trigger] w[i]) == Some(a[i]->Primitive_0))
    ensures sps(somes(w)) == prims_of(svs(a)), somes(w).len() == w.len() decreases a.len()
{
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(svs(a.drop_last()) =~= svs(a).drop_last());
        assert forall|i: int| 0 <= i < n implies (#[trigger] svs(a.drop_last())[i]) is Prim by { assert(svs(a)[i] is Prim); }
        l_inline(a.drop_last(), w.drop_last());
        assert(svs(a)[n] is Prim); assert(w[n] == Some(a[n]->Primitive_0));
        assert(sps(somes(w)) =~= sps(somes(w.drop_last())).push(a[n]->Primitive_0.sp()));
        assert(prims_of(svs(a)) =~= prims_of(svs(a.drop_last())).push(svs(a)[n]->Prim_0));
    } else { assert(sps(somes(w)) =~= prims_of(svs(a))); }
}
pub open spec fn all_rows(a: Seq<SV>, h: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < a.len() ==> row_ok(#[trigger] a[i], h) }
@fn indented_line
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + content@
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { assert(out@ =~= sp(depth * indent_size) + content@); }
@fn indented_key_value_line
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (key@ + seq![':', ' '] + value@)
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { l_lits(); assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { l_lits(); assert(out@ =~= sp(depth * indent_size) + (key@ + seq![':', ' '] + value@)); }
@fn indented_key_colon_line
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (key@ + seq![':'])
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { assert(out@ =~= sp(depth * indent_size) + (key@ + seq![':'])); }
@fn indented_list_item
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (seq!['-', ' '] + content@)
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { l_lits(); assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { l_lits(); assert(out@ =~= sp(depth * indent_size) + (seq!['-', ' '] + content@)); }
@fn indented_list_item_key_value
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (seq!['-', ' '] + (key@ + seq![':', ' '] + value@))
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { l_lits(); assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { l_lits(); assert(out@ =~= sp(depth * indent_size) + (seq!['-', ' '] + (key@ + seq![':', ' '] + value@))); }
@fn indented_list_item_key_colon
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (seq!['-', ' '] + (key@ + seq![':']))
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { l_lits(); assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { l_lits(); assert(out@ =~= sp(depth * indent_size) + (seq!['-', ' '] + (key@ + seq![':']))); }
@fn indented_list_item_key_header
@ret r
@spec
    ensures r@ == sp(depth * indent_size) + (seq!['-', ' '] + (key@ + header@))
@loop 0
    invariant out@ == sp(it0.index() as int)
@at loop_end 0
    proof { assert(out@ =~= sp(it0.index() as int + 1)); }
@at before_loop 0
    proof { l_lits(); assert(out@ =~= sp(0)); }
@at after_loop 0
    proof { l_indent(&out, indent_chars, indent_size, depth); }
@at end
    proof { l_lits(); assert(out@ =~= sp(depth * indent_size) + (seq!['-', ' '] + (key@ + header@))); }
@fn encode_json_value
@ret r
@spec
    ensures strs(r@) == enc_lines(value.sv(), options.eo(), options.indent as nat)
@at entry
    hide(w_fields); hide(body); hide(lay_arr); hide(lay_v); hide(lay_root); hide(head_a); hide(enc_prim);
    proof { l_root(value.sv(), options.eo()); ax_mem(value); if value.sv() is Prim { let c = enc_prim(value.sv()->Prim_0, options.delimiter); assert(0 * (options.indent as nat) == 0); assert(sp(0) + c =~= c); assert(pr(seq![WL { n: 0, c }], options.indent as nat) =~= seq![c]); assert(Seq::<Seq<char>>::empty().push(c) =~= seq![c]); } assert(strs(Seq::empty()) =~= Seq::empty()); assert(forall|a: Seq<Seq<char>>| #[trigger] (Seq::<Seq<char>>::empty() + a) =~= a); }
@fn encode_object_lines
@spec
    requires depth + 2 * htf(sos(value@)) + 3 <= usize::MAX
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_fields(lay_fields(sos(value@), keys_of(sos(value@)), obj_fs(sos(value@), depth, root_literal_keys, path_prefix, remaining_depth, options.eo()), options.eo()), depth as int, options.delimiter), options.indent as nat)
    decreases htf(sos(value@)), 3int
@at entry
    let ghost f = sos(value@);
    let ghost st = obj_fs(f, depth, root_literal_keys, path_prefix, remaining_depth, options.eo());
    let ghost out0 = strs(out@);
    let ghost rlk0 = root_literal_keys;
@closure map:0
    |vp: &(String, JsonValue)| -> (q: &str) ensures q@ == vp.0@ ;; let $1 = vp;
@at before_loop 0
    proof { assert(rstrs(keys@) =~= keys_of(f)); assert(keys_of(f).take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == keys@.map_values(|k: &str| &k), rstrs(keys@) == keys_of(f), root_literal_set.set() == dotted_keys(keys_of(f).take(it0.index() as int))
@at loop_start 0
    proof { l_dotted(keys_of(f), it0.index() as int); bc_has_char(key@, '.'); }
@at after_loop 0
    proof { assert(keys_of(f).take(keys@.len() as int) =~= keys_of(f)); }
@at before_loop 1
    proof { assert(rstrs(keys@) =~= keys_of(f)); assert(f.take(0) =~= Seq::empty()); }
@loop 1
    invariant it1.seq().len() == value@.len(), forall|j: int| 0 <= j < value@.len() ==> *(#[trigger] it1.seq()[j]) == value@[j], f == sos(value@), rstrs(keys@) == keys_of(f), depth + 2 * htf(f) + 3 <= usize::MAX,
        st == (FS { lits: match root_literal_keys { Some(h) => Some(h.set()), None => None }, pre: okey(path_prefix), rem: effective_flatten_depth as nat }),
        strs(out@) == out0 + pr(w_fields(lay_fields(f.take(it1.index() as int), keys_of(f), st, options.eo()), depth as int, options.delimiter), options.indent as nat)
@at loop_start 1
    proof { let i = it1.index() as int; l_fields_step(f, i, keys_of(f), st, options.eo(), depth as int, options.delimiter); l_htf(f, i); assert(f[i] == (value@[i].0@, value@[i].1.sv())); }
@at after_loop 1
    proof { assert(f.take(value@.len() as int) =~= f); }
@fn encode_key_value_pair_lines
@spec
    requires depth + 2 * ht(value.sv()) + 3 <= usize::MAX
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_field(lay_field(key@, value.sv(), rstrs(siblings@), FS { lits: match root_literal_keys { Some(h) => Some(h.set()), None => None }, pre: match path_prefix { Some(p) => Some(p@), None => None }, rem: flatten_depth as nat }, options.eo()), depth as int, options.delimiter), options.indent as nat)
    decreases ht(value.sv()), 2int
@at entry
    hide(enc_key); hide(enc_prim); hide(fmt_header); hide(join_prims); hide(is_prims); hide(tabular);
    proof { l_chain(seq![key@], value.sv(), flatten_depth as nat); }
@closure map_or_else:0
    || -> (q: String) ensures q@ == key@
@closure map_or_else:1
    |$1: &str| -> (q: String) ensures q@ == $1@ + seq!['.'] + key@
@fn encode_array_lines
@spec
    requires depth + 2 * (1 + hts(svs(value@))) + 3 <= usize::MAX
    ensures ({ let v = lay_arr(svs(value@), options.eo());
      strs(final(out)@) == strs(old(out)@) + pr(seq![WL { n: depth as int, c: head_a(okey(key), v, options.delimiter) }] + body(v, depth + 1, options.delimiter), options.indent as nat) })
    decreases 1 + hts(svs(value@)), 1int
@closure all:0
    |$1: &JsonValue| -> (q: bool) ensures q == ($1 is Array && is_prims(svs($1->Array_0@)))
@at entry
    let ghost a = svs(value@);
    broadcast use l_tab_objs;
    proof { l_lay_items_len(a, options.eo());
      assert forall|i: int| #![trigger value@[i]] 0 <= i < value@.len() implies a[i] == value@[i].sv() by {}
    }
@at before encode_array_of_objects_as_tabular_lines
    proof { assert(Seq::new(value@.len(), |i: int| row_of(a[i], cols_of(a))) =~= rows_of(a)); }
@fn encode_array_of_arrays_as_list_items_lines
@spec
    requires depth < usize::MAX, forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]) is Array && is_prims(svs(values@[i]->Array_0@))
    ensures ({ let v = LV::Lst(lay_items(svs(values@), options.eo()));
      strs(final(out)@) == strs(old(out)@) + pr(seq![WL { n: depth as int, c: head_a(okey(key), v, options.delimiter) }] + body(v, depth + 1, options.delimiter), options.indent as nat) })
@at entry
    let ghost out0 = strs(out@); let ghost a = svs(values@); let ghost hd = WL { n: depth as int, c: head_a(okey(key), LV::Lst(lay_items(a, options.eo())), options.delimiter) };
    proof { l_lay_items_len(a, options.eo()); }
@at before_loop 0
    proof { assert(a.take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == values@.len(), forall|j: int| 0 <= j < values@.len() ==> *(#[trigger] it0.seq()[j]) == values@[j], a == svs(values@), depth < usize::MAX,
        forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]) is Array && is_prims(svs(values@[i]->Array_0@)),
        strs(out@) == out0 + pr(seq![hd], options.indent as nat) + pr(w_items(lay_items(a.take(it0.index() as int), options.eo()), depth + 1, options.delimiter), options.indent as nat)
@at loop_start 0
    proof { let i = it0.index() as int; l_items_step(a, i, options.eo(), depth + 1, options.delimiter); assert(a[i] == values@[i].sv()); }
@at after_loop 0
    proof { assert(a.take(values@.len() as int) =~= a); }
@fn encode_inline_array_line
@ret r
@spec
    requires is_prims(svs(values@))
    ensures r@ == head_a(okey(key), LV::Inl(prims_of(svs(values@))), delimiter)
@closure filter_map:0
    |$1: &JsonValue| -> (q: Option<JsonPrimitive>) ensures $1 is Primitive ==> q == Some($1->Primitive_0)
@at entry
    hide(fmt_header); hide(join_prims); broadcast use crate::encode::normalize::l_is_prims;
@at before let header
    proof { assert(values@.len() == primitives@.len() && sps(primitives@) == prims_of(svs(values@))) by {
        let w = choose|w: Seq<Option<JsonPrimitive>>| w.len() == values@.len() && primitives@ == #[trigger] somes(w) && forall|i: int| 0 <= i < w.len() ==> (values@[i] is Primitive ==> (#[trigger] w[i]) == Some(values@[i]->Primitive_0));
        l_inline(values@, w); } }
@at before let mut out
    proof { crate::vax::ax_string_len(&header); crate::vax::ax_string_len(&joined); }
@at end
    proof { assert(out@ =~= header@ + seq![' '] + joined@); }
@fn encode_array_of_objects_as_tabular_lines
@spec
    requires depth < usize::MAX, all_rows(svs(rows@), strs(header@))
    ensures ({ let v = LV::Tab(strs(header@), Seq::new(rows@.len(), |i: int| row_of(svs(rows@)[i], strs(header@))));
      strs(final(out)@) == strs(old(out)@) + pr(seq![WL { n: depth as int, c: head_a(okey(key), v, options.delimiter) }] + body(v, depth + 1, options.delimiter), options.indent as nat) })
@fn write_tabular_rows_lines
@spec
    requires all_rows(svs(rows@), strs(header@))
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_rows(Seq::new(rows@.len(), |i: int| row_of(svs(rows@)[i], strs(header@))), depth as int, options.delimiter), options.indent as nat)
@at entry
    let ghost out0 = strs(out@); let ghost rr = Seq::new(rows@.len(), |i: int| row_of(svs(rows@)[i], strs(header@)));
@at before_loop 0
    proof { assert(rr.take(0) =~= Seq::empty()); assert(w_rows(rr.take(0), depth as int, options.delimiter) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == rows@.len(), forall|j: int| 0 <= j < rows@.len() ==> *(#[trigger] it0.seq()[j]) == rows@[j], all_rows(svs(rows@), strs(header@)), rr == Seq::new(rows@.len(), |i: int| row_of(svs(rows@)[i], strs(header@))),
        strs(out@) == out0 + pr(w_rows(rr.take(it0.index() as int), depth as int, options.delimiter), options.indent as nat)
@at loop_start 0
    let ghost i = it0.index() as int;
    proof { assert(svs(rows@)[i] == rows@[i].sv()); assert(row_ok(svs(rows@)[i], strs(header@)));
      assert(w_rows(rr.take(i + 1), depth as int, options.delimiter) =~= w_rows(rr.take(i), depth as int, options.delimiter) + seq![WL { n: depth as int, c: join_prims(rr[i], options.delimiter) }]); }
@loop 1
    invariant it1.seq().len() == header@.len(), forall|j: int| 0 <= j < header@.len() ==> *(#[trigger] it1.seq()[j]) == header@[j], sos(entries@) == svs(rows@)[i]->Obj_0, row_ok(svs(rows@)[i], strs(header@)),
        sps(values@) == row_of(svs(rows@)[i], strs(header@)).take(it1.index() as int)
@at before_loop 1
    proof { assert(sps(values@) =~= row_of(svs(rows@)[i], strs(header@)).take(0)); }
@at loop_start 1
    let ghost j = it1.index() as int; let ghost vals0 = values@;
    proof { assert(strs(header@)[j] == key@); assert(sps(vals0).len() == j); }
@at loop_end 1
    proof { assert(values@[j].sp() == oget(sos(entries@), key@)->0->Prim_0); assert(sps(values@) =~= row_of(svs(rows@)[i], strs(header@)).take(j + 1)); }
@at after_loop 1
    proof { assert(row_of(svs(rows@)[i], strs(header@)).take(header@.len() as int) =~= row_of(svs(rows@)[i], strs(header@))); }
@at after_loop 0
    proof { assert(rr.take(rows@.len() as int) =~= rr); }
@fn extract_tabular_header
@ret r
@spec
    ensures match r { Some(h) => tabular(svs(rows@)) && strs(h@) == cols_of(svs(rows@)), None => !tabular(svs(rows@)) }
@closure map:0
    |vp: &(String, JsonValue)| -> (q: String) ensures q@ == vp.0@ ;; let $1 = vp;
@at entry
    let ghost a = svs(rows@);
    proof { if rows@.len() > 0 { assert(a[0] == rows@[0].sv()); } }
@at before if is_tabular_array
    proof { assert(strs(header@) =~= cols_of(a)); }
@fn is_tabular_array
@ret r
@spec
    ensures r == all_rows(svs(rows@), strs(header@))
@loop 0
    invariant it0.seq().len() == rows@.len(), forall|j: int| 0 <= j < rows@.len() ==> *(#[trigger] it0.seq()[j]) == rows@[j], forall|i: int| 0 <= i < it0.index() ==> row_ok(#[trigger] svs(rows@)[i], strs(header@))
@at loop_start 0
    let ghost i = it0.index() as int;
    proof { assert(svs(rows@)[i] == rows@[i].sv()); }
@loop 1
    invariant it1.seq().len() == header@.len(), forall|j: int| 0 <= j < header@.len() ==> *(#[trigger] it1.seq()[j]) == header@[j], entries@.len() == header@.len(), sos(entries@) == svs(rows@)[i]->Obj_0, svs(rows@)[i] is Obj, 0 <= i < rows@.len(),
        forall|j: int| 0 <= j < it1.index() ==> oget(sos(entries@), #[trigger] strs(header@)[j]) is Some && oget(sos(entries@), strs(header@)[j])->0 is Prim
@at loop_start 1
    proof { assert(strs(header@)[it1.index() as int] == key@); }
@fn encode_mixed_array_as_list_items_lines
@spec
    requires depth + 2 * (1 + hts(svs(items@))) + 3 <= usize::MAX
    ensures ({ let v = LV::Lst(lay_items(svs(items@), options.eo()));
      strs(final(out)@) == strs(old(out)@) + pr(seq![WL { n: depth as int, c: head_a(okey(key), v, options.delimiter) }] + body(v, depth + 1, options.delimiter), options.indent as nat) })
    decreases 1 + hts(svs(items@)), 0int
@at entry
    let ghost out0 = strs(out@); let ghost a = svs(items@); let ghost hd = WL { n: depth as int, c: head_a(okey(key), LV::Lst(lay_items(a, options.eo())), options.delimiter) };
    proof { l_lay_items_len(a, options.eo()); }
@at before_loop 0
    proof { assert(a.take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == items@.len(), forall|j: int| 0 <= j < items@.len() ==> *(#[trigger] it0.seq()[j]) == items@[j], a == svs(items@), depth + 2 * (1 + hts(svs(items@))) + 3 <= usize::MAX,
        strs(out@) == out0 + pr(seq![hd], options.indent as nat) + pr(w_items(lay_items(a.take(it0.index() as int), options.eo()), depth + 1, options.delimiter), options.indent as nat)
@at loop_start 0
    proof { let i = it0.index() as int; l_items_step(a, i, options.eo(), depth + 1, options.delimiter); assert(a[i] == items@[i].sv()); l_hts(a, i); }
@at after_loop 0
    proof { assert(a.take(items@.len() as int) =~= a); }
@fn encode_object_as_list_item_lines
@spec
    requires depth + 2 * htf(sos(obj@)) + 4 <= usize::MAX
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_item(LV::Obj(lay_iobj(sos(obj@), options.eo())), depth as int, options.delimiter), options.indent as nat)
    decreases htf(sos(obj@)), 4int
@at entry
    broadcast use l_tab_objs;
    let ghost out0 = strs(out@); let ghost f = sos(obj@); let ghost lf = lay_iobj(f, options.eo());
    proof { l_lits(); if f.len() > 0 { assert(lf.skip(1) =~= lay_fields(f.skip(1), keys_of(f), fs0(options.eo()), options.eo()));
        if lf[0].1 is Inl || lf[0].1 is Tab || lf[0].1 is Lst { l_head_key(lf[0].0, lf[0].1, options.delimiter); } assert(f[0] == (obj@[0].0@, obj@[0].1.sv())); l_htf(f, 0); l_htf_skip(f); if f[0].1 is Arr { assert(tabular(f[0].1->Arr_0) || !tabular(f[0].1->Arr_0)); l_lay_items_len(f[0].1->Arr_0, options.eo()); } } }
@at before_loop 0
    let ghost a = svs(items@); let ghost hd = WL { n: depth as int, c: seq!['-', ' '] + head(lf[0].0, lf[0].1, options.delimiter) };
    proof { assert(a.take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == items@.len(), forall|j: int| 0 <= j < items@.len() ==> *(#[trigger] it0.seq()[j]) == items@[j], a == svs(items@), f == sos(obj@), f.len() > 0, htf(f) >= 1 + hts(a), depth + 2 * htf(f) + 4 <= usize::MAX,
        strs(out@) == out0 + pr(seq![hd], options.indent as nat) + pr(w_items(lay_items(a.take(it0.index() as int), options.eo()), depth + 2, options.delimiter), options.indent as nat)
@at loop_start 0
    proof { let i = it0.index() as int; l_items_step(a, i, options.eo(), depth + 2, options.delimiter); assert(a[i] == items@[i].sv()); l_hts(a, i); }
@at after_loop 0
    proof { assert(a.take(items@.len() as int) =~= a); }
@at before let (first_key
    proof { assert(f.skip(1).len() == 0 ==> f.skip(1) =~= Seq::empty()); }
@fn encode_list_item_rest_lines
@spec
    requires obj@.len() > 0, depth + 2 * htf(sos(obj@)) + 3 <= usize::MAX
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_fields(lay_fields(sos(obj@).skip(1), keys_of(sos(obj@)), fs0(options.eo()), options.eo()), depth as int, options.delimiter), options.indent as nat)
    decreases htf(sos(obj@)), 3int
@at entry
    let ghost f = sos(obj@); let ghost r = f.skip(1);
    let ghost st = fs0(options.eo());
    let ghost out0 = strs(out@);
@closure map:0
    |vp: &(String, JsonValue)| -> (q: &str) ensures q@ == vp.0@ ;; let $1 = vp;
@at before_loop 0
    proof { assert(rstrs(keys@) =~= keys_of(f)); assert(r.take(0) =~= Seq::empty()); l_htf_skip(f); }
@loop 0
    invariant it0.seq().len() == obj@.len() - 1, forall|j: int| 0 <= j < obj@.len() - 1 ==> *(#[trigger] it0.seq()[j]) == obj@[j + 1], f == sos(obj@), r == f.skip(1), rstrs(keys@) == keys_of(f), depth + 2 * htf(f) + 3 <= usize::MAX, htf(r) <= htf(f),
        st == fs0(options.eo()),
        strs(out@) == out0 + pr(w_fields(lay_fields(r.take(it0.index() as int), keys_of(f), st, options.eo()), depth as int, options.delimiter), options.indent as nat)
@at loop_start 0
    proof { let i = it0.index() as int; l_fields_step(r, i, keys_of(f), st, options.eo(), depth as int, options.delimiter); l_htf(r, i); assert(f[i + 1] == (obj@[i + 1].0@, obj@[i + 1].1.sv())); assert(r[i] == f[i + 1]); }
@at after_loop 0
    proof { assert(r.take(r.len() as int) =~= r); }
@fn encode_list_item_value_lines
@spec
    requires depth + 2 * ht(value.sv()) + 3 <= usize::MAX
    ensures strs(final(out)@) == strs(old(out)@) + pr(w_item(lay_item(value.sv(), options.eo()), depth as int, options.delimiter), options.indent as nat)
    decreases ht(value.sv()), 2int
@at entry
    let ghost out0 = strs(out@); let ghost lv = lay_item(value.sv(), options.eo());
    proof { if value.sv() is Arr { l_lay_items_len(value.sv()->Arr_0, options.eo()); } }
@at before_loop 0
    let ghost a = svs(items@); let ghost hd = WL { n: depth as int, c: seq!['-', ' '] + head_a(None, lv, options.delimiter) };
    proof { assert(a.take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq().len() == items@.len(), forall|j: int| 0 <= j < items@.len() ==> *(#[trigger] it0.seq()[j]) == items@[j], a == svs(items@), depth + 2 * (1 + hts(svs(items@))) + 3 <= usize::MAX, value.sv() == SV::Arr(a),
        strs(out@) == out0 + pr(seq![hd], options.indent as nat) + pr(w_items(lay_items(a.take(it0.index() as int), options.eo()), depth + 1, options.delimiter), options.indent as nat)
@at loop_start 0
    proof { let i = it0.index() as int; l_items_step(a, i, options.eo(), depth + 1, options.delimiter); assert(a[i] == items@[i].sv()); l_hts(a, i); }
@at after_loop 0
    proof { assert(a.take(items@.len() as int) =~= a); }
@fn object_get
@ret r
@spec
    ensures match r { Some(x) => oget(sos(entries@), key@) == Some(x.sv()), None => oget(sos(entries@), key@) is None }
@closure find:0
    |vp: &&(String, JsonValue)| -> (q: bool) ensures q == (vp.0@ == key@) ;; let $1 = vp;
@closure map:0
    |vp: &(String, JsonValue)| -> (q: &JsonValue) ensures *q == vp.1 ;; let $1 = vp;
@at entry
    proof { let f = sos(entries@);
      assert forall|i: int| #![trigger entries@[i]] 0 <= i < entries@.len() implies f[i] == (entries@[i].0@, entries@[i].1.sv()) by {}
      l_oget(f, key@);
      assert(oget(f, key@) is Some ==> exists|i: int| #![trigger entries@[i]] 0 <= i < entries@.len() && entries@[i].0@ == key@) by {
        if oget(f, key@) is Some { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == key@; assert(entries@[i].0@ == key@); } }
      assert forall|i: int| #![trigger entries@[i]] 0 <= i < entries@.len() && entries@[i].0@ == key@ && (forall|j: int| #![trigger entries@[j]] 0 <= j < i ==> entries@[j].0@ != key@) implies oget(f, key@) == Some(entries@[i].1.sv()) by { l_oget_at(f, key@, i); } }
@fn estimate_line_count
@ret r
@spec
    requires est(value.sv()) <= usize::MAX
    ensures r == est(value.sv())
    decreases ht(value.sv())
@closure sum:0
    |$1: &JsonValue| -> (q: usize) requires est($1.sv()) <= usize::MAX, ht($1.sv()) < ht(value.sv()) ensures q == est($1.sv())
@closure sum:1
    |vp: &(String, JsonValue)| -> (q: usize) requires est(vp.1.sv()) <= usize::MAX, ht(vp.1.sv()) < ht(value.sv()) ensures q == est(vp.1.sv()) ;; let $1 = vp;
@at entry
    proof { match value { JsonValue::Array(a) => { l_est_a(a@); assert(nsum(est_a(a@)) <= usize::MAX); }, JsonValue::Object(o) => { l_est_o(o@); assert(nsum(est_o(o@)) <= usize::MAX); }, _ => {} } }
