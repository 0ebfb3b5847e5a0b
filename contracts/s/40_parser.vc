@file src/decode/parser.rs mod decode::parser
@use use crate::{sps, strs};
@bcast vstd::seq::lemma_seq_index_decreases, vstd::seq::lemma_seq_subrange_decreases, vstd::seq::lemma_seq_empty, vstd::seq::lemma_seq_new_len, vstd::seq::lemma_seq_new_index, vstd::seq::lemma_seq_push_len, vstd::seq::lemma_seq_push_index_same, vstd::seq::lemma_seq_push_index_different, vstd::seq::lemma_seq_update_len, vstd::seq::lemma_seq_update_same, vstd::seq::lemma_seq_update_different, vstd::seq::lemma_seq_ext_equal, vstd::seq::lemma_seq_ext_equal_deep, vstd::seq::lemma_seq_subrange_len, vstd::seq::lemma_seq_add_len, vstd::seq::lemma_seq_add_index1, vstd::seq::lemma_seq_add_index2, vstd::seq_lib::group_seq_lib_default, vstd::map::group_map_lemmas, vstd::set::group_set_lemmas, vstd::set_lib::group_set_lib_default, vstd::multiset::group_multiset_axioms, vstd::function::group_function_axioms, vstd::laws_eq::group_laws_eq, vstd::laws_cmp::group_laws_cmp, vstd::slice::group_slice_axioms, vstd::array::group_array_axioms, vstd::string::group_string_axioms, vstd::layout::group_layout_axioms, vstd::std_specs::range::group_range_axioms, vstd::std_specs::bits::group_bits_axioms, vstd::std_specs::control_flow::group_control_flow_axioms, vstd::std_specs::iter::group_iter_axioms, vstd::std_specs::vec::group_vec_axioms, vstd::std_specs::hash::group_hash_axioms, crate::vax::vgroup
@type ArrayHeaderInfo
impl Clone for ArrayHeaderInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@type FieldName
impl FieldName { pub open spec fn fv(&self) -> (Seq<char>, bool) { (self.name@, self.was_quoted) } }
pub open spec fn fvs(a: Seq<FieldName>) -> Seq<(Seq<char>, bool)> { Seq::new(a.len(), |i: int| a[i].fv()) }
pub open spec fn ovw(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
@type ArrayHeaderParseResult
impl ArrayHeaderInfo {
    pub open spec fn hv(&self, inl: Option<Seq<char>>) -> SHdr {
        SHdr { key: ovw(self.key), kq: self.key_was_quoted, len: self.length, delim: self.delimiter,
            fields: match self.fields { Some(f) => Some(fvs(f@)), None => None }, inl }
    }
}
impl ArrayHeaderParseResult {
    pub open spec fn hv(&self) -> SHdr { self.header.hv(ovw(self.inline_values)) }
}
@fn parse_array_header_line
@ret r
@attr #[verifier::rlimit(400)]
@spec
    requires default_delimiter == ','
    ensures match r { Err(_) => hdr(content@, default_delimiter) is Err, Ok(None) => hdr(content@, default_delimiter) is No,
        Ok(Some(h)) => hdr(content@, default_delimiter) == HR::Yes(h.hv()) }
@at entry
    hide(vstd::seq::lemma_seq_two_subranges_index); hide(vstd::seq::lemma_seq_subrange_index); hide(vstd::array::lemma_array_index); hide(cfind); hide(c_unq); hide(c_close); hide(p_fields); hide(toks); hide(split_vals); hide(ltrim); hide(rtrim); hide(trim); hide(parse_usize); hide(p_str_lit); hide(p_field); hide(p_bracket); hide(sub_find); hide(Seq::is_prefix_of); hide(vstd::utf8::encode_utf8);
    broadcast use crate::lemma_strs_idx;
    proof { lemma_ltrim(content@); lemma_bpos0(content@); lemma_bpos0(ltrim(content@)); lemma_find0(content@, '['); lemma_find0(content@, ':'); bc_prefix1(ltrim(content@), '"'); lemma_enc_nonempty(ltrim(content@)); lemma_enc_nonempty(content@); 
        if ltrim(content@).len() > 0 && ltrim(content@)[0] == '"' { lemma_bpos_ends(ltrim(content@)); lemma_at_next(ltrim(content@), 0); } }
@at before let after_quote
    proof { let t = trimmed@; lemma_at_b(t, closing as int); lemma_at_next(t, cidx(t, closing as int)); bc_prefix1(t.skip(cidx(t, closing + 1)), '['); 
        assert(t.skip(cidx(t, closing + 1)).len() == t.len() - cidx(t, closing + 1));
        if cidx(t, closing + 1) < t.len() { vstd::seq::lemma_seq_subrange_index(t, cidx(t, closing + 1), t.len() as int, 0); } }
@at before let key_end
    proof {
        let s = content@; let t = trimmed@; let n = s.len() - t.len(); let c = cidx(t, closing as int);
        assert(t == s.skip(n));
        bc_cidx_skip(s, n, closing + 1);
        assert(bpos(s, n) == leading_ws);
        assert(t[c + 1] == '[');
        vstd::seq::lemma_seq_subrange_index(s, n, s.len() as int, c + 1);
        lemma_cfind_unique(s, '[', n + c + 1, n + c + 1);
        lemma_find_at(s, leading_ws + closing + 1, '[');
        lemma_at_b(s, leading_ws + closing + 1);
    }
@at before let Some(bracket_start)
    proof { let s = content@; lemma_order(s, cfind(s, ':', 0), cfind(s, '[', 0)); }
@at before let Some(bracket_end)
    let ghost s = content@; let ghost bs = cidx(s, bracket_start as int);
    proof { assert(hdr_start(s) == Some(Some(bs))); assert(bs < s.len() && s[bs] == '[' && at(s, bracket_start as int, bs)); lemma_at_next(s, bs); lemma_find_at(s, bracket_start as int, ']'); }
@at before let mut brace_end
    let ghost be = cidx(s, bracket_end as int);
    proof { assert(cfind(s, ']', bs) == Some(be)); assert(at(s, bracket_end as int, be)); lemma_at_next(s, be); lemma_find_at(s, bracket_end + 1, '{'); lemma_find_at(s, bracket_end + 1, ':');
        lemma_order(s, Some(bs + 1), Some(be)); assert(bs + 1 <= be) by { if be == bs { assert(s[be] == ']'); } } }
@at before if let (Some(brace_start)
    proof { let ob = cfind(s, '{', be + 1); lemma_order(s, ob, cfind(s, ':', be + 1));
        assert(match brace_start { Some(b) => ob is Some && at(s, b as int, ob->0), None => ob is None });
        if ob is Some { lemma_unq_range(s, '}', ob->0, false); let oc = c_unq(s, '}', ob->0, false); if oc is Some { lemma_at_k(s, oc->0); lemma_at_next(s, oc->0); } } }
@at before let colon_index = content
    let ghost hb = hdr_brace_end(s, be);
    proof { assert(is_bpos(s, brace_end as int) && cidx(s, brace_end as int) == hb); lemma_find_at(s, brace_end as int, ':'); }
@at before let mut key:
    let ghost ci = cidx(s, colon_index as int);
    proof { assert(cfind(s, ':', hb) == Some(ci)); assert(at(s, colon_index as int, ci)); lemma_at_next(s, ci); bc_prefix1(trim(s.take(bs)), '"'); lemma_enc_nonempty(trim(s.take(bs))); }
@at before let after_colon
    proof { assert(hdr_key(s, bs) == Some((ovw(key), key_was_quoted))) by { reveal(trim); bc_trim(s.take(bs)); lemma_trim(s.take(bs)); }; lemma_enc_nonempty(trim(s.skip(ci + 1))); }
@at before let mut fields:
    let ghost hf = hdr_fields(s, be, ci, delimiter);
    proof {
        let ob = cfind(s, '{', be + 1); lemma_order(s, ob, Some(ci));
        if ob is Some { let oc = c_unq(s, '}', ob->0, false); lemma_order(s, oc, Some(ci)); lemma_order(s, ob, oc); if oc is Some { lemma_at_next(s, ob->0); assert(s[ob->0] == '{'); assert(s[oc->0] == '}'); assert(ob->0 < oc->0); lemma_order(s, Some(ob->0 + 1), oc); } }
        assert(p_bracket(s.subrange(bs + 1, be), default_delimiter) == Some((length, delimiter))); assert(delimiter == ',' || delimiter == '|' || delimiter == '\t') by { reveal(p_bracket); }; assert(after_colon@ == trim(s.skip(ci + 1)));
    }
@at end
    proof { assert(hf is Some); assert(match fields { Some(f) => hf == Some(Some(fvs(f@))), None => hf == Some(None::<Seq<(Seq<char>, bool)>>) }); }
@at before fields = Some
    proof {
        let fl = split_vals(fields_content@, delimiter);
        assert forall|i: int| 0 <= i < fl.len() implies #[trigger] p_field(fl[i]) == Some(parsed_fields@[i].fv()) by { assert(parsed_fields@[i] == parsed_fields@[i]); }
        assert(p_fields(fl) is Some);
        assert(p_fields(fl)->0 =~= fvs(parsed_fields@));
    }
@at before let parsed_fields
    proof { lemma_p_fields(split_vals(fields_content@, delimiter)); }
@closure try:0
|$1: String| -> (cr: Result<FieldName>) ensures match cr { Err(_) => p_field($1@) is None, Ok(x) => p_field($1@) == Some(x.fv()) } ;; broadcast use gpos; reveal(p_field);
@fn parse_bracket_segment
@ret r
@spec
    ensures match r { Err(_) => p_bracket(seg@, default_delimiter) is None, Ok((n, d)) => p_bracket(seg@, default_delimiter) == Some((n, d)) }
@at entry
    broadcast use gpos;
@fn parse_delimited_values
@ret r
@spec
    requires delimiter != '"', (delimiter as u32) < 128
    ensures strs(r@) == split_vals(input@, delimiter)
@at entry
    let ghost s = input@;
    proof { assert(s.skip(0) =~= s); assert(s.subrange(0, 0) =~= Seq::empty()); assert(strs(Seq::<String>::empty()) =~= Seq::empty()); assert(Seq::<Seq<char>>::empty() + toks(s, delimiter, 0) =~= toks(s, delimiter, 0)); }
    let ghost mut cons: int = 0;
    broadcast use crate::lemma_strs_push;
@loop 0
    invariant 0 <= cons, cons + iter.remaining().len() <= s.len(), s.len() == 0 ==> values@.len() == 0, iter.obeys_prophetic_iter_laws(), iter.decrease() is Some, s == input@, delimiter != '"', iter.remaining().len() + buffer@.len() <= s.len(),
      iter.remaining() == s.skip(s.len() - iter.remaining().len()),
      buffer@ == s.subrange(s.len() - iter.remaining().len() - buffer@.len(), s.len() - iter.remaining().len()),
      c_unq(s, delimiter, s.len() - iter.remaining().len() - buffer@.len(), false) == c_unq(s, delimiter, s.len() - iter.remaining().len(), in_quotes),
      s.len() > 0 ==> split_vals(s, delimiter) == strs(values@) + toks(s, delimiter, s.len() - iter.remaining().len() - buffer@.len()),
      values@.len() == 0 ==> iter.remaining().len() + buffer@.len() == s.len(),
    ensures iter.remaining().len() == 0
    decreases s.len() - cons
@at loop_start 0
    let ghost p = s.len() - iter.remaining().len() - 1;
    let ghost st = p - buffer@.len();
    proof { cons = cons + 1; lemma_split_step(s, delimiter, p, st); 
      assert(strs(values@) + (seq![trim(buffer@)] + toks(s, delimiter, p + 1)) =~= strs(values@).push(trim(buffer@)) + toks(s, delimiter, p + 1)); }
@at after_loop 0
    proof { assert(s.subrange(s.len() - buffer@.len(), s.len() as int) =~= s.skip(s.len() - buffer@.len())); 
       assert(strs(values@) + seq![trim(buffer@)] =~= strs(values@).push(trim(buffer@))); assert(strs(Seq::<String>::empty()) =~= Seq::empty());
       if s.len() > 0 { assert(toks(s, delimiter, s.len() - buffer@.len()) =~= seq![trim(buffer@)]); assert(strs(values@) + toks(s, delimiter, s.len() - buffer@.len()) =~= strs(values@).push(trim(buffer@))); } else { assert(values@ =~= Seq::empty()); } }
@fn map_row_values_to_primitives
@ret r
@spec
    ensures match r { Err(_) => p_prims(strs(values@)) is None, Ok(v) => p_prims(strs(values@)) == Some(sps(v@)) && v@.len() == values@.len() }
@closure try:0
|$1: &String| -> (cr: Result<crate::JsonPrimitive>) ensures match cr { Err(_) => p_prim($1@) is None, Ok(x) => p_prim($1@) == Some(x.sp()) }
@tail
    let ghost gv_ = vres_;
    proof { lemma_p_prims(strs(values@));
      assert forall|i: int| 0 <= i < values@.len() implies strs(values@)[i] == (#[trigger] values@[i])@ by {}
      match gv_ {
        Ok(v) => { assert forall|i: int| 0 <= i < values@.len() implies #[trigger] p_prim(strs(values@)[i]) == Some(v@[i].sp()) by { assert(v@[i] == v@[i]); } assert(p_prims(strs(values@)) is Some); assert(sps(v@) =~= p_prims(strs(values@))->0); }
        Err(_) => { assert(exists|i: int| 0 <= i < values@.len() && #[trigger] p_prim(strs(values@)[i]) is None); } } }
@fn parse_primitive_token
@ret r
@spec
    ensures match r { Err(_) => p_prim(token@) is None, Ok(x) => p_prim(token@) == Some(x.sp()) }
@at entry
    broadcast use gpos;
@fn parse_string_literal
@ret r
@spec
    ensures match r { Err(_) => p_str_lit(token@) is None, Ok(x) => p_str_lit(token@) == Some(x@) }
@at entry
    broadcast use gpos;
    proof { lemma_bpos0(trim(token@)); }
@fn parse_unquoted_key
@ret r
@spec
    requires start == 0, !(content@.len() > 0 && content@[0] == '"')
    ensures match r { Err(_) => p_key(content@) is None, Ok((k, e)) => is_bpos(content@, e as int) && p_key(content@) == Some((k@, cidx(content@, e as int), false)) }
@at entry
    broadcast use gpos;
    proof { lemma_bpos0(content@); }
@loop 0
    invariant start <= pos <= content.len(), content.len() == blen(content@), forall|k: int| start <= k < pos ==> enc(content@)[k] != 58
    decreases content.len() - pos
@at after_loop 0
    proof { lemma_byte_find(content@, ':', 0, pos as int); }
@fn parse_quoted_key
@ret r
@spec
    requires start == 0, content@.len() > 0, content@[0] == '"'
    ensures match r { Err(_) => p_key(content@) is None, Ok((k, e)) => is_bpos(content@, e as int) && p_key(content@) == Some((k@, cidx(content@, e as int), true)) }
@at entry
    broadcast use gpos;
    proof { lemma_bpos0(content@); lemma_key_colon(content@); }
@fn parse_key_token
@ret r
@spec
    requires start == 0
    ensures match r { Err(_) => p_key(content@) is None, Ok((k, e, q)) => is_bpos(content@, e as int) && p_key(content@) == Some((k@, cidx(content@, e as int), q)) }
@at entry
    proof { lemma_bpos0(content@); lemma_key_first(content@); }
@closure map:0
|$1: &u8| -> (cr: char) ensures cr == *$1 as char
@fn is_array_header_content
@ret r
@spec
    ensures r == is_arr_hdr_content(content@)
@at entry
    broadcast use gpos;
    proof { lemma_bpos0(content@); }
@fn is_key_value_content
@ret r
@spec
    ensures r == is_kv_content(content@)
@at entry
    proof { lemma_bpos0(content@); }
