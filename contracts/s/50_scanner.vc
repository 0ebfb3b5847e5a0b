@file src/decode/scanner.rs mod decode::scanner
@use use crate::strs; use crate::vax::ax_str_len;
@type ParsedLine
impl Clone for ParsedLine {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ParsedLine {
    pub open spec fn sl(&self) -> SL { SL { depth: self.depth as int, c: self.content@, n: self.line_number as int } }
    /// facts every scanned line satisfies
    pub open spec fn ok(&self) -> bool { self.depth <= isize::MAX && self.content@.len() > 0 }
}
pub open spec fn sls(a: Seq<ParsedLine>) -> Seq<SL> { Seq::new(a.len(), |i: int| a[i].sl()) }
pub open spec fn bls(a: Seq<BlankLineInfo>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i].line_number as int) }
pub open spec fn oks(a: Seq<ParsedLine>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).ok() }
/// std: the buffer of a Vec occupies at most isize::MAX bytes; both element types are at least 8 bytes
pub axiom fn ax_vec_lines(a: Seq<ParsedLine>, b: Seq<BlankLineInfo>) ensures a.len() * 8 <= isize::MAX, b.len() * 8 <= isize::MAX;
@type BlankLineInfo
@type StreamingScanState
@type StreamingLineCursor
impl StreamingLineCursor {
    /// the cursor stands after `index` lines, the last of which is `last_line`
    pub open spec fn wf(&self) -> bool {
        self.index <= self.lines@.len() && oks(self.lines@)
        && (self.index > 0 ==> self.last_line == Some(self.lines@[self.index - 1]))
    }
    pub open spec fn dc(&self, strict: bool) -> DC { DC { l: sls(self.lines@), b: bls(self.blank_lines@), strict } }
    /// only the position moves
    pub open spec fn same(&self, o: &Self) -> bool { self.lines == o.lines && self.blank_lines == o.blank_lines }
}
@fn create_scan_state
@ret r
@spec
    ensures r.line_number == 0, r.blank_lines@.len() == 0
@fn compute_depth_from_indent
@ret r
@spec
    ensures r == (if indent_size == 0 { 0int } else { indent_spaces as int / indent_size as int }), r <= indent_spaces
@at entry
    proof { if indent_size > 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(indent_spaces as int, 1, indent_size as int); } }
@fn parse_line_incremental
@ret r
@spec
    requires old(state).line_number < usize::MAX
    ensures
      final(state).line_number == old(state).line_number + 1,
      match r {
        Err(_) => p_line(raw@, indent_size as nat, strict) is Err,
        Ok(None) => p_line(raw@, indent_size as nat, strict) is Blank,
        Ok(Some(l)) => l.ok() && p_line(raw@, indent_size as nat, strict) == LR::Line(l.sl().depth, l.sl().c) && l.line_number == final(state).line_number },
      r is Ok && r->Ok_0 is None ==> final(state).blank_lines@.len() == old(state).blank_lines@.len() + 1 && bls(final(state).blank_lines@) == bls(old(state).blank_lines@).push(final(state).line_number as int),
      !(r is Ok && r->Ok_0 is None) ==> final(state).blank_lines@ == old(state).blank_lines@,
@at entry
    hide(vstd::seq::lemma_seq_two_subranges_index); hide(vstd::array::lemma_array_index); hide(vstd::utf8::encode_utf8); hide(trim); hide(lead); hide(lead_st);
    let ghost s = raw@; let ghost w = indent_size as nat;
    proof { lemma_at_k(s, 0); lemma_bpos_ends(s); ax_str_len(raw); }
@loop 0
    invariant at(s, indent as int, indent as int), s == raw@, raw_bytes@ == enc(s), forall|k: int| 0 <= k < indent ==> s[k] == ' '
    decreases raw_bytes@.len() - indent
@at loop_start 0
    proof { lemma_sp_step(s, indent as int); }
@at before let content_slice
    proof { lemma_sp_step(s, indent as int); lemma_lead_unique(s, indent as int); }
@loop 1
    invariant at(s, whitespace_end as int, whitespace_end as int), s == raw@, raw_bytes@ == enc(s), forall|k: int| 0 <= k < whitespace_end ==> s[k] == ' ' || s[k] == '\t'
    decreases raw_bytes@.len() - whitespace_end
@at loop_start 1
    proof { lemma_sp_step(s, whitespace_end as int); }
@at before let content =
    proof { lemma_trim(s.skip(indent as int)); if w > 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, w); } }
@at before if raw
    proof { lemma_sp_step(s, whitespace_end as int); lemma_lead_st_unique(s, whitespace_end as int); bc_has_char(s.take(whitespace_end as int), '\t'); }
@fn parse_lines_sync
@ret r
@spec
    requires old(state).line_number == 0, old(state).blank_lines@.len() == 0
    ensures match r {
        Err(_) => scan(strs(source@), 0, indent_size as nat, strict) is None,
        Ok(l) => oks(l@) && scan(strs(source@), 0, indent_size as nat, strict) == Some((sls(l@), bls(final(state).blank_lines@))) }
@at entry
    let ghost rs = strs(source@); let ghost src = source@; let ghost w = indent_size as nat;
    proof { assert(rs.take(0) =~= Seq::empty()); assert(sls(Seq::<ParsedLine>::empty()) =~= Seq::empty()); assert(bls(state.blank_lines@) =~= Seq::empty()); }
@loop 0
    invariant rs == strs(src), it0.seq() == src, w == indent_size as nat, oks(lines@), state.line_number == it0.index(), lines@.len() + state.blank_lines@.len() == it0.index(),
      scan(rs.take(it0.index() as int), 0, w, strict) == Some((sls(lines@), bls(state.blank_lines@)))
@at loop_start 0
    let ghost i = it0.index() as int; let ghost l0 = lines@; let ghost b0 = state.blank_lines@;
    proof { ax_vec_lines(lines@, state.blank_lines@); assert(rs.take(i + 1).drop_last() =~= rs.take(i)); assert(rs.take(i + 1).last() == raw@); lemma_scan_none(rs, i + 1, 0, w, strict); }
@at loop_end 0
    proof { assert(lines@.len() > l0.len() ==> sls(lines@) =~= sls(l0).push(lines@.last().sl())); }
@at after_loop 0
    proof { assert(rs.take(rs.len() as int) =~= rs); }
@fn StreamingLineCursor::new
@ret r
@spec
    requires oks(lines@)
    ensures r.wf(), r.index == 0, r.lines == lines, r.blank_lines == blank_lines
@fn StreamingLineCursor::get_blank_lines
@ret r
@spec
    ensures r@ == self.blank_lines@
@fn StreamingLineCursor::peek_sync
@ret r
@spec
    requires self.wf()
    ensures match r { None => self.index == self.lines@.len(), Some(l) => self.index < self.lines@.len() && *l == self.lines@[self.index as int] }
@fn StreamingLineCursor::advance_sync
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), final(self).index == (if old(self).index < old(self).lines@.len() { old(self).index + 1 } else { old(self).index as int })
@fn StreamingLineCursor::next_sync
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), match r {
        None => old(self).index == old(self).lines@.len() && final(self).index == old(self).index,
        Some(l) => old(self).index < old(self).lines@.len() && l == old(self).lines@[old(self).index as int] && final(self).index == old(self).index + 1 }
@fn StreamingLineCursor::current
@ret r
@spec
    requires self.wf()
    ensures self.index > 0 ==> r is Some && *r->0 == self.lines@[self.index - 1]
@fn StreamingLineCursor::at_end_sync
@ret r
@spec
    requires self.wf()
    ensures r == (self.index == self.lines@.len())
