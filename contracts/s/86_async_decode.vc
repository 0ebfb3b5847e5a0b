@file src/decode/async_decode.rs mod decode::async_decode
@feature async-stream
@only
@dropuse asupersync
@dropuse std::pin
@dropuse std::task
@dropuse std::collections
@use use crate::{ses, strs, lemma_strs_push, lemma_strs_idx}; use crate::vstubs::*; use crate::vasync::*; use crate::decode::scanner::{sls, bls, oks}; use crate::decode::event_builder::*; use crate::vthm_async::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::lemma_ses_push, crate::lemma_strs_push
@type DecoderState #[derive(Clone, Copy)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for DecoderState {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for DecoderState { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
@type AsyncDecodeStream
/// std: the buffer of a Vec occupies at most isize::MAX bytes; a String takes at least 8
pub axiom fn ax_vec_strings(a: Seq<String>) ensures a.len() * 8 <= isize::MAX;
pub broadcast proof fn l_ses_skip(q: Seq<JsonStreamEvent>, n: int) requires 0 <= n <= q.len() ensures #[trigger] ses(q.skip(n)) == ses(q).skip(n) { assert(ses(q.skip(n)) =~= ses(q).skip(n)); }
pub broadcast proof fn l_skip_skip(q: Seq<SE>, n: int, k: int) requires 0 <= n, 0 <= k, n + k <= q.len() ensures #[trigger] q.skip(n).skip(k) == q.skip(n + k) { assert(q.skip(n).skip(k) =~= q.skip(n + k)); }
impl AsyncDecodeStream {
    pub open spec fn w(&self) -> nat { match self.options.indent { Some(n) => n as nat, None => 2 } }
    pub open spec fn st(&self) -> bool { match self.options.strict { Some(b) => b, None => true } }
    /// all lines of the document
    pub open spec fn all(&self) -> Seq<Seq<char>> { strs(self.line_buffer@) + strs(self.lines@) }
    /// the non-blank lines read so far
    pub open spec fn ls(&self) -> Seq<SL> { (scan(strs(self.line_buffer@), 0, self.w(), self.st())->0).0 }
    pub open spec fn mem(&self) -> int { if self.emitted == 0 { 0 } else { (self.emitted - 1) / 2 } }
    /// a prefix of the document has been read, and its first members handed out
    pub open spec fn inv(&self) -> bool {
        &&& scan(strs(self.line_buffer@), 0, self.w(), self.st()) is Some
        &&& self.emitted == 0 || (self.emitted == 1 + 2 * self.mem() && self.mem() > 0)
        &&& simple(self.ls(), self.mem())
        &&& self.event_queue@.len() <= self.emitted
        &&& ses(self.event_queue@) == head_evs(self.ls(), self.mem()).skip(self.emitted - self.event_queue@.len())
    }
    pub open spec fn at_state(&self) -> bool {
        &&& self.state == DecoderState::Initial ==> self.emitted == 0 && self.ls().len() == 0
        &&& self.state == DecoderState::SimpleObject ==> self.emitted > 0 && self.mem() == self.ls().len()
        &&& !(self.state is Finished)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.error is None
        &&& !(self.state is Finished) ==> !self.lines_exhausted && self.scan_state.line_number == self.line_buffer@.len() && self.inv() && self.at_state()
    }
    /// a line has just been read, and nothing is waiting to be handed out
    pub open spec fn at_line(&self, line: &ParsedLine, first: bool) -> bool {
        &&& self.error is None && !self.lines_exhausted && self.scan_state.line_number == self.line_buffer@.len() && self.inv()
        &&& self.event_queue@.len() == 0 && self.ls().len() == self.mem() + 1 && self.ls().last().c == line.content@ && self.ls().last().depth == line.depth
        &&& first == (self.emitted == 0)
        &&& (if first { self.state == DecoderState::Initial } else { self.state == DecoderState::SimpleObject })
    }
    /// what the stream still has to yield: events, or (None) an error after some of them
    pub open spec fn fut(&self) -> Option<Seq<SE>> {
        if self.state is Finished { Some(ses(self.event_queue@)) }
        else { match d_doc(self.all(), self.w(), self.st()) { None => None, Some(t) => Some(flat(t).skip(self.emitted - self.event_queue@.len())) } }
    }
    /// the events of the document d the whole of which is still to come
    pub open spec fn starts(&self, d: Seq<Seq<char>>, w: nat, st: bool) -> bool {
        self.wf() && self.fut() == (match d_doc(d, w, st) { None => None::<Seq<SE>>, Some(t) => Some(flat(t)) })
    }
    /// r is the next item
    pub open spec fn step(&self, e: JsonStreamEvent, b: &Self) -> bool {
        match self.fut() { None => b.fut() is None, Some(s) => s.len() > 0 && s[0] == e.se() && b.fut() == Some(s.skip(1)) }
    }
    /// progress towards the end
    pub open spec fn lt(&self, b: &Self) -> bool {
        ||| self.state is Finished && !(b.state is Finished)
        ||| self.state is Finished == b.state is Finished && self.lines@.len() < b.lines@.len()
        ||| self.state is Finished == b.state is Finished && self.lines@ == b.lines@ && self.event_queue@.len() < b.event_queue@.len()
    }
}
/// Polled to its end, the stream of a document yields exactly the events of the synchronous decoder; it yields an error,
/// after which it ends, exactly if the synchronous decoder refuses the document.
#[verifier::loop_isolation(false)]
pub fn thm_stream(lines: Vec<String>, options: Option<DecodeStreamOptions>) -> (r: Result<Vec<JsonStreamEvent>>)
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(lines@), w, st) is None, Ok(ev) => d_doc(strs(lines@), w, st) is Some && ses(ev@) == flat(d_doc(strs(lines@), w, st)->0) } })
{
    hide(d_doc); hide(flat);
    let mut s = AsyncDecodeStream::new(lines.v_into_iter(), options);
    let ghost f0 = s.fut();
    let mut out: Vec<JsonStreamEvent> = Vec::new();
    let mut end = false;
    proof { if f0 is Some { assert(ses(out@) + s.fut()->0 =~= f0->0); } }
    while !end
        invariant s.wf(), f0 is None <==> s.fut() is None, f0 is Some ==> f0->0 == ses(out@) + s.fut()->0, end ==> s.fut() == Some(Seq::<SE>::empty())
        decreases (if end { 0int } else { 1int }), (if s.state is Finished { 0int } else { 1int }), s.lines@.len(), s.event_queue@.len()
    {
        match s.poll_next() {
            Poll::Ready(None) => { end = true; }
            Poll::Ready(Some(Ok(e))) => {
                let ghost o0 = ses(out@);
                out.push(e);
                proof { if f0 is Some { assert(ses(out@) + s.fut()->0 =~= f0->0); } }
            }
            Poll::Ready(Some(Err(e))) => {
                let again = s.poll_next();
                assert(again == Poll::<Option<Result<JsonStreamEvent>>>::Ready(None));
                return Err(e);
            }
            Poll::Pending => { assert(false); }
        }
    }
    proof { assert(ses(out@) + s.fut()->0 =~= ses(out@)); }
    Ok(out)
}
@fn AsyncDecodeStream::new
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      r.starts(strs(lines@), w, st) })
@at entry
    proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); assert(Seq::<Seq<char>>::empty() + strs(lines@) =~= strs(lines@)); assert(ses(Seq::<JsonStreamEvent>::empty()) =~= head_evs(Seq::empty(), 0).skip(0)); assert forall|q: Seq<SE>| #[trigger] q.skip(0) =~= q by {} }
@fn AsyncDecodeStream::indent_size
@ret r
@spec
    ensures r == self.w()
@fn AsyncDecodeStream::strict
@ret r
@spec
    ensures r == self.st()
@fn AsyncDecodeStream::is_key_value_line
@ret r
@spec
    ensures r ==> is_kv_line(line.content@)
@at entry
    proof { let s = line.content@; bc_prefix1(s, '"'); bc_has_char(s, ':'); lemma_bpos0(s); lemma_key_first(s);
        if s.len() > 0 && s[0] == '"' { lemma_bpos_ends(s); lemma_at_next(s, 0); } }
@at before return content[
    proof { let s = line.content@; lemma_at_b(s, closing as int); lemma_at_next(s, cidx(s, closing as int)); bc_has_char(s.skip(cidx(s, closing + 1)), ':'); }
@fn AsyncDecodeStream::process_line
@ret r
@spec
    requires old(self).at_line(line, first)
    ensures final(self).error is None, final(self).lines == old(self).lines, final(self).line_buffer == old(self).line_buffer, final(self).options == old(self).options,
      match r { Err(_) => old(self).fut() is None, Ok(None) => final(self).wf() && final(self).fut() == old(self).fut() && !(final(self).state is Finished), Ok(Some(e)) => final(self).wf() && old(self).step(e, final(self)) && !(final(self).state is Finished) }
@at entry
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line); hide(d_doc); hide(scan); hide(accs);
    broadcast use {l_ses_skip, l_skip_skip};
    let ghost a = strs(self.line_buffer@); let ghost b = strs(self.lines@); let ghost w = self.w(); let ghost st = self.st(); let ghost l = self.ls(); let ghost m = self.mem();
    proof { ax_vec_strings(self.line_buffer@); l_pre(a, b, w, st); lemma_bpos0(line.content@);
        if bad_l(l, m) { thm_bad(a, b, w, st, m); }
        l_accs(l, m);
        if simple_l(l, m) { assert(simple(l, m + 1)); thm_prefix(a, b, w, st, m + 1); l_accs(l, m + 1); } }
@at before return Ok(
    proof { assert(ses(self.event_queue@) =~= head_evs(l, m + 1).skip(old(self).emitted as int)); assert(self.mem() == m + 1); assert(simple(l, m + 1));
        let h = head_evs(l, m + 1); let e0 = old(self).emitted as int;
        assert(h.skip(e0)[0] == h[e0]); assert(h.skip(e0).skip(1) =~= h.skip(e0 + 1));
        if d_doc(a + b, w, st) is Some { let g = flat(d_doc(a + b, w, st)->0); assert(g[e0] == h[e0]); assert(g.skip(e0)[0] == g[e0]); assert(g.skip(e0).skip(1) =~= g.skip(e0 + 1)); } }
@fn AsyncDecodeStream::finalize
@ret r
@spec
    requires old(self).inv(), old(self).at_state(), old(self).error is None, old(self).lines@.len() == 0, old(self).event_queue@.len() == 0
    ensures final(self).error is None, final(self).lines == old(self).lines, final(self).options == old(self).options,
      match r { Err(_) => old(self).fut() is None, Ok(None) => final(self).state is Finished && final(self).event_queue@.len() == 0 && final(self).fut() == old(self).fut(), Ok(Some(e)) => final(self).state is Finished && old(self).step(e, final(self)) }
@at entry
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line); hide(d_doc); hide(scan); hide(accs); hide(flat);
    broadcast use {l_ses_skip, l_skip_skip};
    let ghost a = strs(self.line_buffer@); let ghost b = strs(self.lines@); let ghost w = self.w(); let ghost st = self.st(); let ghost l = self.ls(); let ghost m = self.mem();
    proof { assert(a + b =~= a); l_accs(l, m); thm_prefix(a, b, w, st, m); if self.state is SimpleObject { thm_all(a, w, st); } }
@at before self.state = DecoderState::Finished
    proof { assert(ses(self.event_queue@) =~= flat(d_doc(a + b, w, st)->0).skip(old(self).emitted as int)); }
@fn AsyncDecodeStream::advance
@ret r
@spec
    requires old(self).wf()
    ensures match r { Err(_) => old(self).fut() is None && final(self).error is None, Ok(None) => final(self).wf() && final(self).fut() == old(self).fut() && (final(self).lt(old(self)) || final(self).state is Finished && final(self).event_queue@.len() == 0),
        Ok(Some(e)) => final(self).wf() && old(self).step(e, final(self)) && final(self).lt(old(self)) }
@at entry
    hide(hdr); hide(p_key); hide(p_prim); hide(is_kv_line); hide(d_doc); hide(scan); hide(accs); hide(flat);
    broadcast use {l_ses_skip, l_skip_skip};
    let ghost a = strs(self.line_buffer@); let ghost b = strs(self.lines@); let ghost w = self.w(); let ghost st = self.st(); let ghost l = self.ls(); let ghost m = self.mem();
    proof { ax_vec_strings(self.line_buffer@); if !(self.state is Finished) && b.len() > 0 { l_step(a, b[0], w, st); l_pre(a.push(b[0]), b.skip(1), w, st); assert(a.push(b[0]) + b.skip(1) =~= a + b); assert(strs(self.lines@.skip(1)) =~= b.skip(1)); assert(b[0] == self.lines@[0]@);
            match p_line(b[0], w, st) { LR::Err => { reveal(d_doc); assert(d_doc(a + b, w, st) is None); } LR::Line(d, c) => { l_ext(l, SL { depth: d, c, n: (a.len() + 1) as int }, m); } LR::Blank => {} } }
        if !(self.state is Finished) {
            l_accs(l, m); thm_prefix(a, b, w, st, m); l_pre(a, Seq::empty(), w, st);
            let h = head_evs(l, m); let k = self.emitted - self.event_queue@.len();
            if self.event_queue@.len() > 0 {
                assert(h.skip(k)[0] == h[k]); assert(h.skip(k).skip(1) =~= h.skip(k + 1));
                if d_doc(a + b, w, st) is Some { let g = flat(d_doc(a + b, w, st)->0); assert(g[k] == h[k]); assert(g.skip(k)[0] == g[k]); assert(g.skip(k).skip(1) =~= g.skip(k + 1)); }
            } else { assert(h.skip(k) =~= Seq::empty()); }
        } }
@fn AsyncDecodeStream::process_next
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(),
      match r { Err(_) => old(self).fut() is None && final(self).fut() == Some(Seq::<SE>::empty()), Ok(None) => final(self).fut() == old(self).fut() && (final(self).lt(old(self)) || final(self).state is Finished && final(self).event_queue@.len() == 0),
        Ok(Some(e)) => old(self).step(e, final(self)) && final(self).lt(old(self)) }
@fn AsyncDecodeStream::poll_next
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(),
      match r { Poll::Pending => false, Poll::Ready(None) => old(self).fut() == Some(Seq::<SE>::empty()) && final(self).fut() == old(self).fut(),
        Poll::Ready(Some(Err(_))) => old(self).fut() is None && final(self).fut() == Some(Seq::<SE>::empty()),
        Poll::Ready(Some(Ok(e))) => old(self).step(e, final(self)) && final(self).lt(old(self)) }
@at entry
    let ghost s0 = *self;
@loop 0
    invariant self.wf(), self.fut() == s0.fut(), *self == s0 || self.lt(&s0), s0 == *old(self)
    decreases (if self.state is Finished { 0int } else { 1int }), self.lines@.len(), self.event_queue@.len()
@fn try_decode_stream_async
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(lines@), w, st) is None, Ok(ev) => d_doc(strs(lines@), w, st) is Some && ses(ev@) == flat(d_doc(strs(lines@), w, st)->0) } })
@fn try_decode_async
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      let sf = options is Some && options->0.expand_paths == Some(crate::options::ExpandPathsMode::Safe);
      match r { Err(_) => dec_text(input@, w, st, sf) is None, Ok(v) => dec_text(input@, w, st, sf) == Some(v.sv()) } })
@at entry
    hide(d_doc); hide(node); hide(x_val); hide(flat); hide(b_build); hide(nsv);
    broadcast use crate::vspec_tree::thm_build;
@closure map:0
    |$1: &str| -> (q: String) ensures q@ == $1@
@at before let events
    proof { assert(strs(lines@) =~= split_on(input@, '\n')); }
