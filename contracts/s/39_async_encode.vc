@file src/encode/async_encode.rs mod encode::async_encode
@feature async-stream
@only
@dropuse asupersync
@dropuse std::pin
@dropuse std::task
@use use crate::{ses, strs, svs, sos}; use crate::options::*; use crate::vstubs::*; use crate::vasync::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::lemma_ses_push
@type AsyncEncodeStream
@type AsyncEncodeEventStream
@type EncodeStackFrame
impl EncodeStackFrame {
    /// the events the frame still has to yield
    pub open spec fn evs(&self) -> Seq<SE> {
        match self {
            EncodeStackFrame::Object { entries, pending_value } => (match pending_value { Some(v) => ev(v.sv()), None => Seq::empty() }) + evf(sos(entries@)) + seq![SE::EndObject],
            EncodeStackFrame::Array { items, length, emitted_start } => (if *emitted_start { Seq::empty() } else { seq![SE::StartArray(*length as nat)] }) + evs(svs(items@)) + seq![SE::EndArray],
        }
    }
    pub open spec fn unstarted(&self) -> bool { self is Array && !self->Array_emitted_start }
}
pub open spec fn frs(s: Seq<EncodeStackFrame>) -> Seq<SE> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s.last().evs() + frs(s.drop_last()) } }
pub broadcast proof fn l_frs_push(s: Seq<EncodeStackFrame>, f: EncodeStackFrame)
    ensures #[trigger] frs(s.push(f)) == f.evs() + frs(s)
{ assert(s.push(f).drop_last() =~= s); }
pub broadcast proof fn l_frs_upd(s: Seq<EncodeStackFrame>, n: int, f: EncodeStackFrame)
    requires n == s.len() - 1, n >= 0
    ensures #[trigger] frs(s.update(n, f)) == f.evs() + frs(s.drop_last())
{ assert(s.update(n, f).drop_last() =~= s.drop_last()); }
pub proof fn l_evs_cons(a: Seq<SV>) requires a.len() > 0 ensures evs(a) == ev(a[0]) + evs(a.skip(1)) decreases a.len()
{
    if a.len() == 1 { assert(a.drop_last() =~= Seq::empty()); assert(a.skip(1) =~= Seq::empty()); assert(evs(a) =~= ev(a[0]) + evs(a.skip(1))); }
    else { let b = a.drop_last(); l_evs_cons(b); assert(a.skip(1).drop_last() =~= b.skip(1)); assert(evs(a) =~= ev(a[0]) + evs(a.skip(1))); }
}
pub proof fn l_evf_cons(f: Seq<SF>) requires f.len() > 0 ensures evf(f) == seq![SE::Key(f[0].0, !unq_key(f[0].0))] + (ev(f[0].1) + evf(f.skip(1))) decreases f.len()
{
    if f.len() == 1 { assert(f.drop_last() =~= Seq::empty()); assert(f.skip(1) =~= Seq::empty()); assert(evf(f) =~= seq![SE::Key(f[0].0, !unq_key(f[0].0))] + (ev(f[0].1) + evf(f.skip(1)))); }
    else { let b = f.drop_last(); l_evf_cons(b); assert(f.skip(1).drop_last() =~= b.skip(1)); assert(evf(f) =~= seq![SE::Key(f[0].0, !unq_key(f[0].0))] + (ev(f[0].1) + evf(f.skip(1)))); }
}
pub broadcast proof fn l_svs_skip(a: Seq<JsonValue>) requires a.len() > 0 ensures #[trigger] svs(a.skip(1)) == svs(a).skip(1), svs(a).len() == a.len(), svs(a)[0] == a[0].sv() { assert(svs(a.skip(1)) =~= svs(a).skip(1)); }
pub broadcast proof fn l_sos_skip(a: Seq<(String, JsonValue)>) requires a.len() > 0 ensures #[trigger] sos(a.skip(1)) == sos(a).skip(1), sos(a).len() == a.len(), sos(a)[0] == (a[0].0@, a[0].1.sv()) { assert(sos(a.skip(1)) =~= sos(a).skip(1)); }
/// s is e and then t
pub open spec fn yields(s: Seq<SE>, e: SE, t: Seq<SE>) -> bool { s =~= seq![e] + t }
impl AsyncEncodeEventStream {
    pub open spec fn wf(&self) -> bool { !self.started ==> self.root is Some && self.stack@.len() == 0 }
    /// the events the stream still has to yield
    pub open spec fn rest(&self) -> Seq<SE> { if !self.started { ev(self.root->0.sv()) } else { frs(self.stack@) } }
}
/// Polled to its end, the stream yields exactly the lines of the synchronous encoder.
pub fn thm_lines(input: JsonValue, options: Option<EncodeOptions>) -> (r: Vec<String>)
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r@) == enc_lines(x, opt_eo(options), opt_w(options))
{
    let mut s = AsyncEncodeStream::new(input, options);
    let mut out: Vec<String> = Vec::new();
    let mut end = false;
    let ghost l0 = s.lines@;
    while !end
        invariant s.index <= s.lines@.len(), s.lines@ == l0, strs(out@) == strs(l0).take(s.index as int), end ==> s.index == s.lines@.len()
        decreases (if end { 0int } else { 1int }), s.lines@.len() - s.index
    {
        let ghost i = s.index as int; let ghost o0 = out@;
        match s.poll_next() {
            Poll::Ready(None) => { end = true; }
            Poll::Ready(Some(x)) => { out.push(x); proof { assert(strs(out@) =~= strs(o0).push(x@)); assert(strs(out@) =~= strs(l0).take(i + 1)); } }
            Poll::Pending => { assert(false); }
        }
    }
    proof { assert(strs(l0).take(l0.len() as int) =~= strs(l0)); }
    out
}
/// Polled to its end, the event stream yields exactly the events of the synchronous encoder.
pub fn thm_events(input: JsonValue, options: Option<EncodeOptions>) -> (r: Vec<JsonStreamEvent>)
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && ses(r@) == ev(x)
{
    let mut s = AsyncEncodeEventStream::new(input, options);
    let mut out: Vec<JsonStreamEvent> = Vec::new();
    let mut end = false;
    let ghost r0 = s.rest();
    proof { assert(ses(out@) + s.rest() =~= r0); }
    while !end
        invariant s.wf(), ses(out@) + s.rest() == r0, end ==> s.rest().len() == 0
        decreases (if end { 0int } else { 1int }), s.rest().len()
    {
        let ghost o0 = ses(out@);
        match s.poll_next() {
            Poll::Ready(None) => { end = true; assert(ses(out@) + s.rest() =~= r0); }
            Poll::Ready(Some(e)) => { out.push(e); assert(ses(out@) + s.rest() =~= r0); }
            Poll::Pending => { assert(false); }
        }
    }
    proof { assert(ses(out@) + s.rest() =~= ses(out@)); }
    out
}
@fn AsyncEncodeStream::new
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r.lines@) == enc_lines(x, opt_eo(options), opt_w(options)), r.index == 0
@fn AsyncEncodeStream::try_new
@ret r
@spec
    ensures r is Ok, exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r->Ok_0.lines@) == enc_lines(x, opt_eo(options), opt_w(options)), r->Ok_0.index == 0
@gcall apply_replacer => Tracked(&mut tr)
@at before let replaced
    let tracked mut tr = new_log(); let ghost n0 = normalized.sv();
@at before let lines =
    proof { if opt_rp(options) { assert(rp_root(n0, tr.l, 0) == Some((replaced.sv(), tr.l.len() as int))); } assert(enc_val(input.sv(), opt_rp(options), replaced.sv())); }
@fn AsyncEncodeStream::len
@ret r
@spec
    ensures r == self.lines@.len()
@fn AsyncEncodeStream::is_empty
@ret r
@spec
    ensures r == (self.lines@.len() == 0)
@fn AsyncEncodeStream::poll_next
@ret r
@spec
    requires old(self).index <= old(self).lines@.len()
    ensures final(self).index <= final(self).lines@.len(), final(self).lines == old(self).lines,
      match r { Poll::Pending => false, Poll::Ready(None) => old(self).index == old(self).lines@.len() && final(self).index == old(self).index,
        Poll::Ready(Some(x)) => old(self).index < old(self).lines@.len() && x@ == old(self).lines@[old(self).index as int]@ && final(self).index == old(self).index + 1 }
@fn encode_lines_async
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r@) == enc_lines(x, opt_eo(options), opt_w(options))
@fn try_encode_lines_async
@ret r
@spec
    ensures r is Ok, exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r->Ok_0@) == enc_lines(x, opt_eo(options), opt_w(options))
@gcall apply_replacer => Tracked(&mut tr)
@at before let replaced
    let tracked mut tr = new_log(); let ghost n0 = normalized.sv();
@at before let lines =
    proof { if opt_rp(options) { assert(rp_root(n0, tr.l, 0) == Some((replaced.sv(), tr.l.len() as int))); } assert(enc_val(input.sv(), opt_rp(options), replaced.sv())); }
@fn encode_async
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r@ == join(enc_lines(x, opt_eo(options), opt_w(options)), '\n')
@fn try_encode_async
@ret r
@spec
    ensures r is Ok, exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r->Ok_0@ == join(enc_lines(x, opt_eo(options), opt_w(options)), '\n')
@at entry
    proof { reveal_strlit("\n"); }
@fn AsyncEncodeEventStream::new
@ret r
@spec
    ensures r.wf(), exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r.rest() == ev(x)
@fn AsyncEncodeEventStream::try_new
@ret r
@spec
    ensures r is Ok, r->Ok_0.wf(), exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r->Ok_0.rest() == ev(x)
@gcall apply_replacer => Tracked(&mut tr)
@at before let replaced
    let tracked mut tr = new_log(); let ghost n0 = normalized.sv();
@at end
    proof { if opt_rp(options) { assert(rp_root(n0, tr.l, 0) == Some((replaced.sv(), tr.l.len() as int))); } assert(enc_val(input.sv(), opt_rp(options), replaced.sv())); }
@fn AsyncEncodeEventStream::next_event
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).started,
      match r { Some(e) => yields(old(self).rest(), e.se(), final(self).rest()), None => old(self).rest().len() == 0 && final(self).rest().len() == 0 }
    decreases (if old(self).started && old(self).stack@.len() > 0 && old(self).stack@.last().unstarted() { 0int } else { 2int })
@at entry
    broadcast use {l_svs_skip, l_sos_skip, l_frs_push, l_frs_upd};
    proof {
        let s0 = self.stack@;
        if s0.len() > 0 {
            assert forall|f: EncodeStackFrame| (#[trigger] s0.update(s0.len() - 1, f)).drop_last() =~= s0.drop_last() by {}
            match s0.last() {
                EncodeStackFrame::Object { entries, pending_value } => { if entries@.len() > 0 { l_evf_cons(sos(entries@)); } }
                EncodeStackFrame::Array { items, length, emitted_start } => { if items@.len() > 0 { l_evs_cons(svs(items@)); } }
            }
        }
    }
@fn AsyncEncodeEventStream::start_value
@ret r
@spec
    requires old(self).started
    ensures final(self).started, r is Some, yields(ev(value.sv()) + old(self).rest(), r->0.se(), final(self).rest())
    decreases 1int
@at entry
    broadcast use l_frs_push;
@fn AsyncEncodeEventStream::poll_next
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(),
      match r { Poll::Pending => false, Poll::Ready(Some(e)) => yields(old(self).rest(), e.se(), final(self).rest()), Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0 }
@fn encode_events_async
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && ses(r@) == ev(x)
@fn try_encode_events_async
@ret r
@spec
    ensures r is Ok, exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && ses(r->Ok_0@) == ev(x)
@at before let mut events
    let ghost r0 = stream.rest();
    proof { assert(ses(Seq::<JsonStreamEvent>::empty()) + r0 =~= r0); }
@loop 0
    invariant stream.wf(), ses(events@) + stream.rest() == r0, exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r0 == ev(x)
    ensures stream.rest().len() == 0
    decreases stream.rest().len()
@at loop_start 0
    let ghost e1 = ses(events@); let ghost r1 = stream.rest();
@at loop_end 0
    proof { assert(ses(events@) + stream.rest() =~= r0); }
@at after_loop 0
    proof { assert(ses(events@) + stream.rest() =~= ses(events@)); }
