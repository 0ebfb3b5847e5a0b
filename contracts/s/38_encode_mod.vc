@file src/encode/mod.rs mod encode
@only
@use use crate::{ses, strs, svs, sos}; use crate::options::*; use crate::vstubs::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::lemma_ses_push
@fn encode
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && r@ == join(enc_lines(x, opt_eo(options), opt_w(options)), '\n')
@at entry
    proof { reveal_strlit("\n"); }
@fn encode_lines
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && strs(r@) == enc_lines(x, opt_eo(options), opt_w(options))
@gcall apply_replacer => Tracked(&mut tr)
@at before let replaced
    let tracked mut tr = new_log(); let ghost n0 = normalized.sv();
@at before encoders::encode_json_value
    proof { if opt_rp(options) { assert(rp_root(n0, tr.l, 0) == Some((replaced.sv(), tr.l.len() as int))); } assert(enc_val(input.sv(), opt_rp(options), replaced.sv())); }
@fn encode_stream_events
@ret r
@spec
    ensures exists|x: SV| #[trigger] enc_val(input.sv(), opt_rp(options), x) && ses(r@) == ev(x)
@gcall apply_replacer => Tracked(&mut tr)
@at before let replaced
    let tracked mut tr = new_log(); let ghost n0 = normalized.sv();
@at before let mut events
    proof { if opt_rp(options) { assert(rp_root(n0, tr.l, 0) == Some((replaced.sv(), tr.l.len() as int))); } assert(enc_val(input.sv(), opt_rp(options), replaced.sv())); assert(ses(Seq::empty()) =~= Seq::empty()); assert(Seq::<SE>::empty() + ev(replaced.sv()) =~= ev(replaced.sv())); }
@fn emit_events
@spec
    ensures ses(final(events)@) == ses(old(events)@) + ev(value.sv())
    decreases ht(value.sv())
@at entry
    let ghost e0 = ses(events@); let ghost v0 = value.sv();
@at before_loop 0
    proof { assert(v0->Arr_0.take(0) =~= Seq::empty()); assert(e0.push(SE::StartArray(arr@.len())) =~= e0 + seq![SE::StartArray(v0->Arr_0.len())] + evs(v0->Arr_0.take(0))); }
@loop 0
    invariant it0.seq().len() == arr@.len(), forall|j: int| 0 <= j < arr@.len() ==> *(#[trigger] it0.seq()[j]) == arr@[j], v0 == SV::Arr(svs(arr@)), v0 == value.sv(),
        ses(events@) == e0 + seq![SE::StartArray(v0->Arr_0.len())] + evs(v0->Arr_0.take(it0.index() as int))
@at loop_start 0
    let ghost i = it0.index() as int; let ghost e1 = ses(events@);
    proof { l_hts(v0->Arr_0, i); assert(v0->Arr_0[i] == item.sv()); assert(v0->Arr_0.take(i + 1).drop_last() =~= v0->Arr_0.take(i)); }
@at loop_end 0
    proof { assert(ses(events@) =~= e0 + seq![SE::StartArray(v0->Arr_0.len())] + evs(v0->Arr_0.take(i + 1))); }
@at after_loop 0
    proof { assert(v0->Arr_0.take(arr@.len() as int) =~= v0->Arr_0); assert(ses(events@).push(SE::EndArray) =~= e0 + ev(v0)); }
@at before_loop 1
    proof { assert(v0->Obj_0.take(0) =~= Seq::empty()); assert(e0.push(SE::StartObject) =~= e0 + seq![SE::StartObject] + evf(v0->Obj_0.take(0))); }
@loop 1
    invariant it1.seq().len() == obj@.len(), forall|j: int| 0 <= j < obj@.len() ==> *(#[trigger] it1.seq()[j]) == obj@[j], v0 == SV::Obj(sos(obj@)), v0 == value.sv(),
        ses(events@) == e0 + seq![SE::StartObject] + evf(v0->Obj_0.take(it1.index() as int))
@at loop_start 1
    let ghost i = it1.index() as int; let ghost e1 = ses(events@);
    proof { l_htf(v0->Obj_0, i); assert(v0->Obj_0[i] == (key@, val.sv())); assert(v0->Obj_0.take(i + 1).drop_last() =~= v0->Obj_0.take(i)); }
@at loop_end 1
    proof { assert(ses(events@) =~= e0 + seq![SE::StartObject] + evf(v0->Obj_0.take(i + 1))); }
@at after_loop 1
    proof { assert(v0->Obj_0.take(obj@.len() as int) =~= v0->Obj_0); assert(ses(events@).push(SE::EndObject) =~= e0 + ev(v0)); }
