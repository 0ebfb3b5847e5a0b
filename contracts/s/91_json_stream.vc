@file src/cli/json_stream.rs mod cli::json_stream
@use use crate::{ses, strs, svs, sos, serde_json}; use crate::vspec_json::*; use crate::vspec_enc::sp; use crate::vstubs::*;
@type JsonContext
impl JsonContext {
    pub open spec fn jc(&self) -> JC { match *self { JsonContext::Object { needs_comma, expect_value } => JC::Obj(needs_comma, expect_value), JsonContext::Array { needs_comma } => JC::Arr(needs_comma) } }
}
pub open spec fn jcs(a: Seq<JsonContext>) -> Seq<JC> { Seq::new(a.len(), |i: int| a[i].jc()) }
/// a list held in memory has fewer than 2^47 elements
pub axiom fn ax_stack(v: &Vec<JsonContext>) ensures v@.len() < 0x8000_0000_0000;
pub proof fn l_mul(d: int, i: int) requires d <= 0x8000_0000_0000, 0 <= i <= 0xffff ensures d * i <= 0x8000_0000_0000_0000, d >= 0 ==> d * i >= 0 { assert(d * i <= 0x8000_0000_0000 * 0xffff) by(nonlinear_arith) requires d <= 0x8000_0000_0000, 0 <= i <= 0xffff; assert(d >= 0 ==> d * i >= 0) by(nonlinear_arith) requires i >= 0; }
pub proof fn l_run_none(e: Seq<SE>, k: int, w: nat) requires 0 <= k <= e.len(), s_run(Seq::empty(), e.take(k), w) is None ensures s_run(Seq::empty(), e, w) is None decreases e.len()
{ if k < e.len() { assert(e.drop_last().take(k) =~= e.take(k)); l_run_none(e.drop_last(), k, w); } else { assert(e.take(k) =~= e); } }
pub proof fn l_cat1(a: Seq<Seq<char>>, x: Seq<char>) ensures cat(a.push(x)) == cat(a) + x { assert(a.push(x).drop_last() =~= a); }
pub broadcast proof fn l_cats(a: Seq<String>, x: String) ensures #[trigger] cat(strs(a.push(x))) == cat(strs(a)) + x@ { assert(strs(a.push(x)) =~= strs(a).push(x@)); l_cat1(strs(a), x@); }
/// the text written so far
#[verifier::opaque]
pub open spec fn txt(a: Seq<String>) -> Seq<char> { cat(strs(a)) }
pub proof fn l_txt0() ensures txt(Seq::empty()) =~= Seq::<char>::empty() { reveal(txt); assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
pub broadcast proof fn l_txt(a: Seq<String>, x: String) ensures #[trigger] txt(a.push(x)) == txt(a) + x@ { reveal(txt); l_cats(a, x); }
pub proof fn l_run0(e: Seq<SE>, w: nat) ensures s_run(Seq::empty(), e.take(0), w) == Some((Seq::<JC>::empty(), Seq::<char>::empty())) { assert(e.take(0) =~= Seq::empty()); }
pub proof fn l_run1(e: Seq<SE>, i: int, w: nat, st: Seq<JC>, t: Seq<char>) requires 0 <= i < e.len(), s_run(Seq::empty(), e.take(i), w) == Some((st, t))
    ensures match s_step(st, e[i], w) { None => s_run(Seq::empty(), e, w) is None, Some(y) => s_run(Seq::empty(), e.take(i + 1), w) == Some((y.0, t + y.1)) }
{ assert(e.take(i + 1).drop_last() =~= e.take(i)); assert(e.take(i + 1).last() == e[i]); if s_step(st, e[i], w) is None { l_run_none(e, i + 1, w); } }
@fn json_stream_from_events
@attr #[verifier::rlimit(100)]
@ret r
@spec
    requires indent <= 0xffff
    ensures match r { Ok(c) => s_text(ses(events@), indent as nat) == Some(cat(strs(c@))), Err(_) => s_text(ses(events@), indent as nat) is None }
@at entry
    hide(s_run); hide(cat); broadcast use l_txt;
    let ghost ev = events@; let ghost w = indent as nat;
    proof { l_run0(ses(ev), w); l_txt0(); assert(jcs(Seq::<JsonContext>::empty()) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == ev, w == indent as nat, indent <= 0xffff, depth == stack@.len(), s_run(Seq::empty(), ses(ev).take(it0.index() as int), w) == Some((jcs(stack@), txt(out@)))
@at loop_start 0
    broadcast use l_txt;
    let ghost i = it0.index() as int; let ghost s0 = jcs(stack@); let ghost o0 = txt(out@);
    proof { ax_stack(&stack); l_mul(depth as int, indent as int); l_mul(depth - 1, indent as int);
        reveal_strlit(","); reveal_strlit("\n"); reveal_strlit(" "); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(":"); reveal_strlit(": ");
        assert(ses(ev)[i] == event.se()); l_run1(ses(ev), i, w, s0, o0); }
@at before out.push("{"
    proof { assert(txt(out@) =~= o0 + s_pre(s0, w)); assert(jcs(stack@) =~= s0); }
@at before out.push("["
    proof { assert(txt(out@) =~= o0 + s_pre(s0, w)); assert(jcs(stack@) =~= s0); }
@at before out.push("}"
    proof { assert(s0.last() is Obj); assert(jcs(stack@) =~= s0.drop_last()); assert(txt(out@) + seq!['}'] =~= o0 + w_close(s0.last()->Obj_0, s0.len() - 1, w, '}')); }
@at before out.push("]"
    proof { assert(s0.last() is Arr); assert(jcs(stack@) =~= s0.drop_last()); assert(txt(out@) + seq![']'] =~= o0 + w_close(s0.last()->Arr_0, s0.len() - 1, w, ']')); }
@at before out.push(serde_json
    proof { assert(s0.last() is Obj); assert(txt(out@) =~= o0 + (w_comma(s0.last()->Obj_0) + w_sep(s0.len() as int, w))); }
@at before out.push(stringify_primitive
    proof { assert(txt(out@) =~= o0 + s_pre(s0, w)); assert(jcs(stack@) =~= s0); }
@at loop_end 0
    proof { let x = s_step(s0, ses(ev)[i], w)->0; 
        match ses(ev)[i] { SE::Key(_, _) => { assert(jcs(stack@) =~= x.0); }, SE::Prim(_) => { assert(jcs(stack@) =~= x.0); }, SE::StartObject => { assert(jcs(stack@) =~= x.0); }, SE::StartArray(_) => { assert(jcs(stack@) =~= x.0); }, SE::EndObject => { assert(jcs(stack@) =~= x.0); }, SE::EndArray => { assert(jcs(stack@) =~= x.0); } }
        assert(txt(out@) =~= o0 + x.1); }
@at after_loop 0
    proof { assert(ses(ev).take(ev.len() as int) =~= ses(ev)); reveal(txt); }
@fn stringify_primitive
@ret r
@spec
    ensures r@ == w_prim(value.sp(), false)
@closure map_or_else:0
    || -> (q: String) ensures q@ == "null"@
@closure map_or_else:1
    |$1: serde_json::Number| -> (q: String) ensures q@ == $1.text()
