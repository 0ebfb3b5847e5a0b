@file src/cli/conversion.rs mod cli::conversion
@only
@use use crate::{ses, strs, svs, sos}; use crate::vspec_json::*; use crate::vstubs::*; use crate::vspec_tree::*; use crate::options::*; use crate::vspec::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup
/// the options of a conversion, with the defaults filled in
pub open spec fn cw(o: Option<DecodeOptions>) -> nat { if o is Some && o->0.indent is Some { o->0.indent->0 as nat } else { 2 } }
pub open spec fn cstrict(o: Option<DecodeOptions>) -> bool { if o is Some && o->0.strict is Some { o->0.strict->0 } else { true } }
pub open spec fn csafe(o: Option<DecodeOptions>) -> bool { o is Some && o->0.expand_paths == Some(ExpandPathsMode::Safe) }
pub proof fn l_cat_one(x: Seq<char>) ensures cat(seq![x]) == x { reveal_with_fuel(cat, 2); assert(seq![x].drop_last() =~= Seq::empty()); assert(Seq::<char>::empty() + x =~= x); }
/// d is the TOON document of the JSON text t
#[verifier::opaque]
pub open spec fn to_toon(t: Seq<char>, o: Option<EncodeOptions>, d: Seq<char>) -> bool {
    crate::serde_json::json_read(t) is Some && exists|x: SV| #[trigger] enc_val(crate::serde_json::json_read(t)->0, opt_rp(o), x) && d == join(enc_lines(x, opt_eo(o), opt_w(o)), '\n')
}
/// d is the JSON text of the TOON document t
#[verifier::opaque]
pub open spec fn from_toon(t: Seq<char>, o: Option<DecodeOptions>, d: Seq<char>) -> bool {
    let w = cw(o); let st = cstrict(o);
    if csafe(o) { dec_text(t, w, st, true) is Some && d == jw_val(dec_text(t, w, st, true)->0, 0, w, true) } else { let m = d_doc(split_on(t, '\n'), w, st); m is Some && d == jw_val(dsv(m->0), 0, w, false) }
}
@fn encode_to_toon_lines
@ret r
@spec
    ensures match r { Ok(l) => to_toon(input_json@, options, join(strs(l@), '\n')), Err(_) => forall|d: Seq<char>| !#[trigger] to_toon(input_json@, options, d) }
@at entry
    reveal(to_toon);
@at before Ok(
    proof { assert(converted.sv() == crate::serde_json::json_read(input_json@)->0); }
@fn decode_to_json_chunks
@ret r
@spec
    requires cw(options) <= 0xffff
    ensures match r { Ok(c) => from_toon(input@, options, cat(strs(c@))), Err(_) => forall|d: Seq<char>| !#[trigger] from_toon(input@, options, d) }
@at entry
    hide(d_doc); hide(s_text); reveal(from_toon);
    let ghost dd = d_doc(split_on(input@, '\n'), cw(options), cstrict(options));
    proof { if dd is Some { crate::vthm_json::thm_json_stream(dd->0, cw(options)); } assert forall|x: Seq<char>| #[trigger] cat(seq![x]) == x by { l_cat_one(x); } }
@fn decode_events
@ret r
@spec
    ensures match r { Err(_) => d_doc(split_on(input@, '\n'), indent as nat, strict) is None, Ok(ev) => d_doc(split_on(input@, '\n'), indent as nat, strict) is Some && ses(ev@) == flat(d_doc(split_on(input@, '\n'), indent as nat, strict)->0) }
@closure map:0
    |$1: &str| -> (q: String) ensures q@ == $1@
@at before decoder_impl::decode_stream_sync
    proof { assert(strs(lines@) =~= split_on(input@, '\n')); }
@fn decode_to_value
@ret r
@spec
    ensures ({ let sf = options.expand_paths == ExpandPathsMode::Safe;
      match r { Err(_) => dec_text(input@, options.indent as nat, options.strict, sf) is None, Ok(v) => dec_text(input@, options.indent as nat, options.strict, sf) == Some(v.sv()) } })
@at entry
    hide(d_doc); hide(node); hide(x_val); hide(flat); hide(b_build); hide(nsv);
    broadcast use crate::vspec_tree::thm_build;
@fn json_stringify_null
@ret r
@spec
    requires indent <= 0xffff
    ensures strs(r@) == seq!["null"@]
