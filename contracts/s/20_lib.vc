@file src/lib.rs mod
@only
@dropuse *
@use use crate::serde_json::{members, jvs, vj, vjs, vjf};
@use use crate::decode::try_decode; use crate::options::{opt_rp, opt_eo, opt_w};
@type JsonPrimitive
@type JsonObject
@type JsonArray
@type JsonValue
impl Clone for JsonValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@type JsonStreamEvent
impl Clone for JsonStreamEvent {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@type StringOrNumberOrBoolOrNull
impl Clone for StringOrNumberOrBoolOrNull {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl StringOrNumberOrBoolOrNull {
    pub open spec fn sp(&self) -> SP {
        match *self {
            StringOrNumberOrBoolOrNull::String(s) => SP::Str(s@),
            StringOrNumberOrBoolOrNull::Number(f) => SP::Num(f),
            StringOrNumberOrBoolOrNull::Bool(b) => SP::Bool(b),
            StringOrNumberOrBoolOrNull::Null => SP::Null,
        }
    }
}
impl JsonValue {
    pub open spec fn sv(&self) -> SV decreases *self {
        match *self {
            JsonValue::Primitive(p) => SV::Prim(p.sp()),
            JsonValue::Array(a) => SV::Arr(svs(a@)),
            JsonValue::Object(o) => SV::Obj(sos(o@)),
        }
    }
}
pub open spec fn svs(a: Seq<JsonValue>) -> Seq<SV> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { a[i].sv() } else { arbitrary() }) }
pub open spec fn sos(a: Seq<(String, JsonValue)>) -> Seq<(Seq<char>, SV)> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { (a[i].0@, a[i].1.sv()) } else { arbitrary() }) }
pub open spec fn sps(a: Seq<JsonPrimitive>) -> Seq<SP> { Seq::new(a.len(), |i: int| a[i].sp()) }
pub open spec fn strs(a: Seq<String>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| a[i]@) }
impl JsonStreamEvent {
    pub open spec fn se(&self) -> SE {
        match *self {
            JsonStreamEvent::StartObject => SE::StartObject,
            JsonStreamEvent::EndObject => SE::EndObject,
            JsonStreamEvent::StartArray { length } => SE::StartArray(length as nat),
            JsonStreamEvent::EndArray => SE::EndArray,
            JsonStreamEvent::Key { key, was_quoted } => SE::Key(key@, was_quoted),
            JsonStreamEvent::Primitive { value } => SE::Prim(value.sp()),
        }
    }
}
pub open spec fn ses(a: Seq<JsonStreamEvent>) -> Seq<SE> { Seq::new(a.len(), |i: int| a[i].se()) }
pub broadcast proof fn lemma_strs_push(v: Seq<String>, x: String)
    ensures #[trigger] strs(v.push(x)) == strs(v).push(x@)
{ assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub broadcast proof fn lemma_strs_idx(v: Seq<String>, i: int)
    requires 0 <= i < v.len()
    ensures #![trigger strs(v), v[i]] strs(v)[i] == v[i]@
{ }
pub broadcast proof fn lemma_ses_push(v: Seq<JsonStreamEvent>, x: JsonStreamEvent)
    ensures #[trigger] ses(v.push(x)) == ses(v).push(x.se())
{ assert(ses(v.push(x)) =~= ses(v).push(x.se())); }
/// std: a slice occupies at most isize::MAX bytes, and a JsonPrimitive at least 16
pub axiom fn ax_prims_len(v: &[JsonPrimitive]) ensures v@.len() * 16 <= isize::MAX;
/// memory: the bytes of texts that exist at one time, and one count for each, stay below the address space
pub axiom fn ax_texts_len(v: &Vec<String>) ensures nsum(blens(strs(v@))) + v@.len() <= usize::MAX;
impl vstd::std_specs::convert::FromSpecImpl<crate::serde_json::Value> for JsonValue {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: crate::serde_json::Value) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<JsonValue> for crate::serde_json::Value {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: JsonValue) -> Self { arbitrary() }
}
@fn StringOrNumberOrBoolOrNull::from_f64
@ret r
@spec
    ensures r.sp() == norm_num(value)
@fn impl_From<serde_json::Value>_for_JsonValue::from
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    ensures r.sv() == value.jv()
    decreases value
@at entry
    let ghost v0 = value;
@at before_loop 0
    let ghost m0 = map.v@;
    proof { assert(sos(entries@) =~= members(m0.take(0))); }
@loop 0
    invariant it0.seq() == m0, v0 is Object, v0->Object_0.v@ == m0, sos(entries@) == members(m0.take(it0.index() as int))
@at loop_start 0
    let ghost k = it0.index() as int; let ghost e0 = entries@;
    proof { assert(decreases_to!(v0 => v0->Object_0.v@[k])); assert(v0->Object_0.v@[k].1 == value); assert(decreases_to!(v0 => v0->Object_0.v@[k].1)); }
@at loop_end 0
    proof { assert(sos(entries@) =~= sos(e0).push((m0[k].0@, m0[k].1.jv()))); assert(members(m0.take(k + 1)) =~= members(m0.take(k)).push((m0[k].0@, m0[k].1.jv()))); }
@at after_loop 0
    proof { assert(m0.take(m0.len() as int) =~= m0); }
@closure map:0
    |$1: crate::serde_json::Value| -> (q: JsonValue) requires decreases_to!(v0 => $1) ensures q.sv() == $1.jv()
@closure unwrap_or_else:0
    || -> (q: f64) ensures norm_num(q) == (match parse_f64(value.text()) { Some(f) => norm_num(f), None => SP::Null })
@tail
    proof { if v0 is Array && vres_ is Array { assert(svs((vres_->Array_0)@) =~= jvs((v0->Array_0)@)); } }
@fn impl_From<JsonValue>_for_serde_json::Value::from
@ret r
@spec
    ensures r.jv() == vj(value.sv())
    decreases value
@at entry
    let ghost v0 = value;
@closure map_or:0
    |$1: crate::serde_json::Number| -> (q: crate::serde_json::Value) ensures q == crate::serde_json::Value::Number($1)
@closure map:0
    |$1: JsonValue| -> (q: crate::serde_json::Value) requires decreases_to!(v0 => $1) ensures q.jv() == vj($1.sv())
@at before_loop 0
    let ghost f0 = obj@; let ghost f = sos(obj@);
    proof { assert(f.take(0) =~= Seq::empty()); assert(members(map.v@) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == f0, f == sos(f0), v0 == value, v0 is Object, v0->Object_0@ == f0, members(map.v@) == vjf(f.take(it0.index() as int))
@at loop_start 0
    let ghost k = it0.index() as int;
    proof { assert(decreases_to!(v0 => v0->Object_0@[k])); assert(v0->Object_0@[k].1 == val); assert(decreases_to!(v0 => v0->Object_0@[k].1)); assert(f.take(k + 1).drop_last() =~= f.take(k)); assert(f.take(k + 1).last() == f[k]); assert(f[k] == (key@, val.sv())); }
@at after_loop 0
    proof { assert(f.take(f0.len() as int) =~= f); }
@tail
    proof { if v0 is Array && vres_ is Array { assert(jvs((vres_->Array_0)@) =~= vjs(svs((v0->Array_0)@))); } }
@fn json_to_toon
@ret r
@spec
    ensures match r { Ok(d) => crate::cli::conversion::to_toon(json@, None, d@), Err(_) => crate::serde_json::json_read(json@) is None }
@rewrite encode(value, None) => encode::encode(JsonValue::from(value), None)
@at entry
    reveal(crate::cli::conversion::to_toon);
@tail
    proof { assert(crate::serde_json::json_read(json@) == Some(value.jv())); if vres_ is Ok { let d = vres_->Ok_0@; let x = choose|x: SV| #[trigger] crate::vspec_rep::enc_val(crate::serde_json::json_read(json@)->0, opt_rp(None), x) && d == join(enc_lines(x, opt_eo(None), opt_w(None)), '\n'); assert(enc_val(crate::serde_json::json_read(json@)->0, opt_rp(None), x)); } }
@fn toon_to_json
@ret r
@spec
    ensures match r { Ok(d) => dec_text(toon@, 2, true, false) is Some && d@ == crate::serde_json::json_write(vj(dec_text(toon@, 2, true, false)->0)), Err(_) => dec_text(toon@, 2, true, false) is None }
