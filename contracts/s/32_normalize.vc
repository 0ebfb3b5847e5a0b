@file src/encode/normalize.rs mod encode::normalize
@use use crate::{svs, sos};
pub broadcast proof fn l_is_prims(a: Seq<JsonValue>)
    ensures #[trigger] is_prims(svs(a)) == (forall|i: int| 0 <= i < a.len() ==> a[i] is Primitive)
{
    if is_prims(svs(a)) { assert forall|i: int| 0 <= i < a.len() implies a[i] is Primitive by { assert(svs(a)[i] is Prim); } }
}
pub proof fn l_nrm(v: JsonValue, r: JsonValue)
    requires match (v, r) {
        (JsonValue::Primitive(p), JsonValue::Primitive(q)) => q.sp() == norm_sp(p.sp()),
        (JsonValue::Array(a), JsonValue::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] b@[i]).sv() == nrm(a@[i].sv()),
        (JsonValue::Object(a), JsonValue::Object(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] b@[i]).0@ == a@[i].0@ && b@[i].1.sv() == nrm(a@[i].1.sv()),
        _ => false }
    ensures r.sv() == nrm(v.sv())
{
    match (v, r) {
        (JsonValue::Array(a), JsonValue::Array(b)) => { assert(svs(b@) =~= nrms(svs(a@))); },
        (JsonValue::Object(a), JsonValue::Object(b)) => { assert(sos(b@) =~= nrmf(sos(a@))); },
        _ => {},
    }
}
@fn normalize_json_value
@ret r
@spec
    ensures r.sv() == nrm(value.sv())
    decreases value
@at entry
    let ghost v0 = value;
@closure map:0
    |$1: JsonValue| -> (q: JsonValue) requires decreases_to!(v0 => $1) ensures q.sv() == nrm($1.sv()) ;;
@closure map:1
    |vp: (String, JsonValue)| -> (q: (String, JsonValue)) requires decreases_to!(v0 => vp.1) ensures q.0@ == vp.0@, q.1.sv() == nrm(vp.1.sv()) ;; let $1 = vp;
@tail
    proof { l_nrm(v0, vres_); }
@fn normalize_primitive
@ret r
@spec
    ensures r.sp() == norm_sp(value.sp())
@fn is_json_primitive
@ret r
@spec
    ensures r == (value.sv() is Prim)
@fn is_json_array
@ret r
@spec
    ensures r == (value.sv() is Arr)
@fn is_json_object
@ret r
@spec
    ensures r == (value.sv() is Obj)
@fn is_empty_object
@ret r
@spec
    ensures r == (value@.len() == 0)
@fn is_array_of_primitives
@ret r
@spec
    ensures r == is_prims(svs(value@))
@closure all:0
    |$1: &JsonValue| -> (q: bool) ensures q == ($1 is Primitive)
@at entry
    broadcast use l_is_prims;
@fn is_array_of_arrays
@ret r
@spec
    ensures r == (forall|i: int| 0 <= i < value@.len() ==> (#[trigger] value@[i]) is Array)
@closure all:0
    |$1: &JsonValue| -> (q: bool) ensures q == ($1 is Array)
@fn is_array_of_objects
@ret r
@spec
    ensures r == (forall|i: int| 0 <= i < value@.len() ==> (#[trigger] value@[i]) is Object)
@closure all:0
    |$1: &JsonValue| -> (q: bool) ensures q == ($1 is Object)
