@file src/decode/event_builder.rs mod decode::event_builder
@dropuse std::collections::HashSet
@use use crate::{ses, svs, sos}; use crate::vstubs::HashSet;
@type NodeValue
impl Clone for NodeValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl NodeValue {
    pub open spec fn nv(&self) -> NV decreases *self {
        match *self {
            NodeValue::Primitive(p) => NV::Prim(p.sp()),
            NodeValue::Array(a) => NV::Arr(nvs(a@)),
            NodeValue::Object(o) => NV::Obj(nfs(o.entries@), o.quoted_keys.set()),
        }
    }
}
pub open spec fn nvs(a: Seq<NodeValue>) -> Seq<NV> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { a[i].nv() } else { arbitrary() }) }
pub open spec fn nfs(a: Seq<(String, NodeValue)>) -> Seq<(Seq<char>, NV)> decreases a
{ Seq::new(a.len(), |i: int| if 0 <= i < a.len() { (a[i].0@, a[i].1.nv()) } else { arbitrary() }) }
@type ObjectNode
@type BuildContext
impl BuildContext {
    pub open spec fn cx(&self) -> CX {
        match *self {
            BuildContext::Object { entries, current_key, quoted_keys } => CX::Obj(nfs(entries@), match current_key { Some(k) => Some(k@), None => None }, quoted_keys.set()),
            BuildContext::Array { items } => CX::Arr(nvs(items@)),
        }
    }
}
pub open spec fn cxs(a: Seq<BuildContext>) -> Seq<CX> { Seq::new(a.len(), |i: int| a[i].cx()) }
@type BuildState
impl BuildState {
    pub open spec fn bs(&self) -> BS { BS { st: cxs(self.stack@), root: match self.root { Some(n) => Some(n.nv()), None => None } } }
}
@fn build_node_from_events
@ret r
@spec
    ensures match r { Ok(n) => b_build(ses(events@)) == Some(n.nv()), Err(_) => b_build(ses(events@)) is None }
@at entry
    let ghost ev = events@;
    proof { assert(ses(ev).take(0) =~= Seq::empty()); assert(cxs(Seq::<BuildContext>::empty()) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == ev, b_run(b_empty(), ses(ev).take(it0.index() as int)) == Some(state.bs())
@at loop_start 0
    let ghost i = it0.index() as int;
    proof { assert(ses(ev).take(i + 1).drop_last() =~= ses(ev).take(i)); assert(ses(ev).take(i + 1).last() == event.se()); l_run_none(b_empty(), ses(ev), i + 1); }
@at after_loop 0
    proof { assert(ses(ev).take(ev.len() as int) =~= ses(ev)); }
@fn apply_event
@ret r
@spec
    ensures match r { Ok(_) => b_step(old(state).bs(), event.se()) == Some(final(state).bs()), Err(_) => b_step(old(state).bs(), event.se()) is None }
@at entry
    broadcast use crate::vlem_build::gbuild;
    let ghost ev = event.se(); let ghost b0 = state.bs();
    proof { assert(nfs(Seq::empty()) =~= Seq::empty()); assert(nvs(Seq::empty()) =~= Seq::empty()); }
@tail
    proof { match b_step(b0, ev) { Some(b) => { assert(state.bs().st =~= b.st); assert(state.bs().root == b.root); }, None => { assert(false); } } }
@fn finalize_state
@ret r
@spec
    ensures match r { Ok(n) => state.bs().st.len() == 0 && state.bs().root == Some(n.nv()), Err(_) => state.bs().st.len() > 0 || state.bs().root is None }
@fn node_to_json
@ret r
@spec
    ensures r.sv() == nsv(value.nv())
    decreases value
@closure map:0
    |$1: NodeValue| -> (q: JsonValue) requires decreases_to!(value => $1) ensures q.sv() == nsv($1.nv())
@closure map:1
    |v_p: (String, NodeValue)| -> (q: (String, JsonValue)) requires decreases_to!(value => v_p) ensures q.0 == v_p.0, q.1.sv() == nsv(v_p.1.nv()) ;; let $1 = v_p;
@at entry
    let ghost v0 = value;
@tail
    proof {
        if v0 is Array && vres_ is Array { assert(svs(vres_->Array_0@) =~= nsvs(nvs(v0->Array_0@))); }
        if v0 is Object && vres_ is Object { assert(sos(vres_->Object_0@) =~= nsvf(nfs(v0->Object_0.entries@))); }
    }
