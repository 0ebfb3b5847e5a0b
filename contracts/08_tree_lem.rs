/// Lemmas about the views of built nodes.
pub mod vlem_build {
use vstd::prelude::*;
use crate::vspec_tree::*;
use crate::vstubs::rstrs;
use crate::decode::event_builder::*;
verus! {
broadcast use vstd::group_vstd_default;
pub broadcast proof fn bc_nvs_push(a: Seq<NodeValue>, x: NodeValue)
    ensures #[trigger] nvs(a.push(x)) == nvs(a).push(x.nv())
{ assert(nvs(a.push(x)) =~= nvs(a).push(x.nv())); }
pub broadcast proof fn bc_nfs_push(a: Seq<(String, NodeValue)>, x: (String, NodeValue))
    ensures #[trigger] nfs(a.push(x)) == nfs(a).push((x.0@, x.1.nv()))
{ assert(nfs(a.push(x)) =~= nfs(a).push((x.0@, x.1.nv()))); }
pub broadcast proof fn bc_cxs_push(a: Seq<BuildContext>, x: BuildContext)
    ensures #[trigger] cxs(a.push(x)) == cxs(a).push(x.cx())
{ assert(cxs(a.push(x)) =~= cxs(a).push(x.cx())); }
pub broadcast proof fn bc_cxs_pop(a: Seq<BuildContext>)
    requires a.len() > 0
    ensures #[trigger] cxs(a.drop_last()) == cxs(a).drop_last(), cxs(a).last() == a.last().cx()
{ assert(cxs(a.drop_last()) =~= cxs(a).drop_last()); }
pub broadcast proof fn bc_cxs_upd(a: Seq<BuildContext>, i: int, x: BuildContext)
    requires a.len() > 0, i == a.len() - 1
    ensures #[trigger] cxs(a.update(i, x)) == cxs(a).drop_last().push(x.cx())
{ assert(cxs(a.update(i, x)) =~= cxs(a).drop_last().push(x.cx())); }
pub broadcast proof fn bc_nfs_upd(a: Seq<(String, NodeValue)>, i: int, x: (String, NodeValue))
    requires 0 <= i < a.len()
    ensures #[trigger] nfs(a.update(i, x)) == nfs(a).update(i, (x.0@, x.1.nv()))
{ assert(nfs(a.update(i, x)) =~= nfs(a).update(i, (x.0@, x.1.nv()))); }
/// one more element of a list being folded
pub proof fn l_nvs_step(a: Seq<NodeValue>, i: int)
    requires 0 <= i < a.len()
    ensures nvs(a).len() == a.len(), nvs(a).take(i + 1).drop_last() == nvs(a).take(i), nvs(a).take(i + 1).last() == a[i].nv(), nvs(a).take(0) =~= Seq::empty(), nvs(a).take(a.len() as int) == nvs(a)
{ assert(nvs(a).take(i + 1).drop_last() =~= nvs(a).take(i)); assert(nvs(a).take(a.len() as int) =~= nvs(a)); }
pub proof fn l_nfs_step(a: Seq<(String, NodeValue)>, i: int)
    requires 0 <= i < a.len()
    ensures nfs(a).len() == a.len(), nfs(a).take(i + 1).drop_last() == nfs(a).take(i), nfs(a).take(i + 1).last() == (a[i].0@, a[i].1.nv()), nfs(a).take(0) =~= Seq::empty(), nfs(a).take(a.len() as int) == nfs(a)
{ assert(nfs(a).take(i + 1).drop_last() =~= nfs(a).take(i)); assert(nfs(a).take(a.len() as int) =~= nfs(a)); }
pub broadcast proof fn bc_all_ident(a: Seq<&str>)
    ensures #[trigger] crate::vspec_exp::all_ident(rstrs(a)) == (forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> crate::vspec_str::ident_seg(a[i]@))
{ let r = rstrs(a); assert forall|i: int| 0 <= i < a.len() implies r[i] == #[trigger] a[i]@ by {}
  assert(forall|i: int| 0 <= i < a.len() ==> #[trigger] r[i] == a[i]@);
  if crate::vspec_exp::all_ident(r) { assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies crate::vspec_str::ident_seg(a[i]@) by { let x = r[i]; } } }
pub broadcast group gbuild { bc_nvs_push, bc_nfs_push, bc_cxs_push, bc_cxs_pop, bc_cxs_upd, bc_nfs_upd }
} // verus!
}
