/// The JSON-text entry points: what serde_json holds for the decoded value is the value that was encoded.
pub mod vthm_io {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::*;
use crate::vspec_enc::*;
use crate::vspec_rep::*;
use crate::vspec_exp::dec_text;
use crate::vspec_tree::*;
use crate::vthm_val::*;
use crate::options::*;
use crate::serde_json::{json_read, json_write, vj, vjs, vjf, m_put, m_idx};
use crate::cli::conversion::to_toon;
verus! {
broadcast use vstd::group_vstd_default;
proof fn l_m_idx(m: Seq<SF>, k: Seq<char>)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 != k
    ensures m_idx(m, k) == m.len()
    decreases m.len()
{ if m.len() > 0 { assert(m[0].0 != k); assert forall|i: int| 0 <= i < m.skip(1).len() implies (#[trigger] m.skip(1)[i]).0 != k by { assert(m.skip(1)[i] == m[i + 1]); } l_m_idx(m.skip(1), k); } }
proof fn l_vjf(f: Seq<SF>)
    requires keys_of(f).no_duplicates(), forall|i: int| 0 <= i < f.len() ==> vj((#[trigger] f[i]).1) == nrm(f[i].1)
    ensures vjf(f) == nrmf(f)
    decreases f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies keys_of(g)[i] != keys_of(g)[j] by { assert(keys_of(f)[i] == g[i].0); assert(keys_of(f)[j] == g[j].0); }
        assert forall|i: int| 0 <= i < g.len() implies vj((#[trigger] g[i]).1) == nrm(g[i].1) by { assert(g[i] == f[i]); }
        l_vjf(g);
        let m = nrmf(g); let k = f.last().0;
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 != k by { assert(keys_of(f)[i] == m[i].0); assert(keys_of(f)[f.len() - 1] == k); }
        l_m_idx(m, k);
        assert(f[f.len() - 1] == f.last());
        assert(m.push((k, vj(f.last().1))) =~= nrmf(f));
    } else { assert(vjf(f) =~= nrmf(f)); }
}
/// of a value with unique keys serde_json keeps everything, in order
pub proof fn l_vj(v: SV) requires uniq(v) ensures vj(v) == nrm(v) decreases v
{
    match v {
        SV::Prim(_) => {},
        SV::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies vj(#[trigger] a[i]) == nrm(a[i]) by { assert(uniq(a[i])); l_vj(a[i]); } assert(vjs(a) =~= nrms(a)); },
        SV::Obj(f) => { assert forall|i: int| 0 <= i < f.len() implies vj((#[trigger] f[i]).1) == nrm(f[i].1) by { assert(uniq(f[i].1)); l_vj(f[i].1); } l_vjf(f); },
    }
}
proof fn l_nrm_at(a: Seq<SV>, i: int) requires nrm(SV::Arr(a)) == SV::Arr(a), 0 <= i < a.len() ensures nrm(a[i]) == a[i] { assert(nrms(a)[i] == nrm(a[i])); }
proof fn l_nrm_mem(f: Seq<SF>, i: int) requires nrm(SV::Obj(f)) == SV::Obj(f), 0 <= i < f.len() ensures nrm(f[i].1) == f[i].1 { assert(nrmf(f)[i] == (f[i].0, nrm(f[i].1))); }
proof fn l_oget_nrm(f: Seq<SF>, k: Seq<char>) requires nrm(SV::Obj(f)) == SV::Obj(f), oget(f, k) is Some ensures nrm(oget(f, k)->0) == oget(f, k)->0
{ l_oget(f, k); let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == k && oget(f, k) == Some(f[i].1); l_nrm_mem(f, i); }
/// the value as it comes back is normal and has unique keys
pub proof fn l_canon(v: SV)
    requires uniq(v), nrm(v) == v
    ensures uniq(canon(v)), nrm(canon(v)) == canon(v)
    decreases v, 1int
{
    match v {
        SV::Prim(_) => {},
        SV::Arr(a) => {
            assert(forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i]));
            if !is_prims(a) && tabular(a) {
                let h = cols_of(a); let b = canon(v)->Arr_0;
                assert(uniq(a[0]));
                assert forall|i: int| 0 <= i < b.len() implies uniq(#[trigger] b[i]) && nrm(b[i]) == b[i] by {
                    assert(row_ok(a[i], h));
                    let f = a[i]->Obj_0; let g = b[i]->Obj_0;
                    l_nrm_at(a, i);
                    assert(keys_of(g) =~= h);
                    assert forall|j: int| 0 <= j < g.len() implies uniq((#[trigger] g[j]).1) && nrm(g[j].1) == g[j].1 by { assert(oget(f, h[j]) is Some && oget(f, h[j])->0 is Prim); l_oget_nrm(f, h[j]); }
                    assert(nrmf(g) =~= g);
                }
                assert(nrms(b) =~= b);
            } else { l_canons(a); }
        },
        SV::Obj(f) => {
            let g = canon(v)->Obj_0;
            assert(keys_of(g) =~= keys_of(f));
            assert forall|i: int| 0 <= i < g.len() implies uniq((#[trigger] g[i]).1) && nrm(g[i].1) == g[i].1 by { assert(uniq(f[i].1)); l_nrm_mem(f, i); l_canon(f[i].1); }
            assert(nrmf(g) =~= g);
        },
    }
}
proof fn l_canons(a: Seq<SV>)
    requires forall|i: int| 0 <= i < a.len() ==> uniq(#[trigger] a[i]), nrm(SV::Arr(a)) == SV::Arr(a)
    ensures uniq(SV::Arr(canon_is(a))), nrm(SV::Arr(canon_is(a))) == SV::Arr(canon_is(a))
    decreases a, 3int
{
    let b = canon_is(a);
    assert forall|i: int| 0 <= i < b.len() implies uniq(#[trigger] b[i]) && nrm(b[i]) == b[i] by {
        assert(uniq(a[i])); l_nrm_at(a, i); assert(b[i] == canon_i(a[i]));
        match a[i] { SV::Arr(c) => { assert(forall|i: int| 0 <= i < c.len() ==> uniq(#[trigger] c[i])); l_canons(c); }, _ => { l_canon(a[i]); } }
    }
    assert(nrms(b) =~= b);
}
/// C01 for the JSON-text entry points: the text json_to_toon gives for a JSON text is read by toon_to_json as the same value, and nothing of it is lost in serde_json's own objects
pub proof fn thm_json_entry(j: Seq<char>, d: Seq<char>)
    requires to_toon(j, None, d), uniq(json_read(j)->0), small(json_read(j)->0)
    ensures ({ let v = json_read(j)->0;
        &&& dec_text(d, 2, true, false) == Some(canon(nrm(v)))
        &&& vj(canon(nrm(v))) == canon(nrm(v))
        &&& same(nrm(v), canon(nrm(v))) })
{
    reveal(to_toon);
    let v = json_read(j)->0;
    thm_roundtrip(v, opt_eo(None), 2, true);
    thm_same(v);
    l_nrm(v); l_nrm_uniq(v); l_canon(nrm(v)); l_vj(canon(nrm(v)));
}
} // verus!
}
