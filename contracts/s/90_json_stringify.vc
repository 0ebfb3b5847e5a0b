@file src/cli/json_stringify.rs mod cli::json_stringify
@use use crate::{ses, strs, svs, sos, serde_json}; use crate::vspec_json::*; use crate::vspec_enc::{sp, SF, ht, hts, htf, l_hts, l_htf}; use crate::vstubs::*;
/// a value held in memory takes less than 2^47 bytes (the user half of the address space)
pub axiom fn ax_size(v: &JsonValue) ensures msz(v.sv()) <= 0x8000_0000_0000;
/// each item costs at most (indent + 64) per unit of size
pub open spec fn wsz(a: Seq<SV>, k: nat) -> Seq<nat> { Seq::new(a.len(), |i: int| msz(a[i]) * k) }
pub open spec fn wszf(f: Seq<SF>, k: nat) -> Seq<nat> { Seq::new(f.len(), |i: int| (msz(f[i].1) + blen(f[i].0) as nat) * k + 4) }
pub proof fn l_wsz(a: Seq<SV>, k: nat) ensures nsum(wsz(a, k)) + a.len() * k == mszs(a) * k decreases a.len()
{ if a.len() > 0 { l_wsz(a.drop_last(), k); assert(wsz(a, k).drop_last() =~= wsz(a.drop_last(), k)); 
  assert((a.len() - 1) * k + k == a.len() * k) by(nonlinear_arith); assert((mszs(a.drop_last()) + msz(a.last()) + 1) * k == mszs(a.drop_last()) * k + msz(a.last()) * k + k) by(nonlinear_arith); } else { assert(0 * k == 0) by(nonlinear_arith); } }
pub proof fn l_wszf(a: Seq<SF>, k: nat) ensures nsum(wszf(a, k)) + a.len() * k == mszf(a) * k + 4 * a.len() decreases a.len()
{ if a.len() > 0 { l_wszf(a.drop_last(), k); assert(wszf(a, k).drop_last() =~= wszf(a.drop_last(), k)); 
  let m = msz(a.last().1) + blen(a.last().0) as nat;
  assert((a.len() - 1) * k + k == a.len() * k) by(nonlinear_arith); assert((mszf(a.drop_last()) + m + 1) * k == mszf(a.drop_last()) * k + m * k + k) by(nonlinear_arith); } else { assert(0 * k == 0) by(nonlinear_arith); } }
pub proof fn l_ht_msz(v: SV) ensures ht(v) <= msz(v) decreases v { match v { SV::Arr(a) => l_hts_msz(a), SV::Obj(f) => l_htf_msz(f), _ => {} } }
pub proof fn l_hts_msz(a: Seq<SV>) ensures hts(a) <= mszs(a) decreases a { if a.len() > 0 { l_hts_msz(a.drop_last()); l_ht_msz(a.last()); } }
pub proof fn l_htf_msz(f: Seq<SF>) ensures htf(f) <= mszf(f) decreases f { if f.len() > 0 { l_htf_msz(f.drop_last()); l_ht_msz(f.last().1); } }
/// the size an array may be estimated at
pub proof fn l_est_arr(a: Seq<SV>, w: usize) requires w <= 0xffff, 1 + mszs(a) <= 0x8000_0000_0000
    ensures ({ let k = (w + 64) as nat; let t = nsum(wsz(a, k)); &&& wsz(a, k).len() == a.len() &&& t <= 0x9000_0000_0000_0000 &&& t + a.len() * (2 + w) + 4 <= (1 + mszs(a)) * k &&& (1 + mszs(a)) * k <= 0x9000_0000_0000_0000 &&& a.len() * (2 + w) >= 0 })
{
    let k = (w + 64) as nat; let m = 1 + mszs(a); l_wsz(a, k); let n = a.len();
    assert(m * k <= 0x8000_0000_0000 * 0x1_0040) by(nonlinear_arith) requires m <= 0x8000_0000_0000, 0 <= k <= 0x1_003f;
    assert(m * k == mszs(a) * k + k) by(nonlinear_arith) requires m == 1 + mszs(a);
    assert(0 <= n * (2 + w) <= n * k) by(nonlinear_arith) requires k == w + 64, n >= 0, w >= 0;
}
pub proof fn l_est_obj(a: Seq<SF>, w: usize) requires w <= 0xffff, 1 + mszf(a) <= 0x8000_0000_0000
    ensures ({ let k = (w + 64) as nat; let t = nsum(wszf(a, k)); &&& wszf(a, k).len() == a.len() &&& t <= 0x9000_0000_0000_0000 &&& t + a.len() * (2 + w) + 4 <= (1 + mszf(a)) * k &&& (1 + mszf(a)) * k <= 0x9000_0000_0000_0000 &&& a.len() * (2 + w) >= 0 })
{
    let k = (w + 64) as nat; let m = 1 + mszf(a); l_wszf(a, k); let n = a.len();
    assert(m * k <= 0x8000_0000_0000 * 0x1_0040) by(nonlinear_arith) requires m <= 0x8000_0000_0000, 0 <= k <= 0x1_003f;
    assert(m * k == mszf(a) * k + k) by(nonlinear_arith) requires m == 1 + mszf(a);
    assert(0 <= n * (2 + w) && n * (2 + w) + 4 * n <= n * k) by(nonlinear_arith) requires k == w + 64, n >= 0, w >= 0;
}
/// a member: its key, four characters, its value
pub proof fn l_est_mem(m: nat, b: int, w: usize) requires w <= 0xffff, m + b <= 0x8000_0000_0000, b >= 0 
    ensures 0 <= m * (w + 64), b + 4 + m * (w + 64) <= (m + b) * (w + 64) + 4, (m + b) * (w + 64) <= 0x9000_0000_0000_0000
{ let k = w + 64; assert((m + b) * k == m * k + b * k && b * k >= b && m * k >= 0) by(nonlinear_arith) requires k >= 1, b >= 0, m >= 0; 
  let z = m + b; assert(z * k <= 0x8000_0000_0000 * 0x1_0040) by(nonlinear_arith) requires 0 <= z <= 0x8000_0000_0000, 0 <= k <= 0x1_003f; }
/// a primitive
pub proof fn l_est_str(b: int, w: usize) requires b >= 0 ensures b + 10 <= (1 + b) * (w + 64), 20 <= 1 * (w + 64) { let k = w + 64; assert(b + 10 <= (1 + b) * k) by(nonlinear_arith) requires k >= 64, b >= 0; }
@fn json_stringify_lines
@ret r
@spec
    requires indent <= 0xffff
    ensures strs(r@) == seq![jw_val(value.sv(), 0, indent as nat, true)]
@at entry
    proof { ax_size(value); l_ht_msz(value.sv()); assert(Seq::<char>::empty() + jw_val(value.sv(), 0, indent as nat, true) =~= jw_val(value.sv(), 0, indent as nat, true)); }
@tail
    proof { assert(strs(vres_@) =~= seq![jw_val(value.sv(), 0, indent as nat, true)]); }
@fn estimate_json_size
@ret r
@spec
    requires indent <= 0xffff, msz(value.sv()) <= 0x8000_0000_0000
    ensures r <= msz(value.sv()) * (indent + 64)
    decreases ht(value.sv())
@closure sum:0
    |$1: &JsonValue| -> (q: usize) requires msz($1.sv()) <= 0x8000_0000_0000, ht($1.sv()) < ht(value.sv()), indent <= 0xffff ensures q <= msz($1.sv()) * ((indent + 64) as nat)
@closure sum:1
    |v_p: &(String, JsonValue)| -> (q: usize) requires msz(v_p.1.sv()) + blen(v_p.0@) <= 0x8000_0000_0000, ht(v_p.1.sv()) < ht(value.sv()), indent <= 0xffff ensures q <= (msz(v_p.1.sv()) + blen(v_p.0@) as nat) * ((indent + 64) as nat) + 4 ;; let $1 = v_p; proof { l_est_mem(msz(v_p.1.sv()), blen(v_p.0@), indent); }
@at entry
    proof {
        let k = (indent + 64) as nat; 
        match value { JsonValue::Array(a) => { l_est_arr(svs(a@), indent);
            assert forall|i: int| 0 <= i < a@.len() implies svs(a@)[i] == (#[trigger] a@[i]).sv() && msz(a@[i].sv()) <= 0x8000_0000_0000 && ht(a@[i].sv()) < ht(value.sv()) by { l_mszs(svs(a@), i); l_hts(svs(a@), i); }
            assert(nsum(wsz(svs(a@), k)) <= usize::MAX); },
          JsonValue::Object(o) => { l_est_obj(sos(o@), indent);
            assert forall|i: int| 0 <= i < o@.len() implies sos(o@)[i] == ((#[trigger] o@[i]).0@, o@[i].1.sv()) && msz(o@[i].1.sv()) + blen(o@[i].0@) <= 0x8000_0000_0000 && ht(o@[i].1.sv()) < ht(value.sv()) by { l_mszf(sos(o@), i); l_htf(sos(o@), i); }
            assert(nsum(wszf(sos(o@), k)) <= usize::MAX); },
          JsonValue::Primitive(p) => { l_est_str(0, indent); if let crate::StringOrNumberOrBoolOrNull::String(s) = p { l_est_str(blen(s@), indent); } } }
    }
@fn stringify_value_to_buf
@spec
    requires indent <= 0xffff, depth + ht(value.sv()) <= 0x8000_0000_0000
    ensures final(buf)@ == old(buf)@ + jw_val(value.sv(), depth as int, indent as nat, true)
    decreases ht(value.sv()), 1int
@fn stringify_array_to_buf
@attr #[verifier::rlimit(60)]
@spec
    requires indent <= 0xffff, depth + 1 + hts(svs(values@)) <= 0x8000_0000_0000
    ensures final(buf)@ == old(buf)@ + jw_val(SV::Arr(svs(values@)), depth as int, indent as nat, true)
    decreases 1 + hts(svs(values@)), 0int
@at entry
    let ghost b0 = buf@; let ghost A = svs(values@); let ghost w = indent as nat;
    proof { reveal_strlit("[]"); reveal_strlit("{}"); reveal_strlit(": "); assert(w_close(false, depth as int, w, ']') =~= seq![']']); if A.len() == 0 { assert(b0 + "[]"@ =~= b0 + jw_val(SV::Arr(A), depth as int, w, true)); } }
@at before_loop 0
    proof { assert(A.take(0) =~= Seq::empty()); assert(buf@ =~= b0 + seq!['['] + jw_items(A.take(0), depth + 1, w, true) + w_comma(false)); }
@loop 0
    invariant indent <= 0xffff, indent > 0, w == indent as nat, depth + 1 + hts(A) <= 0x8000_0000_0000, A == svs(values@), A.len() == values@.len(),
        buf@ == b0 + seq!['['] + jw_items(A.take(idx as int), depth + 1, w, true) + w_comma(0 < idx < A.len())
@at loop_start 0
    let ghost b1 = buf@; let ghost i = idx as int;
    proof { l_hts(A, i); assert(A.take(i + 1).drop_last() =~= A.take(i)); assert(A.take(i + 1).last() == A[i]); assert((depth + 1) * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff; assert(A[i] == value.sv()); }
@at loop_end 0
    proof { assert(buf@ =~= b0 + seq!['['] + jw_items(A.take(i + 1), depth + 1, w, true) + w_comma(i + 1 < A.len())); }
@at after_loop 0
    proof { assert(A.take(A.len() as int) =~= A); assert(w_comma(false) =~= Seq::empty()); assert(depth * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff;  }
@at before_loop 1
    proof { assert(A.take(0) =~= Seq::empty()); assert(buf@ =~= b0 + seq!['['] + jw_items(A.take(0), depth + 1, w, true) + w_comma(false)); }
@loop 1
    invariant indent <= 0xffff, indent == 0, w == indent as nat, depth + 1 + hts(A) <= 0x8000_0000_0000, A == svs(values@), A.len() == values@.len(),
        buf@ == b0 + seq!['['] + jw_items(A.take(idx as int), depth + 1, w, true) + w_comma(0 < idx < A.len())
@at loop_start 1
    let ghost b1 = buf@; let ghost i = idx as int;
    proof { l_hts(A, i); assert(A.take(i + 1).drop_last() =~= A.take(i)); assert(A.take(i + 1).last() == A[i]); assert((depth + 1) * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff; assert(A[i] == value.sv()); }
@at loop_end 1
    proof { assert(buf@ =~= b0 + seq!['['] + jw_items(A.take(i + 1), depth + 1, w, true) + w_comma(i + 1 < A.len())); }
@at after_loop 1
    proof { assert(A.take(A.len() as int) =~= A); assert(w_comma(false) =~= Seq::empty()); assert(depth * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff;  }
@at end
    proof { if A.len() > 0 { assert(buf@ =~= b0 + jw_val(SV::Arr(A), depth as int, w, true)); } }
@fn stringify_object_to_buf
@attr #[verifier::rlimit(100)]
@spec
    requires indent <= 0xffff, depth + 1 + htf(sos(entries@)) <= 0x8000_0000_0000
    ensures final(buf)@ == old(buf)@ + jw_val(SV::Obj(sos(entries@)), depth as int, indent as nat, true)
    decreases 1 + htf(sos(entries@)), 0int
@at entry
    let ghost b0 = buf@; let ghost A = sos(entries@); let ghost w = indent as nat;
    proof { reveal_strlit("[]"); reveal_strlit("{}"); reveal_strlit(": "); assert(w_close(false, depth as int, w, '}') =~= seq!['}']); if A.len() == 0 { assert(b0 + "{}"@ =~= b0 + jw_val(SV::Obj(A), depth as int, w, true)); } }
@at before_loop 0
    proof { assert(A.take(0) =~= Seq::empty()); assert(buf@ =~= b0 + seq!['{'] + jw_members(A.take(0), depth + 1, w, true) + w_comma(false)); }
@loop 0
    invariant indent <= 0xffff, indent > 0, w == indent as nat, depth + 1 + htf(A) <= 0x8000_0000_0000, A == sos(entries@), A.len() == entries@.len(),
        buf@ == b0 + seq!['{'] + jw_members(A.take(idx as int), depth + 1, w, true) + w_comma(0 < idx < A.len())
@at loop_start 0
    let ghost b1 = buf@; let ghost i = idx as int;
    proof { reveal_strlit(": "); l_htf(A, i); assert(A.take(i + 1).drop_last() =~= A.take(i)); assert(A.take(i + 1).last() == A[i]); assert((depth + 1) * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff; assert(A[i] == (key@, value.sv())); }
@at loop_end 0
    proof { assert(buf@ =~= b0 + seq!['{'] + jw_members(A.take(i + 1), depth + 1, w, true) + w_comma(i + 1 < A.len())); }
@at after_loop 0
    proof { assert(A.take(A.len() as int) =~= A); assert(w_comma(false) =~= Seq::empty()); assert(depth * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff;  }
@at before_loop 1
    proof { assert(A.take(0) =~= Seq::empty()); assert(buf@ =~= b0 + seq!['{'] + jw_members(A.take(0), depth + 1, w, true) + w_comma(false)); }
@loop 1
    invariant indent <= 0xffff, indent == 0, w == indent as nat, depth + 1 + htf(A) <= 0x8000_0000_0000, A == sos(entries@), A.len() == entries@.len(),
        buf@ == b0 + seq!['{'] + jw_members(A.take(idx as int), depth + 1, w, true) + w_comma(0 < idx < A.len())
@at loop_start 1
    let ghost b1 = buf@; let ghost i = idx as int;
    proof { reveal_strlit(": "); l_htf(A, i); assert(A.take(i + 1).drop_last() =~= A.take(i)); assert(A.take(i + 1).last() == A[i]); assert((depth + 1) * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff; assert(A[i] == (key@, value.sv())); }
@at loop_end 1
    proof { assert(buf@ =~= b0 + seq!['{'] + jw_members(A.take(i + 1), depth + 1, w, true) + w_comma(i + 1 < A.len())); }
@at after_loop 1
    proof { assert(A.take(A.len() as int) =~= A); assert(w_comma(false) =~= Seq::empty()); assert(depth * indent <= 0x8000_0000_0001 * 0xffff) by(nonlinear_arith) requires 0 <= depth <= 0x8000_0000_0000, 0 <= indent <= 0xffff;  }
@at end
    proof { if A.len() > 0 { assert(buf@ =~= b0 + jw_val(SV::Obj(A), depth as int, w, true)); } }
@fn stringify_primitive_to_buf
@spec
    ensures final(buf)@ == old(buf)@ + w_prim(value.sp(), true)
@fn push_indent
@spec
    ensures final(buf)@ == old(buf)@ + sp(count as int)
@at entry
    let ghost b0 = buf@;
    proof { assert(b0 + sp(0) =~= b0); }
@loop 0
    invariant buf@ == b0 + sp(it0.index())
@at loop_start 0
    proof { assert(sp(it0.index() + 1) =~= sp(it0.index() as int).push(' ')); }
@at loop_end 0
    proof { assert(buf@ =~= b0 + sp(it0.index() + 1)); }
@fn push_json_string
@spec
    ensures final(buf)@ == old(buf)@ + w_str(s@, true)
@at entry
    let ghost b0 = buf@;
    proof { reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\u"); assert(b0.push('"') =~= b0 + seq!['"'] + t_chars(s@.take(0))); }
@loop 0
    invariant it0.seq() == s@, buf@ == b0 + seq!['"'] + t_chars(s@.take(it0.index() as int)),
@at loop_start 0
    let ghost i = it0.index() as int;
    proof { reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\u"); assert(s@.take(i + 1).drop_last() =~= s@.take(i)); assert(s@.take(i + 1).last() == s@[i]); }
@at loop_end 0
    proof { assert(buf@ =~= b0 + seq!['"'] + (t_chars(s@.take(i)) + t_char(s@[i]))); }
@at after_loop 0
    proof { assert(s@.take(s@.len() as int) =~= s@); }
@at end
    proof { assert(buf@ =~= b0 + w_str(s@, true)); }
