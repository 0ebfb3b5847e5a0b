@file src/encode/primitives.rs mod encode::primitives
@dropuse std::fmt
@use use crate::{sps, strs, ax_prims_len};
@fn encode_primitive
@ret r
@spec
    ensures r@ == enc_prim(value.sp(), delimiter)
@fn encode_string_literal
@ret r
@spec
    ensures r@ == enc_str(value@, delimiter)
@at entry
    proof { lemma_opre(Seq::<char>::empty()); assert(forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) =~= a); }
@fn encode_key
@ret r
@spec
    ensures r@ == enc_key(key@)
@fn encode_and_join_primitives
@ret r
@spec
    ensures r@ == join_prims(sps(values@), delimiter)
@at entry
    proof { ax_prims_len(values); assert(sps(values@).take(0) =~= Seq::empty()); }
@loop 0
    invariant out@ == join_prims(sps(values@).take(idx as int), delimiter)
@at loop_start 0
    proof { lemma_join_prims_step(sps(values@), idx as int, delimiter); }
@at after_loop 0
    proof { assert(sps(values@).take(values@.len() as int) =~= sps(values@)); }
@fn format_header
@ret r
@spec
    ensures r@ == fmt_header(length as nat, match key { Some(k) => Some(k@), None => None }, match fields { Some(f) => Some(strs(f@)), None => None }, delimiter)
@at entry
    hide(enc_key); hide(show_nat);
    let ghost kp: Seq<char> = match key { Some(k) => enc_key(k@), None => Seq::empty() };
    let ghost fp: Seq<char> = match fields { Some(f) => seq!['{'] + join(enc_keys(strs(f@)), delimiter) + seq!['}'], None => Seq::empty() };
@at before if delimiter
    proof { assert(header@ =~= kp); }
@at before if let Some(fields)
    proof { assert(header@ =~= kp + fmt_len(length as nat, delimiter)); }
    let ghost h1 = header@;
@at before for
    let ghost hpre = header@;
    let ghost fk = enc_keys(strs(fields@));
    proof { assert(fk.take(0) =~= Seq::empty()); assert(hpre + Seq::<char>::empty() =~= hpre); assert(hpre =~= h1 + seq!['{']); }
@loop 0
    invariant header@ == hpre + join(fk.take(idx as int), delimiter), fk == enc_keys(strs(fields@)),
@at loop_start 0
    proof { lemma_join_step(fk, idx as int, delimiter); }
    let ghost hh = header@;
@at loop_end 0
    proof { if idx == 0 { assert(header@ =~= hpre + fk[0]); } else { assert(header@ =~= hpre + (join(fk.take(idx as int), delimiter) + seq![delimiter] + fk[idx as int])); } }
@at after_loop 0
    proof { assert(fk.take(fields@.len() as int) =~= fk); assert(header@ =~= hpre + join(fk, delimiter)); }
    let ghost h2 = header@;
@at before header.push(':')
    proof { assert(header@ =~= h1 + fp); }
@at end
    proof { assert(header@ =~= h1 + fp + seq![':']); }
@fn format_number
@ret r
@spec
    ensures r@ == fmt_num(value)
