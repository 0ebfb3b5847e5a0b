@file src/decode/decoders.rs mod decode::decoders
@use use crate::{sps, strs, ses, lemma_ses_push}; use crate::decode::scanner::{sls, bls, oks}; use crate::decode::parser::fvs;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::lemma_ses_push, crate::vspec_dec::gflat
@type DecoderContext #[derive(Clone, Copy)]
@fn is_key_value_line_sync
@ret r
@spec
    ensures r == is_kv_line(line.content@)
@at entry
    proof { let s = line.content@; bc_prefix1(s, '"'); bc_has_char(s, ':'); lemma_bpos0(s); lemma_key_first(s);
        if s.len() > 0 && s[0] == '"' { lemma_bpos_ends(s); lemma_at_next(s, 0); } }
@at before return content[
    proof { let s = line.content@; lemma_at_b(s, closing as int); lemma_at_next(s, cidx(s, closing as int)); bc_has_char(s.skip(cidx(s, closing + 1)), ':'); }
@fn yield_object_from_fields
@spec
    ensures ses(final(events)@) == ses(old(events)@) + flat(DV::Obj(row_fields(fvs(fields@), sps(primitives@))))
@at entry

    let ghost e0 = ses(events@).push(SE::StartObject); let ghost rf = row_fields(fvs(fields@), sps(primitives@));
    proof { assert(rf.take(0) =~= Seq::empty()); }
@loop 0
    invariant ses(events@) == e0 + flatf(rf.take(idx as int)), rf == row_fields(fvs(fields@), sps(primitives@))
@at loop_start 0
    proof { assert(rf.take(idx + 1) =~= rf.take(idx as int).push(rf[idx as int])); assert(e0 + flatf(rf.take(idx as int).push(rf[idx as int])) == e0 + flatf(rf.take(idx as int)) + flatk(rf[idx as int])); }
@at after_loop 0
    proof { assert(rf.take(rf.len() as int) =~= rf); }
@fn decode_inline_primitive_array_sync
@ret r
@spec
    requires delim_ok(header.delimiter)
    ensures match r { Err(_) => d_inline(options.strict, header.length as nat, header.delimiter, inline_values@) is None,
        Ok(_) => match d_inline(options.strict, header.length as nat, header.delimiter, inline_values@) { Some(DV::Arr(n, a)) => n == header.length && ses(final(events)@) == ses(old(events)@) + flats(a), _ => false } }
@at entry

    let ghost e0 = ses(events@);
@at before_loop 0
    let ghost pi = prim_items(sps(primitives@)); let ghost pv = primitives@;
    proof { assert(pi.take(0) =~= Seq::empty()); }
@loop 0
    invariant it0.seq() == pv, pi == prim_items(sps(pv)), ses(events@) == e0 + flats(pi.take(it0.index() as int))
@at loop_start 0
    proof { let i = it0.index() as int; assert(pi.take(i + 1) =~= pi.take(i).push(pi[i])); assert(e0 + flats(pi.take(i).push(pi[i])) == e0 + flats(pi.take(i)) + flat(pi[i])); }
@at after_loop 0
    proof { assert(pi.take(pi.len() as int) =~= pi); }
@fn decode_tabular_array_sync
@ret r
@spec
    requires header.fields is Some, delim_ok(header.delimiter), old(cursor).wf(), base_depth <= isize::MAX + 1
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_tab(old(cursor).dc(options.strict), old(cursor).index as int, header.length as nat, fvs(header.fields->0@), header.delimiter, base_depth as int) is None,
        Ok(_) => match d_tab(old(cursor).dc(options.strict), old(cursor).index as int, header.length as nat, fvs(header.fields->0@), header.delimiter, base_depth as int) {
          Some((DV::Arr(n, a), q)) => n == header.length && q == final(cursor).index && ses(final(events)@) == ses(old(events)@) + flats(a), _ => false } }
@at entry

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
    let ghost f = fvs(header.fields->0@); let ghost n = header.length as nat; let ghost d = base_depth + 1; let ghost mut acc: Seq<DV> = Seq::empty();
@loop 0
    invariant cursor.wf(), cursor.same(&c0), cursor.index >= p0, p0 == c0.index, x == c0.dc(options.strict), c0 == *old(cursor), e0 == ses(old(events)@), row_count == acc.len(), n == header.length, d == row_depth, d == base_depth + 1, f == fvs(header.fields->0@), header.fields is Some, delim_ok(header.delimiter),
      ses(events@) == e0 + flats(acc), d_rows(x, Seq::empty(), p0, n, f, header.delimiter, d) == d_rows(x, acc, cursor.index as int, n, f, header.delimiter, d),
      start_line is Some <==> cursor.index > p0, end_line is Some <==> cursor.index > p0, cursor.index > p0 ==> start_line->0 == x.l[p0].n && end_line->0 == x.l[cursor.index - 1].n
    ensures d_rows(x, Seq::empty(), p0, n, f, header.delimiter, d) == Some((acc, cursor.index as int))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 0
    let ghost pi = cursor.index as int;
@at loop_end 0
    proof { let r = d_row(x.strict, f, header.delimiter, x.l[pi].c)->0; assert(e0 + flats(acc.push(r)) == e0 + flats(acc) + flat(r)); acc = acc.push(r); }
@fn decode_list_array_sync
@ret r
@spec
    requires old(cursor).wf(), base_depth <= isize::MAX + 1
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_list(old(cursor).dc(options.strict), old(cursor).index as int, header.length as nat, base_depth as int) is None,
        Ok(_) => match d_list(old(cursor).dc(options.strict), old(cursor).index as int, header.length as nat, base_depth as int) {
          Some((DV::Arr(n, a), q)) => n == header.length && q == final(cursor).index && ses(final(events)@) == ses(old(events)@) + flats(a), _ => false } }
    decreases old(cursor).lines@.len() - old(cursor).index, 3int
@at entry

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
    let ghost n = header.length as nat; let ghost d = base_depth + 1; let ghost mut acc: Seq<DV> = Seq::empty();
@loop 0
    invariant cursor.wf(), cursor.same(&c0), cursor.index >= p0, p0 == c0.index, x == c0.dc(options.strict), c0 == *old(cursor), e0 == ses(old(events)@), base_depth <= isize::MAX + 1, item_count == acc.len(), n == header.length, d == item_depth, d == base_depth + 1,
      ses(events@) == e0 + flats(acc), d_items(x, Seq::empty(), p0, n, d) == d_items(x, acc, cursor.index as int, n, d),
      start_line is Some <==> cursor.index > p0, end_line is Some <==> cursor.index > p0, cursor.index > p0 ==> start_line->0 == x.l[p0].n && end_line->0 == x.l[cursor.index - 1].n
    ensures d_items(x, Seq::empty(), p0, n, d) == Some((acc, cursor.index as int))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 0
    let ghost pi = cursor.index as int;
@at loop_end 0
    proof { let r = (d_item(x, pi, d)->0).0; assert(e0 + flats(acc.push(r)) == e0 + flats(acc) + flat(r)); acc = acc.push(r); }
@fn decode_array_from_header_sync
@ret r
@spec
    requires delim_ok(header_info.header.delimiter), old(cursor).wf(), base_depth <= isize::MAX + 1
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_arr(old(cursor).dc(options.strict), old(cursor).index as int, header_info.hv(), base_depth as int) is None,
        Ok(_) => match d_arr(old(cursor).dc(options.strict), old(cursor).index as int, header_info.hv(), base_depth as int) {
          Some((v, q)) => q == final(cursor).index && ses(final(events)@) == ses(old(events)@) + flat(v), None => false } }
    decreases old(cursor).lines@.len() - old(cursor).index, 4int
@at entry

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
@fn decode_list_item_sync
@attr #[verifier::rlimit(100)]
@ret r
@spec
    requires old(cursor).wf(), base_depth <= isize::MAX
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_item(old(cursor).dc(options.strict), old(cursor).index as int, base_depth as int) is None,
        Ok(_) => match d_item(old(cursor).dc(options.strict), old(cursor).index as int, base_depth as int) {
          Some((v, q)) => q == final(cursor).index && q > old(cursor).index && ses(final(events)@) == ses(old(events)@) + flat(v), None => false } }
    decreases old(cursor).lines@.len() - old(cursor).index, 1int
@at entry
    hide(hdr); hide(p_key); hide(p_prim); hide(split_vals); hide(scan);

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
    let ghost d = base_depth as int;
    proof { if p0 < x.l.len() { lemma_item_prefix(x.l[p0].c); lemma_hdr_yes(x.l[p0].c.skip(2)); } }
@at before_loop 0
    let ghost h = hdr(after_hyphen@, ',')->Yes_0; let ghost mut acc = seq![(h.key->0, h.kq, (d_arr(x, p0 + 1, h, d + 1)->0).0)];
@loop 0
    invariant cursor.wf(), cursor.same(&c0), cursor.index >= p0, p0 == c0.index, x == c0.dc(options.strict), c0 == *old(cursor), e0 == ses(old(events)@), base_depth <= isize::MAX, d == base_depth as int, follow_depth == base_depth + 1, cursor.index > p0,
      ses(events@) == e0.push(SE::StartObject) + flatf(acc), d_item(x, p0, d) == d_follow(x, acc, cursor.index as int, d + 1)
    ensures d_item(x, p0, d) == Some((DV::Obj(acc), cursor.index as int))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 0
    let ghost pi = cursor.index as int;
@at loop_end 0
    proof { let f = (d_kv(x, pi + 1, x.l[pi].c, d + 1)->0).0; assert(e0.push(SE::StartObject) + flatf(acc.push(f)) == e0.push(SE::StartObject) + flatf(acc) + flatk(f)); acc = acc.push(f); }
@at before_loop 1
    let ghost mut acc = seq![(d_kv(x, p0 + 1, after_hyphen@, d + 1)->0).0];
@loop 1
    invariant cursor.wf(), cursor.same(&c0), cursor.index >= p0, p0 == c0.index, x == c0.dc(options.strict), c0 == *old(cursor), e0 == ses(old(events)@), base_depth <= isize::MAX, d == base_depth as int, follow_depth == base_depth + 1, cursor.index > p0,
      ses(events@) == e0.push(SE::StartObject) + flatf(acc), d_item(x, p0, d) == d_follow(x, acc, cursor.index as int, d + 1)
    ensures d_item(x, p0, d) == Some((DV::Obj(acc), cursor.index as int))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 1
    let ghost pi = cursor.index as int;
@at loop_end 1
    proof { let f = (d_kv(x, pi + 1, x.l[pi].c, d + 1)->0).0; assert(e0.push(SE::StartObject) + flatf(acc.push(f)) == e0.push(SE::StartObject) + flatf(acc) + flatk(f)); acc = acc.push(f); }
@fn decode_key_value_sync
@ret r
@spec
    requires old(cursor).wf(), base_depth <= isize::MAX + 1
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_kv(old(cursor).dc(options.strict), old(cursor).index as int, content@, base_depth as int) is None,
        Ok(_) => match d_kv(old(cursor).dc(options.strict), old(cursor).index as int, content@, base_depth as int) {
          Some((f, q)) => q == final(cursor).index && ses(final(events)@) == ses(old(events)@) + flatk(f), None => false } }
    decreases old(cursor).lines@.len() - old(cursor).index, 6int
@at entry

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
    proof { lemma_hdr_yes(content@); }
@fn decode_object_fields_sync
@ret r
@spec
    requires old(cursor).wf(), base_depth <= isize::MAX + 2
    ensures final(cursor).wf(), final(cursor).same(old(cursor)), final(cursor).index >= old(cursor).index,
      match r { Err(_) => d_fields(old(cursor).dc(options.strict), Seq::empty(), old(cursor).index as int, base_depth as int, None) is None,
        Ok(_) => match d_fields(old(cursor).dc(options.strict), Seq::empty(), old(cursor).index as int, base_depth as int, None) {
          Some((DV::Obj(f), q)) => q == final(cursor).index && ses(final(events)@) == ses(old(events)@) + flatf(f), _ => false } }
    decreases old(cursor).lines@.len() - old(cursor).index, 3int
@at entry

    let ghost c0 = *cursor; let ghost x = cursor.dc(options.strict); let ghost p0 = cursor.index as int; let ghost e0 = ses(events@);
    let ghost mut acc: Seq<DF> = Seq::empty();
@loop 0
    invariant cursor.wf(), cursor.same(&c0), cursor.index >= p0, p0 == c0.index, x == c0.dc(options.strict), c0 == *old(cursor), e0 == ses(old(events)@), base_depth <= isize::MAX + 2,
      ses(events@) == e0 + flatf(acc), d_fields(x, Seq::empty(), p0, base_depth as int, None) == d_fields(x, acc, cursor.index as int, base_depth as int, match computed_depth { Some(d) => Some(d as int), None => None })
    ensures d_fields(x, Seq::empty(), p0, base_depth as int, None) == Some((DV::Obj(acc), cursor.index as int))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 0
    let ghost pi = cursor.index as int;
@at loop_end 0
    proof { let f = (d_kv(x, pi + 1, x.l[pi].c, x.l[pi].depth)->0).0; assert(e0 + flatf(acc.push(f)) == e0 + flatf(acc) + flatk(f)); acc = acc.push(f); }
@fn decode_stream_sync
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(source@), w, st) is None, Ok(ev) => d_doc(strs(source@), w, st) is Some && ses(ev@) == flat(d_doc(strs(source@), w, st)->0) } })
@at entry
    hide(hdr); hide(p_key); hide(p_prim); hide(split_vals); hide(scan);

    let ghost src = source@;
    proof { assert(ses(Seq::<JsonStreamEvent>::empty()) =~= Seq::empty()); assert forall|a: Seq<SE>| #[trigger] (Seq::<SE>::empty() + a) =~= a by {} }
@at before let mut events
    let ghost x = cursor.dc(context.strict); let ghost c0 = cursor;
    proof { if x.l.len() > 0 { lemma_hdr_yes(x.l[0].c); } }
@at before_loop 0
    let ghost mut acc = seq![(d_kv(x, 1, x.l[0].c, 0)->0).0]; let ghost e0 = Seq::<SE>::empty();
@loop 0
    invariant cursor.wf(), cursor.same(&c0), cursor.index > 0, x == c0.dc(context.strict),
      ses(events@) == e0.push(SE::StartObject) + flatf(acc), d_root(x) == d_top(x, acc, cursor.index as int)
    ensures d_root(x) == Some(DV::Obj(acc))
    decreases cursor.lines@.len() - cursor.index
@at loop_start 0
    let ghost pi = cursor.index as int;
@at loop_end 0
    proof { let f = (d_kv(x, pi + 1, x.l[pi].c, 0)->0).0; assert(e0.push(SE::StartObject) + flatf(acc.push(f)) == e0.push(SE::StartObject) + flatf(acc) + flatk(f)); acc = acc.push(f); }