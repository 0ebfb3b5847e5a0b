@file src/shared/constants.rs mod shared::constants

@file src/shared/literal_utils.rs mod shared::literal_utils
@fn is_boolean_or_null_literal
@ret r
@spec
    ensures r == bool_null_lit(value@)
@fn is_numeric_like
@ret r
@spec
    ensures r == num_like(enc(trim(value@)))
@at entry
    let ghost g = enc(trim(value@));
    proof { lemma_enc_nonempty(trim(value@)); lemma_dend(g, neg_off(g)); lemma_frac_exp(g, dend(g, neg_off(g))); }
@loop 0
    invariant bytes@ == g, g.len() > 0, neg_off(g) <= i <= bytes.len(), digit_start == neg_off(g), digit_count == i - neg_off(g), dend(g, i as int) == dend(g, neg_off(g)),
    decreases bytes.len() - i
@loop 1
    invariant bytes@ == g, 0 <= dend(g, neg_off(g)) < i <= bytes.len(), frac_digits == i - (dend(g, neg_off(g)) + 1), dend(g, i as int) == dend(g, dend(g, neg_off(g)) + 1),
    decreases bytes.len() - i
@loop 2
    invariant bytes@ == g, 0 <= exp_start(g, frac_end(g, dend(g, neg_off(g)))->0) <= i <= bytes.len(), frac_end(g, dend(g, neg_off(g))) is Some,
      exp_digits == i - exp_start(g, frac_end(g, dend(g, neg_off(g)))->0), dend(g, i as int) == dend(g, exp_start(g, frac_end(g, dend(g, neg_off(g)))->0)),
    decreases bytes.len() - i
@fn is_numeric_literal
@ret r
@spec
    ensures r == num_lit(value@)
@at entry
    let ghost g = enc(trim(value@));
    let ghost d1: int = if g.len() > neg_off(g) && g[neg_off(g)] == 48 { neg_off(g) + 1 } else { dend(g, neg_off(g)) };
    proof { lemma_enc_nonempty(trim(value@)); lemma_dend(g, neg_off(g)); lemma_frac_exp(g, d1); }
@loop 0
    invariant bytes@ == g, g.len() > 0, neg_off(g) <= i <= bytes.len(), dend(g, i as int) == dend(g, neg_off(g)),
    decreases bytes.len() - i
@loop 1
    invariant bytes@ == g, 0 <= d1 < i <= bytes.len(), frac_digits == i - (d1 + 1), dend(g, i as int) == dend(g, d1 + 1),
    decreases bytes.len() - i
@loop 2
    invariant bytes@ == g, 0 <= exp_start(g, frac_end(g, d1)->0) <= i <= bytes.len(), frac_end(g, d1) is Some,
      exp_digits == i - exp_start(g, frac_end(g, d1)->0), dend(g, i as int) == dend(g, exp_start(g, frac_end(g, d1)->0)),
    decreases bytes.len() - i

@file src/shared/string_utils.rs mod shared::string_utils
@fn escape_string
@ret r
@spec
    ensures r@ == esc(value@)
@at entry
@loop 0
    invariant it0.seq() == value@, out@ == esc(value@.take(it0.index())),
@at loop_start 0
    proof { lemma_esc_step(value@, it0.index()); }
@at after_loop 0
    proof { assert(value@.take(value@.len() as int) =~= value@); }
@fn unescape_string
@ret r
@spec
    ensures match r { Ok(s) => unesc(value@) == Some(s@), Err(_) => unesc(value@) is None }
@at entry
@loop 0
    invariant chars.obeys_prophetic_iter_laws(), chars.decrease() is Some,
      unesc(value@) == opre(out@, unesc(chars.remaining())),
    ensures chars.remaining().len() == 0
    decreases chars.decrease().unwrap()
@at loop_start 0
    proof { lemma_opre(out@); }

@fn find_closing_quote
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    ensures r.v_int() == b_close(enc(content@), start + 1),
      is_bpos(content@, start + 1) ==> match r {
        None => c_close(content@, cidx(content@, start + 1)) is None,
        Some(b) => is_bpos(content@, b as int) && start < b < blen(content@) && c_close(content@, cidx(content@, start + 1)) == Some(cidx(content@, b as int)) && content@[cidx(content@, b as int)] == '"' },
@at entry
    proof { if is_bpos(content@, start + 1) { lemma_close_cidx(content@, start + 1); } }
@loop 0
    invariant bytes@ == enc(content@), b_close(enc(content@), i as int) == b_close(enc(content@), start + 1), i <= isize::MAX as int + 1,
    decreases bytes.len() + 2 - i
@fn find_unquoted_char
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
    ensures (target as u32) < 128 ==> r.v_int() == b_unq(enc(content@), target as u8, start as int, false),
       (target as u32) >= 128 ==> r is None,
       (target as u32) < 128 && is_bpos(content@, start as int) ==> match r {
        None => c_unq(content@, target, cidx(content@, start as int), false) is None,
        Some(b) => is_bpos(content@, b as int) && start <= b < blen(content@) && c_unq(content@, target, cidx(content@, start as int), false) == Some(cidx(content@, b as int)) && content@[cidx(content@, b as int)] == target },
@at entry
    proof { if (target as u32) < 128 && is_bpos(content@, start as int) { lemma_unq_cidx(content@, target, start as int); } }
@loop 0
    invariant bytes@ == enc(content@), bytes.len() <= isize::MAX, (target as u32) < 128, b_unq(enc(content@), target as u8, i as int, in_quotes) == b_unq(enc(content@), target as u8, start as int, false),
      target_byte == target as u8, bs_byte == 92, dq_byte == 34,
    decreases bytes.len() + 2 - i

@file src/shared/validation.rs mod shared::validation
@fn is_valid_unquoted_key
@ret r
@spec
    ensures r == unq_key(key@)
@at entry
@loop 0
    invariant it0.seq() == key@.skip(1), key@.len() > 0, is_alpha_us(key@[0]),
      forall|i: int| 1 <= i < 1 + it0.index() ==> is_alnum_us(#[trigger] key@[i]) || key@[i] == '.',
@at loop_start 0
    proof { assert(ch == key@[1 + it0.index()]); }
@fn is_identifier_segment
@ret r
@spec
    ensures r == ident_seg(segment@)
@at entry
@loop 0
    invariant it0.seq() == segment@.skip(1), segment@.len() > 0, is_alpha_us(segment@[0]),
      forall|i: int| 1 <= i < 1 + it0.index() ==> is_alnum_us(#[trigger] segment@[i]),
@at loop_start 0
    proof { assert(ch == segment@[1 + it0.index()]); }
@fn is_safe_unquoted
@ret r
@spec
    ensures r == safe_unq(value@, delimiter)
@at entry
    broadcast use bc_has_char;
@fn default_delimiter
@ret r
@spec
    ensures r == ','
