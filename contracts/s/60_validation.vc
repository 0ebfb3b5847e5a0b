@file src/decode/validation.rs mod decode::validation
@use use crate::decode::scanner::{bls, sls};
@fn assert_expected_count
@ret r
@spec
    ensures r is Err <==> strict && actual != expected
@fn validate_no_extra_list_items
@ret r
@spec
    ensures r is Err <==> strict && next_line is Some && next_line->0.depth == item_depth && is_item(next_line->0.content@)
@fn validate_no_extra_tabular_rows
@ret r
@spec
    requires delim_ok(header.delimiter)
    ensures r is Err <==> strict && next_line is Some && next_line->0.depth == row_depth && !("- "@).is_prefix_of(next_line->0.content@) && data_row(next_line->0.content@, header.delimiter)
@fn validate_no_blank_lines_in_range
@ret r
@spec
    ensures r is Err <==> strict && blank_in(bls(blank_lines@), start_line as int, end_line as int)
@closure find:0
|$1: &&BlankLineInfo| -> (cr: bool) ensures cr == (start_line < $1.line_number < end_line)
@at entry
    proof { let b = bls(blank_lines@);
      assert forall|i: int| #![trigger blank_lines@[i]] 0 <= i < blank_lines@.len() implies b[i] == blank_lines@[i].line_number as int by {} }
@fn is_data_row
@ret r
@spec
    requires delim_ok(delimiter)
    ensures r == data_row(content@, delimiter)
@at entry
    proof { lemma_bpos0(content@); lemma_data_row(content@, delimiter); }
