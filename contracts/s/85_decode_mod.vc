@file src/decode/mod.rs mod decode
@only
@use use crate::decode::event_builder::*; use crate::{ses, strs}; use crate::vspec::*;
@fn try_decode
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      let sf = options is Some && options->0.expand_paths == Some(ExpandPathsMode::Safe);
      match r { Err(_) => dec_text(input@, w, st, sf) is None, Ok(v) => dec_text(input@, w, st, sf) == Some(v.sv()) } })
@closure map:0
    |$1: &str| -> (q: String) ensures q@ == $1@
@at before try_decode_from_lines
    proof { assert(strs(lines@) =~= split_on(input@, '\n')); }
@fn try_decode_from_lines
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      let sf = options is Some && options->0.expand_paths == Some(ExpandPathsMode::Safe);
      match r { Err(_) => dec_lines(strs(lines@), w, st, sf) is None, Ok(v) => dec_lines(strs(lines@), w, st, sf) == Some(v.sv()) } })
@at entry
    hide(d_doc); hide(node); hide(x_val); hide(flat); hide(b_build); hide(nsv);
    broadcast use crate::vspec_tree::thm_build;
@fn try_decode_stream_sync
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(lines@), w, st) is None, Ok(ev) => d_doc(strs(lines@), w, st) is Some && ses(ev@) == flat(d_doc(strs(lines@), w, st)->0) } })
@fn try_decode_stream
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(lines@), w, st) is None, Ok(ev) => d_doc(strs(lines@), w, st) is Some && ses(ev@) == flat(d_doc(strs(lines@), w, st)->0) } })
