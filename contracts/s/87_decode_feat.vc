@file src/decode/mod.rs mod decode::feat
@feature async-stream
@only
@use use crate::decode::event_builder::*; use crate::{ses, strs}; use crate::vspec::*; use crate::decode::async_decode;
@dropuse crate::decode::decoders
@dropuse async_decode
@fn try_decode_stream
@ret r
@spec
    ensures ({ let w = if options is Some && options->0.indent is Some { options->0.indent->0 as nat } else { 2nat };
      let st = if options is Some && options->0.strict is Some { options->0.strict->0 } else { true };
      match r { Err(_) => d_doc(strs(lines@), w, st) is None, Ok(ev) => d_doc(strs(lines@), w, st) is Some && ses(ev@) == flat(d_doc(strs(lines@), w, st)->0) } })
