@file src/cli/mod.rs mod cli
@dropuse *
@use use crate::vspec::*; use crate::vspec_json::*; use crate::vstubs::*; use crate::{strs, svs, sos}; use crate::error::{Result, ToonError}; use crate::options::*;
use crate::cli::args::{Args, ExpandPathsArg, KeyFoldingArg, Mode, a_src, a_mode}; use crate::vio::*; use crate::vio::fs::File; use crate::vio::io::{BufWriter, Read, Write}; use crate::vio::path::{Path, PathBuf}; use crate::serde_json::*; use crate::cli::conversion::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup, crate::vio::l_bytes1, crate::vio::l_bytes2, crate::vio::l_bytes3
/// where the arguments send the result
pub open spec fn a_sink(a: Args) -> Sink { match a.output { None => Sink::Out, Some(p) => Sink::File(p.pv()) } }
/// the options of the conversions
pub open spec fn a_enc(a: Args) -> EncodeOptions { EncodeOptions { indent: Some(a.indent as usize), delimiter: Some(a.delimiter), key_folding: Some(if a.key_folding == KeyFoldingArg::Off { KeyFoldingMode::Off } else { KeyFoldingMode::Safe }), flatten_depth: a.flatten_depth, replacer: None } }
pub open spec fn a_dec(a: Args) -> DecodeOptions { DecodeOptions { indent: Some(a.indent as usize), strict: Some(!a.no_strict), expand_paths: Some(if a.expand_paths == ExpandPathsArg::Off { ExpandPathsMode::Off } else { ExpandPathsMode::Safe }) } }
/// d is the converted document of the text t
pub open spec fn conv(a: Args, t: Seq<char>, d: Seq<char>) -> bool { if a_mode(a) == Mode::Encode { to_toon(t, Some(a_enc(a)), d) } else { from_toon(t, Some(a_dec(a)), d) } }
/// the output of these arguments holds exactly the document d and a final newline, all of it handed on
pub open spec fn delivered(io: Io, a: Args, d: Seq<char>) -> bool { io.acc.dom().contains(a_sink(a)) && io.acc[a_sink(a)] == enc(d) + seq![10u8] && io.clean.contains(a_sink(a)) }
/// Success: nothing failed, the source the arguments name was read, and its converted document is in the output they name.
pub open spec fn io_done(io: Io) -> bool { !io.failed && io.args is Some && io.inp is Some && done(io, io.args->0, (io.inp->0).0, (io.inp->0).1) }
pub open spec fn done(io: Io, a: Args, src: Option<Seq<u8>>, t: Seq<char>) -> bool { src == a_src(a) && (a_sink(a) != Sink::Out ==> io.acc[Sink::Out].len() == 0) && exists|d: Seq<char>| #[trigger] conv(a, t, d) && delivered(io, a, d) }
/// Failure has a reason: an operation failed, or the text has no converted document.
pub open spec fn io_reason(io: Io) -> bool { io.failed || (io.args is Some && io.inp is Some && no_doc(io.args->0, (io.inp->0).0, (io.inp->0).1)) }
pub open spec fn no_doc(a: Args, src: Option<Seq<u8>>, t: Seq<char>) -> bool { src == a_src(a) && forall|d: Seq<char>| !#[trigger] conv(a, t, d) }
/// an output that has taken nothing yet
pub open spec fn ready(io: Io, a: Args) -> bool { io.acc.dom().contains(Sink::Out) && io.acc[Sink::Out].len() == 0 && (a_sink(a) != Sink::Out ==> !io.acc.dom().contains(a_sink(a))) }
/// the writing of a document: what changes, and what has changed when it succeeds
pub open spec fn wrote(x: Io, y: Io, a: Args, b: Seq<u8>, ok: bool) -> bool {
    &&& y.args == x.args && y.inp == x.inp && y.said == x.said
    &&& !ok ==> y.failed
    &&& ok ==> y.failed == x.failed && y.acc =~= x.acc.insert(a_sink(a), b) && y.clean.contains(a_sink(a))
}
pub proof fn l_cat_next(s: Seq<Seq<char>>, k: int) requires 0 <= k < s.len() ensures enc(cat(s.take(k + 1))) == enc(cat(s.take(k))) + enc(s[k])
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); lemma_enc_concat(cat(s.take(k)), s[k]); }
pub proof fn l_join_next(s: Seq<Seq<char>>, k: int) requires 0 <= k < s.len() ensures enc(join(s.take(k + 1), '\n')) == (if k == 0 { enc(s[0]) } else { (enc(join(s.take(k), '\n')) + seq![10u8]) + enc(s[k]) })
{ let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]);
  if k > 0 { lemma_enc_concat(join(s.take(k), '\n') + seq!['\n'], s[k]); lemma_enc_concat(join(s.take(k), '\n'), seq!['\n']); lemma_enc1('\n'); } }
@fn run
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall parse run_encode run_decode => Tracked(io)
@spec
    requires old(io).fresh()
    ensures r is Ok ==> io_done(*final(io)), r is Err ==> io_reason(*final(io))
@fn run_encode
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall read_input write_output write_lines eprintln => Tracked(io)
@spec
    requires ready(*old(io), *args), old(io).args == Some(*args), !old(io).failed, a_mode(*args) == Mode::Encode
    ensures r is Ok ==> io_done(*final(io)), r is Err ==> io_reason(*final(io))
@at entry
    proof { reveal_strlit("\n"); assert forall|t: Seq<char>, o: Option<EncodeOptions>, d: Seq<char>| o == Some(a_enc(*args)) && #[trigger] to_toon(t, o, d) implies conv(*args, t, d) by {} }
@fn run_decode
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall read_input write_chunks eprintln => Tracked(io)
@spec
    requires ready(*old(io), *args), old(io).args == Some(*args), !old(io).failed, a_mode(*args) == Mode::Decode
    ensures r is Ok ==> io_done(*final(io)), r is Err ==> io_reason(*final(io))
@at entry
    proof { assert forall|t: Seq<char>, o: Option<DecodeOptions>, d: Seq<char>| o == Some(a_dec(*args)) && #[trigger] from_toon(t, o, d) implies conv(*args, t, d) by {} }
@fn read_input
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall read_stdin read_file => Tracked(io)
@spec
    ensures final(io).args == old(io).args, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).said == old(io).said,
      r is Err ==> final(io).failed, r is Ok ==> final(io).failed == old(io).failed && final(io).inp == Some((a_src(*args), r->Ok_0@))
@fn read_stdin
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall .read_to_string => Tracked(io)
@spec
    ensures final(io).args == old(io).args, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).said == old(io).said,
      r is Err ==> final(io).failed, r is Ok ==> final(io).failed == old(io).failed && final(io).inp == Some((None::<Seq<u8>>, r->Ok_0@))
@fn read_file
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall read_to_string => Tracked(io)
@spec
    ensures final(io).args == old(io).args, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).said == old(io).said,
      r is Err ==> final(io).failed, r is Ok ==> final(io).failed == old(io).failed && final(io).inp == Some((Some(path.pv()), r->Ok_0@))
@fn write_output
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall create .write_all .flush => Tracked(io)
@spec
    requires ready(*old(io), *args)
    ensures wrote(*old(io), *final(io), *args, data@ + seq![10u8], r is Ok)
@at entry
    proof { assert(io.acc[Sink::Out] =~= Seq::empty()); assert(io.acc =~= io.acc.insert(Sink::Out, Seq::empty())); }
@fn write_lines
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall create .write_all .flush => Tracked(io)
@spec
    requires ready(*old(io), *args)
    ensures wrote(*old(io), *final(io), *args, enc(join(strs(lines@), '\n')) + seq![10u8], r is Ok)
@at entry
    let ghost x0 = *io; let ghost ss = strs(lines@); let ghost a = *args;
    proof { lemma_enc_empty(); assert(ss.take(lines@.len() as int) =~= ss); assert(ss.take(0) =~= Seq::empty()); assert(x0.acc[Sink::Out] =~= Seq::empty()); assert(x0.acc =~= x0.acc.insert(Sink::Out, Seq::empty())); }
@loop 0
    invariant it0.seq().len() == lines@.len(), it0.seq().len() == lines@.len(), forall|j: int| 0 <= j < lines@.len() ==> #[trigger] it0.seq()[j] == j, ss == strs(lines@), x0 == *old(io), a == *args, writer.sink() == a_sink(a),
      io.args == x0.args, io.inp == x0.inp, io.said == x0.said, io.failed == x0.failed, io.acc =~= x0.acc.insert(a_sink(a), enc(join(ss.take(it0.index() as int), '\n')))
@at loop_start 0
    let ghost k = it0.index() as int; let ghost b0 = enc(join(ss.take(k), '\n'));
    proof { l_join_next(ss, k); lemma_enc_empty(); if k == 0 { assert(ss.take(0) =~= Seq::empty()); } }
@loop 1
    invariant it1.seq().len() == lines@.len(), it1.seq().len() == lines@.len(), forall|j: int| 0 <= j < lines@.len() ==> #[trigger] it1.seq()[j] == j, ss == strs(lines@), x0 == *old(io), a == *args, handle.sink() == a_sink(a),
      io.args == x0.args, io.inp == x0.inp, io.said == x0.said, io.failed == x0.failed, io.acc =~= x0.acc.insert(a_sink(a), enc(join(ss.take(it1.index() as int), '\n')))
@at loop_start 1
    let ghost k = it1.index() as int; let ghost b0 = enc(join(ss.take(k), '\n'));
    proof { l_join_next(ss, k); lemma_enc_empty(); if k == 0 { assert(ss.take(0) =~= Seq::empty()); } }
@fn write_chunks
@ret r
@ghost Tracked(io): Tracked<&mut Io>
@gcall create .write_all .flush => Tracked(io)
@spec
    requires ready(*old(io), *args)
    ensures wrote(*old(io), *final(io), *args, enc(cat(strs(chunks@))) + seq![10u8], r is Ok)
@at entry
    let ghost x0 = *io; let ghost ss = strs(chunks@); let ghost a = *args;
    proof { lemma_enc_empty(); assert(ss.take(chunks@.len() as int) =~= ss); assert(ss.take(0) =~= Seq::empty()); assert(x0.acc[Sink::Out] =~= Seq::empty()); assert(x0.acc =~= x0.acc.insert(Sink::Out, Seq::empty())); }
@loop 0
    invariant it0.seq().len() == chunks@.len(), forall|j: int| 0 <= j < chunks@.len() ==> *(#[trigger] it0.seq()[j]) == chunks@[j], ss == strs(chunks@), x0 == *old(io), a == *args, writer.sink() == a_sink(a),
      io.args == x0.args, io.inp == x0.inp, io.said == x0.said, io.failed == x0.failed, io.acc =~= x0.acc.insert(a_sink(a), enc(cat(ss.take(it0.index() as int))))
@at loop_start 0
    let ghost k = it0.index() as int; let ghost b0 = enc(cat(ss.take(k)));
    proof { l_cat_next(ss, k); lemma_enc_empty(); if k == 0 { assert(ss.take(0) =~= Seq::empty()); } }
@loop 1
    invariant it1.seq().len() == chunks@.len(), forall|j: int| 0 <= j < chunks@.len() ==> *(#[trigger] it1.seq()[j]) == chunks@[j], ss == strs(chunks@), x0 == *old(io), a == *args, handle.sink() == a_sink(a),
      io.args == x0.args, io.inp == x0.inp, io.said == x0.said, io.failed == x0.failed, io.acc =~= x0.acc.insert(a_sink(a), enc(cat(ss.take(it1.index() as int))))
@at loop_start 1
    let ghost k = it1.index() as int; let ghost b0 = enc(cat(ss.take(k)));
    proof { l_cat_next(ss, k); lemma_enc_empty(); if k == 0 { assert(ss.take(0) =~= Seq::empty()); } }
@fn format_input_label
@ret r
@spec
@fn estimate_tokens
@ret r
@spec
    ensures r >= 1
