@file src/cli/args.rs mod cli::args
@only
@dropuse *
@use use crate::vspec::*; use crate::vstubs::*; use crate::vio::path::*;
@bcast vstd::group_vstd_default, crate::vax::vgroup
/// the source the arguments name: standard input when there is none, or it is "-"
pub open spec fn a_src(a: Args) -> Option<Seq<u8>> { match a.input { None => None, Some(p) => if p.pv() == enc("-"@) { None } else { Some(p.pv()) } } }
/// the direction of the conversion
pub open spec fn a_mode(a: Args) -> Mode {
    if a.encode { Mode::Encode } else if a.decode { Mode::Decode }
    else if a.input is Some && ext_of(a.input->0.pv()) is Some && lower(lossy(ext_of(a.input->0.pv())->0)) == "toon"@ { Mode::Decode } else { Mode::Encode }
}
@type Args
impl Args {
    /// clap's reading of the command line; it does not return when the arguments are not valid
    #[verifier::external_body]
    pub fn parse(Tracked(io): Tracked<&mut crate::vio::Io>) -> (r: Args)
        ensures final(io).args == Some(r), final(io).inp == old(io).inp, final(io).acc == old(io).acc, final(io).clean == old(io).clean, final(io).failed == old(io).failed, final(io).said == old(io).said
    { unimplemented!() }
}
@type KeyFoldingArg #[derive(Clone, Copy)]
@type ExpandPathsArg #[derive(Clone, Copy)]
@type Mode #[derive(Clone, Copy)]
@fn parse_delimiter
@ret r
@spec
    ensures r == (if s@ == ","@ || s@ == "comma"@ { Ok::<char, String>(',') } else if s@ == "|"@ || s@ == "pipe"@ { Ok('|') } else if s@ == "\\t"@ || s@ == "\t"@ || s@ == "tab"@ { Ok('\t') } else { r }), r is Ok ==> r->Ok_0 == ',' || r->Ok_0 == '|' || r->Ok_0 == '\t'
@fn Args::detect_mode
@ret r
@spec
    ensures r == a_mode(*self)
@at entry
    proof { reveal_strlit("json"); reveal_strlit("toon"); }
@fn Args::is_stdin
@ret r
@spec
    ensures r == (a_src(*self) is None)
@closure is_some_and:0
    |$1: &PathBuf| -> (q: bool) ensures q == ($1.pv() == enc("-"@))
