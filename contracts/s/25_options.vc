@file src/options.rs mod options
@only
@dropuse *
@use use crate::shared::constants::DEFAULT_DELIMITER;
pub use crate::vstubs::EncodeReplacer;
impl ResolvedEncodeOptions {
    pub open spec fn eo(&self) -> EO { EO { d: self.delimiter, fold: self.key_folding == KeyFoldingMode::Safe, flat: self.flatten_depth as nat } }
}
pub open spec fn opt_eo(o: Option<EncodeOptions>) -> EO { EO { d: if o is Some && o->0.delimiter is Some { o->0.delimiter->0 } else { ',' }, fold: o is Some && o->0.key_folding == Some(KeyFoldingMode::Safe),
    flat: if o is Some && o->0.flatten_depth is Some { o->0.flatten_depth->0 as nat } else { usize::MAX as nat } } }
pub open spec fn opt_w(o: Option<EncodeOptions>) -> nat { if o is Some && o->0.indent is Some { o->0.indent->0 as nat } else { 2 } }
pub open spec fn opt_rp(o: Option<EncodeOptions>) -> bool { o is Some && o->0.replacer is Some }
@type DecodeOptions
@type EncodeOptions
@type ResolvedEncodeOptions
@type ExpandPathsMode #[derive(Clone, Copy)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExpandPathsMode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for ExpandPathsMode {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
@type DecodeStreamOptions
/// #[derive(Default)]
impl Default for DecodeStreamOptions {
    fn default() -> (r: Self) ensures r.indent is None, r.strict is None { DecodeStreamOptions { indent: None, strict: None } }
}
@type ResolvedDecodeOptions
@type KeyFoldingMode #[derive(Clone, Copy)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for KeyFoldingMode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for KeyFoldingMode {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
@type PathSegment
impl PathSegment { pub open spec fn ps(&self) -> PS { match *self { PathSegment::Key(k) => PS::Key(k@), PathSegment::Index(i) => PS::Idx(i as nat) } } }
pub open spec fn pv(p: Seq<PathSegment>) -> Seq<PS> { Seq::new(p.len(), |i: int| p[i].ps()) }
pub broadcast proof fn l_pv(p: Seq<PathSegment>, x: PathSegment) ensures #[trigger] pv(p.push(x)) == pv(p).push(x.ps()) { assert(pv(p.push(x)) =~= pv(p).push(x.ps())); }
pub broadcast proof fn l_pv0(p: Seq<PathSegment>) requires p.len() == 0 ensures #[trigger] pv(p) == Seq::<PS>::empty() { assert(pv(p) =~= Seq::<PS>::empty()); }
@fn resolve_encode_options
@ret r
@spec
    ensures r.indent == (if options is Some && options->0.indent is Some { options->0.indent->0 } else { 2 }),
      r.delimiter == (if options is Some && options->0.delimiter is Some { options->0.delimiter->0 } else { ',' }),
      r.key_folding == (if options is Some && options->0.key_folding is Some { options->0.key_folding->0 } else { KeyFoldingMode::Off }),
      r.flatten_depth == (if options is Some && options->0.flatten_depth is Some { options->0.flatten_depth->0 } else { usize::MAX }),
      r.replacer == (if options is Some { options->0.replacer } else { None }),
      r.eo() == opt_eo(options), r.indent == opt_w(options)
@fn resolve_decode_options
@ret r
@spec
    ensures r.indent == (if options is Some && options->0.indent is Some { options->0.indent->0 } else { 2 }),
      r.strict == (if options is Some && options->0.strict is Some { options->0.strict->0 } else { true }),
      r.expand_paths == (if options is Some && options->0.expand_paths is Some { options->0.expand_paths->0 } else { ExpandPathsMode::Off })
