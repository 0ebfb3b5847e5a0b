/// Tokens: primitives, keys, headers — what the encoder writes and what the parser reads.
pub mod vspec_tok {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
verus! {
broadcast use vstd::group_vstd_default;

/// Abstract primitive / value / event.
pub enum SP { Str(Seq<char>), Num(f64), Bool(bool), Null }
pub enum SV { Prim(SP), Arr(Seq<SV>), Obj(Seq<(Seq<char>, SV)>) }
pub enum SE { StartObject, EndObject, StartArray(nat), EndArray, Key(Seq<char>, bool), Prim(SP) }

// ---- writing --------------------------------------------------------------------------------
pub open spec fn bool_null_lit(s: Seq<char>) -> bool { s == "true"@ || s == "false"@ || s == "null"@ }
pub open spec fn safe_unq(s: Seq<char>, d: char) -> bool {
    &&& s.len() > 0
    &&& trim(s) == s
    &&& !bool_null_lit(s)
    &&& !num_like(enc(trim(s)))
    &&& !s.contains(':') && !s.contains('"') && !s.contains('\\')
    &&& !s.contains('[') && !s.contains(']') && !s.contains('{') && !s.contains('}')
    &&& !s.contains('\n') && !s.contains('\r') && !s.contains('\t')
    &&& !s.contains(d)
    &&& !("-"@).is_prefix_of(s)
}
pub open spec fn quote(s: Seq<char>) -> Seq<char> { seq!['"'] + esc(s) + seq!['"'] }
pub open spec fn enc_str(s: Seq<char>, d: char) -> Seq<char> { if safe_unq(s, d) { s } else { quote(s) } }
pub open spec fn enc_key(s: Seq<char>) -> Seq<char> { if unq_key(s) { s } else { quote(s) } }
pub open spec fn fmt_num(f: f64) -> Seq<char> {
    if f_is_zero(f) { "0"@ } else if f_is_nan(f) || !f_is_finite(f) { "null"@ } else { show_f64(f) }
}
pub open spec fn enc_prim(p: SP, d: char) -> Seq<char> {
    match p {
        SP::Null => "null"@,
        SP::Bool(b) => if b { "true"@ } else { "false"@ },
        SP::Num(f) => fmt_num(f),
        SP::Str(s) => enc_str(s, d),
    }
}
/// tokens joined by d
pub open spec fn join(t: Seq<Seq<char>>, d: char) -> Seq<char> decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else if t.len() == 1 { t[0] }
    else { join(t.drop_last(), d) + seq![d] + t.last() }
}
pub open spec fn enc_prims(v: Seq<SP>, d: char) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| enc_prim(v[i], d)) }
pub open spec fn enc_keys(v: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| enc_key(v[i])) }
pub open spec fn join_prims(v: Seq<SP>, d: char) -> Seq<char> { join(enc_prims(v, d), d) }
pub open spec fn fmt_len(n: nat, d: char) -> Seq<char>
{ if d == ',' { seq!['['] + show_nat(n) + seq![']'] } else { seq!['['] + show_nat(n) + seq![d] + seq![']'] } }
pub open spec fn fmt_header(n: nat, key: Option<Seq<char>>, fields: Option<Seq<Seq<char>>>, d: char) -> Seq<char> {
    (match key { Some(k) => enc_key(k), None => Seq::empty() })
    + fmt_len(n, d)
    + (match fields { Some(f) => seq!['{'] + join(enc_keys(f), d) + seq!['}'], None => Seq::empty() })
    + seq![':']
}

pub open spec fn norm_num(f: f64) -> SP
{ if !f_is_finite(f) { SP::Null } else if f_is_zero(f) { SP::Num(f_zero()) } else { SP::Num(f) } }
pub proof fn lemma_join_step(t: Seq<Seq<char>>, k: int, d: char)
    requires 0 <= k < t.len()
    ensures join(t.take(k + 1), d) == if k == 0 { t[0] } else { join(t.take(k), d) + seq![d] + t[k] }
{
    let u = t.take(k + 1);
    assert(u.drop_last() =~= t.take(k));
    assert(u.last() == t[k]);
}
pub proof fn lemma_join_prims_step(v: Seq<SP>, k: int, d: char)
    requires 0 <= k < v.len()
    ensures join_prims(v.take(k + 1), d) == if k == 0 { enc_prim(v[0], d) } else { join_prims(v.take(k), d) + seq![d] + enc_prim(v[k], d) }
{
    lemma_join_step(enc_prims(v, d), k, d);
    assert(enc_prims(v.take(k + 1), d) =~= enc_prims(v, d).take(k + 1));
    assert(enc_prims(v.take(k), d) =~= enc_prims(v, d).take(k));
}
// ---- reading --------------------------------------------------------------------------------
pub open spec fn num_lit(s: Seq<char>) -> bool {
    num_syntax(enc(trim(s))) && parse_f64(trim(s)) is Some && f_is_finite(parse_f64(trim(s))->0)
}
/// a quoted literal, or the trimmed token itself
pub open spec fn p_str_lit(s: Seq<char>) -> Option<Seq<char>> {
    let t = trim(s);
    if t.len() > 0 && t[0] == '"' {
        match c_close(t, 1) {
            None => None,
            Some(c) => if c != t.len() - 1 { None } else { unesc(t.subrange(1, c)) },
        }
    } else { Some(t) }
}
pub open spec fn norm_f(f: f64) -> f64 { if f_is_zero(f) && f_is_neg(f) { f_zero() } else { f } }
pub open spec fn p_prim(s: Seq<char>) -> Option<SP> {
    let t = trim(s);
    if t.len() == 0 { Some(SP::Str(Seq::empty())) }
    else if t[0] == '"' { match p_str_lit(t) { None => None, Some(x) => Some(SP::Str(x)) } }
    else if t == "true"@ { Some(SP::Bool(true)) }
    else if t == "false"@ { Some(SP::Bool(false)) }
    else if t == "null"@ { Some(SP::Null) }
    else if num_lit(t) { Some(SP::Num(norm_f(parse_f64(t)->0))) }
    else { Some(SP::Str(t)) }
}
/// all of them, or None when one is malformed
pub open spec fn p_prims(v: Seq<Seq<char>>) -> Option<Seq<SP>> decreases v.len()
{
    if v.len() == 0 { Some(Seq::empty()) }
    else { match (p_prims(v.drop_last()), p_prim(v.last())) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } }
}
pub open spec fn toks(s: Seq<char>, d: char, i: int) -> Seq<Seq<char>> decreases s.len() - i
{
    match c_unq(s, d, i, false) {
        None => seq![trim(s.skip(i))],
        Some(k) => if i <= k < s.len() { seq![trim(s.subrange(i, k))] + toks(s, d, k + 1) } else { seq![] },
    }
}
pub open spec fn split_vals(s: Seq<char>, d: char) -> Seq<Seq<char>> { if s.len() == 0 { Seq::empty() } else { toks(s, d, 0) } }
pub open spec fn p_bracket(s: Seq<char>, dd: char) -> Option<(usize, char)> {
    let (c, d) = if s.len() > 0 && s.last() == '\t' { (s.drop_last(), '\t') }
        else if s.len() > 0 && s.last() == '|' { (s.drop_last(), '|') } else { (s, dd) };
    match parse_usize(c) { None => None, Some(n) => Some((n, d)) }
}
pub struct SHdr { pub key: Option<Seq<char>>, pub kq: bool, pub len: usize, pub delim: char,
    pub fields: Option<Seq<(Seq<char>, bool)>>, pub inl: Option<Seq<char>> }
pub enum HR { Err, No, Yes(SHdr) }
pub open spec fn p_field(s: Seq<char>) -> Option<(Seq<char>, bool)> {
    let t = trim(s);
    match p_str_lit(t) { None => None, Some(n) => Some((n, t.len() > 0 && t[0] == '"')) }
}
pub open spec fn p_fields(v: Seq<Seq<char>>) -> Option<Seq<(Seq<char>, bool)>> decreases v.len()
{
    if v.len() == 0 { Some(Seq::empty()) }
    else { match (p_fields(v.drop_last()), p_field(v.last())) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } }
}
pub open spec fn max_len() -> int { 100_000_000 }
/// where the bracket of a header would start: Err / No / position
pub open spec fn hdr_start(s: Seq<char>) -> Option<Option<int>> {
    let t = ltrim(s);
    if t.len() > 0 && t[0] == '"' {
        match c_close(t, 1) {
            None => None,
            Some(c) => if c + 1 < t.len() && t[c + 1] == '[' { Some(Some(s.len() - t.len() + c + 1)) } else { Some(None) },
        }
    } else {
        match (cfind(s, '[', 0), cfind(s, ':', 0)) {
            (Some(b), Some(c)) => if c < b { Some(None) } else { Some(Some(b)) },
            (b, _) => Some(b),
        }
    }
}
/// end of the brace section (or of the bracket when there is none) where the colon is searched
pub open spec fn hdr_brace_end(s: Seq<char>, be: int) -> int {
    match (cfind(s, '{', be + 1), cfind(s, ':', be + 1)) {
        (Some(b), Some(c)) => if b < c { match c_unq(s, '}', b, false) { Some(f) => f + 1, None => be + 1 } } else { be + 1 },
        _ => be + 1,
    }
}
pub open spec fn hdr_key(s: Seq<char>, bs: int) -> Option<(Option<Seq<char>>, bool)> {
    let raw = trim(s.take(bs));
    if bs <= 0 { Some((None, false)) }
    else if raw.len() > 0 && raw[0] == '"' { match p_str_lit(raw) { None => None, Some(k) => Some((Some(k), true)) } }
    else if raw.len() > 0 { Some((Some(raw), false)) }
    else { Some((None, false)) }
}
/// None: malformed field; Some(None): no field list
pub open spec fn hdr_fields(s: Seq<char>, be: int, colon: int, d: char) -> Option<Option<Seq<(Seq<char>, bool)>>> {
    match cfind(s, '{', be + 1) {
        None => Some(None),
        Some(b) => if b < colon {
            match c_unq(s, '}', b, false) {
                None => Some(None),
                Some(f) => if f < colon {
                    match p_fields(split_vals(s.subrange(b + 1, f), d)) { None => None, Some(x) => Some(Some(x)) }
                } else { Some(None) },
            }
        } else { Some(None) },
    }
}
pub open spec fn hdr(s: Seq<char>, dd: char) -> HR {
    match hdr_start(s) {
        None => HR::Err,
        Some(None) => HR::No,
        Some(Some(bs)) => match cfind(s, ']', bs) {
            None => HR::No,
            Some(be) => match cfind(s, ':', hdr_brace_end(s, be)) {
                None => HR::No,
                Some(colon) => match hdr_key(s, bs) {
                    None => HR::Err,
                    Some((key, kq)) => match p_bracket(s.subrange(bs + 1, be), dd) {
                        None => HR::No,
                        Some((len, delim)) => if len > max_len() { HR::Err } else {
                            match hdr_fields(s, be, colon, delim) {
                                None => HR::Err,
                                Some(fields) => HR::Yes(SHdr { key, kq, len, delim, fields,
                                    inl: if trim(s.skip(colon + 1)).len() == 0 { None } else { Some(trim(s.skip(colon + 1))) } }),
                            }
                        },
                    },
                },
            },
        },
    }
}
/// key token: (key, end, quoted)
pub open spec fn p_key(s: Seq<char>) -> Option<(Seq<char>, int, bool)> {
    if s.len() > 0 && s[0] == '"' {
        match c_close(s, 1) {
            None => None,
            Some(c) => match unesc(s.subrange(1, c)) {
                None => None,
                Some(k) => if c + 1 < s.len() && s[c + 1] == ':' { Some((k, c + 2, true)) } else { None },
            },
        }
    } else {
        match cfind(s, ':', 0) { None => None, Some(c) => Some((trim(s.take(c)), c + 1, false)) }
    }
}
pub open spec fn is_arr_hdr_content(s: Seq<char>) -> bool
{ ltrim(s).len() > 0 && ltrim(s)[0] == '[' && c_unq(s, ':', 0, false) is Some }
pub open spec fn is_kv_content(s: Seq<char>) -> bool { c_unq(s, ':', 0, false) is Some }
} // verus!
}
