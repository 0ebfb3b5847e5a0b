/// The decoder as a function from lines to a tree (and the event stream as that tree laid flat).
pub mod vspec_dec {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vthm_tok::delim_ok;
verus! {
broadcast use vstd::group_vstd_default;

/// A decoded value: a primitive, an array with its declared length, an object whose keys carry a
/// was-quoted flag.
pub enum DV { Prim(SP), Arr(nat, Seq<DV>), Obj(Seq<(Seq<char>, bool, DV)>) }
pub type DF = (Seq<char>, bool, DV);
pub open spec fn flat(v: DV) -> Seq<SE> decreases v
{
    match v {
        DV::Prim(p) => seq![SE::Prim(p)],
        DV::Arr(n, a) => seq![SE::StartArray(n)] + flats(a) + seq![SE::EndArray],
        DV::Obj(f) => seq![SE::StartObject] + flatf(f) + seq![SE::EndObject],
    }
}
pub open spec fn flats(a: Seq<DV>) -> Seq<SE> decreases a
{ if a.len() == 0 { Seq::empty() } else { flats(a.drop_last()) + flat(a.last()) } }
pub open spec fn flatf(f: Seq<DF>) -> Seq<SE> decreases f
{ if f.len() == 0 { Seq::empty() } else { flatf(f.drop_last()) + (seq![SE::Key(f.last().0, f.last().1)] + flat(f.last().2)) } }
pub open spec fn flatk(f: DF) -> Seq<SE> { seq![SE::Key(f.0, f.1)] + flat(f.2) }

/// A non-blank line: depth, content, number.
pub struct SL { pub depth: int, pub c: Seq<char>, pub n: int }
pub struct DC { pub l: Seq<SL>, pub b: Seq<int>, pub strict: bool }

pub open spec fn is_item(c: Seq<char>) -> bool { ("- "@).is_prefix_of(c) || c == "-"@ }
pub open spec fn blank_in(b: Seq<int>, s: int, e: int) -> bool { exists|i: int| 0 <= i < b.len() && s < #[trigger] b[i] < e }
/// a row that is not a key: value line
pub open spec fn data_row(c: Seq<char>, d: char) -> bool {
    match (c_unq(c, ':', 0, false), c_unq(c, d, 0, false)) { (None, _) => true, (Some(k), Some(e)) => e < k, _ => false }
}
pub open spec fn row_fields(f: Seq<(Seq<char>, bool)>, p: Seq<SP>) -> Seq<DF>
{ Seq::new(f.len(), |i: int| (f[i].0, f[i].1, DV::Prim(if i < p.len() { p[i] } else { SP::Null }))) }
pub open spec fn prim_items(p: Seq<SP>) -> Seq<DV> { Seq::new(p.len(), |i: int| DV::Prim(p[i])) }

/// name[n]: v1,v2,...
pub open spec fn d_inline(strict: bool, n: nat, d: char, s: Seq<char>) -> Option<DV> {
    if trim(s).len() == 0 { if strict && n != 0 { None } else { Some(DV::Arr(n, Seq::empty())) } }
    else { match p_prims(split_vals(s, d)) { None => None, Some(p) => if strict && p.len() != n { None } else { Some(DV::Arr(n, prim_items(p))) } } }
}
pub open spec fn d_row(strict: bool, f: Seq<(Seq<char>, bool)>, d: char, c: Seq<char>) -> Option<DV> {
    let v = split_vals(c, d);
    if strict && v.len() != f.len() { None } else { match p_prims(v) { None => None, Some(p) => Some(DV::Obj(row_fields(f, p))) } }
}
/// rows from line p on, after acc
pub open spec fn d_rows(x: DC, acc: Seq<DV>, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int) -> Option<(Seq<DV>, int)>
    decreases x.l.len() - p
{
    if p >= x.l.len() || acc.len() >= n || x.l[p].depth != depth { Some((acc, p)) }
    else { match d_row(x.strict, f, d, x.l[p].c) { None => None, Some(r) => d_rows(x, acc.push(r), p + 1, n, f, d, depth) } }
}
/// checks after the rows / items: count, blank lines, surplus
pub open spec fn d_tab(x: DC, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int) -> Option<(DV, int)> {
    match d_rows(x, Seq::empty(), p, n, f, d, depth + 1) {
        None => None,
        Some((a, q)) => if x.strict && (a.len() != n || (q > p && blank_in(x.b, x.l[p].n, x.l[q - 1].n))
            || (q < x.l.len() && x.l[q].depth == depth + 1 && !("- "@).is_prefix_of(x.l[q].c) && data_row(x.l[q].c, d))) { None }
          else { Some((DV::Arr(n, a), q)) },
    }
}
/// an array after its header; p is the first line after it
pub open spec fn d_arr(x: DC, p: int, h: SHdr, depth: int) -> Option<(DV, int)>
    decreases x.l.len() - p, 4int
{
    match h.inl {
        Some(s) => match d_inline(x.strict, h.len as nat, h.delim, s) { None => None, Some(v) => Some((v, p)) },
        None => match h.fields {
            Some(f) => if f.len() > 0 { d_tab(x, p, h.len as nat, f, h.delim, depth) } else { d_list(x, p, h.len as nat, depth) },
            None => d_list(x, p, h.len as nat, depth),
        },
    }
}
pub open spec fn d_list(x: DC, p: int, n: nat, depth: int) -> Option<(DV, int)>
    decreases x.l.len() - p, 3int
{
    match d_items(x, Seq::empty(), p, n, depth + 1) {
        None => None,
        Some((a, q)) => if x.strict && (a.len() != n || (q > p && blank_in(x.b, x.l[p].n, x.l[q - 1].n))
            || (q < x.l.len() && x.l[q].depth == depth + 1 && is_item(x.l[q].c))) { None }
          else { Some((DV::Arr(n, a), q)) },
    }
}
pub open spec fn d_items(x: DC, acc: Seq<DV>, p: int, n: nat, d: int) -> Option<(Seq<DV>, int)>
    decreases x.l.len() - p, 2int
{
    if p < 0 || p >= x.l.len() || acc.len() >= n || x.l[p].depth != d || !is_item(x.l[p].c) { Some((acc, p)) }
    else { match d_item(x, p, d) { None => None, Some((v, q)) => if p < q <= x.l.len() { d_items(x, acc.push(v), q, n, d) } else { None } } }
}
/// the item on line p
pub open spec fn d_item(x: DC, p: int, d: int) -> Option<(DV, int)>
    decreases x.l.len() - p, 1int
{
    if p < 0 || p >= x.l.len() { None }
    else {
        let c = x.l[p].c;
        let a = c.skip(2);
        if c == "-"@ { Some((DV::Obj(Seq::empty()), p + 1)) }
        else if !("- "@).is_prefix_of(c) { None }
        else if trim(a).len() == 0 { Some((DV::Obj(Seq::empty()), p + 1)) }
        else { match hdr(a, ',') {
            HR::Err => None,
            HR::Yes(h) => if is_arr_hdr_content(a) { d_arr(x, p + 1, h, d) }
                else if h.key is Some && h.fields is Some {
                    match d_arr(x, p + 1, h, d + 1) { None => None, Some((v, q)) => if p < q <= x.l.len() { d_follow(x, seq![(h.key->0, h.kq, v)], q, d + 1) } else { None } }
                } else { d_item_plain(x, a, p, d) },
            HR::No => d_item_plain(x, a, p, d),
        } }
    }
}
pub open spec fn d_item_plain(x: DC, a: Seq<char>, p: int, d: int) -> Option<(DV, int)>
    decreases x.l.len() - p, 0int
{
    if p < 0 || p >= x.l.len() { None }
    else if is_kv_content(a) {
        match d_kv(x, p + 1, a, d + 1) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_follow(x, seq![f], q, d + 1) } else { None } }
    } else { match p_prim(a) { None => None, Some(v) => Some((DV::Prim(v), p + 1)) } }
}
/// further fields of an object that began on the item's own line
pub open spec fn d_follow(x: DC, acc: Seq<DF>, p: int, d: int) -> Option<(DV, int)>
    decreases x.l.len() - p, 0int
{
    if p < 0 || p >= x.l.len() || x.l[p].depth != d || ("- "@).is_prefix_of(x.l[p].c) { Some((DV::Obj(acc), p)) }
    else { match d_kv(x, p + 1, x.l[p].c, d) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_follow(x, acc.push(f), q, d) } else { None } } }
}
/// key: value, key: (nested), key[n]...; p is the next line
pub open spec fn d_kv(x: DC, p: int, c: Seq<char>, depth: int) -> Option<(DF, int)>
    decreases x.l.len() - p, 6int
{
    match hdr(c, ',') {
        HR::Err => None,
        HR::Yes(h) => if h.key is Some {
                match d_arr(x, p, h, depth) { None => None, Some((v, q)) => Some(((h.key->0, h.kq, v), q)) }
            } else { d_kv_plain(x, p, c, depth) },
        HR::No => d_kv_plain(x, p, c, depth),
    }
}
pub open spec fn d_kv_plain(x: DC, p: int, c: Seq<char>, depth: int) -> Option<(DF, int)>
    decreases x.l.len() - p, 5int
{
    match p_key(c) {
        None => None,
        Some((k, e, q)) => {
            let rest = trim(c.skip(e));
            if rest.len() == 0 {
                if 0 <= p < x.l.len() && x.l[p].depth > depth {
                    match d_fields(x, Seq::empty(), p, depth + 1, None) { None => None, Some((v, p2)) => Some(((k, q, v), p2)) }
                } else { Some(((k, q, DV::Obj(Seq::empty())), p)) }
            } else { match p_prim(rest) { None => None, Some(v) => Some(((k, q, DV::Prim(v)), p)) } }
        },
    }
}
/// the fields of a nested object: all lines at the depth of the first one
pub open spec fn d_fields(x: DC, acc: Seq<DF>, p: int, base: int, cd: Option<int>) -> Option<(DV, int)>
    decreases x.l.len() - p, 3int
{
    if p < 0 || p >= x.l.len() || x.l[p].depth < base { Some((DV::Obj(acc), p)) }
    else {
        let d = match cd { Some(d) => d, None => x.l[p].depth };
        if x.l[p].depth != d { Some((DV::Obj(acc), p)) }
        else { match d_kv(x, p + 1, x.l[p].c, d) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_fields(x, acc.push(f), q, base, Some(d)) } else { None } } }
    }
}
/// fields at depth 0
pub open spec fn d_top(x: DC, acc: Seq<DF>, p: int) -> Option<DV>
    decreases x.l.len() - p
{
    if p < 0 || p >= x.l.len() || x.l[p].depth != 0 { Some(DV::Obj(acc)) }
    else { match d_kv(x, p + 1, x.l[p].c, 0) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_top(x, acc.push(f), q) } else { None } } }
}
pub open spec fn is_kv_line(c: Seq<char>) -> bool {
    if c.len() > 0 && c[0] == '"' { match c_close(c, 1) { None => false, Some(k) => c.skip(k + 1).contains(':') } } else { c.contains(':') }
}
pub open spec fn d_root(x: DC) -> Option<DV> {
    if x.l.len() == 0 { Some(DV::Obj(Seq::empty())) }
    else {
        let c = x.l[0].c;
        if is_arr_hdr_content(c) && hdr(c, ',') is Err { None }
        else if is_arr_hdr_content(c) && hdr(c, ',') is Yes {
            match d_arr(x, 1, hdr(c, ',')->Yes_0, 0) { None => None, Some((v, q)) => Some(v) }
        }
        else if x.l.len() == 1 && !is_kv_line(c) { match p_prim(trim(c)) { None => None, Some(p) => Some(DV::Prim(p)) } }
        else { match d_kv(x, 1, c, 0) { None => None, Some((f, q)) => if 0 < q <= x.l.len() { d_top(x, seq![f], q) } else { None } } }
    }
}

// ---- scanning -------------------------------------------------------------------------------
pub open spec fn lead(s: Seq<char>) -> nat decreases s.len()
{ if s.len() > 0 && s[0] == ' ' { 1 + lead(s.skip(1)) } else { 0 } }
pub open spec fn lead_st(s: Seq<char>) -> nat decreases s.len()
{ if s.len() > 0 && (s[0] == ' ' || s[0] == '\t') { 1 + lead_st(s.skip(1)) } else { 0 } }
pub open spec fn depth_of(s: Seq<char>, w: nat) -> int { if w == 0 { 0 } else { lead(s) as int / w as int } }
pub enum LR { Blank, Err, Line(int, Seq<char>) }
pub open spec fn p_line(s: Seq<char>, w: nat, strict: bool) -> LR {
    let k = lead(s) as int;
    let c = s.skip(k);
    if trim(c).len() == 0 { LR::Blank }
    else if strict && s.take(lead_st(s) as int).contains('\t') { LR::Err }
    else if strict && (if w == 0 { k > 0 } else { k % (w as int) != 0 }) { LR::Err }
    else { LR::Line(depth_of(s, w), c) }
}
/// lines and blank lines, numbered from n0 + 1
pub open spec fn scan(r: Seq<Seq<char>>, n0: int, w: nat, strict: bool) -> Option<(Seq<SL>, Seq<int>)> decreases r.len()
{
    if r.len() == 0 { Some((Seq::empty(), Seq::empty())) }
    else { match scan(r.drop_last(), n0, w, strict) {
        None => None,
        Some((l, b)) => match p_line(r.last(), w, strict) {
            LR::Err => None,
            LR::Blank => Some((l, b.push(n0 + r.len()))),
            LR::Line(d, c) => Some((l.push(SL { depth: d, c, n: n0 + r.len() }), b)),
        },
    } }
}
pub open spec fn d_doc(r: Seq<Seq<char>>, w: nat, strict: bool) -> Option<DV> {
    match scan(r, 0, w, strict) { None => None, Some((l, b)) => d_root(DC { l, b, strict }) }
}
// ---- lemmas ---------------------------------------------------------------------------------
pub proof fn lemma_lead(s: Seq<char>) ensures lead(s) <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] == ' ' { lemma_lead(s.skip(1)); } }
pub proof fn lemma_lead_st(s: Seq<char>) ensures lead_st(s) <= s.len() decreases s.len()
{ if s.len() > 0 && (s[0] == ' ' || s[0] == '\t') { lemma_lead_st(s.skip(1)); } }
pub proof fn lemma_lead_unique(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == ' ', k < s.len() ==> s[k] != ' '
    ensures lead(s) == k
    decreases s.len()
{ if k > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies t[i] == ' ' by { assert(t[i] == s[i + 1]); } lemma_lead_unique(t, k - 1); } }
pub proof fn lemma_lead_st_unique(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == ' ' || s[i] == '\t', k < s.len() ==> s[k] != ' ' && s[k] != '\t'
    ensures lead_st(s) == k
    decreases s.len()
{ if k > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies t[i] == ' ' || t[i] == '\t' by { assert(t[i] == s[i + 1]); } lemma_lead_st_unique(t, k - 1); } }
/// one leading ASCII blank: byte position and character position coincide
pub proof fn lemma_sp_step(s: Seq<char>, k: int)
    requires at(s, k, k)
    ensures k < blen(s) <==> k < s.len(), k < s.len() ==> (enc(s)[k] == 32 <==> s[k] == ' ') && (enc(s)[k] == 9 <==> s[k] == '\t') && ((s[k] == ' ' || s[k] == '\t') ==> at(s, k + 1, k + 1))
{
    lemma_is_bpos(s, k);
    if k < s.len() {
        crate::vlem_tok::lemma_char_at(s, k, ' '); crate::vlem_tok::lemma_char_at(s, k, '\t');
        if s[k] == ' ' || s[k] == '\t' { lemma_at_next(s, k); }
    }
}
pub proof fn lemma_scan_none(r: Seq<Seq<char>>, k: int, n0: int, w: nat, strict: bool)
    requires 0 <= k <= r.len()
    ensures scan(r.take(k), n0, w, strict) is None ==> scan(r, n0, w, strict) is None
    decreases r.len()
{
    if k == r.len() { assert(r.take(k) =~= r); }
    else { lemma_scan_none(r.drop_last(), k, n0, w, strict); assert(r.drop_last().take(k) =~= r.take(k)); }
}
pub proof fn lemma_data_row(c: Seq<char>, d: char)
    requires delim_ok(d)
    ensures forall|a: int, b: int| #![trigger cidx(c, a), cidx(c, b)] is_bpos(c, a) && is_bpos(c, b) ==> (a < b <==> cidx(c, a) < cidx(c, b))
{
    assert forall|a: int, b: int| #![trigger cidx(c, a), cidx(c, b)] is_bpos(c, a) && is_bpos(c, b) implies (a < b <==> cidx(c, a) < cidx(c, b)) by { lemma_cidx_mono(c, b, a); }
}
pub proof fn lemma_hdr_yes(s: Seq<char>)
    ensures hdr(s, ',') is Yes ==> delim_ok(hdr(s, ',')->Yes_0.delim) && hdr(s, ',')->Yes_0.len <= max_len()
{ hide(hdr_start); hide(cfind); hide(hdr_brace_end); hide(hdr_key); hide(hdr_fields); hide(parse_usize); hide(trim); }
pub broadcast proof fn bc_flatf_push(a: Seq<DF>, f: DF, e: Seq<SE>)
    ensures #[trigger] (e + flatf(a.push(f))) == e + flatf(a) + flatk(f)
{ assert(a.push(f).drop_last() =~= a); assert(e + (flatf(a) + flatk(f)) =~= e + flatf(a) + flatk(f)); }
pub broadcast proof fn bc_flats_push(a: Seq<DV>, v: DV, e: Seq<SE>)
    ensures #[trigger] (e + flats(a.push(v))) == e + flats(a) + flat(v)
{ assert(a.push(v).drop_last() =~= a); assert(e + (flats(a) + flat(v)) =~= e + flats(a) + flat(v)); }
pub broadcast proof fn bc_flat_none(e: Seq<SE>)
    ensures #![trigger e + flats(Seq::empty())] #![trigger e + flatf(Seq::empty())] e + flats(Seq::empty()) == e, e + flatf(Seq::empty()) == e
{ assert(e + flats(Seq::empty()) =~= e); assert(e + flatf(Seq::empty()) =~= e); }
/// an object / array laid down piece by piece
pub broadcast proof fn bc_flat_obj(e: Seq<SE>, f: Seq<DF>)
    ensures #[trigger] (e.push(SE::StartObject) + flatf(f)).push(SE::EndObject) == e + flat(DV::Obj(f))
{ assert((e.push(SE::StartObject) + flatf(f)).push(SE::EndObject) =~= e + flat(DV::Obj(f))); }
pub broadcast proof fn bc_flat_obj0(e: Seq<SE>)
    ensures #[trigger] e.push(SE::StartObject).push(SE::EndObject) == e + flat(DV::Obj(Seq::empty()))
{ assert(e.push(SE::StartObject).push(SE::EndObject) =~= e + flat(DV::Obj(Seq::empty()))); }
pub broadcast proof fn bc_flat_arr(e: Seq<SE>, n: nat, a: Seq<DV>)
    ensures #[trigger] (e.push(SE::StartArray(n)) + flats(a)).push(SE::EndArray) == e + flat(DV::Arr(n, a))
{ assert((e.push(SE::StartArray(n)) + flats(a)).push(SE::EndArray) =~= e + flat(DV::Arr(n, a))); }
pub broadcast proof fn bc_flat_prim(e: Seq<SE>, p: SP)
    ensures #[trigger] e.push(SE::Prim(p)) == e + flat(DV::Prim(p))
{ assert(e.push(SE::Prim(p)) =~= e + flat(DV::Prim(p))); }
pub broadcast proof fn bc_flatk(e: Seq<SE>, k: Seq<char>, q: bool, v: DV)
    ensures #[trigger] (e.push(SE::Key(k, q)) + flat(v)) == e + flatk((k, q, v))
{ assert(e.push(SE::Key(k, q)) + flat(v) =~= e + flatk((k, q, v))); }
pub broadcast proof fn bc_flatf1(f: DF)
    ensures #[trigger] flatf(seq![f]) == flatk(f)
{ reveal_with_fuel(flatf, 2); assert(seq![f].drop_last() =~= Seq::empty()); assert(flatf(seq![f].drop_last()) =~= Seq::<SE>::empty()); assert(seq![f].last() == f); assert(Seq::<SE>::empty() + flatk(f) =~= flatk(f)); }
pub broadcast group gflat { bc_flatf_push, bc_flats_push, bc_flat_none, bc_flat_obj, bc_flat_obj0, bc_flat_arr, bc_flat_prim, bc_flatk, bc_flatf1 }
pub proof fn lemma_item_prefix(s: Seq<char>)
    ensures ("- "@).is_prefix_of(s) ==> at(s, 2, 2) && s.len() >= 2, blen("- "@) == 2
{
    let p = "- "@;
    reveal_strlit("- ");
    assert(p.len() == 2 && p[0] == '-' && p[1] == ' ');
    lemma_bpos_ends(p); lemma_at_k(p, 0); lemma_at_next(p, 0); lemma_at_next(p, 1);
    if p.is_prefix_of(s) {
        assert(s[0] == p[0] && s[1] == p[1]);
        lemma_bpos_ends(s); lemma_at_k(s, 0); lemma_at_next(s, 0); lemma_at_next(s, 1);
    }
}
} // verus!
}
