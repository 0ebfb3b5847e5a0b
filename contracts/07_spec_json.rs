/// JSON text: the grammar as a relation between texts and values, and what the two renderers write.
pub mod vspec_json {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_enc::{SF, sp};
verus! {
broadcast use vstd::group_vstd_default;

// ---- RFC 8259 ------------------------------------------------------------------------------------
pub open spec fn j_wsc(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn j_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> j_wsc(#[trigger] s[i]) }
/// hexadecimal digit of a value below 16
pub open spec fn hexd(n: int) -> char {
    if n < 10 { digit(n as nat) } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
/// four hexadecimal digits
pub open spec fn hex4(n: int) -> Seq<char> { seq![hexd(n / 4096), hexd(n / 256 % 16), hexd(n / 16 % 16), hexd(n % 16)] }
/// t stands for the character c inside a JSON string
pub open spec fn j_char(t: Seq<char>, c: char) -> bool {
    ||| t == seq![c] && c as int >= 0x20 && c != '"' && c != '\\'
    ||| t == seq!['\\', c] && (c == '"' || c == '\\' || c == '/')
    ||| t == seq!['\\', 'n'] && c == '\n' || t == seq!['\\', 'r'] && c == '\r' || t == seq!['\\', 't'] && c == '\t'
    ||| t == seq!['\\', 'b'] && c as int == 8 || t == seq!['\\', 'f'] && c as int == 12
    ||| t == seq!['\\', 'u'] + hex4(c as int) && (c as int) < 0x10000
}
/// t is the inside of a JSON string that stands for x
pub open spec fn j_chars(t: Seq<char>, x: Seq<char>) -> bool decreases x.len()
{ if x.len() == 0 { t.len() == 0 } else { exists|i: int| 0 <= i <= t.len() && j_chars(#[trigger] t.take(i), x.drop_last()) && j_char(t.skip(i), x.last()) } }
pub open spec fn j_str(s: Seq<char>, x: Seq<char>) -> bool
{ s.len() >= 2 && s[0] == '"' && s.last() == '"' && j_chars(s.subrange(1, s.len() - 1), x) }
/// s, without surrounding blanks, is a JSON text that stands for v
pub open spec fn j_val(s: Seq<char>, v: SV) -> bool decreases v, 0int
{
    match v {
        SV::Prim(SP::Null) => s == "null"@,
        SV::Prim(SP::Bool(b)) => s == (if b { "true"@ } else { "false"@ }),
        SV::Prim(SP::Num(f)) => num_syntax(enc(s)) && parse_f64(s) == Some(f),
        SV::Prim(SP::Str(x)) => j_str(s, x),
        SV::Arr(a) => s.len() >= 2 && s[0] == '[' && s.last() == ']' && (if a.len() == 0 { j_ws(s.subrange(1, s.len() - 1)) } else { j_items(s.subrange(1, s.len() - 1), a) }),
        SV::Obj(f) => s.len() >= 2 && s[0] == '{' && s.last() == '}' && (if f.len() == 0 { j_ws(s.subrange(1, s.len() - 1)) } else { j_members(s.subrange(1, s.len() - 1), f) }),
    }
}
/// blanks, a value, blanks
pub open spec fn j_item(s: Seq<char>, v: SV) -> bool decreases v, 1int
{ exists|i: int, j: int| 0 <= i <= j <= s.len() && j_ws(s.take(i)) && j_val(#[trigger] s.subrange(i, j), v) && j_ws(s.skip(j)) }
/// one or more items with commas between them
pub open spec fn j_items(s: Seq<char>, a: Seq<SV>) -> bool decreases a, 2int
{
    if a.len() == 0 { false } else if a.len() == 1 { j_item(s, a.last()) }
    else { exists|i: int| 0 <= i < s.len() && s[i] == ',' && j_items(#[trigger] s.take(i), a.drop_last()) && j_item(s.skip(i + 1), a.last()) }
}
/// blanks, a string, blanks
pub open spec fn j_key(s: Seq<char>, k: Seq<char>) -> bool
{ exists|i: int, j: int| 0 <= i <= j <= s.len() && j_ws(s.take(i)) && j_str(#[trigger] s.subrange(i, j), k) && j_ws(s.skip(j)) }
pub open spec fn j_member(s: Seq<char>, k: Seq<char>, v: SV) -> bool decreases v, 2int
{ exists|i: int| 0 <= i < s.len() && s[i] == ':' && j_key(#[trigger] s.take(i), k) && j_item(s.skip(i + 1), v) }
pub open spec fn j_members(s: Seq<char>, f: Seq<SF>) -> bool decreases f, 3int
{
    if f.len() == 0 { false } else if f.len() == 1 { j_member(s, f.last().0, f.last().1) }
    else { exists|i: int| 0 <= i < s.len() && s[i] == ',' && j_members(#[trigger] s.take(i), f.drop_last()) && j_member(s.skip(i + 1), f.last().0, f.last().1) }
}
/// s is a JSON text (RFC 8259) for v: members in order, none missing
pub open spec fn json(s: Seq<char>, v: SV) -> bool { j_item(s, v) }

// ---- serde_json (trusted) --------------------------------------------------------------------------
/// serde_json::Number::from_f64(f).to_string()
pub uninterp spec fn show_json(f: f64) -> Seq<char>;
/// serde_json::to_string(&str)
pub uninterp spec fn serde_str(s: Seq<char>) -> Seq<char>;
pub axiom fn ax_serde_str(s: Seq<char>) ensures j_str(serde_str(s), s);
pub axiom fn ax_show_json(f: f64) requires f_is_finite(f) ensures num_syntax(enc(show_json(f))), parse_f64(show_json(f)) == Some(f);

// ---- what the renderers write ------------------------------------------------------------------------
/// a non-finite number has no JSON form and becomes null
pub open spec fn j_nrm(v: SV) -> SV decreases v
{ match v { SV::Prim(SP::Num(f)) => if f_is_finite(f) { v } else { SV::Prim(SP::Null) }, SV::Prim(_) => v, SV::Arr(a) => SV::Arr(j_nrms(a)), SV::Obj(f) => SV::Obj(j_nrmf(f)) } }
pub open spec fn j_nrms(a: Seq<SV>) -> Seq<SV> decreases a { if a.len() == 0 { Seq::empty() } else { j_nrms(a.drop_last()).push(j_nrm(a.last())) } }
pub open spec fn j_nrmf(f: Seq<SF>) -> Seq<SF> decreases f { if f.len() == 0 { Seq::empty() } else { j_nrmf(f.drop_last()).push((f.last().0, j_nrm(f.last().1))) } }
pub open spec fn cat(a: Seq<Seq<char>>) -> Seq<char> decreases a.len() { if a.len() == 0 { Seq::empty() } else { cat(a.drop_last()) + a.last() } }
/// a character in a string of the tree renderer
pub open spec fn t_char(c: char) -> Seq<char> {
    if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if is_control(c) { seq!['\\', 'u'] + hex4(c as int) } else { seq![c] }
}
/// char::is_control: the characters of category Cc
pub open spec fn is_control(c: char) -> bool { (c as int) < 0x20 || 0x7f <= c as int <= 0x9f }
pub open spec fn t_chars(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { t_chars(s.drop_last()) + t_char(s.last()) } }
/// a string: as the tree renderer or as the stream renderer (serde_json) writes it
pub open spec fn w_str(s: Seq<char>, t: bool) -> Seq<char> { if t { seq!['"'] + t_chars(s) + seq!['"'] } else { serde_str(s) } }
pub open spec fn w_prim(p: SP, t: bool) -> Seq<char> {
    match p { SP::Null => "null"@, SP::Bool(b) => if b { "true"@ } else { "false"@ }, SP::Num(f) => if f_is_finite(f) { show_json(f) } else { "null"@ }, SP::Str(s) => w_str(s, t) }
}
/// line break and indentation before an item at depth n, when indenting by w
pub open spec fn w_sep(n: int, w: nat) -> Seq<char> { if w > 0 { seq!['\n'] + sp(n * w) } else { Seq::empty() } }
pub open spec fn w_colon(w: nat) -> Seq<char> { if w > 0 { seq![':', ' '] } else { seq![':'] } }
pub open spec fn w_comma(b: bool) -> Seq<char> { if b { seq![','] } else { Seq::empty() } }
pub open spec fn w_close(b: bool, n: int, w: nat, c: char) -> Seq<char> { (if b { w_sep(n, w) } else { Seq::empty() }) + seq![c] }
pub open spec fn jw_val(v: SV, n: int, w: nat, t: bool) -> Seq<char> decreases v, 0int
{
    match v {
        SV::Prim(p) => w_prim(p, t),
        SV::Arr(a) => seq!['['] + jw_items(a, n + 1, w, t) + w_close(a.len() > 0, n, w, ']'),
        SV::Obj(f) => seq!['{'] + jw_members(f, n + 1, w, t) + w_close(f.len() > 0, n, w, '}'),
    }
}
pub open spec fn jw_items(a: Seq<SV>, n: int, w: nat, t: bool) -> Seq<char> decreases a, 1int
{ if a.len() == 0 { Seq::empty() } else { jw_items(a.drop_last(), n, w, t) + w_comma(a.len() > 1) + w_sep(n, w) + jw_val(a.last(), n, w, t) } }
pub open spec fn jw_members(f: Seq<SF>, n: int, w: nat, t: bool) -> Seq<char> decreases f, 1int
{ if f.len() == 0 { Seq::empty() } else { jw_members(f.drop_last(), n, w, t) + w_comma(f.len() > 1) + w_sep(n, w) + w_str(f.last().0, t) + w_colon(w) + jw_val(f.last().1, n, w, t) } }

/// a lower bound for the memory a value takes: one per node and per member, and the text bytes
pub open spec fn msz(v: SV) -> nat decreases v
{ match v { SV::Prim(SP::Str(s)) => 1 + blen(s) as nat, SV::Prim(_) => 1, SV::Arr(a) => 1 + mszs(a), SV::Obj(f) => 1 + mszf(f) } }
pub open spec fn mszs(a: Seq<SV>) -> nat decreases a { if a.len() == 0 { 0 } else { mszs(a.drop_last()) + msz(a.last()) + 1 } }
pub open spec fn mszf(f: Seq<SF>) -> nat decreases f { if f.len() == 0 { 0 } else { mszf(f.drop_last()) + msz(f.last().1) + 1 + blen(f.last().0) as nat } }
pub proof fn l_mszs(a: Seq<SV>, i: int) requires 0 <= i < a.len() ensures msz(a[i]) < mszs(a), a.len() <= mszs(a) decreases a.len()
{ if a.len() > 1 { l_mszs(a.drop_last(), if i < a.len() - 1 { i } else { 0 }); } }
pub proof fn l_mszf(f: Seq<SF>, i: int) requires 0 <= i < f.len() ensures msz(f[i].1) + blen(f[i].0) < mszf(f), f.len() <= mszf(f) decreases f.len()
{ lemma_blen_nonneg(f.last().0); if f.len() > 1 { l_mszf(f.drop_last(), if i < f.len() - 1 { i } else { 0 }); } }
pub proof fn lemma_blen_nonneg(s: Seq<char>) ensures blen(s) >= 0 {}
// ---- the stream renderer ---------------------------------------------------------------------------
/// an open object (comma needed, value expected) or array (comma needed)
pub enum JC { Obj(bool, bool), Arr(bool) }
/// before a value: in an array a comma and a line break
pub open spec fn s_pre(st: Seq<JC>, w: nat) -> Seq<char>
{ if st.len() == 0 { Seq::empty() } else { match st.last() { JC::Arr(c) => w_comma(c) + w_sep(st.len() as int, w), JC::Obj(_, _) => Seq::empty() } } }
/// after a container
pub open spec fn s_done(st: Seq<JC>) -> Seq<JC>
{ if st.len() == 0 { st } else { match st.last() { JC::Arr(_) => st.drop_last().push(JC::Arr(true)), JC::Obj(_, _) => st.drop_last().push(JC::Obj(true, false)) } } }
/// an object whose member has no key yet: no value may come here
pub open spec fn s_keyless(st: Seq<JC>) -> bool { st.len() > 0 && (match st.last() { JC::Obj(_, x) => !x, JC::Arr(_) => false }) }
pub open spec fn s_step(st: Seq<JC>, e: SE, w: nat) -> Option<(Seq<JC>, Seq<char>)> {
    match e {
        SE::StartObject => if s_keyless(st) { None } else { Some((st.push(JC::Obj(false, false)), s_pre(st, w) + seq!['{'])) },
        SE::StartArray(_) => if s_keyless(st) { None } else { Some((st.push(JC::Arr(false)), s_pre(st, w) + seq!['['])) },
        SE::EndObject => if st.len() == 0 { None } else { match st.last() { JC::Obj(c, _) => Some((s_done(st.drop_last()), w_close(c, st.len() - 1, w, '}'))), _ => None } },
        SE::EndArray => if st.len() == 0 { None } else { match st.last() { JC::Arr(c) => Some((s_done(st.drop_last()), w_close(c, st.len() - 1, w, ']'))), _ => None } },
        SE::Key(k, _) => if st.len() == 0 { None } else { match st.last() {
            JC::Obj(c, _) => Some((st.drop_last().push(JC::Obj(true, true)), w_comma(c) + w_sep(st.len() as int, w) + serde_str(k) + w_colon(w))), _ => None } },
        SE::Prim(p) => if st.len() == 0 { Some((st, w_prim(p, false))) } else { match st.last() {
            JC::Obj(c, x) => if x { Some((st.drop_last().push(JC::Obj(c, false)), w_prim(p, false))) } else { None },
            JC::Arr(_) => Some((st.drop_last().push(JC::Arr(true)), s_pre(st, w) + w_prim(p, false))) } },
    }
}
pub open spec fn s_run(st: Seq<JC>, e: Seq<SE>, w: nat) -> Option<(Seq<JC>, Seq<char>)> decreases e.len()
{
    if e.len() == 0 { Some((st, Seq::empty())) }
    else { match s_run(st, e.drop_last(), w) { None => None, Some(x) => match s_step(x.0, e.last(), w) { None => None, Some(y) => Some((y.0, x.1 + y.1)) } } }
}
/// the text of an event list
pub open spec fn s_text(e: Seq<SE>, w: nat) -> Option<Seq<char>>
{ match s_run(Seq::empty(), e, w) { Some(x) => if x.0.len() == 0 { Some(x.1) } else { None }, None => None } }
} // verus!
}
