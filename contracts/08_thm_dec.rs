/// Theorems about the decoder's specification function.
pub mod vthm_dec {
use vstd::prelude::*;
use crate::vutf::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_dec::*;
use crate::vlem_tok::*;
use crate::vthm_tok::*;
verus! {
broadcast use vstd::group_vstd_default;

/// y reads everything x reads: the same lines, and y is lenient or finds no blank line that x does not find
pub open spec fn rel(x: DC, y: DC) -> bool {
    &&& x.l.len() == y.l.len()
    &&& forall|i: int| 0 <= i < x.l.len() ==> x.l[i].depth == #[trigger] y.l[i].depth && x.l[i].c == y.l[i].c
    &&& y.strict ==> x.strict && (forall|i: int, j: int| 0 <= i < x.l.len() && 0 <= j < x.l.len() && #[trigger] blank_in(y.b, y.l[i].n, y.l[j].n) ==> blank_in(x.b, x.l[i].n, x.l[j].n))
}
proof fn r_rows(x: DC, y: DC, acc: Seq<DV>, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int)
    requires rel(x, y), 0 <= p, d_rows(x, acc, p, n, f, d, depth) is Some
    ensures d_rows(y, acc, p, n, f, d, depth) == d_rows(x, acc, p, n, f, d, depth), p <= (d_rows(x, acc, p, n, f, d, depth)->0).1 <= (if p <= x.l.len() { x.l.len() as int } else { p })
    decreases x.l.len() - p
{
    hide(split_vals); hide(p_prims);
    if p >= x.l.len() || acc.len() >= n || x.l[p].depth != depth { assert(p < x.l.len() ==> x.l[p].depth == y.l[p].depth); }
    else {
        assert(x.l[p].depth == y.l[p].depth);
        match d_row(x.strict, f, d, x.l[p].c) { None => {}, Some(r) => { r_rows(x, y, acc.push(r), p + 1, n, f, d, depth); } }
    }
}
proof fn r_tab(x: DC, y: DC, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int)
    requires rel(x, y), 0 <= p, d_tab(x, p, n, f, d, depth) is Some
    ensures d_tab(y, p, n, f, d, depth) == d_tab(x, p, n, f, d, depth)
{
    hide(d_rows); hide(c_unq); hide(blank_in);
    r_rows(x, y, Seq::empty(), p, n, f, d, depth + 1);
    let q = (d_rows(x, Seq::empty(), p, n, f, d, depth + 1)->0).1;
    if q < x.l.len() { assert(x.l[q].depth == y.l[q].depth); }
    if q > p { assert(p < x.l.len()); assert(x.l[p].depth == y.l[p].depth); assert(blank_in(y.b, y.l[p].n, y.l[q - 1].n) ==> !y.strict || blank_in(x.b, x.l[p].n, x.l[q - 1].n)); }
}
proof fn r_arr(x: DC, y: DC, p: int, h: SHdr, depth: int)
    requires rel(x, y), 0 <= p, d_arr(x, p, h, depth) is Some
    ensures d_arr(y, p, h, depth) == d_arr(x, p, h, depth)
    decreases x.l.len() - p, 4int
{
    hide(split_vals); hide(p_prims); hide(trim); hide(d_tab);
    match h.inl {
        Some(s) => {},
        None => match h.fields {
            Some(f) => if f.len() > 0 { r_tab(x, y, p, h.len as nat, f, h.delim, depth) } else { r_list(x, y, p, h.len as nat, depth) },
            None => r_list(x, y, p, h.len as nat, depth),
        },
    }
}
proof fn r_list(x: DC, y: DC, p: int, n: nat, depth: int)
    requires rel(x, y), 0 <= p, d_list(x, p, n, depth) is Some
    ensures d_list(y, p, n, depth) == d_list(x, p, n, depth)
    decreases x.l.len() - p, 3int
{
    hide(is_item); hide(blank_in);
    r_items(x, y, Seq::empty(), p, n, depth + 1);
    let q = (d_items(x, Seq::empty(), p, n, depth + 1)->0).1;
    if q < x.l.len() { assert(x.l[q].depth == y.l[q].depth); }
    if q > p { assert(p < x.l.len()); assert(x.l[p].depth == y.l[p].depth); assert(blank_in(y.b, y.l[p].n, y.l[q - 1].n) ==> !y.strict || blank_in(x.b, x.l[p].n, x.l[q - 1].n)); }
}
proof fn r_items(x: DC, y: DC, acc: Seq<DV>, p: int, n: nat, d: int)
    requires rel(x, y), 0 <= p, d_items(x, acc, p, n, d) is Some
    ensures d_items(y, acc, p, n, d) == d_items(x, acc, p, n, d), p <= (d_items(x, acc, p, n, d)->0).1, (d_items(x, acc, p, n, d)->0).1 <= (if p <= x.l.len() { x.l.len() as int } else { p })
    decreases x.l.len() - p, 2int
{
    hide(is_item);
    if p < x.l.len() { assert(x.l[p].depth == y.l[p].depth); }
    if p < 0 || p >= x.l.len() || acc.len() >= n || x.l[p].depth != d || !is_item(x.l[p].c) {}
    else { r_item(x, y, p, d); match d_item(x, p, d) { None => {}, Some((v, q)) => { if p < q <= x.l.len() { r_items(x, y, acc.push(v), q, n, d); } } } }
}
proof fn r_item(x: DC, y: DC, p: int, d: int)
    requires rel(x, y), 0 <= p, d_item(x, p, d) is Some
    ensures d_item(y, p, d) == d_item(x, p, d)
    decreases x.l.len() - p, 1int
{
    hide(hdr); hide(trim); hide(is_arr_hdr_content);
    assert(p < x.l.len()); assert(x.l[p].depth == y.l[p].depth);
    let c = x.l[p].c; let a = c.skip(2);
    if c == "-"@ || !("- "@).is_prefix_of(c) || trim(a).len() == 0 {}
    else { match hdr(a, ',') {
        HR::Err => {},
        HR::Yes(h) => if is_arr_hdr_content(a) { r_arr(x, y, p + 1, h, d); }
            else if h.key is Some && h.fields is Some {
                r_arr(x, y, p + 1, h, d + 1);
                match d_arr(x, p + 1, h, d + 1) { None => {}, Some((v, q)) => { if p < q <= x.l.len() { r_follow(x, y, seq![(h.key->0, h.kq, v)], q, d + 1); } } }
            } else { r_item_plain(x, y, a, p, d); },
        HR::No => r_item_plain(x, y, a, p, d),
    } }
}
proof fn r_item_plain(x: DC, y: DC, a: Seq<char>, p: int, d: int)
    requires rel(x, y), 0 <= p, d_item_plain(x, a, p, d) is Some
    ensures d_item_plain(y, a, p, d) == d_item_plain(x, a, p, d)
    decreases x.l.len() - p, 0int
{
    hide(is_kv_content); hide(p_prim);
    assert(p < x.l.len());
    if is_kv_content(a) {
        r_kv(x, y, p + 1, a, d + 1);
        match d_kv(x, p + 1, a, d + 1) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { r_follow(x, y, seq![f], q, d + 1); } } }
    }
}
proof fn r_follow(x: DC, y: DC, acc: Seq<DF>, p: int, d: int)
    requires rel(x, y), 0 <= p, d_follow(x, acc, p, d) is Some
    ensures d_follow(y, acc, p, d) == d_follow(x, acc, p, d)
    decreases x.l.len() - p, 0int
{
   
    if p < x.l.len() { assert(x.l[p].depth == y.l[p].depth); }
    if p < 0 || p >= x.l.len() || x.l[p].depth != d || ("- "@).is_prefix_of(x.l[p].c) {}
    else { r_kv(x, y, p + 1, x.l[p].c, d); match d_kv(x, p + 1, x.l[p].c, d) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { r_follow(x, y, acc.push(f), q, d); } } } }
}
proof fn r_kv(x: DC, y: DC, p: int, c: Seq<char>, depth: int)
    requires rel(x, y), 0 <= p, d_kv(x, p, c, depth) is Some
    ensures d_kv(y, p, c, depth) == d_kv(x, p, c, depth)
    decreases x.l.len() - p, 6int
{
    hide(hdr);
    match hdr(c, ',') {
        HR::Err => {},
        HR::Yes(h) => if h.key is Some { r_arr(x, y, p, h, depth); } else { r_kv_plain(x, y, p, c, depth); },
        HR::No => r_kv_plain(x, y, p, c, depth),
    }
}
proof fn r_kv_plain(x: DC, y: DC, p: int, c: Seq<char>, depth: int)
    requires rel(x, y), 0 <= p, d_kv_plain(x, p, c, depth) is Some
    ensures d_kv_plain(y, p, c, depth) == d_kv_plain(x, p, c, depth)
    decreases x.l.len() - p, 5int
{
    hide(p_key); hide(p_prim); hide(trim);
    if p < x.l.len() { assert(x.l[p].depth == y.l[p].depth); }
    match p_key(c) {
        None => {},
        Some((k, e, q)) => {
            let rest = trim(c.skip(e));
            if rest.len() == 0 { if 0 <= p < x.l.len() && x.l[p].depth > depth { r_fields(x, y, Seq::empty(), p, depth + 1, None); } }
        },
    }
}
proof fn r_fields(x: DC, y: DC, acc: Seq<DF>, p: int, base: int, cd: Option<int>)
    requires rel(x, y), 0 <= p, d_fields(x, acc, p, base, cd) is Some
    ensures d_fields(y, acc, p, base, cd) == d_fields(x, acc, p, base, cd)
    decreases x.l.len() - p, 3int
{
   
    if p < x.l.len() { assert(x.l[p].depth == y.l[p].depth); }
    if p < 0 || p >= x.l.len() || x.l[p].depth < base {}
    else {
        let d = match cd { Some(d) => d, None => x.l[p].depth };
        if x.l[p].depth != d {}
        else { r_kv(x, y, p + 1, x.l[p].c, d); match d_kv(x, p + 1, x.l[p].c, d) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { r_fields(x, y, acc.push(f), q, base, Some(d)); } } } }
    }
}
proof fn r_top(x: DC, y: DC, acc: Seq<DF>, p: int)
    requires rel(x, y), 0 <= p, d_top(x, acc, p) is Some
    ensures d_top(y, acc, p) == d_top(x, acc, p)
    decreases x.l.len() - p
{
   
    if p < x.l.len() { assert(x.l[p].depth == y.l[p].depth); }
    if p < 0 || p >= x.l.len() || x.l[p].depth != 0 {}
    else { r_kv(x, y, p + 1, x.l[p].c, 0); match d_kv(x, p + 1, x.l[p].c, 0) { None => {}, Some((f, q)) => { if 0 < q <= x.l.len() { if p < q { r_top(x, y, acc.push(f), q); } } } } }
}
proof fn r_root(x: DC, y: DC)
    requires rel(x, y), d_root(x) is Some
    ensures d_root(y) == d_root(x)
{
    hide(hdr); hide(is_arr_hdr_content); hide(is_kv_line); hide(p_prim); hide(trim); hide(d_top);
    if x.l.len() > 0 {
        assert(x.l[0].depth == y.l[0].depth);
        let c = x.l[0].c;
        if is_arr_hdr_content(c) && hdr(c, ',') is Err {}
        else if is_arr_hdr_content(c) && hdr(c, ',') is Yes { r_arr(x, y, 1, hdr(c, ',')->Yes_0, 0); }
        else if x.l.len() == 1 && !is_kv_line(c) {}
        else { r_kv(x, y, 1, c, 0); match d_kv(x, 1, c, 0) { None => {}, Some((f, q)) => { if 0 < q <= x.l.len() { r_top(x, y, seq![f], q); } } } }
    }
}

// ---- scanning ---------------------------------------------------------------------------------
proof fn s_lenient(r: Seq<Seq<char>>, n0: int, w: nat)
    requires scan(r, n0, w, true) is Some
    ensures scan(r, n0, w, false) == scan(r, n0, w, true)
    decreases r.len()
{ hide(p_line); if r.len() > 0 { s_lenient(r.drop_last(), n0, w); reveal(p_line); assert(p_line(r.last(), w, true) is Err || p_line(r.last(), w, true) == p_line(r.last(), w, false)); } }

/// C16: what strict decoding accepts, lenient decoding reads as the same tree
pub proof fn thm_strict_lenient(r: Seq<Seq<char>>, w: nat)
    requires d_doc(r, w, true) is Some
    ensures d_doc(r, w, false) == d_doc(r, w, true)
{
    hide(scan); hide(d_root);
    s_lenient(r, 0, w);
    let (l, b) = scan(r, 0, w, true)->0;
    r_root(DC { l, b, strict: true }, DC { l, b, strict: false });
}

/// the same non-blank lines
pub open spec fn same_lines(l: Seq<SL>, m: Seq<SL>) -> bool
{ l.len() == m.len() && (forall|i: int| 0 <= i < l.len() ==> l[i].depth == #[trigger] m[i].depth && l[i].c == m[i].c) }
pub open spec fn is_blank(s: Seq<char>) -> bool { trim(s.skip(lead(s) as int)).len() == 0 }
proof fn s_remove(r: Seq<Seq<char>>, i: int, w: nat, strict: bool)
    requires 0 <= i < r.len(), is_blank(r[i])
    ensures scan(r, 0, w, strict) is Some <==> scan(r.remove(i), 0, w, strict) is Some,
        scan(r, 0, w, strict) is Some ==> same_lines((scan(r, 0, w, strict)->0).0, (scan(r.remove(i), 0, w, strict)->0).0)
    decreases r.len()
{
    if i == r.len() - 1 { assert(r.remove(i) =~= r.drop_last()); assert(r.last() == r[i]); assert(p_line(r.last(), w, strict) is Blank);
        if scan(r, 0, w, strict) is Some { assert(scan(r.drop_last(), 0, w, strict) is Some); assert((scan(r, 0, w, strict)->0).0 == (scan(r.drop_last(), 0, w, strict)->0).0); } }
    else {
        let u = r.remove(i);
        s_remove(r.drop_last(), i, w, strict);
        assert(u.drop_last() =~= r.drop_last().remove(i));
        assert(u.last() == r.last());
        match scan(r.drop_last(), 0, w, strict) {
            None => { assert(scan(u.drop_last(), 0, w, strict) is None); },
            Some((l, b)) => {
                let (l2, b2) = scan(u.drop_last(), 0, w, strict)->0;
                assert(same_lines(l, l2));
                match p_line(r.last(), w, strict) {
                    LR::Err => {}, LR::Blank => { assert((scan(r, 0, w, strict)->0).0 == l); assert((scan(u, 0, w, strict)->0).0 == l2); },
                    LR::Line(d, c) => {
                        let m = l.push(SL { depth: d, c, n: r.len() as int }); let m2 = l2.push(SL { depth: d, c, n: u.len() as int });
                        assert((scan(r, 0, w, strict)->0).0 == m); assert((scan(u, 0, w, strict)->0).0 == m2);
                        assert forall|k: int| 0 <= k < m.len() implies m[k].depth == #[trigger] m2[k].depth && m[k].c == m2[k].c by { if k < l.len() { assert(l[k].depth == l2[k].depth); assert(m[k] == l[k]); assert(m2[k] == l2[k]); } }
                    },
                }
            },
        }
    }
}
/// C13: in lenient mode a blank line, wherever it stands, changes nothing
pub proof fn thm_blank_lenient(r: Seq<Seq<char>>, i: int, w: nat)
    requires 0 <= i < r.len(), is_blank(r[i])
    ensures d_doc(r.remove(i), w, false) == d_doc(r, w, false)
{
    hide(scan); hide(d_root);
    s_remove(r, i, w, false);
    if scan(r, 0, w, false) is Some {
        let x = DC { l: (scan(r, 0, w, false)->0).0, b: (scan(r, 0, w, false)->0).1, strict: false };
        let y = DC { l: (scan(r.remove(i), 0, w, false)->0).0, b: (scan(r.remove(i), 0, w, false)->0).1, strict: false };
        assert(rel(x, y) && rel(y, x));
        if d_root(x) is Some { r_root(x, y); }
        if d_root(y) is Some { r_root(y, x); }
    }
}
proof fn s_numbers(r: Seq<Seq<char>>, w: nat, strict: bool)
    requires scan(r, 0, w, strict) is Some
    ensures forall|i: int| 0 <= i < (scan(r, 0, w, strict)->0).0.len() ==> (#[trigger] (scan(r, 0, w, strict)->0).0[i]).n <= r.len()
    decreases r.len()
{ if r.len() > 0 { s_numbers(r.drop_last(), w, strict); } }
/// C18: blank lines at the end change nothing, in either mode
pub proof fn thm_blank_end(r: Seq<Seq<char>>, s: Seq<char>, w: nat, strict: bool)
    requires is_blank(s)
    ensures d_doc(r.push(s), w, strict) == d_doc(r, w, strict)
{
    hide(d_root);
    assert(r.push(s).drop_last() =~= r); assert(r.push(s).last() == s);
    if scan(r, 0, w, strict) is Some {
        s_numbers(r, w, strict);
        let (l, b) = scan(r, 0, w, strict)->0;
        let k = r.len() as int;
        let b2 = b.push(k + 1);
        let x = DC { l, b, strict };
        let y = DC { l, b: b2, strict };
        assert(scan(r.push(s), 0, w, strict) == Some((l, b2)));
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] blank_in(b2, l[i].n, l[j].n) == blank_in(b, l[i].n, l[j].n) by {
            assert(l[j].n <= k);
            if blank_in(b, l[i].n, l[j].n) { let z = choose|z: int| 0 <= z < b.len() && l[i].n < #[trigger] b[z] < l[j].n; assert(b2[z] == b[z]); }
            if blank_in(b2, l[i].n, l[j].n) { let z = choose|z: int| 0 <= z < b2.len() && l[i].n < #[trigger] b2[z] < l[j].n; assert(z < b.len()); assert(b2[z] == b[z]); }
        }
        assert(rel(x, y)); assert(rel(y, x));
        if d_root(x) is Some { r_root(x, y); }
        if d_root(y) is Some { r_root(y, x); }
    }
}
/// C13: strict mode reads no content line with a tab in its indentation or an odd indentation
pub proof fn thm_indent(r: Seq<Seq<char>>, i: int, w: nat)
    requires d_doc(r, w, true) is Some, 0 <= i < r.len(), !is_blank(r[i])
    ensures !r[i].take(lead_st(r[i]) as int).contains('\t'), w == 0 ==> lead(r[i]) == 0, w > 0 ==> lead(r[i]) as int % w as int == 0
{ s_indent(r, i, w); }
proof fn s_indent(r: Seq<Seq<char>>, i: int, w: nat)
    requires scan(r, 0, w, true) is Some, 0 <= i < r.len(), !is_blank(r[i])
    ensures !r[i].take(lead_st(r[i]) as int).contains('\t'), w == 0 ==> lead(r[i]) == 0, w > 0 ==> lead(r[i]) as int % w as int == 0
    decreases r.len()
{ if i < r.len() - 1 { s_indent(r.drop_last(), i, w); assert(r.drop_last()[i] == r[i]); } else { assert(r.last() == r[i]); } }
proof fn s_total(r: Seq<Seq<char>>, w: nat)
    ensures scan(r, 0, w, false) is Some decreases r.len()
{ if r.len() > 0 { s_total(r.drop_last(), w); } }
proof fn lead_skip(s: Seq<char>, j: int)
    requires 0 <= j <= lead(s)
    ensures lead(s.skip(j)) == lead(s) - j, s.skip(j).skip(lead(s) - j) =~= s.skip(lead(s) as int)
    decreases j
{
    lemma_lead(s);
    if j > 0 { lead_skip(s.skip(1), j - 1); assert(s.skip(1).skip(j - 1) =~= s.skip(j)); } else { assert(s.skip(0) =~= s); }
}
proof fn s_odd(r: Seq<Seq<char>>, i: int, w: nat)
    requires 0 <= i < r.len(), w > 0
    ensures scan(r.update(i, r[i].skip(lead(r[i]) as int % w as int)), 0, w, false) == scan(r, 0, w, false)
    decreases r.len()
{
    let k = lead(r[i]) as int; let j = k % w as int; let t = r[i].skip(j); let q = r.update(i, t);
    if i < r.len() - 1 {
        s_odd(r.drop_last(), i, w);
        assert(q.drop_last() =~= r.drop_last().update(i, t)); assert(q.last() == r.last());
    } else {
        assert(0 <= j <= k && (k - j) / (w as int) == k / (w as int)) by (nonlinear_arith) requires w > 0, k >= 0, j == k % w as int;
        lead_skip(r[i], j);
        assert(q.drop_last() =~= r.drop_last()); assert(q.last() == t); assert(r.last() == r[i]);
        assert(p_line(t, w, false) == p_line(r[i], w, false));
    }
}
/// C13: lenient mode refuses no line for its indentation; it rounds it down to a whole level
pub proof fn thm_indent_lenient(r: Seq<Seq<char>>, i: int, w: nat)
    requires 0 <= i < r.len(), w > 0
    ensures scan(r, 0, w, false) is Some,
        d_doc(r.update(i, r[i].skip(lead(r[i]) as int % w as int)), w, false) == d_doc(r, w, false)
{ s_total(r, w); s_odd(r, i, w); }

// ---- counts -----------------------------------------------------------------------------------
/// every array carries the number of its items
pub open spec fn counted(v: DV) -> bool decreases v
{
    match v { DV::Prim(_) => true, DV::Arr(n, a) => n == a.len() && counteds(a), DV::Obj(f) => countedf(f) }
}
pub open spec fn counteds(a: Seq<DV>) -> bool decreases a { a.len() == 0 || (counteds(a.drop_last()) && counted(a.last())) }
pub open spec fn countedf(f: Seq<DF>) -> bool decreases f { f.len() == 0 || (countedf(f.drop_last()) && counted(f.last().2)) }
proof fn c_push(a: Seq<DV>, v: DV) requires counteds(a), counted(v) ensures counteds(a.push(v)) { assert(a.push(v).drop_last() =~= a); }
proof fn f_push(a: Seq<DF>, v: DF) requires countedf(a), counted(v.2) ensures countedf(a.push(v)) { assert(a.push(v).drop_last() =~= a); }
proof fn f_one(v: DF) requires counted(v.2) ensures countedf(seq![v]) { assert(seq![v] =~= Seq::<DF>::empty().push(v)); f_push(Seq::empty(), v); }
proof fn c_prims(p: Seq<SP>) ensures counteds(prim_items(p)) decreases p.len()
{ if p.len() > 0 { c_prims(p.drop_last()); assert(prim_items(p) =~= prim_items(p.drop_last()).push(DV::Prim(p.last()))); c_push(prim_items(p.drop_last()), DV::Prim(p.last())); } }
proof fn c_fields(f: Seq<DF>)
    requires forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).2 is Prim
    ensures countedf(f) decreases f.len()
{ if f.len() > 0 { let g = f.drop_last(); assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).2 is Prim by { assert(g[i] == f[i]); } c_fields(g); assert(f.last() == f[f.len() - 1]); assert(f.last().2 is Prim); assert(counted(f.last().2)); } }
proof fn c_row(f: Seq<(Seq<char>, bool)>, d: char, c: Seq<char>)
    requires d_row(true, f, d, c) is Some
    ensures counted(d_row(true, f, d, c)->0), split_vals(c, d).len() == f.len()
{ hide(split_vals); hide(p_prims); let p = p_prims(split_vals(c, d))->0; let g = row_fields(f, p); assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).2 is Prim by {} c_fields(g); }
proof fn c_rows(x: DC, acc: Seq<DV>, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int)
    requires x.strict, counteds(acc), 0 <= p, d_rows(x, acc, p, n, f, d, depth) is Some
    ensures counteds((d_rows(x, acc, p, n, f, d, depth)->0).0)
    decreases x.l.len() - p
{
    hide(d_row);
    if p >= x.l.len() || acc.len() >= n || x.l[p].depth != depth {}
    else { match d_row(x.strict, f, d, x.l[p].c) { None => {}, Some(r) => { c_row(f, d, x.l[p].c); c_push(acc, r); c_rows(x, acc.push(r), p + 1, n, f, d, depth); } } }
}
proof fn c_arr(x: DC, p: int, h: SHdr, depth: int)
    requires x.strict, 0 <= p, d_arr(x, p, h, depth) is Some
    ensures counted((d_arr(x, p, h, depth)->0).0)
    decreases x.l.len() - p, 4int
{
    hide(split_vals); hide(p_prims); hide(trim); hide(d_rows); hide(blank_in); hide(c_unq);
    match h.inl {
        Some(s) => { if trim(s).len() > 0 { c_prims(p_prims(split_vals(s, h.delim))->0); } else { assert(counteds(Seq::empty())); } },
        None => match h.fields {
            Some(f) => if f.len() > 0 { assert(counteds(Seq::empty())); c_rows(x, Seq::empty(), p, h.len as nat, f, h.delim, depth + 1); } else { c_list(x, p, h.len as nat, depth) },
            None => c_list(x, p, h.len as nat, depth),
        },
    }
}
proof fn c_list(x: DC, p: int, n: nat, depth: int)
    requires x.strict, 0 <= p, d_list(x, p, n, depth) is Some
    ensures counted((d_list(x, p, n, depth)->0).0)
    decreases x.l.len() - p, 3int
{ hide(is_item); hide(blank_in); assert(counteds(Seq::empty())); c_items(x, Seq::empty(), p, n, depth + 1); }
proof fn c_items(x: DC, acc: Seq<DV>, p: int, n: nat, d: int)
    requires x.strict, 0 <= p, counteds(acc), d_items(x, acc, p, n, d) is Some
    ensures counteds((d_items(x, acc, p, n, d)->0).0)
    decreases x.l.len() - p, 2int
{
    hide(is_item);
    if p < 0 || p >= x.l.len() || acc.len() >= n || x.l[p].depth != d || !is_item(x.l[p].c) {}
    else { match d_item(x, p, d) { None => {}, Some((v, q)) => { if p < q <= x.l.len() { c_item(x, p, d); c_push(acc, v); c_items(x, acc.push(v), q, n, d); } } } }
}
proof fn c_item(x: DC, p: int, d: int)
    requires x.strict, 0 <= p, d_item(x, p, d) is Some
    ensures counted((d_item(x, p, d)->0).0)
    decreases x.l.len() - p, 1int
{
    hide(hdr); hide(trim); hide(is_arr_hdr_content);
    let c = x.l[p].c; let a = c.skip(2);
    assert(countedf(Seq::empty()));
    if c == "-"@ || !("- "@).is_prefix_of(c) || trim(a).len() == 0 {}
    else { match hdr(a, ',') {
        HR::Err => {},
        HR::Yes(h) => if is_arr_hdr_content(a) { c_arr(x, p + 1, h, d); }
            else if h.key is Some && h.fields is Some {
                match d_arr(x, p + 1, h, d + 1) { None => {}, Some((v, q)) => { if p < q <= x.l.len() { c_arr(x, p + 1, h, d + 1); f_one((h.key->0, h.kq, v)); c_follow(x, seq![(h.key->0, h.kq, v)], q, d + 1); } } }
            } else { c_item_plain(x, a, p, d); },
        HR::No => c_item_plain(x, a, p, d),
    } }
}
proof fn c_item_plain(x: DC, a: Seq<char>, p: int, d: int)
    requires x.strict, 0 <= p, d_item_plain(x, a, p, d) is Some
    ensures counted((d_item_plain(x, a, p, d)->0).0)
    decreases x.l.len() - p, 0int
{
    hide(is_kv_content); hide(p_prim);
    if is_kv_content(a) { match d_kv(x, p + 1, a, d + 1) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { c_kv(x, p + 1, a, d + 1); f_one(f); c_follow(x, seq![f], q, d + 1); } } } }
}
proof fn c_follow(x: DC, acc: Seq<DF>, p: int, d: int)
    requires x.strict, 0 <= p, countedf(acc), d_follow(x, acc, p, d) is Some
    ensures counted((d_follow(x, acc, p, d)->0).0)
    decreases x.l.len() - p, 0int
{
   
    if p < 0 || p >= x.l.len() || x.l[p].depth != d || ("- "@).is_prefix_of(x.l[p].c) {}
    else { match d_kv(x, p + 1, x.l[p].c, d) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { c_kv(x, p + 1, x.l[p].c, d); f_push(acc, f); c_follow(x, acc.push(f), q, d); } } } }
}
proof fn c_kv(x: DC, p: int, c: Seq<char>, depth: int)
    requires x.strict, 0 <= p, d_kv(x, p, c, depth) is Some
    ensures counted(((d_kv(x, p, c, depth)->0).0).2)
    decreases x.l.len() - p, 6int
{
    hide(hdr);
    match hdr(c, ',') {
        HR::Err => {},
        HR::Yes(h) => if h.key is Some { c_arr(x, p, h, depth); } else { c_kv_plain(x, p, c, depth); },
        HR::No => c_kv_plain(x, p, c, depth),
    }
}
proof fn c_kv_plain(x: DC, p: int, c: Seq<char>, depth: int)
    requires x.strict, 0 <= p, d_kv_plain(x, p, c, depth) is Some
    ensures counted(((d_kv_plain(x, p, c, depth)->0).0).2)
    decreases x.l.len() - p, 5int
{
    hide(p_key); hide(p_prim); hide(trim);
    assert(countedf(Seq::empty()));
    match p_key(c) {
        None => {},
        Some((k, e, q)) => { if trim(c.skip(e)).len() == 0 && 0 <= p < x.l.len() && x.l[p].depth > depth { c_dfields(x, Seq::empty(), p, depth + 1, None); } },
    }
}
proof fn c_dfields(x: DC, acc: Seq<DF>, p: int, base: int, cd: Option<int>)
    requires x.strict, 0 <= p, countedf(acc), d_fields(x, acc, p, base, cd) is Some
    ensures counted((d_fields(x, acc, p, base, cd)->0).0)
    decreases x.l.len() - p, 3int
{
   
    if p < 0 || p >= x.l.len() || x.l[p].depth < base {}
    else {
        let d = match cd { Some(d) => d, None => x.l[p].depth };
        if x.l[p].depth != d {}
        else { match d_kv(x, p + 1, x.l[p].c, d) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { c_kv(x, p + 1, x.l[p].c, d); f_push(acc, f); c_dfields(x, acc.push(f), q, base, Some(d)); } } } }
    }
}
proof fn c_top(x: DC, acc: Seq<DF>, p: int)
    requires x.strict, 0 <= p, countedf(acc), d_top(x, acc, p) is Some
    ensures counted(d_top(x, acc, p)->0)
    decreases x.l.len() - p
{
   
    if p < 0 || p >= x.l.len() || x.l[p].depth != 0 {}
    else { match d_kv(x, p + 1, x.l[p].c, 0) { None => {}, Some((f, q)) => { if p < q <= x.l.len() { c_kv(x, p + 1, x.l[p].c, 0); f_push(acc, f); c_top(x, acc.push(f), q); } } } }
}
/// C04, C05: whatever strict decoding accepts, every array in it declares exactly the items it holds, at every depth
pub proof fn thm_counts(r: Seq<Seq<char>>, w: nat)
    requires d_doc(r, w, true) is Some
    ensures counted(d_doc(r, w, true)->0)
{
    hide(scan); hide(hdr); hide(is_arr_hdr_content); hide(is_kv_line); hide(p_prim); hide(trim); hide(d_top);
    let (l, b) = scan(r, 0, w, true)->0;
    let x = DC { l, b, strict: true };
    assert(countedf(Seq::empty()));
    if x.l.len() > 0 {
        let c = x.l[0].c;
        if is_arr_hdr_content(c) && hdr(c, ',') is Err {}
        else if is_arr_hdr_content(c) && hdr(c, ',') is Yes { c_arr(x, 1, hdr(c, ',')->Yes_0, 0); }
        else if x.l.len() == 1 && !is_kv_line(c) {}
        else { match d_kv(x, 1, c, 0) { None => {}, Some((f, q)) => { if 0 < q <= x.l.len() { c_kv(x, 1, c, 0); f_one(f); c_top(x, seq![f], q); } } } }
    }
}
/// C04: a row strict decoding accepts has one cell per declared field
pub proof fn thm_row_width(f: Seq<(Seq<char>, bool)>, d: char, c: Seq<char>)
    requires d_row(true, f, d, c) is Some
    ensures split_vals(c, d).len() == f.len()
{ c_row(f, d, c); }
/// C04, C13: after the declared items of an array no further item or row follows, and no blank line lies between them
pub proof fn thm_array_end(x: DC, p: int, n: nat, f: Seq<(Seq<char>, bool)>, d: char, depth: int)
    requires x.strict, 0 <= p
    ensures
        d_list(x, p, n, depth) is Some ==> ({ let q = (d_list(x, p, n, depth)->0).1; !(q < x.l.len() && x.l[q].depth == depth + 1 && is_item(x.l[q].c)) && (q > p ==> !blank_in(x.b, x.l[p].n, x.l[q - 1].n)) }),
        d_tab(x, p, n, f, d, depth) is Some ==> ({ let q = (d_tab(x, p, n, f, d, depth)->0).1; !(q < x.l.len() && x.l[q].depth == depth + 1 && !("- "@).is_prefix_of(x.l[q].c) && data_row(x.l[q].c, d)) && (q > p ==> !blank_in(x.b, x.l[p].n, x.l[q - 1].n)) })
{ hide(d_rows); hide(blank_in); hide(is_item); hide(data_row); }
/// C15: a header above the cap is an error wherever a header is read: document root, field, item; in both modes
pub proof fn thm_cap_positions(x: DC, p: int, c: Seq<char>, d: int)
    requires hdr_nocap(c) is Some, hdr_nocap(c)->0 > max_len()
    ensures
        d_kv(x, p, c, d) is None,
        x.l.len() > 0 && x.l[0].c == c ==> d_root(x) is None,
        0 <= p < x.l.len() && ("- "@).is_prefix_of(x.l[p].c) && x.l[p].c.skip(2) == c && trim(c).len() > 0 && x.l[p].c != "-"@ ==> d_item(x, p, d) is None
{
    hide(hdr); hide(trim); hide(is_arr_hdr_content); hide(p_prim); hide(d_top);
    thm_cap_exact(c);
    lemma_over_colon(c);
}
pub proof fn c_close_range(s: Seq<char>, i: int)
    requires 0 <= i
    ensures c_close(s, i) is Some ==> i <= c_close(s, i)->0 < s.len() && s[c_close(s, i)->0] == '"'
    decreases s.len() - i
{ if i < s.len() { if s[i] == '\\' && i + 1 < s.len() { c_close_range(s, i + 2); } else if s[i] != '"' { c_close_range(s, i + 1); } } }
pub proof fn c_unq_range(s: Seq<char>, t: char, i: int, q: bool)
    requires 0 <= i
    ensures c_unq(s, t, i, q) is Some ==> i <= c_unq(s, t, i, q)->0 < s.len() && s[c_unq(s, t, i, q)->0] == t
    decreases s.len() - i
{
    if i < s.len() {
        if q && s[i] == '\\' && i + 1 < s.len() { c_unq_range(s, t, i + 2, q); }
        else if s[i] == '"' { c_unq_range(s, t, i + 1, !q); }
        else if s[i] == t && !q {} else { c_unq_range(s, t, i + 1, q); }
    }
}
proof fn lemma_over_colon(c: Seq<char>) requires hdr_nocap(c) is Some ensures is_kv_line(c)
{
    hide(p_bracket); hide(hdr_key);
    let bs = hdr_start(c)->0->0; let be = cfind(c, ']', bs)->0; let from = hdr_brace_end(c, be); let k = cfind(c, ':', from)->0;
    lemma_ltrim(c);
    c_close_range(ltrim(c), 1); lemma_cfind(c, '[', 0);
    assert(bs >= 0);
    lemma_cfind(c, ']', bs);
    lemma_cfind(c, '{', be + 1);
    if cfind(c, '{', be + 1) is Some { c_unq_range(c, '}', cfind(c, '{', be + 1)->0, false); }
    lemma_cfind(c, ':', from);
    assert(c[k] == ':');
    if c[0] == '"' {
        assert(!ws('"'));
        assert(ltrim(c) == c);
        let z = c_close(c, 1)->0;
        assert(z < bs <= be < k);
        assert(c.skip(z + 1)[k - z - 1] == ':');
    }
}
} // verus!
}
