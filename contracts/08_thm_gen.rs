/// Documents written by any conforming writer: lines with their meaning, and the proof that the decoder reads it.
pub mod vthm_gen {
use vstd::prelude::*;
use crate::vspec_str::*;
use crate::vspec_tok::*;
use crate::vspec_dec::*;
use crate::vspec_enc::*;
verus! {
broadcast use vstd::group_vstd_default;

/// What stands below a header or key: nothing, tabular rows, list items, nested fields.
pub enum GB { Leaf, Rows(Seq<Seq<char>>), Items(Seq<GI>), Fields(Seq<GF>) }
/// a field: the text of its line and what stands below
pub struct GF { pub c: Seq<char>, pub b: GB }
/// a list item: "-" alone, a primitive, an array, an object (first field on the item's line)
pub enum GI { Bare, Val(Seq<char>), Arr(Seq<char>, GB), Obj(GF, Seq<GF>) }
/// a document
pub enum GR { Prim(Seq<char>), Arr(Seq<char>, GB), Obj(Seq<GF>) }

// ---- the lines ---------------------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn gl_body(b: GB, n: int) -> Seq<WL> decreases b, 0int
{
    match b {
        GB::Leaf => Seq::empty(),
        GB::Rows(r) => Seq::new(r.len(), |i: int| WL { n, c: r[i] }),
        GB::Items(a) => gl_items(a, n),
        GB::Fields(f) => gl_fields(f, n),
    }
}
#[verifier::opaque]
pub open spec fn gl_field(f: GF, n: int) -> Seq<WL> decreases f, 1int { seq![WL { n, c: f.c }] + gl_body(f.b, n + 1) }
#[verifier::opaque]
pub open spec fn gl_fields(f: Seq<GF>, n: int) -> Seq<WL> decreases f, 2int
{ if f.len() == 0 { Seq::empty() } else { gl_field(f[0], n) + gl_fields(f.skip(1), n) } }
pub open spec fn hy(a: Seq<char>) -> Seq<char> { seq!['-', ' '] + a }
#[verifier::opaque]
pub open spec fn gl_item(v: GI, n: int) -> Seq<WL> decreases v, 1int
{
    match v {
        GI::Bare => seq![WL { n, c: seq!['-'] }],
        GI::Val(a) => seq![WL { n, c: hy(a) }],
        GI::Arr(a, b) => seq![WL { n, c: hy(a) }] + gl_body(b, n + 1),
        GI::Obj(f, r) => seq![WL { n, c: hy(f.c) }] + gl_body(f.b, n + 2) + gl_fields(r, n + 1),
    }
}
#[verifier::opaque]
pub open spec fn gl_items(a: Seq<GI>, n: int) -> Seq<WL> decreases a, 2int
{ if a.len() == 0 { Seq::empty() } else { gl_item(a[0], n) + gl_items(a.skip(1), n) } }
pub open spec fn gl_doc(r: GR) -> Seq<WL> {
    match r { GR::Prim(c) => seq![WL { n: 0, c }], GR::Arr(c, b) => seq![WL { n: 0, c }] + gl_body(b, 1), GR::Obj(f) => gl_fields(f, 0) }
}

// ---- the meaning ----------------------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn gm_arr(h: SHdr, b: GB) -> DV decreases b, 0int
{
    match h.inl {
        Some(s) => d_inline(true, h.len as nat, h.delim, s)->0,
        None => match b {
            GB::Rows(r) => DV::Arr(h.len as nat, Seq::new(r.len(), |i: int| d_row(true, h.fields->0, h.delim, r[i])->0)),
            GB::Items(a) => DV::Arr(h.len as nat, gm_items(a)),
            _ => DV::Arr(h.len as nat, Seq::empty()),
        },
    }
}
#[verifier::opaque]
pub open spec fn gm_sub(b: GB) -> DV decreases b, 0int { match b { GB::Fields(f) => DV::Obj(gm_fields(f)), _ => DV::Obj(Seq::empty()) } }
#[verifier::opaque]
pub open spec fn gm_field(f: GF) -> DF decreases f, 1int
{
    match hdr(f.c, ',') {
        HR::Yes(h) => (h.key->0, h.kq, gm_arr(h, f.b)),
        _ => { let (k, e, q) = p_key(f.c)->0; let rest = trim(f.c.skip(e));
            (k, q, if rest.len() == 0 { gm_sub(f.b) } else { DV::Prim(p_prim(rest)->0) }) }
    }
}
#[verifier::opaque]
pub open spec fn gm_fields(f: Seq<GF>) -> Seq<DF> decreases f, 2int
{ if f.len() == 0 { Seq::empty() } else { seq![gm_field(f[0])] + gm_fields(f.skip(1)) } }
#[verifier::opaque]
pub open spec fn gm_item(v: GI) -> DV decreases v, 1int
{
    match v {
        GI::Bare => DV::Obj(Seq::empty()),
        GI::Val(a) => DV::Prim(p_prim(a)->0),
        GI::Arr(a, b) => gm_arr(hdr(a, ',')->Yes_0, b),
        GI::Obj(f, r) => DV::Obj(seq![gm_field(f)] + gm_fields(r)),
    }
}
#[verifier::opaque]
pub open spec fn gm_items(a: Seq<GI>) -> Seq<DV> decreases a, 2int
{ if a.len() == 0 { Seq::empty() } else { seq![gm_item(a[0])] + gm_items(a.skip(1)) } }
pub open spec fn gm_doc(r: GR) -> DV
{ match r { GR::Prim(c) => DV::Prim(p_prim(trim(c))->0), GR::Arr(c, b) => gm_arr(hdr(c, ',')->Yes_0, b), GR::Obj(f) => DV::Obj(gm_fields(f)) } }

// ---- what makes a document conforming ----------------------------------------------------------------
/// the header's declaration fits what stands below it
#[verifier::opaque]
pub open spec fn ok_arr(h: SHdr, b: GB) -> bool decreases b, 0int
{
    match h.inl {
        Some(s) => b is Leaf && d_inline(true, h.len as nat, h.delim, s) is Some,
        None => if h.fields is Some && h.fields->0.len() > 0 { match b { GB::Rows(r) => r.len() == h.len && (forall|i: int| 0 <= i < r.len() ==> d_row(true, h.fields->0, h.delim, #[trigger] r[i]) is Some), _ => false } }
            else { match b { GB::Items(a) => a.len() == h.len && ok_items(a), _ => false } },
    }
}
#[verifier::opaque]
pub open spec fn ok_field(f: GF) -> bool decreases f, 1int
{
    !("- "@).is_prefix_of(f.c) && match hdr(f.c, ',') {
        HR::Err => false,
        HR::Yes(h) => h.key is Some && ok_arr(h, f.b),
        HR::No => p_key(f.c) is Some && { let rest = trim(f.c.skip((p_key(f.c)->0).1));
            if rest.len() == 0 { match f.b { GB::Fields(g) => ok_fields(g), _ => false } } else { f.b is Leaf && p_prim(rest) is Some } },
    }
}
#[verifier::opaque]
pub open spec fn ok_fields(f: Seq<GF>) -> bool decreases f, 2int { f.len() == 0 || (ok_field(f[0]) && ok_fields(f.skip(1))) }
#[verifier::opaque]
pub open spec fn ok_item(v: GI) -> bool decreases v, 1int
{
    match v {
        GI::Bare => true,
        GI::Val(a) => trim(a).len() > 0 && hdr(a, ',') is No && !is_kv_content(a) && p_prim(a) is Some,
        GI::Arr(a, b) => trim(a).len() > 0 && hdr(a, ',') is Yes && is_arr_hdr_content(a) && ok_arr(hdr(a, ',')->Yes_0, b),
        GI::Obj(f, r) => trim(f.c).len() > 0 && !is_arr_hdr_content(f.c) && is_kv_content(f.c) && ok_field(f) && ok_fields(r),
    }
}
#[verifier::opaque]
pub open spec fn ok_items(a: Seq<GI>) -> bool decreases a, 2int { a.len() == 0 || (ok_item(a[0]) && ok_items(a.skip(1))) }
pub open spec fn ok_doc(r: GR) -> bool {
    match r {
        GR::Prim(c) => !is_arr_hdr_content(c) && !is_kv_line(c) && p_prim(trim(c)) is Some,
        GR::Arr(c, b) => is_arr_hdr_content(c) && hdr(c, ',') is Yes && ok_arr(hdr(c, ',')->Yes_0, b),
        GR::Obj(f) => ok_fields(f) && (f.len() > 0 ==> !is_arr_hdr_content(f[0].c) && is_kv_line(f[0].c)),
    }
}

// ---- unfolding ------------------------------------------------------------------------------------
pub proof fn e_gl_body(b: GB, n: int) ensures gl_body(b, n) == ({
    match b {
        GB::Leaf => Seq::empty(),
        GB::Rows(r) => Seq::new(r.len(), |i: int| WL { n, c: r[i] }),
        GB::Items(a) => gl_items(a, n),
        GB::Fields(f) => gl_fields(f, n),
    }
})
{ reveal(gl_body); reveal(gl_field); reveal(gl_fields); reveal(gl_item); reveal(gl_items); }
pub proof fn e_gl_field(f: GF, n: int) ensures gl_field(f, n) == ({ seq![WL { n, c: f.c }] + gl_body(f.b, n + 1) })
{ reveal(gl_body); reveal(gl_field); reveal(gl_fields); reveal(gl_item); reveal(gl_items); }
pub proof fn e_gl_fields(f: Seq<GF>, n: int) ensures gl_fields(f, n) == ({ if f.len() == 0 { Seq::empty() } else { gl_field(f[0], n) + gl_fields(f.skip(1), n) } })
{ reveal(gl_body); reveal(gl_field); reveal(gl_fields); reveal(gl_item); reveal(gl_items); }
pub proof fn e_gl_item(v: GI, n: int) ensures gl_item(v, n) == ({
    match v {
        GI::Bare => seq![WL { n, c: seq!['-'] }],
        GI::Val(a) => seq![WL { n, c: hy(a) }],
        GI::Arr(a, b) => seq![WL { n, c: hy(a) }] + gl_body(b, n + 1),
        GI::Obj(f, r) => seq![WL { n, c: hy(f.c) }] + gl_body(f.b, n + 2) + gl_fields(r, n + 1),
    }
})
{ reveal(gl_body); reveal(gl_field); reveal(gl_fields); reveal(gl_item); reveal(gl_items); }
pub proof fn e_gl_items(a: Seq<GI>, n: int) ensures gl_items(a, n) == ({ if a.len() == 0 { Seq::empty() } else { gl_item(a[0], n) + gl_items(a.skip(1), n) } })
{ reveal(gl_body); reveal(gl_field); reveal(gl_fields); reveal(gl_item); reveal(gl_items); }
pub proof fn e_gm_arr(h: SHdr, b: GB) ensures gm_arr(h, b) == ({
    match h.inl {
        Some(s) => d_inline(true, h.len as nat, h.delim, s)->0,
        None => match b {
            GB::Rows(r) => DV::Arr(h.len as nat, Seq::new(r.len(), |i: int| d_row(true, h.fields->0, h.delim, r[i])->0)),
            GB::Items(a) => DV::Arr(h.len as nat, gm_items(a)),
            _ => DV::Arr(h.len as nat, Seq::empty()),
        },
    }
})
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_gm_sub(b: GB) ensures gm_sub(b) == ({ match b { GB::Fields(f) => DV::Obj(gm_fields(f)), _ => DV::Obj(Seq::empty()) } })
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_gm_field(f: GF) ensures gm_field(f) == ({
    match hdr(f.c, ',') {
        HR::Yes(h) => (h.key->0, h.kq, gm_arr(h, f.b)),
        _ => { let (k, e, q) = p_key(f.c)->0; let rest = trim(f.c.skip(e));
            (k, q, if rest.len() == 0 { gm_sub(f.b) } else { DV::Prim(p_prim(rest)->0) }) }
    }
})
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_gm_fields(f: Seq<GF>) ensures gm_fields(f) == ({ if f.len() == 0 { Seq::empty() } else { seq![gm_field(f[0])] + gm_fields(f.skip(1)) } })
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_gm_item(v: GI) ensures gm_item(v) == ({
    match v {
        GI::Bare => DV::Obj(Seq::empty()),
        GI::Val(a) => DV::Prim(p_prim(a)->0),
        GI::Arr(a, b) => gm_arr(hdr(a, ',')->Yes_0, b),
        GI::Obj(f, r) => DV::Obj(seq![gm_field(f)] + gm_fields(r)),
    }
})
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_gm_items(a: Seq<GI>) ensures gm_items(a) == ({ if a.len() == 0 { Seq::empty() } else { seq![gm_item(a[0])] + gm_items(a.skip(1)) } })
{ reveal(gm_arr); reveal(gm_sub); reveal(gm_field); reveal(gm_fields); reveal(gm_item); reveal(gm_items); }
pub proof fn e_ok_arr(h: SHdr, b: GB) ensures ok_arr(h, b) == ({
    match h.inl {
        Some(s) => b is Leaf && d_inline(true, h.len as nat, h.delim, s) is Some,
        None => if h.fields is Some && h.fields->0.len() > 0 { match b { GB::Rows(r) => r.len() == h.len && (forall|i: int| 0 <= i < r.len() ==> d_row(true, h.fields->0, h.delim, #[trigger] r[i]) is Some), _ => false } }
            else { match b { GB::Items(a) => a.len() == h.len && ok_items(a), _ => false } },
    }
})
{ reveal(ok_arr); reveal(ok_field); reveal(ok_fields); reveal(ok_item); reveal(ok_items); }
pub proof fn e_ok_field(f: GF) ensures ok_field(f) == ({
    !("- "@).is_prefix_of(f.c) && match hdr(f.c, ',') {
        HR::Err => false,
        HR::Yes(h) => h.key is Some && ok_arr(h, f.b),
        HR::No => p_key(f.c) is Some && { let rest = trim(f.c.skip((p_key(f.c)->0).1));
            if rest.len() == 0 { match f.b { GB::Fields(g) => ok_fields(g), _ => false } } else { f.b is Leaf && p_prim(rest) is Some } },
    }
})
{ reveal(ok_arr); reveal(ok_field); reveal(ok_fields); reveal(ok_item); reveal(ok_items); }
pub proof fn e_ok_fields(f: Seq<GF>) ensures ok_fields(f) == ({ f.len() == 0 || (ok_field(f[0]) && ok_fields(f.skip(1))) })
{ reveal(ok_arr); reveal(ok_field); reveal(ok_fields); reveal(ok_item); reveal(ok_items); }
pub proof fn e_ok_item(v: GI) ensures ok_item(v) == ({
    match v {
        GI::Bare => true,
        GI::Val(a) => trim(a).len() > 0 && hdr(a, ',') is No && !is_kv_content(a) && p_prim(a) is Some,
        GI::Arr(a, b) => trim(a).len() > 0 && hdr(a, ',') is Yes && is_arr_hdr_content(a) && ok_arr(hdr(a, ',')->Yes_0, b),
        GI::Obj(f, r) => trim(f.c).len() > 0 && !is_arr_hdr_content(f.c) && is_kv_content(f.c) && ok_field(f) && ok_fields(r),
    }
})
{ reveal(ok_arr); reveal(ok_field); reveal(ok_fields); reveal(ok_item); reveal(ok_items); }
pub proof fn e_ok_items(a: Seq<GI>) ensures ok_items(a) == ({ a.len() == 0 || (ok_item(a[0]) && ok_items(a.skip(1))) })
{ reveal(ok_arr); reveal(ok_field); reveal(ok_fields); reveal(ok_item); reveal(ok_items); }
// ---- the decoder on such lines ---------------------------------------------------------------------
proof fn e_d_arr(x: DC, p: int, h: SHdr, depth: int) ensures d_arr(x, p, h, depth) == ({
    match h.inl {
        Some(s) => match d_inline(x.strict, h.len as nat, h.delim, s) { None => None, Some(v) => Some((v, p)) },
        None => match h.fields {
            Some(f) => if f.len() > 0 { d_tab(x, p, h.len as nat, f, h.delim, depth) } else { d_list(x, p, h.len as nat, depth) },
            None => d_list(x, p, h.len as nat, depth),
        },
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_list(x: DC, p: int, n: nat, depth: int) ensures d_list(x, p, n, depth) == ({
    match d_items(x, Seq::empty(), p, n, depth + 1) {
        None => None,
        Some((a, q)) => if x.strict && (a.len() != n || (q > p && blank_in(x.b, x.l[p].n, x.l[q - 1].n))
            || (q < x.l.len() && x.l[q].depth == depth + 1 && is_item(x.l[q].c))) { None }
          else { Some((DV::Arr(n, a), q)) },
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_items(x: DC, acc: Seq<DV>, p: int, n: nat, d: int) ensures d_items(x, acc, p, n, d) == ({
    if p < 0 || p >= x.l.len() || acc.len() >= n || x.l[p].depth != d || !is_item(x.l[p].c) { Some((acc, p)) }
    else { match d_item(x, p, d) { None => None, Some((v, q)) => if p < q <= x.l.len() { d_items(x, acc.push(v), q, n, d) } else { None } } }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_item(x: DC, p: int, d: int) ensures d_item(x, p, d) == ({
    if p < 0 || p >= x.l.len() { None }
    else {
        let c = x.l[p].c;
        let a = c.skip(2);
        if c == "-"@ { Some((DV::Obj(Seq::empty()), p + 1)) }
        else if !("- "@).is_prefix_of(c) { None }
        else if trim(a).len() == 0 { Some((DV::Obj(Seq::empty()), p + 1)) }
        else { match hdr(a, ',') {
            HR::Err => None,
            HR::Yes(h) => if is_arr_hdr_content(a) { d_arr(x, p + 1, h, d) }
                else if h.key is Some && h.fields is Some {
                    match d_arr(x, p + 1, h, d + 1) { None => None, Some((v, q)) => if p < q <= x.l.len() { d_follow(x, seq![(h.key->0, h.kq, v)], q, d + 1) } else { None } }
                } else { d_item_plain(x, a, p, d) },
            HR::No => d_item_plain(x, a, p, d),
        } }
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_item_plain(x: DC, a: Seq<char>, p: int, d: int) ensures d_item_plain(x, a, p, d) == ({
    if p < 0 || p >= x.l.len() { None }
    else if is_kv_content(a) {
        match d_kv(x, p + 1, a, d + 1) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_follow(x, seq![f], q, d + 1) } else { None } }
    } else { match p_prim(a) { None => None, Some(v) => Some((DV::Prim(v), p + 1)) } }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_follow(x: DC, acc: Seq<DF>, p: int, d: int) ensures d_follow(x, acc, p, d) == ({
    if p < 0 || p >= x.l.len() || x.l[p].depth != d || ("- "@).is_prefix_of(x.l[p].c) { Some((DV::Obj(acc), p)) }
    else { match d_kv(x, p + 1, x.l[p].c, d) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_follow(x, acc.push(f), q, d) } else { None } } }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_kv(x: DC, p: int, c: Seq<char>, depth: int) ensures d_kv(x, p, c, depth) == ({
    match hdr(c, ',') {
        HR::Err => None,
        HR::Yes(h) => if h.key is Some {
                match d_arr(x, p, h, depth) { None => None, Some((v, q)) => Some(((h.key->0, h.kq, v), q)) }
            } else { d_kv_plain(x, p, c, depth) },
        HR::No => d_kv_plain(x, p, c, depth),
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_kv_plain(x: DC, p: int, c: Seq<char>, depth: int) ensures d_kv_plain(x, p, c, depth) == ({
    match p_key(c) {
        None => None,
        Some((k, e, q)) => {
            let rest = trim(c.skip(e));
            if rest.len() == 0 {
                if 0 <= p < x.l.len() && x.l[p].depth > depth {
                    match d_fields(x, Seq::empty(), p, depth + 1, None) { None => None, Some((v, p2)) => Some(((k, q, v), p2)) }
                } else { Some(((k, q, DV::Obj(Seq::empty())), p)) }
            } else { match p_prim(rest) { None => None, Some(v) => Some(((k, q, DV::Prim(v)), p)) } }
        },
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
proof fn e_d_fields(x: DC, acc: Seq<DF>, p: int, base: int, cd: Option<int>) ensures d_fields(x, acc, p, base, cd) == ({
    if p < 0 || p >= x.l.len() || x.l[p].depth < base { Some((DV::Obj(acc), p)) }
    else {
        let d = match cd { Some(d) => d, None => x.l[p].depth };
        if x.l[p].depth != d { Some((DV::Obj(acc), p)) }
        else { match d_kv(x, p + 1, x.l[p].c, d) { None => None, Some((f, q)) => if p < q <= x.l.len() { d_fields(x, acc.push(f), q, base, Some(d)) } else { None } } }
    }
})
{ hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(is_item); hide(is_kv_content); hide(is_arr_hdr_content); hide(blank_in); hide(d_tab); hide(d_inline); }
/// these lines stand at p
pub open spec fn seg(x: DC, p: int, w: Seq<WL>) -> bool
{ 0 <= p && p + w.len() <= x.l.len() && forall|i: int| 0 <= i < w.len() ==> x.l[p + i].depth == (#[trigger] w[i]).n && x.l[p + i].c == w[i].c }
/// and nothing deeper than n follows them at q
pub open spec fn ends(x: DC, q: int, n: int) -> bool { q >= x.l.len() || x.l[q].depth <= n }
proof fn l_seg(x: DC, p: int, a: Seq<WL>, b: Seq<WL>)
    requires seg(x, p, a + b)
    ensures seg(x, p, a), seg(x, p + a.len(), b)
{
    let w = a + b;
    assert forall|i: int| 0 <= i < a.len() implies x.l[p + i].depth == (#[trigger] a[i]).n && x.l[p + i].c == a[i].c by { assert(w[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies x.l[p + a.len() + i].depth == (#[trigger] b[i]).n && x.l[p + a.len() + i].c == b[i].c by { assert(w[a.len() + i] == b[i]); }
}
/// no blank line stands between two of the lines p..q (strict mode; in lenient mode none counts)
pub open spec fn calm(x: DC, p: int, q: int) -> bool
{ x.strict ==> forall|i: int, j: int| p <= i <= j < q ==> !#[trigger] blank_in(x.b, x.l[i].n, x.l[j].n) }
/// no blank line stands inside an array
#[verifier::opaque]
pub open spec fn nq_body(x: DC, p: int, b: GB, n: int) -> bool decreases b, 0int
{ match b { GB::Fields(f) => nq_fields(x, p, f, n), _ => calm(x, p, p + gl_body(b, n).len()) } }
#[verifier::opaque]
pub open spec fn nq_fields(x: DC, p: int, f: Seq<GF>, n: int) -> bool decreases f, 2int
{ f.len() == 0 || (nq_body(x, p + 1, f[0].b, n + 1) && nq_fields(x, p + 1 + gl_body(f[0].b, n + 1).len(), f.skip(1), n)) }
pub open spec fn nq_doc(x: DC, r: GR) -> bool
{ match r { GR::Prim(c) => true, GR::Arr(c, b) => calm(x, 1, 1 + gl_body(b, 1).len() as int), GR::Obj(f) => nq_fields(x, 0, f, 0) } }
pub proof fn e_nq_body(x: DC, p: int, b: GB, n: int)
    ensures nq_body(x, p, b, n) == (match b { GB::Fields(f) => nq_fields(x, p, f, n), _ => calm(x, p, p + gl_body(b, n).len()) })
{ reveal(nq_body); reveal(nq_fields); }
pub proof fn e_nq_fields(x: DC, p: int, f: Seq<GF>, n: int)
    ensures nq_fields(x, p, f, n) == (f.len() == 0 || (nq_body(x, p + 1, f[0].b, n + 1) && nq_fields(x, p + 1 + gl_body(f[0].b, n + 1).len(), f.skip(1), n)))
{ reveal(nq_body); reveal(nq_fields); }
pub proof fn l_calm_body(x: DC, p: int, b: GB, n: int)
    requires calm(x, p, p + gl_body(b, n).len())
    ensures nq_body(x, p, b, n)
    decreases b, 0int
{ e_nq_body(x, p, b, n); e_gl_body(b, n); match b { GB::Fields(f) => { l_calm_fields(x, p, f, n); }, _ => {} } }
pub proof fn l_calm_fields(x: DC, p: int, f: Seq<GF>, n: int)
    requires calm(x, p, p + gl_fields(f, n).len())
    ensures nq_fields(x, p, f, n)
    decreases f, 2int
{
    e_nq_fields(x, p, f, n); e_gl_fields(f, n);
    if f.len() > 0 { e_gl_field(f[0], n); l_calm_body(x, p + 1, f[0].b, n + 1); l_calm_fields(x, p + 1 + gl_body(f[0].b, n + 1).len(), f.skip(1), n); }
}
proof fn l_seg1(x: DC, p: int, n: int, c: Seq<char>)
    requires seg(x, p, seq![WL { n, c }])
    ensures 0 <= p < x.l.len(), x.l[p].depth == n, x.l[p].c == c
{ assert(seq![WL { n, c }][0] == WL { n, c }); }
/// a line and what stands below it
proof fn l_seg_line(x: DC, p: int, n: int, c: Seq<char>, b: Seq<WL>)
    requires seg(x, p, seq![WL { n, c }] + b)
    ensures 0 <= p < x.l.len(), x.l[p].depth == n, x.l[p].c == c, seg(x, p + 1, b), (seq![WL { n, c }] + b).len() == 1 + b.len()
{ l_seg(x, p, seq![WL { n, c }], b); l_seg1(x, p, n, c); }
/// first field of a group of fields, the rest, and the line where the rest begins
proof fn l_seg_fields(x: DC, p: int, f: Seq<GF>, n: int, m: int)
    requires f.len() > 0, seg(x, p, gl_fields(f, n)), ends(x, p + gl_fields(f, n).len(), m), m <= n
    ensures ({ let q = p + 1 + gl_body(f[0].b, n + 1).len();
      0 <= p < x.l.len() && x.l[p].depth == n && x.l[p].c == f[0].c && seg(x, p + 1, gl_body(f[0].b, n + 1)) && ends(x, q, n) && seg(x, q, gl_fields(f.skip(1), n)) && ends(x, q + gl_fields(f.skip(1), n).len(), m)
      && gl_fields(f, n).len() == 1 + gl_body(f[0].b, n + 1).len() + gl_fields(f.skip(1), n).len() })
{
    let w = gl_field(f[0], n); let r = f.skip(1);
    e_gl_fields(f, n); e_gl_field(f[0], n);
    l_seg(x, p, w, gl_fields(r, n));
    l_seg_line(x, p, n, f[0].c, gl_body(f[0].b, n + 1));
    e_gl_fields(r, n);
    if r.len() > 0 { e_gl_field(r[0], n); l_seg(x, p + w.len(), gl_field(r[0], n), gl_fields(r.skip(1), n)); l_seg_line(x, p + w.len(), n, r[0].c, gl_body(r[0].b, n + 1)); }
}
proof fn l_item_first(x: DC, p: int, v: GI, n: int)
    requires seg(x, p, gl_item(v, n))
    ensures 0 <= p < x.l.len(), x.l[p].depth == n, gl_item(v, n).len() > 0,
        x.l[p].c == (match v { GI::Bare => seq!['-'], GI::Val(a) => hy(a), GI::Arr(a, b) => hy(a), GI::Obj(f, r) => hy(f.c) })
{
    e_gl_item(v, n);
    let c = match v { GI::Bare => seq!['-'], GI::Val(a) => hy(a), GI::Arr(a, b) => hy(a), GI::Obj(f, r) => hy(f.c) };
    assert(gl_item(v, n)[0] == WL { n, c });
    assert(x.l[p + 0].c == c);
}
proof fn l_seg_items(x: DC, p: int, a: Seq<GI>, n: int, m: int)
    requires a.len() > 0, seg(x, p, gl_items(a, n)), ends(x, p + gl_items(a, n).len(), m), m <= n
    ensures ({ let q = p + gl_item(a[0], n).len();
      seg(x, p, gl_item(a[0], n)) && ends(x, q, n) && seg(x, q, gl_items(a.skip(1), n)) && ends(x, q + gl_items(a.skip(1), n).len(), m)
      && gl_items(a, n).len() == gl_item(a[0], n).len() + gl_items(a.skip(1), n).len() })
{
    let r = a.skip(1);
    e_gl_items(a, n); e_gl_items(r, n);
    l_seg(x, p, gl_item(a[0], n), gl_items(r, n));
    if r.len() > 0 { l_seg(x, p + gl_item(a[0], n).len(), gl_item(r[0], n), gl_items(r.skip(1), n)); l_item_first(x, p + gl_item(a[0], n).len(), r[0], n); }
}
proof fn l_hy(a: Seq<char>)
    ensures ("- "@).is_prefix_of(hy(a)), hy(a).skip(2) == a, hy(a) != "-"@, is_item(hy(a)), is_item(seq!['-']), seq!['-'] == "-"@, !("- "@).is_prefix_of(seq!['-']), hy(a).len() == a.len() + 2
{
    reveal_strlit("- "); reveal_strlit("-");
    assert(seq!['-'] =~= "-"@); assert(hy(a).skip(2) =~= a);
    assert(("- "@).is_prefix_of(hy(a))) by { assert("- "@[0] == '-' && "- "@[1] == ' '); }
}
pub open spec fn row_vals(h: SHdr, r: Seq<Seq<char>>, k: int) -> Seq<DV> { Seq::new(k as nat, |i: int| d_row(true, h.fields->0, h.delim, r[i])->0) }
proof fn g_rows(x: DC, acc: Seq<DV>, p: int, k: int, h: SHdr, r: Seq<Seq<char>>, depth: int, w: Seq<WL>)
    requires 0 <= k <= r.len(), r.len() == h.len, h.fields is Some, forall|i: int| 0 <= i < r.len() ==> d_row(true, h.fields->0, h.delim, #[trigger] r[i]) is Some,
        w == gl_body(GB::Rows(r), depth), seg(x, p, w), acc == row_vals(h, r, k)
    ensures d_rows(x, acc, p + k, h.len as nat, h.fields->0, h.delim, depth) == Some((row_vals(h, r, r.len() as int), p + r.len())), w.len() == r.len()
    decreases r.len() - k
{
    hide(split_vals); hide(p_prims);
    e_gl_body(GB::Rows(r), depth);
    if k < r.len() {
        assert(w[k] == WL { n: depth, c: r[k] });
        assert(x.l[p + k].c == r[k]);
        assert(d_row(x.strict, h.fields->0, h.delim, r[k]) == d_row(true, h.fields->0, h.delim, r[k]));
        assert(acc.push(d_row(true, h.fields->0, h.delim, r[k])->0) =~= row_vals(h, r, k + 1));
        g_rows(x, row_vals(h, r, k + 1), p, k + 1, h, r, depth, w);
    }
}
proof fn g_arr(x: DC, p: int, h: SHdr, b: GB, n: int)
    requires ok_arr(h, b), calm(x, p, p + gl_body(b, n + 1).len()), seg(x, p, gl_body(b, n + 1)), ends(x, p + gl_body(b, n + 1).len(), n)
    ensures d_arr(x, p, h, n) == Some((gm_arr(h, b), p + gl_body(b, n + 1).len()))
    decreases b, 0int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(split_vals); hide(p_prims); hide(trim); hide(is_item); hide(data_row); hide(d_rows); hide(d_row);
    e_d_arr(x, p, h, n); e_gl_body(b, n + 1); e_gm_arr(h, b); e_ok_arr(h, b);
    match h.inl {
        Some(s) => { assert(d_inline(x.strict, h.len as nat, h.delim, s) == d_inline(true, h.len as nat, h.delim, s)); },
        None => if h.fields is Some && h.fields->0.len() > 0 {
            let r = b->Rows_0;
            assert(row_vals(h, r, 0) =~= Seq::empty());
            g_rows(x, Seq::empty(), p, 0, h, r, n + 1, gl_body(b, n + 1));
        } else {
            let a = b->Items_0;
            g_items(x, Seq::empty(), p, a, n + 1, h.len as nat);
            assert(Seq::<DV>::empty() + gm_items(a) =~= gm_items(a));
            gm_items_len(a);
            e_d_list(x, p, h.len as nat, n);
        },
    }
}
proof fn gm_items_len(a: Seq<GI>) ensures gm_items(a).len() == a.len() decreases a.len() { e_gm_items(a); if a.len() > 0 { gm_items_len(a.skip(1)); } }
proof fn g_items(x: DC, acc: Seq<DV>, p: int, a: Seq<GI>, n: int, m: nat)
    requires ok_items(a), calm(x, p, p + gl_items(a, n).len()), acc.len() + a.len() == m, seg(x, p, gl_items(a, n)), ends(x, p + gl_items(a, n).len(), n - 1)
    ensures d_items(x, acc, p, m, n) == Some((acc + gm_items(a), p + gl_items(a, n).len()))
    decreases a, 2int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(is_item);
    e_d_items(x, acc, p, m, n); e_gm_items(a); e_ok_items(a); e_gl_items(a, n);
    if a.len() == 0 { assert(acc + gm_items(a) =~= acc); }
    else {
        let w = gl_item(a[0], n); let r = a.skip(1);
        l_seg_items(x, p, a, n, n - 1);
        l_item_first(x, p, a[0], n);
        l_hy(match a[0] { GI::Val(c) => c, GI::Arr(c, _) => c, GI::Obj(f, _) => f.c, _ => Seq::empty() });
        g_item(x, p, a[0], n);
        let v = gm_item(a[0]);
        g_items(x, acc.push(v), p + w.len(), r, n, m);
        assert(acc.push(v) + gm_items(r) =~= acc + gm_items(a));
    }
}
proof fn g_item(x: DC, p: int, v: GI, n: int)
    requires ok_item(v), calm(x, p, p + gl_item(v, n).len()), seg(x, p, gl_item(v, n)), ends(x, p + gl_item(v, n).len(), n)
    ensures d_item(x, p, n) == Some((gm_item(v), p + gl_item(v, n).len()))
    decreases v, 1int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(trim); hide(is_arr_hdr_content); hide(is_kv_content); hide(p_prim); hide(p_key); hide(seg); hide(hy);
    l_item_first(x, p, v, n);
    e_d_item(x, p, n); e_gl_item(v, n); e_gm_item(v); e_ok_item(v);
    match v {
        GI::Bare => { l_hy(Seq::empty()); },
        GI::Val(a) => { l_hy(a); e_d_item_plain(x, a, p, n); },
        GI::Arr(a, b) => { l_hy(a); l_seg_line(x, p, n, hy(a), gl_body(b, n + 1)); g_arr(x, p + 1, hdr(a, ',')->Yes_0, b, n); },
        GI::Obj(f, r) => {
            l_hy(f.c);
            let wb = gl_body(f.b, n + 2); let wr = gl_fields(r, n + 1);
            l_seg(x, p, seq![WL { n, c: hy(f.c) }] + wb, wr);
            l_seg_line(x, p, n, hy(f.c), wb);
            let q = p + 1 + wb.len();
            assert(ends(x, q, n + 1)) by { e_gl_fields(r, n + 1); if r.len() > 0 { l_seg_fields(x, q, r, n + 1, n); } }
            l_calm_body(x, p + 1, f.b, n + 2);
            g_kv(x, p + 1, f, n + 1);
            g_follow(x, seq![gm_field(f)], q, r, n + 1);
            e_d_kv(x, p + 1, f.c, n + 1); e_d_item_plain(x, f.c, p, n); e_ok_field(f);
            assert(q <= x.l.len()) by { reveal(seg); }
        },
    }
}
proof fn g_follow(x: DC, acc: Seq<DF>, p: int, f: Seq<GF>, n: int)
    requires ok_fields(f), calm(x, p, p + gl_fields(f, n).len()), seg(x, p, gl_fields(f, n)), ends(x, p + gl_fields(f, n).len(), n - 1)
    ensures d_follow(x, acc, p, n) == Some((DV::Obj(acc + gm_fields(f)), p + gl_fields(f, n).len()))
    decreases f, 2int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(p_key); hide(p_prim); hide(trim);
    e_d_follow(x, acc, p, n); e_gl_fields(f, n); e_gm_fields(f); e_ok_fields(f);
    if f.len() == 0 { assert(acc + gm_fields(f) =~= acc); }
    else {
        l_seg_fields(x, p, f, n, n - 1);
        l_calm_body(x, p + 1, f[0].b, n + 1);
        g_kv(x, p + 1, f[0], n);
        e_ok_field(f[0]);
        g_follow(x, acc.push(gm_field(f[0])), p + 1 + gl_body(f[0].b, n + 1).len(), f.skip(1), n);
        assert(acc.push(gm_field(f[0])) + gm_fields(f.skip(1)) =~= acc + gm_fields(f));
    }
}
proof fn g_fields(x: DC, acc: Seq<DF>, p: int, f: Seq<GF>, n: int, cd: Option<int>)
    requires ok_fields(f), nq_fields(x, p, f, n), seg(x, p, gl_fields(f, n)), ends(x, p + gl_fields(f, n).len(), n - 1), cd == Some(n) || cd is None
    ensures d_fields(x, acc, p, n, cd) == Some((DV::Obj(acc + gm_fields(f)), p + gl_fields(f, n).len()))
    decreases f, 2int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(p_key); hide(p_prim); hide(trim);
    e_d_fields(x, acc, p, n, cd); e_gl_fields(f, n); e_gm_fields(f); e_ok_fields(f); e_nq_fields(x, p, f, n);
    if f.len() == 0 { assert(acc + gm_fields(f) =~= acc); }
    else {
        l_seg_fields(x, p, f, n, n - 1);
        g_kv(x, p + 1, f[0], n);
        g_fields(x, acc.push(gm_field(f[0])), p + 1 + gl_body(f[0].b, n + 1).len(), f.skip(1), n, Some(n));
        assert(acc.push(gm_field(f[0])) + gm_fields(f.skip(1)) =~= acc + gm_fields(f));
    }
}
proof fn g_top(x: DC, acc: Seq<DF>, p: int, f: Seq<GF>)
    requires ok_fields(f), nq_fields(x, p, f, 0), seg(x, p, gl_fields(f, 0)), p + gl_fields(f, 0).len() == x.l.len()
    ensures d_top(x, acc, p) == Some(DV::Obj(acc + gm_fields(f)))
    decreases f, 2int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(p_key); hide(p_prim); hide(trim);
    e_gl_fields(f, 0); e_gm_fields(f); e_ok_fields(f); e_nq_fields(x, p, f, 0);
    if f.len() == 0 { assert(acc + gm_fields(f) =~= acc); }
    else {
        l_seg_fields(x, p, f, 0, 0);
        g_kv(x, p + 1, f[0], 0);
        g_top(x, acc.push(gm_field(f[0])), p + 1 + gl_body(f[0].b, 1).len(), f.skip(1));
        assert(acc.push(gm_field(f[0])) + gm_fields(f.skip(1)) =~= acc + gm_fields(f));
    }
}
/// the field on the line before p
proof fn g_kv(x: DC, p: int, f: GF, n: int)
    requires ok_field(f), nq_body(x, p, f.b, n + 1), seg(x, p, gl_body(f.b, n + 1)), ends(x, p + gl_body(f.b, n + 1).len(), n)
    ensures d_kv(x, p, f.c, n) == Some((gm_field(f), p + gl_body(f.b, n + 1).len()))
    decreases f, 1int
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(p_key); hide(p_prim); hide(trim);
    e_d_kv(x, p, f.c, n); e_gm_field(f); e_ok_field(f); e_gl_body(f.b, n + 1); e_nq_body(x, p, f.b, n + 1); e_ok_arr(hdr(f.c, ',')->Yes_0, f.b);
    match hdr(f.c, ',') {
        HR::Err => {},
        HR::Yes(h) => { g_arr(x, p, h, f.b, n); },
        HR::No => {
            e_d_kv_plain(x, p, f.c, n); e_gm_sub(f.b);
            let e = (p_key(f.c)->0).1;
            let rest = trim(f.c.skip(e));
            if rest.len() == 0 {
                let g = f.b->Fields_0;
                e_gl_fields(g, n + 1); e_gm_fields(g);
                if g.len() > 0 { l_seg_fields(x, p, g, n + 1, n); g_fields(x, Seq::empty(), p, g, n + 1, None); }
                assert(Seq::<DF>::empty() + gm_fields(g) =~= gm_fields(g));
            }
        },
    }
}
pub proof fn g_root(x: DC, r: GR)
    requires ok_doc(r), nq_doc(x, r), seg(x, 0, gl_doc(r)), gl_doc(r).len() == x.l.len()
    ensures d_root(x) == Some(gm_doc(r))
{
    hide(d_arr); hide(d_list); hide(d_items); hide(d_item); hide(d_item_plain); hide(d_follow); hide(d_kv); hide(d_kv_plain); hide(d_fields); hide(hdr); hide(p_key); hide(p_prim); hide(trim); hide(d_top); hide(is_arr_hdr_content); hide(is_kv_line);
    match r {
        GR::Prim(c) => { l_seg1(x, 0, 0, c); },
        GR::Arr(c, b) => { l_seg_line(x, 0, 0, c, gl_body(b, 1)); g_arr(x, 1, hdr(c, ',')->Yes_0, b, 0); },
        GR::Obj(f) => { e_gl_fields(f, 0); e_gm_fields(f); e_ok_fields(f); e_nq_fields(x, 0, f, 0); if f.len() > 0 {
            l_seg_fields(x, 0, f, 0, 0);
            g_kv(x, 1, f[0], 0);
            g_top(x, seq![gm_field(f[0])], 1 + gl_body(f[0].b, 1).len() as int, f.skip(1));
        } },
    }
}
// ---- from text to lines ---------------------------------------------------------------------------
/// a line that is scanned as it was written: not blank, no leading blank or tab of its own
pub open spec fn good_line(c: Seq<char>) -> bool { c.len() > 0 && c[0] != ' ' && c[0] != '\t' && trim(c).len() > 0 }
pub open spec fn good_lines(l: Seq<WL>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).n >= 0 && good_line(l[i].c) }
pub proof fn l_line(x: WL, w: nat, strict: bool)
    requires x.n >= 0, good_line(x.c), w > 0
    ensures p_line(pr1(x, w), w, strict) == LR::Line(x.n, x.c)
{
    let k = x.n * w;
    assert(k >= 0) by (nonlinear_arith) requires k == x.n * w, x.n >= 0, w > 0;
    let s = pr1(x, w);
    assert(s[k] == x.c[0]);
    assert forall|i: int| 0 <= i < k implies s[i] == ' ' by {}
    lemma_lead_unique(s, k); lemma_lead_st_unique(s, k);
    assert(s.skip(k) =~= x.c);
    assert(!s.take(k).contains('\t'));
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x.n, w as int); vstd::arithmetic::div_mod::lemma_div_by_multiple(x.n, w as int);
}
/// the lines as the decoder sees them
pub open spec fn sls(l: Seq<WL>, n0: int) -> Seq<SL> { Seq::new(l.len(), |i: int| SL { depth: l[i].n, c: l[i].c, n: n0 + i + 1 }) }
pub proof fn l_scan(l: Seq<WL>, w: nat, strict: bool, n0: int)
    requires good_lines(l), w > 0
    ensures scan(pr(l, w), n0, w, strict) == Some((sls(l, n0), Seq::<int>::empty()))
    decreases l.len()
{
    hide(p_line);
    if l.len() > 0 {
        let k = l.drop_last();
        assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).n >= 0 && good_line(k[i].c) by { assert(k[i] == l[i]); }
        l_scan(k, w, strict, n0);
        assert(pr(l, w).drop_last() =~= pr(k, w));
        assert(l[l.len() - 1] == l.last());
        l_line(l.last(), w, strict);
        assert(sls(k, n0).push(SL { depth: l.last().n, c: l.last().c, n: n0 + l.len() }) =~= sls(l, n0));
    } else { assert(sls(l, n0) =~= Seq::empty()); assert(pr(l, w).len() == 0); }
}
/// C18, C01: a conforming document, indented by any w > 0, is read as what it means, in both modes
pub proof fn thm_conforming(r: GR, w: nat, strict: bool)
    requires ok_doc(r), w > 0, good_lines(gl_doc(r))
    ensures d_doc(pr(gl_doc(r), w), w, strict) == Some(gm_doc(r))
{
    hide(d_root); hide(gl_doc); hide(ok_doc); hide(gm_doc);
    l_scan(gl_doc(r), w, strict, 0);
    reveal(ok_doc); reveal(gl_doc);
    let x = DC { l: sls(gl_doc(r), 0), b: Seq::empty(), strict };
    match r { GR::Obj(f) => { l_calm_fields(x, 0, f, 0); }, _ => {} }
    g_root(DC { l: sls(gl_doc(r), 0), b: Seq::empty(), strict }, r);
}
} // verus!
}
