//! What the proof assumes about std and serde_json, tried on the real std and serde_json: every assumed contract with an
//! executable reading, over all characters, all short texts of a small alphabet, and many numbers. Bounded; nothing here
//! is counted as proved. The reference functions are the specification functions of contracts/02_spec_str.rs and
//! 07_spec_json.rs, clause by clause, on vectors of characters.
use std::collections::{HashSet, VecDeque};
use std::io::{BufWriter, LineWriter, Write};
type S = Vec<char>;
fn ws(c: char) -> bool { let u = c as u32; (9..=13).contains(&u) || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000..=0x200a).contains(&u) || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000 }
fn ltrim(s: &[char]) -> &[char] { if !s.is_empty() && ws(s[0]) { ltrim(&s[1..]) } else { s } }
fn rtrim(s: &[char]) -> &[char] { if !s.is_empty() && ws(s[s.len() - 1]) { rtrim(&s[..s.len() - 1]) } else { s } }
fn sub_at(s: &[char], p: &[char], i: usize) -> bool { i + p.len() <= s.len() && s[i..i + p.len()] == *p }
fn sub_find(s: &[char], p: &[char], i: usize) -> Option<usize> { if i > s.len() { None } else if sub_at(s, p, i) { Some(i) } else { sub_find(s, p, i + 1) } }
/// UTF-8 length of one character, and the text as bytes, as vstd::utf8 has them
fn enc1(c: char) -> Vec<u8> {
    let u = c as u32;
    if u < 0x80 { vec![u as u8] } else if u < 0x800 { vec![0xc0 | (u >> 6) as u8, 0x80 | (u & 0x3f) as u8] }
    else if u < 0x10000 { vec![0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8] }
    else { vec![0xf0 | (u >> 18) as u8, 0x80 | (u >> 12 & 0x3f) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8] }
}
fn enc(s: &[char]) -> Vec<u8> { s.iter().flat_map(|c| enc1(*c)).collect() }
fn bpos(s: &[char], k: usize) -> usize { enc(&s[..k]).len() }
fn digit(d: u128) -> char { (b'0' + d as u8) as char }
fn show_nat(n: u128) -> S { if n < 10 { vec![digit(n)] } else { let mut r = show_nat(n / 10); r.push(digit(n % 10)); r } }
fn is_dig(c: char) -> bool { (48..=57).contains(&(c as u32)) }
fn dval(s: &[char]) -> u128 { s.iter().fold(0u128, |a, c| a.saturating_mul(10).saturating_add((*c as u32 - 48) as u128)) }
fn parse_usize(s: &[char]) -> Option<usize> {
    let d = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s };
    if !d.is_empty() && d.iter().all(|c| is_dig(*c)) && dval(d) <= usize::MAX as u128 { Some(dval(d) as usize) } else { None }
}
fn split_on(s: &[char], c: char) -> Vec<S> {
    if s.is_empty() { return vec![vec![]]; }
    let (l, i) = s.split_last().unwrap();
    let mut p = split_on(i, c);
    if *l == c { p.push(vec![]) } else { p.last_mut().unwrap().push(*l) }
    p
}
fn join(a: &[S], c: char) -> S { let mut o = vec![]; for (i, x) in a.iter().enumerate() { if i > 0 { o.push(c) } o.extend(x) } o }
fn hexd(n: u32) -> char { if n < 10 { digit(n as u128) } else { (b'a' + (n - 10) as u8) as char } }
fn hex4(n: u32) -> S { vec![hexd(n / 4096), hexd(n / 256 % 16), hexd(n / 16 % 16), hexd(n % 16)] }
// numbers
fn dig(b: u8) -> bool { (48..=57).contains(&b) }
fn dend(b: &[u8], i: usize) -> usize { if i < b.len() && dig(b[i]) { dend(b, i + 1) } else { i } }
fn frac_end(b: &[u8], i: usize) -> Option<usize> { if i < b.len() && b[i] == 46 { if dend(b, i + 1) == i + 1 { None } else { Some(dend(b, i + 1)) } } else { Some(i) } }
fn exp_end(b: &[u8], i: usize) -> Option<usize> {
    if i < b.len() && (b[i] == 101 || b[i] == 69) { let j = if i + 1 < b.len() && (b[i + 1] == 43 || b[i + 1] == 45) { i + 2 } else { i + 1 }; if dend(b, j) == j { None } else { Some(dend(b, j)) } } else { Some(i) }
}
fn tail_ok(b: &[u8], i: usize) -> bool { match frac_end(b, i) { None => false, Some(j) => exp_end(b, j) == Some(b.len()) } }
fn num_syntax(b: &[u8]) -> bool {
    let d = usize::from(!b.is_empty() && b[0] == 45);
    d < b.len() && dig(b[d]) && if b[d] == 48 { !(d + 1 < b.len() && dig(b[d + 1])) && tail_ok(b, d + 1) } else { tail_ok(b, dend(b, d)) }
}
// JSON strings
fn j_char(t: &[char], c: char) -> bool {
    t == [c] && c as u32 >= 0x20 && c != '"' && c != '\\' || t == ['\\', c] && (c == '"' || c == '\\' || c == '/')
        || t == ['\\', 'n'] && c == '\n' || t == ['\\', 'r'] && c == '\r' || t == ['\\', 't'] && c == '\t' || t == ['\\', 'b'] && c as u32 == 8 || t == ['\\', 'f'] && c as u32 == 12
        || (c as u32) < 0x10000 && { let mut u = vec!['\\', 'u']; u.extend(hex4(c as u32)); t == u }
}
fn j_chars(t: &[char], x: &[char]) -> bool { match x.split_last() { None => t.is_empty(), Some((l, i)) => (0..=t.len()).rev().take(7).any(|k| j_char(&t[k..], *l) && j_chars(&t[..k], i)) } }
fn j_str(s: &[char], x: &[char]) -> bool { s.len() >= 2 && s[0] == '"' && s[s.len() - 1] == '"' && j_chars(&s[1..s.len() - 1], x) }

struct T { n: u64, bad: Vec<String> }
impl T { fn ok(&mut self, b: bool, what: impl FnOnce() -> String) { self.n += 1; if !b && self.bad.len() < 20 { self.bad.push(what()); } } }
fn texts(alpha: &[char], n: usize) -> Vec<S> {
    let mut out = vec![vec![]]; let mut last: Vec<S> = vec![vec![]];
    for _ in 0..n { let mut nx = vec![]; for p in &last { for c in alpha { let mut q = p.clone(); q.push(*c); nx.push(q); } } out.extend(nx.iter().cloned()); last = nx; }
    out
}
fn st(s: &[char]) -> String { s.iter().collect() }
#[derive(Clone, Default)]
struct Rec(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Write for Rec { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

/// (cases tried, contracts that do not hold)
pub fn run(numbers: u64, seed: u64) -> (u64, Vec<String>) {
    let mut t = T { n: 0, bad: vec![] };
    // every character
    for u in 0..=0x10ffffu32 { if let Some(c) = char::from_u32(u) {
        t.ok(c.is_whitespace() == ws(c), || format!("is_whitespace {c:?}"));
        t.ok(c.is_ascii_digit() == (48 <= u && u <= 57), || format!("is_ascii_digit {c:?}"));
        t.ok(c.is_ascii_alphabetic() == (65 <= u && u <= 90 || 97 <= u && u <= 122), || format!("is_ascii_alphabetic {c:?}"));
        t.ok(c.is_ascii_alphanumeric() == (48 <= u && u <= 57 || 65 <= u && u <= 90 || 97 <= u && u <= 122), || format!("is_ascii_alphanumeric {c:?}"));
        t.ok(c.is_ascii() == (u < 128), || format!("is_ascii {c:?}"));
        t.ok(c.is_control() == (u < 0x20 || 0x7f <= u && u <= 0x9f), || format!("is_control {c:?}"));
        t.ok(c.to_string().as_bytes() == enc1(c), || format!("utf-8 of {c:?}"));
        t.ok(c.to_string().trim() == st(rtrim(ltrim(&[c]))), || format!("trim {c:?}"));
        let q = serde_json::to_string(&c.to_string()).unwrap_or_default();
        t.ok(j_str(&q.chars().collect::<S>(), &[c]), || format!("serde_json string of {c:?} is {q:?}"));
        t.ok(format!("{c}") == c.to_string() && format!("{c}").chars().eq([c]), || format!("Display {c:?}"));
    } }
    for b in 0..=255u8 { let u = b as u32; t.ok(b.is_ascii_digit() == dig(b) && b.is_ascii() == (u < 128) && b.is_ascii_alphabetic() == (65 <= u && u <= 90 || 97 <= u && u <= 122) && b.is_ascii_control() == (u < 0x20 || u == 0x7f), || format!("u8 class {b}")); }
    for n in 0..0x10000u32 { t.ok(format!("{n:04x}").chars().eq(hex4(n)), || format!("{{:04x}} {n}")); }
    // every short text
    let ts = texts(&['a', ' ', '\t', '\u{a0}', ':', '"', '\\', 'é', '😀', '\n'], 4);
    let ps = texts(&['a', ' ', ':', 'é', '"'], 2);
    for s in &ts {
        let r = st(s);
        t.ok(r.as_bytes() == enc(s) && r.len() == enc(s).len(), || format!("bytes {r:?}"));
        t.ok(r.trim() == st(rtrim(ltrim(s))), || format!("trim {r:?}"));
        t.ok(r.trim_start() == st(ltrim(s)), || format!("trim_start {r:?}"));
        for (k, c) in s.iter().enumerate() {
            for l in k..=s.len() { let (a, b) = (bpos(s, k), bpos(s, l)); t.ok(r.is_char_boundary(a) && r[a..b] == st(&s[k..l]) && r[a..] == st(&s[k..]) && r[..b] == st(&s[..l]), || format!("range {k} {l} of {r:?}")); }
            t.ok(r.find(*c) == sub_find(s, &[*c], 0).map(|i| bpos(s, i)), || format!("find {c:?} in {r:?}"));
        }
        for p in &ps { let q = st(p); let f = sub_find(s, p, 0);
            t.ok(r.contains(&q) == f.is_some() && r.find(&q) == f.map(|i| bpos(s, i)), || format!("find {q:?} in {r:?}"));
            t.ok(r.starts_with(&q) == s.starts_with(p) && r.ends_with(&q) == s.ends_with(p), || format!("starts/ends {q:?} in {r:?}"));
            t.ok((r == q) == (s == p) && (r.as_str() == q) == (s == p), || format!("eq {q:?} {r:?}"));
        }
        for c in ['a', ' ', ':', 'é'] { let w = split_on(s, c);
            t.ok(r.split(c).map(|x| x.chars().collect::<S>()).eq(w.iter().cloned()), || format!("split {c:?} of {r:?}"));
            t.ok(r.split(c).map(str::to_string).collect::<Vec<_>>().join(&c.to_string()) == st(&join(&w, c)), || format!("join {c:?} of {r:?}"));
            t.ok(r.starts_with(c) == (s.first() == Some(&c)) && r.ends_with(c) == (s.last() == Some(&c)) && r.contains(c) == s.contains(&c), || format!("char pattern {c:?} in {r:?}"));
        }
        let q = serde_json::to_string(&r).unwrap_or_default();
        t.ok(j_str(&q.chars().collect::<S>(), s), || format!("serde_json string of {r:?} is {q:?}"));
        t.ok(serde_json::from_str::<serde_json::Value>(&q).ok().and_then(|v| v.as_str().map(str::to_string)).as_deref() == Some(&r), || format!("serde_json reads {q:?} back"));
    }
    for s in texts(&['0', '1', '9', '+', '-', ' ', '٣'], 5) { let r = st(&s); t.ok(r.parse::<usize>().ok() == parse_usize(&s), || format!("parse::<usize> {r:?}")); }
    for s in ["18446744073709551615", "18446744073709551616", "99999999999999999999999", "+18446744073709551615", "000000000000000000000000000001"] { let c: S = s.chars().collect(); t.ok(s.parse::<usize>().ok() == parse_usize(&c), || format!("parse::<usize> {s:?}")); }
    // JSON number syntax: what f64's parser takes, and serde_json's
    for s in texts(&['0', '1', '.', '-', '+', 'e', 'E'], 6) { let r = st(&s); let b = enc(&s);
        if num_syntax(&b) { t.ok(r.parse::<f64>().is_ok(), || format!("parse::<f64> refuses {r:?}")); }
        let j = serde_json::from_str::<serde_json::Value>(&r);
        // huge exponents are refused by serde_json as out of range; this alphabet has none
        t.ok(j.is_ok() == num_syntax(&b) || r.contains(['e', 'E']), || format!("serde_json on {r:?}: {}", j.is_ok()));
        // (with an exponent serde_json's reader can be one unit in the last place off f64's, as on 10e110: json_read is left open in the contracts)
        if let (Ok(j), false) = (j, r.contains(['e', 'E'])) { t.ok(j.as_f64() == r.parse::<f64>().ok(), || format!("serde_json value of {r:?}")); }
    }
    for c in ['a', 'é', ' '] { for n in 0..40 { t.ok(c.to_string().repeat(n).chars().eq(std::iter::repeat_n(c, n)), || format!("repeat {n}")); } }
    // numbers
    let mut r = crate::rng::Rng::new(seed);
    let special = [0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 5e-324, f64::MAX, f64::MIN_POSITIVE, 1e16, 1e17, 123456789012345680.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    t.ok("0".parse::<f64>().map(f64::to_bits) == Ok(0), || "parse 0".into());
    for i in 0..numbers {
        let f = if (i as usize) < special.len() { special[i as usize] } else { let x = f64::from_bits(r.u64()); match i % 4 { 0 => x, 1 => (x.to_bits() >> 40) as f64, 2 => ((x.to_bits() >> 44) as f64) / 1000.0, _ => f64::from_bits((x.to_bits() & 0x800f_ffff_ffff_ffff) | ((0x3f0 + (i % 0x80)) << 52)) } };
        t.ok((f == 0.0) <= f.is_finite() && (f.is_nan() <= !f.is_finite()), || format!("class of {f}"));
        if f.is_finite() && f != 0.0 { let s = f.to_string();
            t.ok(!s.is_empty() && num_syntax(s.as_bytes()) && s.chars().all(|c| is_dig(c) || c == '-' || c == '.') && s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()), || format!("Display of {f:e}: {s}")); }
        match serde_json::Number::from_f64(f) { None => t.ok(!f.is_finite(), || format!("from_f64 {f}")), Some(n) => { let s = n.to_string();
            t.ok(f.is_finite() && num_syntax(s.as_bytes()) && s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()) && n.as_f64().map(f64::to_bits) == Some(f.to_bits()), || format!("serde_json number {f:e}: {s}")); } }
        let n = f.to_bits() >> (i % 64); t.ok((n as usize).to_string().chars().eq(show_nat(n as u128)), || format!("usize {n}"));
        let o = (i % 9) as usize; let n = n as usize; t.ok(n.is_multiple_of(o) == (if o == 0 { n == 0 } else { n % o == 0 }), || format!("is_multiple_of {n} {o}"));
    }
    // collections, against a plain vector
    for k in 0..20_000u64 {
        let mut d: VecDeque<u64> = VecDeque::new(); let mut v: Vec<u64> = vec![]; let mut h: HashSet<String> = HashSet::new(); let mut hs: Vec<String> = vec![];
        let mut m = serde_json::Map::new(); let mut mv: Vec<(String, u64)> = vec![];
        for j in 0..12 { let x = r.u64() % 7; match r.u64() % 5 {
            0 | 1 => { d.push_back(x); v.push(x); }
            2 => { let a = d.pop_front(); let b = if v.is_empty() { None } else { Some(v.remove(0)) }; t.ok(a == b, || "pop_front".into()); }
            3 => { d.extend(vec![x, x + 1]); v.extend([x, x + 1]); }
            _ => if j == 11 && k % 3 == 0 { let w = std::mem::take(&mut v); t.ok(w.len() == d.len() && v.is_empty(), || "take".into()); d.clear(); } }
            t.ok(d.len() == v.len() && d.is_empty() == v.is_empty() && d.iter().eq(v.iter()), || "VecDeque".into());
            let s = format!("k{x}"); let new = !hs.contains(&s); t.ok(h.insert(s.clone()) == new && h.contains(s.as_str()), || "HashSet".into()); if new { hs.push(s.clone()); }
            t.ok(h.clone() == h, || "HashSet clone".into());
            m.insert(s.clone(), serde_json::Value::from(j)); match mv.iter_mut().find(|e| e.0 == s) { Some(e) => e.1 = j, None => mv.push((s, j)) }
            t.ok(m.len() == mv.len() && m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(99))).eq(mv.iter().cloned()), || "Map order".into());
        }
    }
    // a line-buffered output has handed on everything once an accepted write ends in a newline, or it is flushed
    for a in texts(&['x', '\n', 'y'], 3) { for b in texts(&['x', '\n'], 3) {
        let rec = Rec::default(); let mut w = LineWriter::new(rec.clone()); let _ = w.write_all(st(&a).as_bytes()); let _ = w.write_all(st(&b).as_bytes());
        if b.last() == Some(&'\n') { t.ok(*rec.0.borrow() == [enc(&a), enc(&b)].concat(), || format!("LineWriter {a:?} {b:?}")); }
        let _ = w.flush(); t.ok(*rec.0.borrow() == [enc(&a), enc(&b)].concat(), || format!("LineWriter flush {a:?} {b:?}"));
        let rec = Rec::default(); let mut w = BufWriter::with_capacity(2, rec.clone()); let _ = w.write_all(st(&a).as_bytes()); let _ = w.write_all(st(&b).as_bytes());
        let _ = w.flush(); t.ok(*rec.0.borrow() == [enc(&a), enc(&b)].concat(), || format!("BufWriter flush {a:?} {b:?}"));
    } }
    (t.n, t.bad)
}
