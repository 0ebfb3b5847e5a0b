//! Reference implementations the oracles compare with: value comparison, canonical encoder, path expansion,
//! event trees, replacer. Written from the format description, not from the code under test.
use crate::doc::{bare_key, ident, quote};
use crate::json::json_number;
use toon::{JsonStreamEvent as E, JsonValue, StringOrNumberOrBoolOrNull as P};
pub fn norm_p(p: &P) -> P { match p { P::Number(f) if !f.is_finite() => P::Null, P::Number(f) if *f == 0.0 => P::Number(0.0), p => p.clone() } }
pub fn norm(v: &JsonValue) -> JsonValue {
    match v {
        JsonValue::Primitive(p) => JsonValue::Primitive(norm_p(p)),
        JsonValue::Array(a) => JsonValue::Array(a.iter().map(norm).collect()),
        JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
    }
}
pub fn tab_fields(a: &[JsonValue]) -> Option<Vec<String>> {
    let JsonValue::Object(f) = a.first()? else { return None };
    if f.is_empty() { return None; }
    for r in a { let JsonValue::Object(o) = r else { return None }; if o.len() != f.len() { return None; } for (k, _) in f { match o.iter().find(|e| &e.0 == k) { Some((_, JsonValue::Primitive(_))) => {} _ => return None } } }
    Some(f.iter().map(|e| e.0.clone()).collect())
}
/// rows of a tabular array take the field order of the first row
pub fn canon(v: &JsonValue) -> JsonValue { canon_in(v, false) }
fn canon_in(v: &JsonValue, in_array: bool) -> JsonValue {
    match v {
        JsonValue::Primitive(_) => v.clone(),
        JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), canon_in(v, false))).collect()),
        JsonValue::Array(a) => {
            if !in_array { if let Some(f) = tab_fields(a) {
                return JsonValue::Array(a.iter().map(|r| match r { JsonValue::Object(o) => JsonValue::Object(f.iter().map(|k| o.iter().find(|e| &e.0 == k).unwrap().clone()).collect()), _ => unreachable!() }).collect());
            } }
            JsonValue::Array(a.iter().map(|x| canon_in(x, true)).collect())
        }
    }
}
pub fn same_p(a: &P, b: &P) -> bool { match (a, b) { (P::Number(x), P::Number(y)) => x.to_bits() == y.to_bits(), (a, b) => a == b } }
pub fn diff(a: &JsonValue, b: &JsonValue) -> Option<String> { diff_at(a, b, "$") }
fn short(s: String) -> String { if s.chars().count() > 120 { s.chars().take(117).collect::<String>() + "..." } else { s } }
fn diff_at(a: &JsonValue, b: &JsonValue, at: &str) -> Option<String> {
    match (a, b) {
        (JsonValue::Primitive(x), JsonValue::Primitive(y)) => if same_p(x, y) { None } else { Some(short(format!("at {at}: expected {x:?}, got {y:?}"))) },
        (JsonValue::Array(x), JsonValue::Array(y)) => { if x.len() != y.len() { return Some(format!("at {at}: expected {} items, got {}", x.len(), y.len())); } x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff_at(p, q, &format!("{at}[{i}]"))) }
        (JsonValue::Object(x), JsonValue::Object(y)) => {
            if x.len() != y.len() { return Some(format!("at {at}: expected {} entries, got {}", x.len(), y.len())); }
            x.iter().zip(y).find_map(|(p, q)| if p.0 != q.0 { Some(short(format!("at {at}: expected key {:?}, got {:?}", p.0, q.0))) } else { diff_at(&p.1, &q.1, &format!("{at}.{}", short(p.0.clone()))) })
        }
        (a, b) => Some(short(format!("at {at}: expected {}, got {}", kind(a), kind(b)))),
    }
}
fn kind(v: &JsonValue) -> String { match v { JsonValue::Primitive(p) => format!("{p:?}"), JsonValue::Array(a) => format!("array of {}", a.len()), JsonValue::Object(o) => format!("object of {}", o.len()) } }

// ---- canonical encoder ----------------------------------------------------------------------------
pub struct Opt { pub delim: char, pub indent: usize, pub fold: bool, pub flat: usize }
/// looks like a number, also with leading zeros
pub fn numlike(t: &str) -> bool {
    if json_number(t) { return true; }
    let u = t.strip_prefix('-').unwrap_or(t);
    let n = u.bytes().take_while(u8::is_ascii_digit).count();
    n > 1 && u.starts_with('0')
}
pub fn bare_string(s: &str, d: char) -> bool {
    !s.is_empty() && s.trim() == s && !matches!(s, "true" | "false" | "null") && !numlike(s) && !s.starts_with('-')
        && !s.chars().any(|c| matches!(c, ':' | '"' | '\\' | '[' | ']' | '{' | '}' | '\n' | '\r' | '\t') || c == d)
}
pub fn tok(p: &P, d: char) -> String {
    match p { P::Null => "null".into(), P::Bool(b) => b.to_string(), P::Number(f) => if !f.is_finite() { "null".into() } else if *f == 0.0 { "0".into() } else { format!("{f}") }, P::String(s) => if bare_string(s, d) { s.clone() } else { quote(s) } }
}
pub fn keytok(k: &str) -> String { if bare_key(k) { k.into() } else { quote(k) } }
fn hdr(n: usize, k: Option<&str>, f: Option<&[String]>, d: char) -> String {
    let dm = if d == ',' { String::new() } else { d.to_string() };
    format!("{}[{n}{dm}]{}:", k.map(keytok).unwrap_or_default(), f.map(|f| format!("{{{}}}", f.iter().map(|k| keytok(k)).collect::<Vec<_>>().join(&d.to_string()))).unwrap_or_default())
}
fn ind(o: &Opt, d: usize) -> String { " ".repeat(o.indent * d) }
pub fn encode(v: &JsonValue, o: &Opt) -> Vec<String> {
    let mut out = vec![];
    match v {
        JsonValue::Primitive(p) => out.push(tok(p, o.delim)),
        JsonValue::Array(a) => arr("", a, 0, o, &mut out, None),
        JsonValue::Object(e) => { let roots: Vec<String> = e.iter().map(|x| x.0.clone()).filter(|k| k.contains('.')).collect(); obj(e, 0, 0, o, &roots, "", o.flat, &mut out) }
    }
    out
}
/// the members of e from number `from` on; all of e are siblings
#[allow(clippy::too_many_arguments)]
fn obj(e: &[(String, JsonValue)], from: usize, depth: usize, o: &Opt, roots: &[String], prefix: &str, flat: usize, out: &mut Vec<String>) {
    for (k, v) in &e[from..] {
        let full = |k: &str| if prefix.is_empty() { k.to_string() } else { format!("{prefix}{k}") };
        if o.fold && matches!(v, JsonValue::Object(_)) && flat >= 2 {
            let mut segs = vec![k.clone()]; let mut cur = v;
            while segs.len() < flat { match cur { JsonValue::Object(x) if x.len() == 1 => { segs.push(x[0].0.clone()); cur = &x[0].1; } _ => break } }
            let folded = segs.join(".");
            if segs.len() >= 2 && segs.iter().all(|s| ident(s)) && !e.iter().any(|x| x.0 == folded) && !roots.contains(&full(&folded)) {
                match cur {
                    JsonValue::Object(x) if !x.is_empty() => { out.push(format!("{}{folded}:", ind(o, depth))); obj(x, 0, depth + 1, o, roots, &format!("{}.", full(&folded)), flat.saturating_sub(segs.len()), out); }
                    _ => kv(&folded, cur, depth, o, roots, prefix, flat, out),
                }
                continue;
            }
        }
        kv(k, v, depth, o, roots, prefix, flat, out);
    }
}
#[allow(clippy::too_many_arguments)]
fn kv(k: &str, v: &JsonValue, depth: usize, o: &Opt, roots: &[String], prefix: &str, flat: usize, out: &mut Vec<String>) {
    match v {
        JsonValue::Primitive(p) => out.push(format!("{}{}: {}", ind(o, depth), keytok(k), tok(p, o.delim))),
        JsonValue::Array(a) => arr(&ind(o, depth), a, depth, o, out, Some(k)),
        JsonValue::Object(x) => { out.push(format!("{}{}:", ind(o, depth), keytok(k))); obj(x, 0, depth + 1, o, roots, &format!("{prefix}{k}."), flat, out); }
    }
}
fn prims(a: &[JsonValue], d: char) -> Option<String> { let mut t = vec![]; for x in a { match x { JsonValue::Primitive(p) => t.push(tok(p, d)), _ => return None } } Some(t.join(&d.to_string())) }
fn rows(a: &[JsonValue], f: &[String], depth: usize, o: &Opt, out: &mut Vec<String>) {
    for r in a { if let JsonValue::Object(e) = r { let c: Vec<String> = f.iter().map(|k| match &e.iter().find(|x| &x.0 == k).unwrap().1 { JsonValue::Primitive(p) => tok(p, o.delim), _ => unreachable!() }).collect(); out.push(format!("{}{}", ind(o, depth), c.join(&o.delim.to_string()))); } }
}
/// an array in key or root position
fn arr(start: &str, a: &[JsonValue], depth: usize, o: &Opt, out: &mut Vec<String>, k: Option<&str>) {
    if a.is_empty() { out.push(format!("{start}{}", hdr(0, k, None, o.delim))); return; }
    if let Some(p) = prims(a, o.delim) { out.push(format!("{start}{} {p}", hdr(a.len(), k, None, o.delim))); return; }
    if let Some(f) = tab_fields(a) { out.push(format!("{start}{}", hdr(a.len(), k, Some(&f), o.delim))); rows(a, &f, depth + 1, o, out); return; }
    out.push(format!("{start}{}", hdr(a.len(), k, None, o.delim)));
    for x in a { item(x, depth + 1, o, out); }
}
fn item(v: &JsonValue, depth: usize, o: &Opt, out: &mut Vec<String>) {
    let h = format!("{}- ", ind(o, depth));
    match v {
        JsonValue::Primitive(p) => out.push(format!("{h}{}", tok(p, o.delim))),
        JsonValue::Array(a) => {
            if a.is_empty() { out.push(format!("{h}{}", hdr(0, None, None, o.delim))); }
            else if let Some(p) = prims(a, o.delim) { out.push(format!("{h}{} {p}", hdr(a.len(), None, None, o.delim))); }
            else { out.push(format!("{h}{}", hdr(a.len(), None, None, o.delim))); for x in a { item(x, depth + 1, o, out); } }
        }
        JsonValue::Object(e) => {
            if e.is_empty() { out.push(format!("{}-", ind(o, depth))); return; }
            let (k, v) = &e[0];
            match v {
                JsonValue::Primitive(p) => out.push(format!("{h}{}: {}", keytok(k), tok(p, o.delim))),
                JsonValue::Array(a) => arr(&h, a, depth + 1, o, out, Some(k)),
                JsonValue::Object(x) => { out.push(format!("{h}{}:", keytok(k))); obj(x, 0, depth + 2, o, &[], "", o.flat, out); }
            }
            obj(e, 1, depth + 1, o, &[], "", o.flat, out);
        }
    }
}
// ---- events -----------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum N { P(P), A(Vec<N>), O(Vec<(String, bool, N)>) }
/// tree of a well-formed event list, or what is wrong with it
pub fn tree(ev: &[E], counts: bool) -> Result<N, String> {
    fn val(ev: &[E], i: &mut usize, counts: bool) -> Result<N, String> {
        let Some(e) = ev.get(*i) else { return Err("events end early".into()) };
        *i += 1;
        match e {
            E::Primitive { value } => Ok(N::P(value.clone())),
            E::StartArray { length } => {
                let mut a = vec![];
                loop { match ev.get(*i) { Some(E::EndArray) => { *i += 1; break; } _ => a.push(val(ev, i, counts)?) } }
                if counts && *length != a.len() { return Err(format!("array start declares {length}, holds {}", a.len())); }
                Ok(N::A(a))
            }
            E::StartObject => {
                let mut o = vec![];
                loop { match ev.get(*i) { Some(E::EndObject) => { *i += 1; break; } Some(E::Key { key, was_quoted }) => { *i += 1; let v = val(ev, i, counts)?; o.push((key.clone(), *was_quoted, v)); } x => return Err(format!("expected a key, got {x:?}")) } }
                Ok(N::O(o))
            }
            x => Err(format!("event {x:?} where a value belongs (index {})", *i - 1)),
        }
    }
    let mut i = 0; let n = val(ev, &mut i, counts)?;
    if i != ev.len() { return Err(format!("{} events after the root value", ev.len() - i)); }
    Ok(n)
}
pub fn plain(n: &N) -> JsonValue { match n { N::P(p) => JsonValue::Primitive(p.clone()), N::A(a) => JsonValue::Array(a.iter().map(plain).collect()), N::O(o) => JsonValue::Object(o.iter().map(|(k, _, v)| (k.clone(), plain(v))).collect()) } }
pub fn events(v: &JsonValue, out: &mut Vec<E>) {
    match v {
        JsonValue::Primitive(p) => out.push(E::Primitive { value: p.clone() }),
        JsonValue::Array(a) => { out.push(E::StartArray { length: a.len() }); for x in a { events(x, out); } out.push(E::EndArray); }
        JsonValue::Object(o) => { out.push(E::StartObject); for (k, x) in o { out.push(E::Key { key: k.clone(), was_quoted: !bare_key(k) }); events(x, out); } out.push(E::EndObject); }
    }
}
/// some object has one key both quoted and unquoted
pub fn mixed_quotes(n: &N) -> bool { match n { N::P(_) => false, N::A(a) => a.iter().any(mixed_quotes), N::O(o) => o.iter().any(|(k, q, v)| mixed_quotes(v) || o.iter().any(|(k2, q2, _)| k2 == k && q2 != q)) } }
/// the known finding of C07: in one object, a key text written with quotes anywhere counts as quoted everywhere
pub fn by_name(n: &N) -> N { match n { N::P(p) => N::P(p.clone()), N::A(a) => N::A(a.iter().map(by_name).collect()), N::O(o) => N::O(o.iter().map(|(k, _, v)| (k.clone(), o.iter().any(|(k2, q2, _)| k2 == k && *q2), by_name(v))).collect()) } }
// ---- path expansion ---------------------------------------------------------------------------------
pub fn expand(n: &N, strict: bool) -> Result<JsonValue, String> {
    Ok(match n {
        N::P(p) => JsonValue::Primitive(p.clone()),
        N::A(a) => JsonValue::Array(a.iter().map(|x| expand(x, strict)).collect::<Result<_, _>>()?),
        N::O(o) => {
            let mut out: Vec<(String, JsonValue)> = vec![];
            for (k, q, v) in o {
                let v = expand(v, strict)?;
                let segs: Vec<&str> = k.split('.').collect();
                if segs.len() > 1 && !q && segs.iter().all(|s| ident(s)) { put(&mut out, &segs, v, strict)?; } else { put(&mut out, &[k.as_str()], v, strict)?; }
            }
            JsonValue::Object(out)
        }
    })
}
fn put(o: &mut Vec<(String, JsonValue)>, segs: &[&str], v: JsonValue, strict: bool) -> Result<(), String> {
    let pos = o.iter().position(|e| e.0 == segs[0]);
    if segs.len() == 1 {
        match pos {
            None => o.push((segs[0].into(), v)),
            Some(i) => match (&mut o[i].1, v) {
                (JsonValue::Object(t), JsonValue::Object(s)) => for (k, x) in s { put(t, &[&k], x, strict)?; },
                (_, v) => { if strict { return Err(format!("conflict at {:?}", segs[0])); } o[i].1 = v; }
            },
        }
        return Ok(());
    }
    let i = match pos { Some(i) => i, None => { o.push((segs[0].into(), JsonValue::Object(vec![]))); o.len() - 1 } };
    if !matches!(o[i].1, JsonValue::Object(_)) { if strict { return Err(format!("conflict at segment {:?}", segs[0])); } o[i].1 = JsonValue::Object(vec![]); }
    match &mut o[i].1 { JsonValue::Object(t) => put(t, &segs[1..], v, strict), _ => unreachable!() }
}
// ---- replacer ---------------------------------------------------------------------------------------
pub type Log = Vec<(String, String, String)>;
/// what a caller-supplied rewrite rule answers; decided by hashing its arguments
pub fn rule(seed: u64, key: &str, v: &JsonValue, path: &str) -> Option<JsonValue> {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in key.bytes().chain(path.bytes()) { h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3); }
    h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 32;
    match h % 12 {
        0 => None,
        1 => Some(JsonValue::Primitive(P::Number(if h & 64 == 0 { f64::NAN } else { -0.0 }))),
        2 => Some(JsonValue::Array(vec![v.clone(), JsonValue::Primitive(P::Number(f64::INFINITY))])).filter(|_| path.matches('/').count() < 4),
        3 => Some(JsonValue::Object(vec![("k".into(), v.clone())])).filter(|_| path.matches('/').count() < 4),
        4 => Some(JsonValue::Primitive(P::String(format!("<{key}>")))),
        5 => Some(JsonValue::Object(vec![])),
        _ => Some(v.clone()),
    }
}
pub fn replace(v: &JsonValue, seed: u64, log: &mut Log) -> JsonValue {
    log.push((String::new(), crate::json::show(v), String::new()));
    let v = match rule(seed, "", v, "") { Some(x) => norm(&x), None => v.clone() };
    kids(v, seed, "", log)
}
fn kids(v: JsonValue, seed: u64, path: &str, log: &mut Log) -> JsonValue {
    match v {
        JsonValue::Primitive(_) => v,
        JsonValue::Object(o) => JsonValue::Object(o.into_iter().filter_map(|(k, v)| { let p = format!("{path}/k{k}"); log.push((k.clone(), crate::json::show(&v), p.clone())); rule(seed, &k, &v, &p).map(|x| (k, kids(norm(&x), seed, &p, log))) }).collect()),
        JsonValue::Array(a) => JsonValue::Array(a.into_iter().enumerate().filter_map(|(i, v)| { let k = i.to_string(); let p = format!("{path}/i{i}"); log.push((k.clone(), crate::json::show(&v), p.clone())); rule(seed, &k, &v, &p).map(|x| kids(norm(&x), seed, &p, log)) }).collect()),
    }
}
