//! One case generator and one oracle per property. A case is data: it can be written out and replayed.
use crate::doc::{mutate, soup, Doc, Fault};
use crate::gen::Gen;
use crate::json;
use crate::refs::*;
use toon::options::{DecodeOptions, DecodeStreamOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode, PathSegment};
use toon::{JsonStreamEvent as E, JsonValue, StringOrNumberOrBoolOrNull as P};
#[derive(Clone, Debug)]
pub struct Case { pub op: String, pub v: JsonValue, pub t: String, pub u: String, pub d: char, pub indent: usize, pub strict: bool, pub fold: bool, pub flat: usize, pub n: u64 }
impl Case {
    pub fn new(op: &str) -> Case { Case { op: op.into(), v: JsonValue::Primitive(P::Null), t: String::new(), u: String::new(), d: ',', indent: 2, strict: true, fold: false, flat: usize::MAX, n: 0 } }
    pub fn show(&self, prop: &str, why: &str) -> String {
        let q = |s: &str| json::quote(s);
        format!("{{\n \"property\": {},\n \"why\": {},\n \"op\": {},\n \"value\": {},\n \"text\": {},\n \"text2\": {},\n \"delimiter\": {},\n \"indent\": {},\n \"strict\": {},\n \"fold\": {},\n \"flatten_depth\": {},\n \"n\": {}\n}}\n",
            q(prop), q(why), q(&self.op), json::show(&self.v), q(&self.t), q(&self.u), q(&self.d.to_string()), q(&self.indent.to_string()), self.strict, self.fold, q(&self.flat.to_string()), q(&self.n.to_string()))
    }
    pub fn read(s: &str) -> Result<(String, Case), String> {
        let JsonValue::Object(o) = json::parse(s)? else { return Err("not an object".into()) };
        let raw = |k: &str| o.iter().find(|e| e.0 == k).map(|e| e.1.clone()).ok_or(format!("no field {k}"));
        let st = |k: &str| match raw(k)? { JsonValue::Primitive(P::String(s)) => Ok(s), _ => Err(format!("field {k}")) };
        let bo = |k: &str| match raw(k)? { JsonValue::Primitive(P::Bool(s)) => Ok(s), _ => Err(format!("field {k}")) };
        Ok((st("property")?, Case { op: st("op")?, v: json::unshow(raw("value")?), t: st("text")?, u: st("text2")?, d: st("delimiter")?.chars().next().unwrap_or(','), indent: st("indent")?.parse().map_err(|_| "indent")?, strict: bo("strict")?, fold: bo("fold")?, flat: st("flatten_depth")?.parse().map_err(|_| "flat")?, n: st("n")?.parse().map_err(|_| "n")? }))
    }
    pub fn eo(&self) -> Option<EncodeOptions> { Some(EncodeOptions { indent: Some(self.indent), delimiter: Some(self.d), key_folding: Some(if self.fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }), flatten_depth: Some(self.flat), replacer: None }) }
    fn ro(&self) -> Opt { Opt { delim: self.d, indent: self.indent, fold: self.fold, flat: self.flat } }
}
pub fn dopt(indent: usize, strict: bool, expand: bool) -> Option<DecodeOptions> { Some(DecodeOptions { indent: Some(indent), strict: Some(strict), expand_paths: Some(if expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }) }) }
fn dec(t: &str, indent: usize, strict: bool, expand: bool) -> Result<JsonValue, String> { toon::try_decode(t, dopt(indent, strict, expand)).map_err(|e| e.to_string()) }
fn evs(t: &str, indent: usize, strict: bool) -> Result<Vec<E>, String> { toon::try_decode_stream_sync(t.split('\n').map(str::to_string), Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) })).map_err(|e| e.to_string()) }
fn expect(what: &str, want: &JsonValue, got: Result<JsonValue, String>) -> Result<(), String> { match got { Err(e) => Err(format!("{what}: rejected: {e}")), Ok(g) => match diff(want, &g) { None => Ok(()), Some(d) => Err(format!("{what}: {d}")) } } }
pub fn clip(s: &str) -> String { if s.chars().count() > 160 { s.chars().take(157).collect::<String>() + "..." } else { s.into() } }
fn same_lines(what: &str, want: &[String], got: &[String]) -> Result<(), String> {
    if want == got { return Ok(()); }
    for i in 0..want.len().max(got.len()) { if want.get(i) != got.get(i) { return Err(format!("{what}: line {} should be {}, is {}", i + 1, clip(&format!("{:?}", want.get(i))), clip(&format!("{:?}", got.get(i))))); } }
    unreachable!()
}
fn str_p(s: &str) -> JsonValue { JsonValue::Primitive(P::String(s.into())) }
fn wrap_string(op: &str, s: &str, s2: &str) -> JsonValue {
    let v = str_p(s);
    match op {
        "root" => v, "field" => JsonValue::Object(vec![("k".into(), v)]), "key" => JsonValue::Object(vec![(s.into(), str_p(s2))]),
        "inline" => JsonValue::Array(vec![v, str_p(s2)]), "inlinekey" => JsonValue::Object(vec![(s.into(), JsonValue::Array(vec![str_p(s2), v]))]),
        "cell" => JsonValue::Array(vec![JsonValue::Object(vec![("a".into(), v), ("b".into(), str_p(s2))]), JsonValue::Object(vec![("a".into(), str_p(s2)), ("b".into(), str_p(s))])]),
        "column" => JsonValue::Object(vec![("t".into(), JsonValue::Array(vec![JsonValue::Object(if s == "z" { vec![(s.into(), v)] } else { vec![(s.into(), v), ("z".into(), str_p(s2))] }), JsonValue::Object(if s == "z" { vec![(s.into(), str_p(s2))] } else { vec![(s.into(), str_p(s2)), ("z".into(), str_p(s))] })]))]),
        "item" => JsonValue::Array(vec![v, JsonValue::Object(vec![]), str_p(s2)]),
        "itemkey" => JsonValue::Array(vec![JsonValue::Object(vec![(s.into(), str_p(s2))]), str_p(s)]),
        "tablekey" => JsonValue::Object(vec![(s.into(), JsonValue::Array(vec![JsonValue::Object(vec![(s.into(), str_p(s2))])]))]),
        "itemtable" => JsonValue::Array(vec![JsonValue::Object(vec![(s.into(), JsonValue::Array(vec![JsonValue::Object(vec![(s.into(), v)])]))]), JsonValue::Primitive(P::Null)]),
        "nest" => JsonValue::Object(vec![(s.into(), JsonValue::Object(vec![(s2.into(), v)]))]),
        _ => JsonValue::Array(vec![JsonValue::Array(vec![v]), JsonValue::Array(vec![str_p(s2), str_p(s)])]),
    }
}
const SPOTS: &[&str] = &["root", "field", "key", "inline", "inlinekey", "cell", "column", "item", "itemkey", "tablekey", "itemtable", "nest", "lists"];
fn opts(g: &mut Gen, c: &mut Case) { c.d = g.delim(); c.indent = g.indent(); }
fn docval(g: &mut Gen) -> JsonValue {
    let mut b = match g.r.below(12) { 0 => 300, 1 => 120, _ => 30 };
    let d = g.r.range(2, 6);
    if g.r.chance(1, 60) { return g.long(false); }
    match g.r.below(4) { 0 => { let n = g.r.range(1, 4); let ks = g.keys(n, false); JsonValue::Object(ks.into_iter().map(|k| { let v = g.value(d, &mut b, false); (k, v) }).collect()) } 1 => { let n = g.r.range(0, 4); JsonValue::Array((0..n).map(|_| g.value(d, &mut b, false)).collect()) } _ => g.value(d, &mut b, false) }
}
fn has_num_text(v: &JsonValue) -> bool { match v { JsonValue::Primitive(P::Number(f)) => !f.is_finite(), JsonValue::Primitive(_) => false, JsonValue::Array(a) => a.iter().any(has_num_text), JsonValue::Object(o) => o.iter().any(|e| has_num_text(&e.1)) } }
fn close(a: &JsonValue, b: &JsonValue) -> bool {
    match (a, b) { (JsonValue::Primitive(P::Number(x)), JsonValue::Primitive(P::Number(y))) => x == y || (x - y).abs() <= 4e-16 * x.abs().max(y.abs()), (JsonValue::Primitive(x), JsonValue::Primitive(y)) => x == y, (JsonValue::Array(x), JsonValue::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)), (JsonValue::Object(x), JsonValue::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && close(&p.1, &q.1)), _ => false }
}
fn random_events(g: &mut Gen) -> Vec<E> {
    let v = { let mut b = 15; g.value(3, &mut b, true) };
    let mut e = vec![]; events(&v, &mut e);
    for _ in 0..g.r.below(4) {
        let i = g.r.below(e.len().max(1));
        match g.r.below(4) { 0 if !e.is_empty() => { e.remove(i); } 1 if !e.is_empty() => { let x = e[i].clone(); e.insert(i, x); } 2 if !e.is_empty() => { let j = g.r.below(e.len()); e.swap(i, j); } _ => { let x = match g.r.below(6) { 0 => E::StartObject, 1 => E::EndObject, 2 => E::StartArray { length: g.r.below(3) }, 3 => E::EndArray, 4 => E::Key { key: g.ident(), was_quoted: g.r.chance(1, 2) }, _ => E::Primitive { value: g.prim() } }; e.insert(i.min(e.len()), x); } }
    }
    e
}
/// what makes an event list describe no value: an end without its start, a start without its end, a key outside an object, or a value in an object that no key announces
fn malformed(e: &[E]) -> Option<&'static str> {
    let mut open: Vec<bool> = vec![]; let mut key = false;
    if e.is_empty() { return Some("no event"); }
    for x in e {
        let value = matches!(x, E::StartObject | E::StartArray { .. } | E::Primitive { .. });
        if value && open.last() == Some(&true) && !key { return Some("a value in an object without a key"); }
        match x { E::StartObject => open.push(true), E::StartArray { .. } => open.push(false), E::EndObject => if open.pop() != Some(true) { return Some("an object end that ends no object"); }, E::EndArray => if open.pop() != Some(false) { return Some("an array end that ends no array"); }, E::Key { .. } => if open.last() != Some(&true) { return Some("a key outside an object"); }, E::Primitive { .. } => {} }
        key = matches!(x, E::Key { .. });
    }
    if open.is_empty() { None } else { Some("a start without its end") }
}
fn ev_from(v: &JsonValue) -> Vec<E> {
    // events coded as a JSON array of [tag, payload]
    let JsonValue::Array(a) = v else { return vec![] };
    a.iter().filter_map(|x| { let JsonValue::Array(x) = x else { return None }; let tag = match x.first()? { JsonValue::Primitive(P::String(s)) => s.as_str(), _ => return None };
        Some(match tag { "{" => E::StartObject, "}" => E::EndObject, "]" => E::EndArray, "[" => E::StartArray { length: match x.get(1)? { JsonValue::Primitive(P::Number(f)) => *f as usize, _ => 0 } }, "p" => E::Primitive { value: match x.get(1)? { JsonValue::Primitive(p) => p.clone(), _ => P::Null } }, t => E::Key { key: match x.get(1)? { JsonValue::Primitive(P::String(s)) => s.clone(), _ => String::new() }, was_quoted: t == "q" } }) }).collect()
}
fn ev_to(e: &[E]) -> JsonValue {
    JsonValue::Array(e.iter().map(|x| JsonValue::Array(match x { E::StartObject => vec![str_p("{")], E::EndObject => vec![str_p("}")], E::EndArray => vec![str_p("]")], E::StartArray { length } => vec![str_p("["), JsonValue::Primitive(P::Number(*length as f64))], E::Primitive { value } => vec![str_p("p"), JsonValue::Primitive(value.clone())], E::Key { key, was_quoted } => vec![str_p(if *was_quoted { "q" } else { "k" }), str_p(key)] })).collect())
}
/// None: the property has no random part of this shape
pub fn make(prop: &str, g: &mut Gen) -> Case {
    let mut c = Case::new("");
    match prop {
        "C01" => { opts(g, &mut c); if g.r.chance(1, 8) { c.op = "json".into(); let v = g.any_value(true); c.v = norm(&v); } else { c.op = "value".into(); c.v = if g.r.chance(1, 30) { let n = g.r.range(5, 120); g.deep(n) } else { g.any_value(true) }; } }
        "C02" => match g.r.below(8) {
            0..=2 => { c.op = "text".into(); c.t = soup(g); }
            3..=4 => { c.op = "text".into(); let v = g.any_value(true); c.d = g.delim(); c.indent = g.indent(); let t = refs_text(&v, &c); c.t = mutate(g, &t); }
            5 => { c.op = "events".into(); c.v = ev_to(&random_events(g)); c.indent = g.indent(); }
            6 => { c.op = "text".into(); let mut s = String::new(); for _ in 0..g.r.below(40) { s.push(if g.r.chance(1, 6) { '\n' } else { g.ch() }); } c.t = s; }
            _ => { c.op = "encode".into(); c.v = if g.r.chance(1, 8) { let n = g.r.range(50, 200); g.deep(n) } else { dup(g) }; c.d = if g.r.chance(1, 10) { g.ch() } else { g.delim() }; c.indent = if g.r.chance(1, 6) { 0 } else { g.indent() }; c.fold = g.r.chance(1, 2); c.flat = flat(g); }
        },
        "C03" => { opts(g, &mut c); c.op = g.r.pick(SPOTS).to_string(); c.t = g.string(); c.u = g.string(); if c.op == "nest" && c.t.is_empty() {} }
        "C04" | "C13" | "C18" => {
            c.v = norm(&docval(g)); c.indent = g.indent(); doc_case(prop, g, &mut c);
        }
        "C05" => match g.r.below(4) {
            0 => { c.op = "events".into(); c.v = ev_to(&random_events(g)); }
            1 => { c.op = "value".into(); c.v = g.any_value(true); }
            2 => { c.op = "text".into(); c.t = soup(g); c.strict = g.r.chance(1, 2); }
            _ => { c.op = "text".into(); let v = g.any_value(true); opts(g, &mut c); let t = refs_text(&v, &c); c.t = if g.r.chance(1, 3) { t } else { mutate(g, &t) }; c.strict = g.r.chance(1, 2); }
        },
        "C06" if g.r.chance(1, 4) => { opts(g, &mut c); c.op = "keys".into(); c.fold = true; c.flat = flat(g); c.v = dotted_chains(g); }
        "C06" => { opts(g, &mut c); c.op = "fold".into(); c.fold = true; c.flat = flat(g); c.v = if g.r.chance(1, 2) { chains(g) } else { let v = g.any_value(false); if depth(&v) > 40 { chains(g) } else { v } }; }
        "C07" => { c.op = "expand".into(); c.strict = g.r.chance(1, 2); c.indent = 2; let mut r = crate::rng::Rng::new(g.r.u64()); let v = dotted(g, 3); let mut d = Doc::new(&mut r, 2); d.plain = true; d.root(&v); c.t = d.text(); }
        "C08" => { opts(g, &mut c); c.op = "layout".into(); c.fold = g.r.chance(1, 3); c.flat = flat(g); c.v = if g.r.chance(1, 3) { chains(g) } else { g.any_value(true) }; }
        "C09" => match g.r.below(5) {
            4 => { c.op = "events".into(); c.v = ev_to(&random_events(g)); c.indent = if g.r.chance(1, 4) { 0 } else { g.indent() }; }
            0 => { c.op = "value".into(); c.v = dup(g); c.indent = if g.r.chance(1, 4) { 0 } else { g.indent() }; }
            1 => { c.op = "text".into(); c.t = soup(g); c.strict = g.r.chance(1, 2); }
            _ => { c.op = "text".into(); let v = g.any_value(true); opts(g, &mut c); if g.r.chance(1, 6) { c.indent = 0; } let i = c.indent.max(1); let o = c.indent; c.indent = i; c.t = refs_text(&v, &c); c.indent = o; c.strict = g.r.chance(1, 2); }
        },
        "C10" => {
            c.strict = g.r.chance(1, 2); opts(g, &mut c);
            if g.r.chance(2, 3) {
                c.op = "text".into(); c.n = if g.r.chance(1, 8) { 0 } else { 1 + g.r.below(3) as u64 }; if c.n & 1 == 0 { c.indent = 2; }
                c.t = match g.r.below(6) { 0 => soup(g), 1 | 2 => { let v = g.any_value(true); refs_text(&v, &c) } 3 => flat_doc(g, c.indent), _ => { let v = docval(g); let t = refs_text(&v, &c); mutate(g, &t) } };
            } else { c.op = "value".into(); c.v = g.any_value(true); c.fold = g.r.chance(1, 3); c.flat = flat(g); c.n = match g.r.below(4) { 0 => 0, 1 => 1, _ => g.r.u64() }; if depth(&c.v) > 30 { c.v = chains(g); } }
        }
        "C11" => { c.op = "replacer".into(); c.n = g.r.u64(); c.v = g.any_value(true); if depth(&c.v) > 30 { c.v = chains(g); } opts(g, &mut c); }
        "C12" => match g.r.below(3) {
            0 => { c.op = "num".into(); c.n = g.num().to_bits(); }
            1 => { c.op = "token".into(); c.t = numtext(g); c.n = g.r.below(5) as u64; }
            _ => { c.op = "int".into(); c.n = if g.r.chance(1, 2) { g.num() as i64 as u64 } else { g.r.u64() >> g.r.below(64) }; }
        },
        "C15" => {
            c.op = "cap".into();
            let n = match g.r.below(6) { 0 => 100_000_001u64, 1 => 100_000_000, 2 => g.r.u64() >> g.r.below(50), 3 => u64::MAX, 4 => 100_000_000 + g.r.below(1000) as u64, _ => g.r.below(200_000_000) as u64 };
            let n = if g.r.chance(1, 8) { n.saturating_add(1) } else { n };
            c.n = n; c.strict = g.r.chance(1, 2);
            let dm = ["", "|", "\t"][g.r.below(3)]; let f = ["", "{a}", "{a,b}"][g.r.below(3)]; let k = ["", "k", "\"q q\""][g.r.below(3)];
            let h = format!("{k}[{n}{dm}]{f}:"); let inl = if f.is_empty() && g.r.chance(1, 2) { " x" } else { "" };
            c.t = match g.r.below(4) { 0 => format!("{h}{inl}"), 1 => format!("z:\n  {}{inl}", if k.is_empty() { format!("k{h}") } else { h }), 2 => format!("z[1]:\n  - {h}{inl}"), _ => format!("y: 1\n{}{inl}", if k.is_empty() { format!("k{h}") } else { h }) };
        }
        "C16" => { c.op = "text".into(); c.t = if g.r.chance(1, 2) { soup(g) } else { let v = docval(g); opts(g, &mut c); let t = refs_text(&v, &c); mutate(g, &t) }; if g.r.chance(1, 4) { let mut r = crate::rng::Rng::new(g.r.u64()); let v = dotted(g, 3); let mut d = Doc::new(&mut r, 2); d.plain = true; d.root(&v); c.t = d.text(); c.indent = 2; } }
        "C17" => { c.op = "events".into(); c.v = g.any_value(true); }
        _ => panic!("unknown property {prop}"),
    }
    c
}
fn refs_text(v: &JsonValue, c: &Case) -> String { encode(&canon(&norm(v)), &c.ro()).join("\n") }
/// mostly `key: value` lines at depth 0, with other lines strewn in
fn flat_doc(g: &mut Gen, w: usize) -> String {
    let n = g.r.range(1, 9); let mut l: Vec<String> = vec![];
    for _ in 0..n {
        let k = match g.r.below(5) { 0 => format!("{:?}", g.ident()), _ => g.ident() };
        let v = match g.r.below(5) { 0 => "true".to_string(), 1 => g.r.below(99).to_string(), 2 => "\"a: b\"".into(), _ => g.ident() };
        let pad = " ".repeat(match g.r.below(12) { 0 => w, 1 => 1, 2 => 2 * w, _ => 0 });
        l.push(match g.r.below(24) { 0 => String::new(), 1 => format!("{pad}{k}:"), 2 => format!("{pad}- {v}"), 3 => format!("{pad}{k}[1]: {v}"), 4 => format!("{pad}{k}[1]:"), 5 => format!("{pad}[1]: {v}"), 6 => v, 7 => format!("{pad}\t{k}: {v}"), 8 => format!("{pad}{k}: \"x"), 9 => format!("{pad}{k}[x]: {v}"), 10 => format!("{pad}- {k}: {v}"), 11 => format!("{pad}\"{k}: {v}"), 12 => " ".repeat(g.r.below(4)), _ => format!("{pad}{k}: {v}") });
    }
    if g.r.chance(1, 3) { l.push(String::new()); }
    l.join("\n")
}
fn flat(g: &mut Gen) -> usize { if g.r.chance(1, 2) { usize::MAX } else { g.r.range(0, 7) } }
fn depth(v: &JsonValue) -> usize { match v { JsonValue::Primitive(_) => 0, JsonValue::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0), JsonValue::Object(o) => 1 + o.iter().map(|e| depth(&e.1)).max().unwrap_or(0) } }
fn dup(g: &mut Gen) -> JsonValue {
    fn go(g: &mut Gen, v: JsonValue) -> JsonValue { match v { JsonValue::Object(mut o) => { o = o.into_iter().map(|(k, v)| (k, go(g, v))).collect(); if !o.is_empty() && g.r.chance(1, 3) { let i = g.r.below(o.len()); let k = o[i].0.clone(); let p = g.prim(); o.push((k, JsonValue::Primitive(p))); } JsonValue::Object(o) } JsonValue::Array(a) => JsonValue::Array(a.into_iter().map(|x| go(g, x)).collect()), v => v } }
    let v = g.any_value(true); go(g, v)
}
fn chains(g: &mut Gen) -> JsonValue {
    fn leaf(g: &mut Gen, d: usize) -> JsonValue { match g.r.below(8) { 0 => JsonValue::Object(vec![]), 1 => JsonValue::Array(vec![]), 2 => { let mut b = 12; g.value(2, &mut b, false) } 3 if d > 0 => chain(g, d - 1), _ => JsonValue::Primitive(g.prim()) } }
    fn chain(g: &mut Gen, d: usize) -> JsonValue { let n = g.r.range(1, 4); let ks = g.keys(n, false); JsonValue::Object(ks.into_iter().map(|k| { let mut v = leaf(g, d); for _ in 0..g.r.below(6) { let k = if g.r.chance(7, 8) { ["a", "b", "c"][g.r.below(3)].to_string() } else { g.key(false) }; v = JsonValue::Object(vec![(k, v)]); } (k, v) }).collect()) }
    if g.r.chance(1, 8) { JsonValue::Array(vec![chain(g, 2), chain(g, 1)]) } else { chain(g, 2) }
}
/// chains whose folded key can be the literal key of a sibling
fn dotted_chains(g: &mut Gen) -> JsonValue {
    fn obj(g: &mut Gen, d: usize) -> JsonValue {
        let mut o: Vec<(String, JsonValue)> = vec![];
        for _ in 0..g.r.range(1, 4) {
            let m = g.r.range(1, 4); let segs: Vec<&str> = (0..m).map(|_| ["a", "b", "c"][g.r.below(3)]).collect();
            let mut v = match g.r.below(6) { 0 if d > 0 => obj(g, d - 1), 1 if d > 0 => { let n = g.r.range(1, 3); JsonValue::Array((0..n).map(|_| obj(g, d - 1)).collect()) } 2 => JsonValue::Object(vec![]), 3 => JsonValue::Array(vec![]), _ => JsonValue::Primitive(P::Number(g.r.below(9) as f64)) };
            let (first, dotted) = (g.r.chance(1, 3), g.r.chance(1, 2));
            let mut put = |k: String, v: JsonValue| { if !o.iter().any(|e| e.0 == k) { if first { o.insert(0, (k, v)); } else { o.push((k, v)); } } };
            if dotted { put(segs.join("."), JsonValue::Primitive(P::Null)); }
            for s in segs[1..].iter().rev() { v = JsonValue::Object(vec![(s.to_string(), v)]); }
            put(segs[0].to_string(), v);
        }
        JsonValue::Object(o)
    }
    let n = g.r.range(1, 3);
    if g.r.chance(1, 2) { JsonValue::Array((0..n).map(|_| obj(g, 2)).collect()) } else { obj(g, 3) }
}
fn twice(v: &JsonValue) -> Option<String> { match v { JsonValue::Primitive(_) => None, JsonValue::Array(a) => a.iter().find_map(twice), JsonValue::Object(o) => o.iter().enumerate().find(|(i, e)| o[..*i].iter().any(|x| x.0 == e.0)).map(|(_, e)| e.0.clone()).or_else(|| o.iter().find_map(|e| twice(&e.1))) } }
fn leaves(v: &JsonValue) -> usize { match v { JsonValue::Primitive(_) => 1, JsonValue::Array(a) => 1 + a.iter().map(leaves).sum::<usize>(), JsonValue::Object(o) => o.iter().map(|e| leaves(&e.1)).sum() } }
fn dotted(g: &mut Gen, d: usize) -> JsonValue {
    let n = g.r.range(0, 5);
    let mut g2 = crate::rng::Rng::new(g.r.u64());
    JsonValue::Object((0..n).map(|_| {
        let m = if g.r.chance(1, 2) { 1 } else { g.r.range(1, 4) };
        let mut k = (0..m).map(|_| ["a", "b", "c", "d_1"][g.r.below(4)]).collect::<Vec<_>>().join(".");
        match g.r.below(16) { 0 => k = format!("{k}."), 1 => k = format!("{k}.1x"), 2 => k = format!("{k}..e"), 3 => k = format!("{k}.x y"), 4 => k = g.key(true), _ => {} }
        let v = match g.r.below(6) { 0 if d > 0 => dotted(g, d - 1), 1 if d > 0 => JsonValue::Array(vec![dotted(g, d - 1), JsonValue::Primitive(P::Null)]), 2 => JsonValue::Object(vec![]), _ => JsonValue::Primitive(P::Number(g.r.below(9) as f64)) };
        (k, v)
    }).flat_map(|(k, v)| if g2.chance(1, 12) { vec![(k.clone(), v), (k, JsonValue::Primitive(P::Null))] } else { vec![(k, v)] }).collect())
}
fn numtext(g: &mut Gen) -> String {
    match g.r.below(8) {
        0 => format!("{}", g.num()), 1 => format!("{:e}", g.num()), 2 => { let x = format!("{}", g.num()); let i = g.r.below(x.len() + 1); let mut x: Vec<char> = x.chars().collect(); x.insert(i.min(x.len()), *g.r.pick(&['0', '.', '-', '+', 'e', '_', 'x', ' ', '1'])); x.into_iter().collect() }
        3 => g.string(), 4 => format!("{}{}", ["0", "-0", "00", "-", "+", "-00", "0.", ".", "0e", "1e", "1e+", "-.5"][g.r.below(12)], g.r.below(100)),
        5 => { let n = g.r.range(15, 330); (0..n).map(|i| if i == 0 { '7' } else { (b'0' + g.r.below(10) as u8) as char }).collect() }
        _ => { let n = g.r.range(1, 9); (0..n).map(|_| *g.r.pick(&['0', '1', '5', '9', '.', '-', '+', 'e', 'E'])).collect() }
    }
}
fn doc_case(prop: &str, g: &mut Gen, c: &mut Case) {
    let seed = g.r.u64();
    let (indent, v) = (c.indent, c.v.clone());
    let mut r = crate::rng::Rng::new(seed);
    let mut d = Doc::new(&mut r, indent); d.root(&v);
    c.t = d.text(); c.op = "doc".into();
    let (lines, arrays, seen) = (d.lines, d.arrays, d.seen);
    match prop {
        "C04" => {
            if seen == 0 { return; }
            let at = g.r.below(seen);
            let mut r = crate::rng::Rng::new(seed);
            let mut d = Doc::new(&mut r, indent); d.fault = if g.r.chance(1, 2) { Fault::Count } else { Fault::Cell }; d.at = at; d.root(&v);
            if let Some(w) = d.applied.clone() { c.u = d.text(); c.op = format!("fault: {w}"); }
        }
        "C13" => {
            if lines.is_empty() { return; }
            let mut l = lines.clone(); let i = g.r.below(l.len());
            match g.r.below(4) {
                0 => { let cur = l[i].len() - l[i].trim_start_matches(' ').len(); let mut k = g.r.range(1, indent * 3 + 2); if (cur + k) % indent == 0 { k += 1; } if indent == 1 { return; } l[i] = format!("{}{}", " ".repeat(k), l[i]); c.op = format!("fault: line {} indented by {} spaces", i + 1, cur + k); }
                1 => { let sp = l[i].len() - l[i].trim_start_matches(' ').len(); let at = g.r.below(sp + 1); l[i].insert(at, '\t'); c.op = format!("fault: tab in the indentation of line {}", i + 1); }
                _ => { let cand: Vec<_> = arrays.iter().filter(|a| a.last > a.first).collect(); if cand.is_empty() { return; } let a = g.r.pick(&cand); let at = g.r.range(a.first + 1, a.last); let k = g.r.range(0, 2 * indent); l.insert(at, " ".repeat(k)); c.op = format!("fault: blank line {} inside an array", at + 1); c.n = 1;
                    // further blank lines anywhere, the end of the document included, change nothing about that
                    for _ in 0..g.r.below(3) { let j = if g.r.chance(1, 2) { l.len() } else { g.r.below(l.len() + 1) }; l.insert(j, String::new()); if j <= at { c.op = "fault: blank lines, at least one of them inside an array".into(); } } }
            }
            c.u = l.join("\n");
        }
        _ => {
            // blank lines where they are allowed: not between the first and last line of an array
            if g.r.chance(1, 3) {
                let mut at = vec![];
                for _ in 0..5 { let i = g.r.below(lines.len() + 1); if at.len() < 3 && !arrays.iter().any(|a| a.first < i && i <= a.last) { at.push(i); } }
                at.sort_unstable();
                let mut l = lines.clone();
                for i in at.into_iter().rev() { let k = if g.r.chance(1, 4) { g.r.range(0, 2 * indent) } else { 0 }; l.insert(i, " ".repeat(k)); }
                c.t = l.join("\n");
            }
        }
    }
}
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}
pub fn check(prop: &str, c: &Case) -> Result<(), String> { guard(|| check_in(prop, c))? }
fn check_in(prop: &str, c: &Case) -> Result<(), String> {
    match (prop, c.op.as_str()) {
        ("C01", "json") => {
            let t = json::show(&c.v);
            if has_num_text(&c.v) { return Ok(()); }
            let j: serde_json::Value = match serde_json::from_str(&t) { Ok(j) => j, Err(_) => return Ok(()) };
            let v = JsonValue::from(j);
            if !close(&v, &c.v) { return Err(format!("JSON text became another value: {}", clip(&json::show(&v)))); }
            let l = toon::cli::conversion::encode_to_toon_lines(&t, c.eo()).map_err(|e| format!("JSON input rejected: {e}"))?.join("\n");
            for s in [true, false] { expect("decode(encode(JSON text))", &canon(&v), dec(&l, c.indent, s, false))?; }
            let t2 = toon::json_to_toon(&t).map_err(|e| format!("json_to_toon: {e}"))?;
            expect("json_to_toon", &canon(&v), dec(&t2, 2, true, false))?;
            let back = toon::toon_to_json(&t2).map_err(|e| format!("toon_to_json: {e}"))?;
            let b = json::parse(&back).map_err(|e| format!("toon_to_json wrote invalid JSON: {e}"))?;
            if !close(&b, &canon(&v)) { return Err("toon_to_json(json_to_toon(x)) is another value".into()); }
            Ok(())
        }
        ("C01", _) => {
            let t = toon::encode(c.v.clone(), c.eo());
            let want = canon(&norm(&c.v));
            for s in [true, false] { expect(&format!("decode(encode(value)), strict={s}"), &want, dec(&t, c.indent, s, false))?; }
            expect("decode_from_lines(encode_lines(value))", &want, toon::try_decode_from_lines(toon::encode_lines(c.v.clone(), c.eo()), dopt(c.indent, true, false)).map_err(|e| e.to_string()))
        }
        ("C02", "events") => {
            let e = ev_from(&c.v);
            let _ = toon::decode::event_builder::build_node_from_events(e.clone());
            let _ = toon::cli::json_stream::json_stream_from_events(e, c.indent.min(64));
            Ok(())
        }
        ("C02", "encode") => {
            let l = toon::encode_lines(c.v.clone(), c.eo()); let _ = toon::encode_stream_events(c.v.clone(), c.eo());
            let _ = toon::cli::json_stringify::json_stringify_lines(&c.v, c.indent.min(64));
            let t = l.join("\n"); for s in [true, false] { let _ = dec(&t, c.indent, s, s); }
            Ok(())
        }
        ("C02", _) => {
            for s in [true, false] { for i in [c.indent, 2, 0, 1, 4] { for x in [true, false] { let _ = dec(&c.t, i, s, x); } let _ = toon::cli::conversion::decode_to_json_chunks(&c.t, dopt(i, s, false)); } }
            Ok(())
        }
        ("C03", op) => {
            let v = wrap_string(op, &c.t, &c.u); let t = toon::encode(v.clone(), c.eo());
            for s in [true, false] { expect(&format!("string through encode and decode ({op}), strict={s}"), &v, dec(&t, c.indent, s, false))?; }
            Ok(())
        }
        ("C18", _) => { for s in [true, false] { expect(&format!("document in a valid layout, strict={s}"), &c.v, dec(&c.t, c.indent, s, false))?; } Ok(()) }
        ("C04", op) => {
            if op == "doc" { return expect("document with correct counts, strict", &c.v, dec(&c.t, c.indent, true, false)); }
            match dec(&c.u, c.indent, true, false) { Ok(_) => Err(format!("strict decoding accepts it although {}", op.trim_start_matches("fault: "))), Err(_) => Ok(()) }
        }
        ("C13", op) => {
            if op == "doc" { return Ok(()); }
            if dec(&c.t, c.indent, true, false).is_err() { return Ok(()); }
            if dec(&c.u, c.indent, true, false).is_ok() { return Err(format!("strict decoding accepts it although {}", op.trim_start_matches("fault: "))); }
            if c.n == 1 { expect("lenient decoding ignores the blank line", &c.v, dec(&c.u, c.indent, false, false))?; }
            Ok(())
        }
        ("C05", "events") => {
            let e = ev_from(&c.v);
            let got = toon::decode::event_builder::build_node_from_events(e.clone()).map_err(|x| x.to_string()).map(toon::decode::event_builder::node_to_json);
            match tree(&e, false) { Ok(n) => expect("tree of a well-formed event list", &plain(&n), got), Err(w) => {
                // containers that do not balance must be refused
                let mut st = vec![]; let mut bad = false;
                for x in &e { match x { E::StartObject => st.push('{'), E::StartArray { .. } => st.push('['), E::EndObject => bad |= st.pop() != Some('{'), E::EndArray => bad |= st.pop() != Some('['), E::Key { .. } => bad |= st.last() != Some(&'{'), E::Primitive { .. } => {} } }
                if (bad || !st.is_empty() || e.is_empty()) && got.is_ok() { return Err(format!("an ill-formed event list is accepted ({w})")); }
                Ok(())
            } }
        }
        ("C05", "value") => {
            let e = toon::encode_stream_events(c.v.clone(), c.eo());
            expect("tree of the encoder's events", &norm(&c.v), tree(&e, true).map(|n| plain(&n)))
        }
        ("C05", _) => {
            let Ok(e) = evs(&c.t, c.indent, c.strict) else { return match dec(&c.t, c.indent, c.strict, false) { Ok(_) => Err("decode accepts what the event decoder rejects".into()), Err(_) => Ok(()) } };
            let n = tree(&e, c.strict).map_err(|w| format!("decoder emitted an ill-formed event list: {w}"))?;
            expect("decode against the tree of its events", &plain(&n), dec(&c.t, c.indent, c.strict, false))
        }
        ("C06", "keys") => {
            let v = norm(&c.v);
            let t = toon::encode(c.v.clone(), c.eo());
            let got = dec(&t, c.indent, true, false).map_err(|e| format!("folded document rejected: {e}"))?;
            if let Some(k) = twice(&got) { return Err(format!("folding wrote key {k:?} twice in one object")); }
            if leaves(&got) != leaves(&canon(&v)) { return Err("folding lost or added a value".into()); }
            same_lines("folded layout", &encode(&canon(&v), &c.ro()), &toon::encode_lines(c.v.clone(), c.eo()))
        }
        ("C06", _) => {
            let t = toon::encode(c.v.clone(), c.eo());
            for s in [true, false] { expect(&format!("decode(expand) of encode(fold), strict={s}"), &canon(&norm(&c.v)), dec(&t, c.indent, s, true))?; }
            same_lines("folded layout", &encode(&canon(&norm(&c.v)), &c.ro()), &toon::encode_lines(c.v.clone(), c.eo()))
        }
        ("C07", _) => {
            let e = evs(&c.t, c.indent, c.strict).map_err(|e| format!("document rejected: {e}"))?;
            let n = tree(&e, false)?;
            let got = dec(&c.t, c.indent, c.strict, true);
            let judge = |n: &N, got: Result<JsonValue, String>| match expand(n, c.strict) { Ok(w) => expect("path expansion", &w, got), Err(w) => if got.is_ok() { Err(format!("strict expansion accepts a {w}")) } else { Ok(()) } };
            if let Err(w) = judge(&n, got.clone()) {
                // KNOWN-FINDING C07 (quoted and unquoted spelling of one key in one object): only that reading is let pass
                if !mixed_quotes(&n) || judge(&by_name(&n), got).is_err() { return Err(w); }
            }
            expect("without expansion dotted keys stay literal", &plain(&n), dec(&c.t, c.indent, c.strict, false))
        }
        ("C08", _) => {
            let l = toon::encode_lines(c.v.clone(), c.eo());
            for (i, x) in l.iter().enumerate() {
                let sp = x.len() - x.trim_start_matches(' ').len();
                if x.contains('\n') || x.contains('\r') { return Err(format!("line {} holds a line break", i + 1)); }
                if x.trim().is_empty() { return Err(format!("line {} is blank", i + 1)); }
                if x.trim_end() != x { return Err(format!("line {} has trailing whitespace", i + 1)); }
                if sp % c.indent != 0 || x[sp..].starts_with(char::is_whitespace) { return Err(format!("line {} is not indented by whole steps", i + 1)); }
            }
            same_lines("layout", &encode(&norm(&c.v), &c.ro()), &l)?;
            if toon::encode(c.v.clone(), c.eo()) != l.join("\n") { return Err("encode is not the joined lines".into()); }
            Ok(())
        }
        ("C09", "value") => {
            let s = toon::cli::json_stringify::json_stringify_lines(&c.v, c.indent).concat();
            let got = json::parse(&s).map_err(|e| format!("invalid JSON: {e}"));
            fn nulls(v: &JsonValue) -> JsonValue { match v { JsonValue::Primitive(P::Number(f)) if !f.is_finite() => JsonValue::Primitive(P::Null), JsonValue::Array(a) => JsonValue::Array(a.iter().map(nulls).collect()), JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), nulls(v))).collect()), v => v.clone() } }
            expect("JSON text of a value", &nulls(&c.v), got)?;
            if c.indent == 0 && !s.contains('"') && s.contains(char::is_whitespace) { return Err("whitespace at indent 0".into()); }
            let mut e = vec![]; events(&c.v, &mut e);
            let s = toon::cli::json_stream::json_stream_from_events(e, c.indent).map_err(|e| format!("event renderer rejects a well-formed list: {e}"))?.concat();
            expect("JSON text of events", &nulls(&c.v), json::parse(&s).map_err(|e| format!("invalid JSON: {e}")))
        }
        ("C09", "events") => {
            fn nulls(v: &JsonValue) -> JsonValue { match v { JsonValue::Primitive(P::Number(f)) if !f.is_finite() => JsonValue::Primitive(P::Null), JsonValue::Array(a) => JsonValue::Array(a.iter().map(nulls).collect()), JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), nulls(v))).collect()), v => v.clone() } }
            let e = ev_from(&c.v);
            let s = toon::cli::json_stream::json_stream_from_events(e.clone(), c.indent);
            let b = toon::decode::event_builder::build_node_from_events(e.clone());
            if let Some(w) = malformed(&e) {
                if s.is_ok() && !e.is_empty() { return Err(format!("event renderer accepts a list with {w}")); }
                if b.is_ok() { return Err(format!("value builder accepts a list with {w}")); }
            } else if let Ok(n) = tree(&e, false) {
                let s = s.map_err(|e| format!("event renderer rejects a well-formed list: {e}"))?.concat();
                expect("JSON text of events", &nulls(&plain(&n)), json::parse(&s).map_err(|e| format!("invalid JSON: {e}")))?;
                b.map_err(|e| format!("value builder rejects a well-formed list: {e}"))?;
            }
            Ok(())
        }
        ("C09", _) => {
            for x in [false, true] {
                let want = dec(&c.t, c.indent, c.strict, x);
                let got = toon::cli::conversion::decode_to_json_chunks(&c.t, dopt(c.indent, c.strict, x)).map_err(|e| e.to_string());
                match (want, got) {
                    (Ok(w), Ok(s)) => expect(&format!("JSON output, expand={x}"), &w, json::parse(&s.concat()).map_err(|e| format!("invalid JSON: {e}")))?,
                    (Ok(_), Err(e)) => return Err(format!("decodable document has no JSON output: {e}")),
                    (Err(e), Ok(_)) => return Err(format!("JSON output for a document that does not decode: {e}")),
                    (Err(_), Err(_)) => {}
                }
            }
            Ok(())
        }
        #[cfg(feature = "async")]
        ("C10", _) => crate::asy::decide(c),
        ("C11", _) => {
            let seed = c.n;
            let log = std::sync::Arc::new(std::sync::Mutex::new(Log::new())); let l2 = log.clone();
            let mut o = c.eo().unwrap();
            o.replacer = Some(std::sync::Arc::new(move |k: &str, v: &JsonValue, p: &[PathSegment]| {
                let path: String = p.iter().map(|s| match s { PathSegment::Key(k) => format!("/k{k}"), PathSegment::Index(i) => format!("/i{i}") }).collect();
                l2.lock().unwrap().push((k.to_string(), json::show(v), path.clone()));
                rule(seed, k, v, &path)
            }));
            let mut want_log = Log::new();
            let want = replace(&norm(&c.v), seed, &mut want_log);
            let got = toon::encode_lines(c.v.clone(), Some(o.clone()));
            let log1 = std::mem::take(&mut *log.lock().unwrap());
            if let Some(i) = (0..want_log.len().max(log1.len())).find(|i| want_log.get(*i) != log1.get(*i)) { return Err(format!("call {i} of the replacer should be {}, is {}", clip(&format!("{:?}", want_log.get(i))), clip(&format!("{:?}", log1.get(i))))); }
            same_lines("replaced value", &encode(&want, &c.ro()), &got)?;
            let e = toon::encode_stream_events(c.v.clone(), Some(o));
            expect("events of the replaced value", &want, tree(&e, true).map(|n| plain(&n)))
        }
        ("C12", "num") => {
            let f = f64::from_bits(c.n);
            for (pre, v) in [("", JsonValue::Primitive(P::Number(f))), ("k: ", JsonValue::Object(vec![("k".into(), JsonValue::from(f))])), ("[1]: ", JsonValue::Array(vec![JsonValue::Primitive(P::Number(f))]))] {
                let t = toon::encode(v.clone(), None);
                let Some(x) = t.strip_prefix(pre) else { return Err(format!("number line {t:?}")) };
                if !f.is_finite() { if x != "null" { return Err(format!("{f} is written {x:?}")); } continue; }
                let u = x.strip_prefix('-').unwrap_or(x); let (a, b) = u.split_once('.').unwrap_or((u, "0"));
                let ok = !a.is_empty() && a.bytes().all(|c| c.is_ascii_digit()) && (a == "0" || !a.starts_with('0')) && !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) && (!u.contains('.') || !b.ends_with('0')) && x != "-0";
                if !ok { return Err(format!("{f:e} is written {x:?}, not a plain decimal")); }
                expect("number", &norm(&v), dec(&t, 2, true, false))?;
            }
            Ok(())
        }
        ("C12", "int") => {
            let i = c.n as i64;
            expect("From<i64>", &JsonValue::Primitive(P::Number(i as f64)), Ok(JsonValue::from(i)))?;
            expect("JSON integer", &JsonValue::Primitive(P::Number(i as f64)), Ok(JsonValue::from(serde_json::json!(i))))?;
            expect("JSON unsigned", &JsonValue::Primitive(P::Number(c.n as f64)), Ok(JsonValue::from(serde_json::json!(c.n))))?;
            expect("integer through encode", &norm(&JsonValue::from(i)), dec(&toon::encode(serde_json::json!(i), None), 2, true, false))
        }
        ("C12", _) => {
            let t = c.t.trim();
            if t.is_empty() || t.chars().any(|x| matches!(x, ':' | '"' | '[' | ']' | '{' | '}' | ',' | '|' | '\t' | '\n' | '\r' | '\\')) || t.starts_with("- ") || (c.n == 0 && t == "-") || matches!(t, "true" | "false" | "null") { return Ok(()); }
            let w = match t.parse::<f64>() { Ok(f) if json::json_number(t) && f.is_finite() => P::Number(if f == 0.0 { 0.0 } else { f }), _ => P::String(t.to_string()) };
            let w = JsonValue::Primitive(w);
            let (d, w) = match c.n { 0 => (t.to_string(), w), 1 => (format!("k: {t}"), JsonValue::Object(vec![("k".into(), w)])), 2 => (format!("[2]: {t},{t}"), JsonValue::Array(vec![w.clone(), w])), 3 => (format!("[1]:\n  - {t}"), JsonValue::Array(vec![w])), _ => (format!("[1]{{a,b}}:\n  {t},x"), JsonValue::Array(vec![JsonValue::Object(vec![("a".into(), w), ("b".into(), str_p("x"))])])) };
            for s in [true, false] { expect(&format!("number-like token in {:?}", clip(&d)), &w, dec(&d, 2, s, false))?; }
            Ok(())
        }
        ("C15", _) => {
            let r = dec(&c.t, 2, c.strict, false);
            if c.n > 100_000_000 && r.is_ok() { return Err(format!("declared length {} is accepted", c.n)); }
            if c.n <= 100_000_000 && !c.strict { if let Err(e) = r { return Err(format!("declared length {} is rejected leniently: {e}", c.n)); } }
            Ok(())
        }
        ("C16", _) => {
            for i in [c.indent, 2] { for x in [false, true] { if let Ok(v) = dec(&c.t, i, true, x) { expect(&format!("lenient decoding of a strictly valid document, expand={x}"), &v, dec(&c.t, i, false, x))?; } } }
            Ok(())
        }
        ("C17", _) => {
            let a = toon::encode_stream_events(canon(&norm(&c.v)), None);
            let b = toon::try_decode_stream_sync(toon::encode_lines(c.v.clone(), None), None).map_err(|e| format!("rejected: {e}"))?;
            if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) { return Err(clip(&format!("event {i}: encoder says {:?}, decoder {:?}", a.get(i), b.get(i)))); }
            Ok(())
        }
        (p, o) => Err(format!("no oracle {p}/{o}")),
    }
}
/// a smaller case that still fails
pub fn shrink(prop: &str, c: &Case, until: std::time::Instant) -> Case {
    let mut best = c.clone();
    let bad = |c: &Case| check(prop, c).is_err();
    loop {
        if std::time::Instant::now() > until { return best; }
        let mut next: Option<Case> = None;
        let mut tryit = |x: Case, next: &mut Option<Case>| { if next.is_none() && std::time::Instant::now() < until && bad(&x) { *next = Some(x); } };
        // doc cases carry a value tied to the text; shrink only free-standing parts
        let tied = matches!(prop, "C04" | "C13" | "C18");
        if !tied && !matches!(c.op.as_str(), "events") || prop == "C17" { for v in smaller(&best.v) { tryit(Case { v, ..best.clone() }, &mut next); if next.is_some() { break; } } }
        if !tied && prop != "C15" { for (a, b) in [(true, false), (false, true)] { if next.is_some() { break; } let s = if a { &best.t } else { &best.u }; for t in smaller_text(s) { let x = if a { Case { t, ..best.clone() } } else { Case { u: t, ..best.clone() } }; tryit(x, &mut next); let _ = b; if next.is_some() { break; } } } }
        match next { Some(x) => best = x, None => return best }
    }
}
fn smaller_text(s: &str) -> Vec<String> {
    let mut o = vec![]; if s.is_empty() { return o; }
    o.push(String::new());
    let l: Vec<&str> = s.split('\n').collect();
    if l.len() > 1 { for i in 0..l.len().min(60) { let mut m = l.clone(); m.remove(i); o.push(m.join("\n")); } }
    let c: Vec<char> = s.chars().collect();
    if c.len() > 1 { o.push(c[..c.len() / 2].iter().collect()); o.push(c[c.len() / 2..].iter().collect()); }
    for i in 0..c.len().min(80) { let mut m = c.clone(); m.remove(i); o.push(m.into_iter().collect()); }
    o
}
fn smaller(v: &JsonValue) -> Vec<JsonValue> {
    let mut o = vec![];
    match v {
        JsonValue::Primitive(P::String(s)) => { for t in smaller_text(s) { o.push(str_p(&t)); } }
        JsonValue::Primitive(P::Null) => {}
        JsonValue::Primitive(P::Number(f)) => { if *f != 1.0 { o.push(JsonValue::Primitive(P::Null)); o.push(JsonValue::Primitive(P::Number(1.0))); } }
        JsonValue::Primitive(_) => o.push(JsonValue::Primitive(P::Null)),
        JsonValue::Array(a) => { o.extend(a.iter().take(40).cloned()); if a.len() > 3 { o.push(JsonValue::Array(a[..a.len() / 2].to_vec())); o.push(JsonValue::Array(a[a.len() / 2..].to_vec())); } for i in 0..a.len().min(40) { let mut b = a.clone(); b.remove(i); o.push(JsonValue::Array(b)); } for i in 0..a.len().min(20) { for x in smaller(&a[i]).into_iter().take(60) { let mut b = a.clone(); b[i] = x; o.push(JsonValue::Array(b)); } } }
        JsonValue::Object(a) => { o.extend(a.iter().take(40).map(|e| e.1.clone())); if a.len() > 3 { o.push(JsonValue::Object(a[..a.len() / 2].to_vec())); o.push(JsonValue::Object(a[a.len() / 2..].to_vec())); } for i in 0..a.len().min(40) { let mut b = a.clone(); b.remove(i); o.push(JsonValue::Object(b)); } for i in 0..a.len().min(20) { for t in smaller_text(&a[i].0).into_iter().take(20) { if !a.iter().any(|e| e.0 == t) { let mut b = a.clone(); b[i].0 = t; o.push(JsonValue::Object(b)); } } for x in smaller(&a[i].1).into_iter().take(60) { let mut b = a.clone(); b[i].1 = x; o.push(JsonValue::Object(b)); } } }
    }
    o
}
