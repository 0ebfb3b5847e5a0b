//! An independent TOON writer: it writes a value in a randomly chosen valid layout, and can plant one fault.
use crate::gen::Gen;
use crate::rng::Rng;
use toon::{JsonValue, StringOrNumberOrBoolOrNull as P};
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, Count, Cell }
pub struct Arr { pub first: usize, pub last: usize }
pub struct Doc<'r> { pub r: &'r mut Rng, pub indent: usize, pub lines: Vec<String>, pub arrays: Vec<Arr>, pub seen: usize, pub fault: Fault, pub at: usize, pub applied: Option<String>, pub plain: bool }
pub fn ident(s: &str) -> bool { let mut c = s.chars(); matches!(c.next(), Some(x) if x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '_') }
pub fn bare_key(s: &str) -> bool { let mut c = s.chars(); matches!(c.next(), Some(x) if x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '_' || x == '.') }
pub fn quote(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c => o.push(c) } } o.push('"'); o }
impl<'r> Doc<'r> {
    pub fn new(r: &'r mut Rng, indent: usize) -> Self { Doc { r, indent, lines: vec![], arrays: vec![], seen: 0, fault: Fault::None, at: 0, applied: None, plain: false } }
    fn ind(&self, d: usize) -> String { " ".repeat(d * self.indent) }
    fn sp(&mut self) -> &'static str { if self.plain { " " } else if self.r.chance(1, 8) { "   " } else { " " } }
    fn pre(&mut self) -> &'static str { if self.plain || !self.r.chance(1, 10) { "" } else { "  " } }
    // the colon follows a quoted key at once
    fn pre_key(&mut self, k: &str) -> &'static str { if k.starts_with('"') { "" } else { self.pre() } }
    pub fn tok(&mut self, p: &P) -> String {
        match p {
            P::Null => "null".into(), P::Bool(b) => b.to_string(),
            P::Number(f) => if !f.is_finite() { "null".into() } else { match self.r.below(6) { 0 => format!("{f:e}"), 1 => format!("{f:E}"), 2 if f.fract() == 0.0 && f.abs() < 1e15 => format!("{f:.1}"), _ => format!("{f}") } },
            P::String(s) => {
                let b = s.as_bytes();
                let safe = !s.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b' ' | b'.' | b'-' | b'/')) && !s.ends_with(' ') && !matches!(s.as_str(), "true" | "false" | "null");
                if safe && !self.r.chance(1, 6) { s.clone() } else { quote(s) }
            }
        }
    }
    pub fn key(&mut self, k: &str) -> String { if bare_key(k) && !self.r.chance(1, 8) { k.to_string() } else { quote(k) } }
    fn count(&mut self, n: usize, me: usize, what: &str) -> usize {
        if self.fault == Fault::Count && me == self.at {
            let m = match self.r.below(6) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => 0, 3 => n + self.r.range(1, 5), 4 => n.saturating_sub(self.r.range(1, 5)), _ => n + self.r.range(1, 2000) };
            if m != n { self.applied = Some(format!("{what} declares {m}, holds {n}")); }
            m
        } else { n }
    }
    pub fn arr(&mut self, start: &str, items: &[JsonValue], depth: usize) {
        let me = self.seen; self.seen += 1;
        let d = *self.r.pick(&[',', ',', '|', '\t']);
        let dm = if d == ',' { String::new() } else { d.to_string() };
        let prims = items.iter().all(|i| matches!(i, JsonValue::Primitive(_)));
        if items.is_empty() { let n = self.count(0, me, "empty array"); let p = self.pre(); self.lines.push(format!("{start}[{n}{dm}]{p}:")); return; }
        if prims && !self.r.chance(1, 6) {
            let n = self.count(items.len(), me, "inline array");
            let mut t: Vec<String> = items.iter().map(|i| match i { JsonValue::Primitive(p) => self.tok(p), _ => unreachable!() }).collect();
            if !self.plain && self.r.chance(1, 8) { for x in t.iter_mut().skip(1) { *x = format!(" {x} "); } }
            let (p, s) = (self.pre(), self.sp()); self.lines.push(format!("{start}[{n}{dm}]{p}:{s}{}", t.join(&d.to_string()))); return;
        }
        let first = self.lines.len() + 1;
        let fields: Option<Vec<&String>> = match &items[0] { JsonValue::Object(o) if !o.is_empty() => Some(o.iter().map(|e| &e.0).collect()), _ => None };
        let tab = fields.filter(|f| items.iter().all(|i| matches!(i, JsonValue::Object(o) if o.len() == f.len() && o.iter().zip(f).all(|(e, k)| &e.0 == *k && matches!(e.1, JsonValue::Primitive(_))))));
        if let Some(f) = tab { if !self.r.chance(1, 8) {
            let n = self.count(items.len(), me, "tabular array");
            let fk: Vec<String> = f.iter().map(|k| self.key(k)).collect();
            let p = self.pre(); let q = self.pre(); self.lines.push(format!("{start}[{n}{dm}]{{{}}}{p}:", fk.join(&format!("{q}{d}"))));
            let bad = if self.fault == Fault::Cell && me == self.at { Some(self.r.below(items.len())) } else { None };
            for (i, it) in items.iter().enumerate() {
                let JsonValue::Object(o) = it else { unreachable!() };
                let mut c: Vec<String> = o.iter().map(|e| match &e.1 { JsonValue::Primitive(p) => self.tok(p), _ => unreachable!() }).collect();
                if bad == Some(i) { if c.len() > 1 && self.r.chance(1, 2) { c.pop(); self.applied = Some(format!("row {i} has a cell too few")); } else { c.push("x".into()); self.applied = Some(format!("row {i} has a cell too many")); } }
                let pre = self.ind(depth + 1); let sep = if !self.plain && self.r.chance(1, 8) { format!(" {d} ") } else { d.to_string() };
                self.lines.push(format!("{pre}{}", c.join(&sep)));
            }
            self.arrays.push(Arr { first, last: self.lines.len() - 1 });
            return;
        } }
        let n = self.count(items.len(), me, "list array");
        let p = self.pre(); self.lines.push(format!("{start}[{n}{dm}]{p}:"));
        for it in items { self.item(depth + 1, it); }
        self.arrays.push(Arr { first, last: self.lines.len() - 1 });
    }
    fn item(&mut self, depth: usize, v: &JsonValue) {
        let h = format!("{}- ", self.ind(depth));
        match v {
            JsonValue::Primitive(p) => { let t = self.tok(p); self.lines.push(format!("{h}{t}")); }
            JsonValue::Array(a) => self.arr(&h, a, depth),
            JsonValue::Object(o) if o.is_empty() => { let l = h.trim_end().to_string(); self.lines.push(l); }
            JsonValue::Object(o) => { self.kv(&h, depth + 1, &o[0].0, &o[0].1); self.obj(depth + 1, &o[1..]); }
        }
    }
    fn kv(&mut self, start: &str, depth: usize, k: &str, v: &JsonValue) {
        let kt = self.key(k);
        match v {
            JsonValue::Primitive(p) => { let t = self.tok(p); let (p, s) = (self.pre_key(&kt), self.sp()); self.lines.push(format!("{start}{kt}{p}:{s}{t}")); }
            JsonValue::Array(a) => self.arr(&format!("{start}{kt}"), a, depth),
            JsonValue::Object(o) => { let p = self.pre_key(&kt); self.lines.push(format!("{start}{kt}{p}:")); self.obj(depth + 1, o); }
        }
    }
    pub fn obj(&mut self, depth: usize, o: &[(String, JsonValue)]) { for (k, v) in o { let s = self.ind(depth); self.kv(&s, depth, k, v); } }
    pub fn root(&mut self, v: &JsonValue) {
        match v {
            JsonValue::Primitive(p) => { let t = self.tok(p); self.lines.push(t); }
            JsonValue::Array(a) => self.arr("", a, 0),
            JsonValue::Object(o) => self.obj(0, o),
        }
    }
    pub fn text(&self) -> String { self.lines.join("\n") }
}
const ATOMS: &[&str] = &["- ", "-", ":", ": ", "[", "]", "{", "}", ",", "|", "\t", "\"", "\\", " ", "  ", "a", "b", "key", "1", "0", "2", "-1", "1.5", "true", "null", "[1]:", "[2]:", "[0]:", "[2]{a,b}:", "[1]{a}:", "[2|]:", "[3\t]{x\ty}:", "a: 1", "b:", "\"q\"", "\"k\": v", "a,b", "1,2", "x|y", "[+5]:", "[99999999999]:", "[100000001]:", "[100000000]: x", "é", "\u{2028}", "\u{3000}", "\r", "\u{0}", "a.b", "a.b.c: 1", "\"a.b\": 2", "[1", "1]:", "#2]:", "\"[\"", "\\\"", "- [2]: 1,2", "- a: 1", "- -", "{a,b}:", "key[2]{a,\"b\"}:", "\"x y\"[1]:"];
pub fn soup(g: &mut Gen) -> String {
    let n = match g.r.below(10) { 0 => 0, 1 => 1, 2 => g.r.range(10, 60), _ => g.r.range(1, 8) };
    let mut ls = vec![];
    let mut d = 0usize;
    let step = if g.r.chance(4, 5) { 2 } else { g.r.range(0, 5) };
    for _ in 0..n {
        d = match g.r.below(6) { 0 => d + 1, 1 => d.saturating_sub(1), 2 => 0, _ => d };
        let mut l = " ".repeat((d * step).min(200));
        if g.r.chance(1, 20) { l.push(*g.r.pick(&[' ', '\t', '\u{a0}'])); }
        let m = g.r.below(6);
        for _ in 0..m { if g.r.chance(1, 10) { let s = g.string(); l.push_str(&s.replace('\n', "")); } else { l.push_str(g.r.pick(ATOMS)); } }
        ls.push(l);
    }
    ls.join("\n")
}
pub fn mutate(g: &mut Gen, t: &str) -> String {
    let mut ls: Vec<String> = t.split('\n').map(str::to_string).collect();
    for _ in 0..g.r.range(1, 4) {
        let i = g.r.below(ls.len());
        match g.r.below(12) {
            0 => { ls.remove(i); if ls.is_empty() { ls.push(String::new()); } }
            1 => { let l = ls[i].clone(); ls.insert(i, l); }
            2 => { let j = g.r.below(ls.len()); ls.swap(i, j); }
            3 => ls.insert(i, String::new()),
            4 => { ls[i] = format!(" {}", ls[i]); }
            5 => { ls[i] = format!("  {}", ls[i]); }
            6 => { ls[i] = ls[i].strip_prefix("  ").map(str::to_string).unwrap_or_default(); }
            7 => { let s = soup(g); ls.insert(i, s.split('\n').next().unwrap_or("").to_string()); }
            8 => { ls[i] = ls[i].trim_start().to_string(); }
            _ => { let mut c: Vec<char> = ls[i].chars().collect(); let p = g.r.below(c.len() + 1); match g.r.below(4) { 0 => { if p < c.len() { c.remove(p); } } 1 => { let x = g.ch(); c.insert(p, x); } 2 => { let a: Vec<char> = g.r.pick(ATOMS).chars().collect(); for (k, x) in a.into_iter().enumerate() { c.insert(p + k, x); } } _ => c.truncate(p) } ls[i] = c.into_iter().collect(); }
        }
    }
    ls.join("\n")
}
