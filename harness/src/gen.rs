//! Random strings, keys, numbers and values. The dictionary is read from the sources under test, so a
//! constant that a change introduces is tried.
use crate::rng::Rng;
use toon::{JsonValue, StringOrNumberOrBoolOrNull as P};
pub struct Dict { pub strs: Vec<String>, pub nums: Vec<f64>, pub chars: Vec<char>, pub new_strs: Vec<String>, pub new_nums: Vec<f64>, pub new_chars: Vec<char> }
fn lits(text: &str) -> (Vec<String>, Vec<f64>, Vec<char>) {
    let (mut s, mut n, mut c) = (vec![], vec![], vec![]);
    // drop test modules: they are not under test
    let text = match text.find("#[cfg(test)]") { Some(i) => &text[..i], None => text };
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("//") { continue; }
        let ch: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < ch.len() {
            let unesc = |j: usize| -> Option<(char, usize)> {
                if ch.get(j) == Some(&'\\') {
                    let e = *ch.get(j + 1)?;
                    Some(match e { 'n' => ('\n', j + 2), 't' => ('\t', j + 2), 'r' => ('\r', j + 2), '0' => ('\0', j + 2), '\\' => ('\\', j + 2), '"' => ('"', j + 2), '\'' => ('\'', j + 2),
                        'x' => (char::from_u32(u32::from_str_radix(&ch.get(j + 2..j + 4)?.iter().collect::<String>(), 16).ok()?)?, j + 4),
                        'u' => { let e = (j..ch.len()).find(|k| ch[*k] == '}')?; (char::from_u32(u32::from_str_radix(&ch.get(j + 3..e)?.iter().collect::<String>(), 16).ok()?)?, e + 1) }
                        c => (c, j + 2) })
                } else { Some((*ch.get(j)?, j + 1)) }
            };
            if ch[i] == '/' && ch.get(i + 1) == Some(&'/') { break; }
            if ch[i] == '"' {
                let mut o = String::new(); let mut j = i + 1; let mut ok = false;
                while let Some((c, k)) = if j < ch.len() && ch[j] == '"' { ok = true; None } else { unesc(j) } { o.push(c); j = k; }
                if ok && o.chars().count() <= 40 { s.push(o); }
                i = j + 1;
            } else if ch[i] == '\'' {
                if let Some((cc, k)) = unesc(i + 1) { if ch.get(k) == Some(&'\'') { c.push(cc); i = k + 1; continue; } }
                i += 1;
            } else if ch[i].is_ascii_digit() && (i == 0 || !(ch[i - 1].is_alphanumeric() || ch[i - 1] == '_')) {
                let mut j = i; while j < ch.len() && (ch[j].is_ascii_alphanumeric() || ch[j] == '_' || (ch[j] == '.' && ch.get(j + 1).is_some_and(|d| d.is_ascii_digit()))) { j += 1; }
                let t: String = ch[i..j].iter().filter(|c| **c != '_').collect();
                let t = t.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u8").trim_end_matches("i64").trim_end_matches("f64");
                if let Some(h) = t.strip_prefix("0x") { if let Ok(v) = u64::from_str_radix(h, 16) { n.push(v as f64); if v < 0x110000 { if let Some(x) = char::from_u32(v as u32) { c.push(x); } } } }
                else if let Ok(v) = t.parse::<f64>() { n.push(v); }
                i = j;
            } else { i += 1; }
        }
    }
    (s, n, c)
}
pub fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) { let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect(); v.sort(); for p in v { if p.is_dir() { walk(&p, out); } else if p.extension().is_some_and(|e| e == "rs") { out.push(p); } } }
}
pub fn base_list(src: &str) -> Vec<String> {
    let mut files = vec![]; walk(std::path::Path::new(src), &mut files);
    let mut o = vec![];
    for f in files { if let Ok(t) = std::fs::read_to_string(&f) { let (s, n, c) = lits(&t); o.extend(s.iter().map(|x| format!("s{x:?}"))); o.extend(n.iter().map(|x| format!("n{x:?}"))); o.extend(c.iter().map(|x| format!("c{x:?}"))); } }
    o.sort(); o.dedup(); o
}
impl Dict {
    pub fn load(src: &str, base: &str) -> Dict {
        let known: std::collections::HashSet<String> = base.lines().map(str::to_string).collect();
        let mut files = vec![]; walk(std::path::Path::new(src), &mut files);
        let mut d = Dict { strs: vec![], nums: vec![], chars: vec![], new_strs: vec![], new_nums: vec![], new_chars: vec![] };
        for f in files { if let Ok(t) = std::fs::read_to_string(&f) {
            let (s, n, c) = lits(&t);
            for x in s { if !known.contains(&format!("s{x:?}")) { d.new_strs.push(x.clone()); } d.strs.push(x); }
            for x in n { if !known.contains(&format!("n{x:?}")) { d.new_nums.push(x); } d.nums.push(x); }
            for x in c { if !known.contains(&format!("c{x:?}")) { d.new_chars.push(x); } d.chars.push(x); }
        } }
        d.strs.sort(); d.strs.dedup(); d.chars.sort(); d.chars.dedup(); d.nums.sort_by(f64::total_cmp); d.nums.dedup();
        if d.strs.is_empty() { d.strs.push("x".into()); } if d.nums.is_empty() { d.nums.push(1.0); } if d.chars.is_empty() { d.chars.push('x'); }
        d
    }
    /// a small size that a constant in the source suggests
    pub fn size(&self, r: &mut Rng, cap: usize) -> usize {
        let v = if !self.new_nums.is_empty() && r.chance(1, 2) { *r.pick(&self.new_nums) } else { *r.pick(&self.nums) };
        let v = if v.is_finite() && v >= 0.0 && v <= cap as f64 { v as usize } else { r.below(20) };
        (v + r.below(3)).saturating_sub(r.below(2)).min(cap)
    }
}
const SPECIAL: &[char] = &[' ', ' ', '"', '\\', ':', ',', '|', '\t', '[', ']', '{', '}', '-', '\n', '\r', '.', '_', '0', '1', '5', 'e', 'E', '+', '#', '\'', '/', '\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{9f}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{1680}', '\u{200b}', 'é', 'ß', '中', '𝄞', '😀', '\u{10ffff}', '\u{fffd}', '\u{301}'];
const WORDS: &[&str] = &["", "true", "false", "null", "True", "nan", "NaN", "inf", "Infinity", "-", "- ", "-x", "- x", "--", "0", "-0", "00", "01", "-01", "0.", ".5", "1.", "1.5", "-1.5e3", "1e5", "1E+5", "1e", "1e+", "0x1f", "1_000", "+1", "1,2", "a:b", "a: b", "[0]:", "[1]", "[2]: a,b", "x[1]: y", "k[1]{a}:", "{a}", "a,b", "a|b", "a\tb", "a.b", "a.b.c", ".a", "a.", "a..b", " a", "a ", "\"a\"", "\"", "\\", "\\n", "\\\"", "\\u0041", "#", "a b", "key", "items", "-1", "-a: b", "\u{feff}", "9007199254740993", "1e400", "5 apples", "05", "1-2", "e5", "E", "a\"b", "a\\", "]", "[", "}", "{", ":", ": ", "::", "|", ",", "0:", "x:", "null ", "true,", "\"x\": 1"];
pub struct Gen<'a> { pub r: Rng, pub d: &'a Dict }
impl<'a> Gen<'a> {
    pub fn ch(&mut self) -> char {
        let r = &mut self.r;
        match r.below(12) {
            0..=4 => (b'a' + r.below(26) as u8) as char,
            5..=8 => *r.pick(SPECIAL),
            9 => if !self.d.new_chars.is_empty() { *r.pick(&self.d.new_chars) } else { *r.pick(&self.d.chars) },
            10 => (0x20 + r.below(95) as u8) as char,
            _ => { match r.below(4) { 0 => char::from_u32(r.below(0x300) as u32).unwrap_or('x'), 1 => char::from_u32(0x2000 + r.below(0x100) as u32).unwrap_or('x'), 2 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('y'), _ => char::from_u32(r.below(0x3000) as u32).unwrap_or('z') } }
        }
    }
    pub fn string(&mut self) -> String {
        if !self.d.new_strs.is_empty() && self.r.chance(1, 6) { let s = self.r.pick(&self.d.new_strs).clone(); return self.around(s); }
        match self.r.below(14) {
            0..=3 => self.r.pick(WORDS).to_string(),
            4 => { let s = self.r.pick(&self.d.strs).clone(); self.around(s) }
            5 => { let s = self.r.pick(WORDS).to_string(); self.around(s) }
            6 => { let n = self.num(); format!("{n}") }
            7 => { let n = self.num(); let s = format!("{n:e}"); self.around(s) }
            8 => { let n = self.r.range(1, 12); (0..n).map(|_| *self.r.pick(b"0123456789.-+eE") as char).collect() }
            9 | 10 => self.ident(),
            11 => { let n = if self.r.chance(1, 8) { let d = self.d; d.size(&mut self.r, 3000) } else { self.r.below(60) }; (0..n).map(|_| self.ch()).collect() }
            12 => { let n = self.r.range(1, 3); (0..n).map(|_| *self.r.pick(SPECIAL)).collect() }
            _ => { let n = self.r.range(0, 10); (0..n).map(|_| self.ch()).collect() }
        }
    }
    fn around(&mut self, s: String) -> String {
        match self.r.below(6) { 0 => format!("{}{s}", self.ch()), 1 => format!("{s}{}", self.ch()), 2 => { let c: Vec<char> = s.chars().collect(); if c.is_empty() { s } else { let i = self.r.below(c.len()); let mut c = c; let x = self.ch(); if self.r.chance(1, 2) { c[i] = x; } else { c.insert(i, x); } c.into_iter().collect() } } 3 => { let t = self.r.pick(WORDS).to_string(); format!("{s}{t}") } _ => s }
    }
    pub fn ident(&mut self) -> String {
        let n = self.r.range(1, 8);
        let mut s: String = (0..n).map(|_| *self.r.pick(b"abcxyzABC_0189") as char).collect();
        if s.as_bytes()[0].is_ascii_digit() { s.insert(0, *self.r.pick(&['_', 'k', 'Z'])); }
        s
    }
    pub fn key(&mut self, dots: bool) -> String {
        let s = match self.r.below(8) { 0..=3 => self.ident(), 4 if dots => { let n = self.r.range(2, 4); (0..n).map(|_| self.ident()).collect::<Vec<_>>().join(".") } 5 => (*self.r.pick(&["a", "b", "c", "id", "name", "x"])).to_string(), _ => self.string() };
        if dots { s } else { s.replace('.', "_") }
    }
    pub fn num(&mut self) -> f64 {
        let r = &mut self.r;
        let v = match r.below(16) {
            0 => r.below(10) as f64, 1 => r.below(1000) as f64, 2 => (r.u64() >> r.below(64)) as f64, 3 => f64::from_bits(r.u64()),
            4 => *r.pick(&[0.0, -0.0, 1.0, 0.1, 0.5, 1e-7, 1e21, 1e20, 1e16, 123456789012345680.0, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e15, 999999999999999.9, 1e-5, 0.000001, 100000000.0, 100000001.0, 4294967296.0, 18446744073709551616.0, 1e100]),
            5 => f64::NAN, 6 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
            7 => (r.below(2_000_000) as f64) / 1000.0, 8 => (r.below(100) as f64) * 10f64.powi(r.below(40) as i32 - 20),
            9 => if self.d.new_nums.is_empty() { *r.pick(&self.d.nums) } else { *r.pick(&self.d.new_nums) }, 10 => { let b = *r.pick(&self.d.nums); b + r.below(3) as f64 - 1.0 }
            11 => 2f64.powi(r.below(140) as i32 - 70), 12 => f64::from_bits((2f64.powi(r.below(120) as i32 - 60)).to_bits() + r.below(5) as u64 - 2),
            _ => r.below(200) as f64 - 100.0,
        };
        if r.chance(1, 5) { -v } else { v }
    }
    pub fn prim(&mut self) -> P {
        match self.r.below(10) { 0 => P::Null, 1 => P::Bool(self.r.chance(1, 2)), 2..=4 => P::Number(self.num()), _ => P::String(self.string()) }
    }
    fn len(&mut self, budget: usize) -> usize {
        match self.r.below(24) { 0 => 0, 1 => { let c = budget.min(70); self.r.range(0, c) } 2 => { let d = self.d; d.size(&mut self.r, budget.min(2000)) } _ => self.r.range(1, 4) }
    }
    pub fn keys(&mut self, n: usize, dots: bool) -> Vec<String> {
        let mut o: Vec<String> = vec![]; let mut seen = std::collections::HashSet::new();
        for _ in 0..n { let k = self.key(dots); if seen.insert(k.clone()) { o.push(k); } }
        o
    }
    /// a value with unique keys per object; cost bounded by budget
    pub fn value(&mut self, depth: usize, budget: &mut usize, dots: bool) -> JsonValue {
        *budget = budget.saturating_sub(1);
        if depth == 0 || *budget == 0 { return JsonValue::Primitive(self.prim()); }
        match self.r.below(12) {
            0..=1 => JsonValue::Primitive(self.prim()),
            2 => { let n = self.len(*budget); *budget = budget.saturating_sub(n); JsonValue::Array((0..n).map(|_| JsonValue::Primitive(self.prim())).collect()) }
            3..=4 => { // uniform rows (tabular), sometimes nearly
                let w = self.r.range(0, 4); let ks = self.keys(w, dots); let n = self.len(*budget); *budget = budget.saturating_sub(n * (w + 1));
                let near = self.r.chance(1, 3);
                JsonValue::Array((0..n).map(|i| {
                    let mut o: Vec<(String, JsonValue)> = ks.iter().map(|k| (k.clone(), JsonValue::Primitive(self.prim()))).collect();
                    if near && (i + 1 == n || self.r.chance(1, 6)) { match self.r.below(5) { 0 => { o.pop(); } 1 => { let k = self.key(dots); if !ks.contains(&k) { o.push((k, JsonValue::Primitive(P::Null))); } } 2 => o.reverse(), 3 => { if let Some(e) = o.first_mut() { e.1 = JsonValue::Array(vec![]); } } _ => { if let Some(e) = o.last_mut() { e.1 = JsonValue::Object(vec![]); } } } }
                    JsonValue::Object(o)
                }).collect())
            }
            5 => { // array of arrays
                let n = self.r.range(0, 3); JsonValue::Array((0..n).map(|_| { let m = self.r.below(3); if self.r.chance(1, 5) { self.value(depth - 1, budget, dots) } else { JsonValue::Array((0..m).map(|_| JsonValue::Primitive(self.prim())).collect()) } }).collect())
            }
            6..=7 => { let n = self.len(*budget).min(8); JsonValue::Array((0..n).map(|_| self.value(depth - 1, budget, dots)).collect()) }
            8 => { // single-key chain
                let n = self.r.range(1, 5); let mut v = self.value(depth - 1, budget, dots); for _ in 0..n { let k = if self.r.chance(4, 5) { self.ident() } else { self.key(dots) }; v = JsonValue::Object(vec![(k, v)]); } v
            }
            _ => { let n = self.len(*budget).min(12); let ks = self.keys(n, dots); JsonValue::Object(ks.into_iter().map(|k| { let v = self.value(depth - 1, budget, dots); (k, v) }).collect()) }
        }
    }
    /// many members, all alike but (perhaps) for one late oddity
    pub fn long(&mut self, dots: bool) -> JsonValue {
        let n = match self.r.below(4) { 0 => { let d = self.d; d.size(&mut self.r, 1200).max(2) } 1 => self.r.range(2, 40), 2 => self.r.range(40, 150), _ => self.r.range(150, 1100) };
        let at = match self.r.below(4) { 0 => n, 1 => n - 1, _ => self.r.below(n) };
        let mut b = 8; let odd = match self.r.below(7) { 0 => JsonValue::Primitive(self.prim()), 1 => JsonValue::Array(vec![]), 2 => JsonValue::Object(vec![]), 3 => JsonValue::Array(vec![JsonValue::Primitive(self.prim())]), _ => self.value(2, &mut b, dots) };
        let kind = self.r.below(6); let w = self.r.range(1, 3); let ks = self.keys(w, dots); let ks = if ks.is_empty() { vec!["a".to_string()] } else { ks };
        let prims: Vec<P> = (0..5).map(|_| self.prim()).collect();
        let mut items: Vec<JsonValue> = (0..n).map(|i| {
            let p = |j: usize| JsonValue::Primitive(if j % 7 == 3 { P::Number((i * 31 + j) as f64) } else { prims[(i + j) % 5].clone() });
            match kind { 0 | 5 => p(0), 1 => JsonValue::Array(vec![p(0), p(1)]), 2 => JsonValue::Array(vec![]), 3 => JsonValue::Object(vec![]), _ => JsonValue::Object(ks.iter().enumerate().map(|(j, k)| (k.clone(), p(j))).collect()) }
        }).collect();
        if kind == 5 { // a wide object
            let mut o: Vec<(String, JsonValue)> = items.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect();
            if at < n { o[at].1 = odd; if self.r.chance(1, 2) { let k = self.key(dots); if !o.iter().any(|e| e.0 == k) { o[at].0 = k; } } }
            return JsonValue::Object(o);
        }
        if at < n {
            if let (JsonValue::Object(o), true) = (&mut items[at], self.r.chance(2, 3)) {
                match self.r.below(6) { 0 => { o.pop(); } 1 => { let k = self.key(dots); if !o.iter().any(|e| e.0 == k) { o.push((k, JsonValue::Primitive(P::Null))); } } 2 => o.reverse(), 3 => { if let Some(e) = o.first_mut() { e.1 = odd; } } 4 => { if let Some(e) = o.first_mut() { if e.0 != "zz" { e.0 = "zz".into(); } } } _ => { if let Some(e) = o.last_mut() { e.1 = odd; } } }
                let mut seen = std::collections::HashSet::new(); o.retain(|e| seen.insert(e.0.clone()));
            } else { items[at] = odd; }
        }
        let v = JsonValue::Array(items);
        match self.r.below(4) { 0 => JsonValue::Object(vec![(self.key(dots), v)]), 1 => JsonValue::Array(vec![v]), _ => v }
    }
    pub fn any_value(&mut self, dots: bool) -> JsonValue {
        if self.r.chance(1, 40) { return self.long(dots); }
        let (d, b) = match self.r.below(20) { 0 => (40, 60), 1 => (6, 600), 2 => (8, 150), 3 => (1, 2500), 4..=7 => (2, 12), _ => (4, 40) };
        let mut b = b; self.value(d, &mut b, dots)
    }
    /// a chain of containers n deep
    pub fn deep(&mut self, n: usize) -> JsonValue {
        let mut b = 10; let mut v = self.value(1, &mut b, false);
        for _ in 0..n { v = match self.r.below(3) { 0 => JsonValue::Array(vec![v]), 1 => JsonValue::Object(vec![(self.ident(), v)]), _ => JsonValue::Object(vec![("a".into(), v), ("b".into(), JsonValue::Primitive(self.prim()))]) }; }
        v
    }
    pub fn delim(&mut self) -> char { *self.r.pick(&[',', ',', '|', '\t']) }
    pub fn indent(&mut self) -> usize { match self.r.below(12) { 0 => 1, 1 => 3, 2 => 4, 3 => self.r.range(5, 16), 4 => { let d = self.d; d.size(&mut self.r, 64).max(1) } _ => 2 } }
}
