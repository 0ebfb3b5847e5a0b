//! A strict JSON reader (RFC 8259) and the case (replay) format. Numbers go through str::parse::<f64>.
use toon::{JsonValue, StringOrNumberOrBoolOrNull as P};
pub struct Rd<'a> { b: &'a [u8], i: usize, s: &'a str }
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') { self.i += 1; } }
    fn lit(&mut self, l: &str) -> R<()> { if self.s[self.i..].starts_with(l) { self.i += l.len(); Ok(()) } else { Err(format!("bad literal at {}", self.i)) } }
    fn value(&mut self, d: usize) -> R<JsonValue> {
        self.ws();
        match self.b.get(self.i) {
            None => Err("unexpected end".into()),
            Some(b'{') => {
                self.i += 1; let mut o = Vec::new(); self.ws();
                if self.b.get(self.i) == Some(&b'}') { self.i += 1; return Ok(JsonValue::Object(o)); }
                loop {
                    self.ws(); let k = self.string()?; self.ws();
                    if self.b.get(self.i) != Some(&b':') { return Err(format!("expected : at {}", self.i)); }
                    self.i += 1; let v = self.value(d + 1)?; o.push((k, v)); self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; return Ok(JsonValue::Object(o)); } _ => return Err(format!("expected , or }} at {}", self.i)) }
                }
            }
            Some(b'[') => {
                self.i += 1; let mut o = Vec::new(); self.ws();
                if self.b.get(self.i) == Some(&b']') { self.i += 1; return Ok(JsonValue::Array(o)); }
                loop {
                    let v = self.value(d + 1)?; o.push(v); self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; return Ok(JsonValue::Array(o)); } _ => return Err(format!("expected , or ] at {}", self.i)) }
                }
            }
            Some(b'"') => Ok(JsonValue::Primitive(P::String(self.string()?))),
            Some(b't') => { self.lit("true")?; Ok(JsonValue::Primitive(P::Bool(true))) }
            Some(b'f') => { self.lit("false")?; Ok(JsonValue::Primitive(P::Bool(false))) }
            Some(b'n') => { self.lit("null")?; Ok(JsonValue::Primitive(P::Null)) }
            Some(_) => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1; }
                let t = &self.s[st..self.i];
                if !json_number(t) { return Err(format!("bad number {t:?} at {st}")); }
                Ok(JsonValue::Primitive(P::Number(t.parse().map_err(|_| "number")?)))
            }
        }
    }
    fn string(&mut self) -> R<String> {
        if self.b.get(self.i) != Some(&b'"') { return Err(format!("expected string at {}", self.i)); }
        self.i += 1; let mut out = String::new();
        loop {
            let Some(c) = self.s[self.i..].chars().next() else { return Err("unterminated string".into()) };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let Some(e) = self.s[self.i..].chars().next() else { return Err("unterminated escape".into()) };
                    self.i += e.len_utf8();
                    match e {
                        '"' => out.push('"'), '\\' => out.push('\\'), '/' => out.push('/'), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'),
                        'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
                        'u' => {
                            let mut u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) { self.lit("\\u")?; let l = self.hex4()?; if !(0xDC00..0xE000).contains(&l) { return Err("bad surrogate".into()); } u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); }
                            out.push(char::from_u32(u).ok_or("bad escape")?);
                        }
                        _ => return Err(format!("bad escape \\{e}")),
                    }
                }
                c if (c as u32) < 0x20 => return Err(format!("raw control character {:?} in string", c)),
                c => out.push(c),
            }
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let t = self.s.get(self.i..self.i + 4).ok_or("short \\u")?;
        if !t.bytes().all(|b| b.is_ascii_hexdigit()) { return Err("bad \\u".into()); }
        self.i += 4; u32::from_str_radix(t, 16).map_err(|e| e.to_string())
    }
}
pub fn parse(s: &str) -> R<JsonValue> {
    let mut r = Rd { b: s.as_bytes(), i: 0, s };
    let v = r.value(0)?; r.ws();
    if r.i != s.len() { return Err(format!("trailing text at {}", r.i)); }
    Ok(v)
}
/// RFC 8259 number grammar
pub fn json_number(t: &str) -> bool {
    let b = t.as_bytes(); let mut i = 0;
    if b.first() == Some(&b'-') { i = 1; }
    let dig = |i: &mut usize| { let s = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; } *i - s };
    match b.get(i) { Some(b'0') => i += 1, Some(b'1'..=b'9') => { dig(&mut i); } _ => return false }
    if b.get(i) == Some(&b'.') { i += 1; if dig(&mut i) == 0 { return false; } }
    if matches!(b.get(i), Some(b'e' | b'E')) { i += 1; if matches!(b.get(i), Some(b'+' | b'-')) { i += 1; } if dig(&mut i) == 0 { return false; } }
    i == b.len()
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || (c as u32) >= 0x7f => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{u:04x}")); } } c => o.push(c) } }
    o.push('"'); o
}
/// replay form: plain JSON, except that non-finite numbers and -0 are {"$f64": bits}
pub fn show(v: &JsonValue) -> String {
    match v {
        JsonValue::Primitive(P::Null) => "null".into(),
        JsonValue::Primitive(P::Bool(b)) => b.to_string(),
        JsonValue::Primitive(P::Number(f)) => if f.is_finite() && !(*f == 0.0 && f.is_sign_negative()) { format!("{f}") } else { format!("{{\"$f64\":\"{}\"}}", f.to_bits()) },
        JsonValue::Primitive(P::String(s)) => quote(s),
        JsonValue::Array(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")),
        JsonValue::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", quote(k), show(v))).collect::<Vec<_>>().join(",")),
    }
}
pub fn unshow(v: JsonValue) -> JsonValue {
    match v {
        JsonValue::Object(o) if o.len() == 1 && o[0].0 == "$f64" => match &o[0].1 { JsonValue::Primitive(P::String(s)) => JsonValue::Primitive(P::Number(f64::from_bits(s.parse().unwrap_or(0)))), _ => JsonValue::Object(o) },
        JsonValue::Object(o) => JsonValue::Object(o.into_iter().map(|(k, v)| (k, unshow(v))).collect()),
        JsonValue::Array(a) => JsonValue::Array(a.into_iter().map(unshow).collect()),
        v => v,
    }
}
