//! C14: what the command-line program leaves in files and reports, with write faults planted by size limits.
use crate::gen::Gen;
use crate::props::{dopt, Case};
use std::process::{Command, Stdio};
use toon::options::{EncodeOptions, KeyFoldingMode};
pub fn make(g: &mut Gen) -> Case {
    let mut c = Case::new("");
    c.d = g.delim(); c.indent = g.indent().min(16); c.strict = g.r.chance(1, 2);
    let big = g.r.chance(1, 2);
    let v = if big { let n = g.r.range(200, 3000); toon::JsonValue::Array((0..n).map(|i| toon::JsonValue::Object(vec![("id".into(), toon::JsonValue::from(i as i64)), ("s".into(), toon::JsonValue::from(g.ident()))])).collect()) } else { let mut b = 30; crate::refs::norm(&g.value(3, &mut b, true)) };
    let enc = g.r.chance(1, 2);
    c.t = if enc { crate::json::show(&v) } else { crate::refs::encode(&crate::refs::canon(&v), &crate::refs::Opt { delim: c.d, indent: c.indent, fold: false, flat: usize::MAX }).join("\n") };
    c.u = ["file", "stdout", "full", "stdoutfull", "limit", "stats", "statslimit", "statsfull", "expandlimit", "nodir", "expand", "pipe", "pipe"][g.r.below(13)].into();
    c.op = if enc { "encode" } else { "decode" }.into();
    c.n = g.r.below(64) as u64;
    c
}
pub fn check(c: &Case) -> Result<(), String> {
    let bin = std::env::var("TOON_BIN").map_err(|_| "TOON_BIN not set".to_string())?;
    let base = std::env::var("TOON_SCRATCH").unwrap_or("/tmp".into());
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = format!("{base}/c14_{}_{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = run(c, &bin, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn run(c: &Case, bin: &str, dir: &str) -> Result<(), String> {
    let enc = c.op == "encode"; let kind = c.u.as_str();
    let expand = kind.starts_with("expand") && !enc; let stats = kind.starts_with("stats");
    let want = if enc {
        toon::cli::conversion::encode_to_toon_lines(&c.t, Some(EncodeOptions { indent: Some(c.indent), delimiter: Some(c.d), key_folding: Some(KeyFoldingMode::Off), flatten_depth: None, replacer: None })).map(|l| l.join("\n")).map_err(|e| e.to_string())
    } else { toon::cli::conversion::decode_to_json_chunks(&c.t, dopt(c.indent, c.strict, expand)).map(|l| l.concat()).map_err(|e| e.to_string()) };
    let inp = format!("{dir}/in"); std::fs::write(&inp, &c.t).map_err(|e| e.to_string())?;
    let outp = format!("{dir}/out");
    let mut args: Vec<String> = vec![inp, if enc { "--encode" } else { "--decode" }.into(), "--indent".into(), c.indent.to_string(), "--delimiter".into(), match c.d { ',' => "comma", '|' => "pipe", _ => "tab" }.into()];
    if !c.strict { args.push("--no-strict".into()); }
    if expand { args.push("--expand-paths".into()); args.push("safe".into()); }
    if stats && enc { args.push("--stats".into()); }
    let mut limit = None; let mut to_file = true; let mut must_fail = false;
    let full = want.clone().unwrap_or_default().len() + 1;
    match kind {
        "stdout" => to_file = false,
        "full" | "statsfull" => { must_fail = true; args.push("-o".into()); args.push("/dev/full".into()); }
        "stdoutfull" => { must_fail = true; to_file = false; }
        "pipe" => { must_fail = true; to_file = false; }
        "nodir" => { must_fail = true; args.push("-o".into()); args.push(format!("{dir}/no/such/out")); }
        k => {
            if k.contains("limit") { let blocks = (c.n as usize * (full / 512 + 2)) / 64; limit = Some(blocks); must_fail = full > blocks * 512; }
            if c.n & 1 == 1 && limit.is_none() { std::fs::write(&outp, "old content ".repeat(full / 8 + 10)).map_err(|e| e.to_string())?; }
            args.push("-o".into()); args.push(outp.clone());
        }
    }
    let mut cmd = if let Some(b) = limit { let mut x = Command::new("dash"); x.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {b}; exec \"$@\"")).arg("dash").arg(bin); x } else { Command::new(bin) };
    if kind == "pipe" {
        // a reader that goes away at once, or after the first bytes of an output that no pipe buffer holds;
        // repeated, so that a descriptor copied into another child for a moment decides nothing
        let early = full <= 80_000 || c.n & 1 == 0;
        for i in 0..5 {
            use std::io::Read;
            let (mut rd, wr) = std::io::pipe().map_err(|e| e.to_string())?;
            let mut x = Command::new(bin); x.args(&args).stdin(Stdio::null()).stderr(Stdio::piped()).current_dir(dir).stdout(wr);
            let r = if early { drop(rd); std::thread::sleep(std::time::Duration::from_millis(5 * i)); let r = x.output(); r } else {
                let ch = x.spawn().map_err(|e| format!("cannot run the program: {e}"))?; drop(x);
                let mut b = [0u8; 700]; let _ = rd.read_exact(&mut b); drop(rd); ch.wait_with_output()
            }.map_err(|e| format!("cannot run the program: {e}"))?;
            if !r.status.success() { if r.status.code().is_none() { return Err(format!("program killed: {:?}", r.status)); } if r.stderr.is_empty() { return Err("failure without a message".into()); } return Ok(()); }
        }
        return Err(match want { Err(e) => format!("exit 0 although the conversion fails: {e}"), _ => format!("exit 0 although the reader of standard output had gone ({full} bytes)") });
    }
    cmd.args(&args).stdin(Stdio::null()).stderr(Stdio::piped()).current_dir(dir);
    if kind == "stdoutfull" { cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?); } else { cmd.stdout(Stdio::piped()); }
    let o = cmd.output().map_err(|e| format!("cannot run the program: {e}"))?;
    let ok = o.status.success();
    if o.status.code().is_none() { return Err(format!("program killed: {:?}", o.status)); }
    match (&want, ok) {
        (Err(e), true) => return Err(format!("exit 0 although the conversion fails: {e}")),
        (Err(_), false) => { if kind == "file" && std::path::Path::new(&outp).exists() && c.n & 1 == 1 && std::fs::read(&outp).map(|b| !b.starts_with(b"old content")).unwrap_or(false) { return Err("a failed conversion overwrote the output file".into()); } return Ok(()); }
        (Ok(_), true) if must_fail => return Err(format!("exit 0 although the output could not be written ({kind}, {full} bytes)")),
        (Ok(_), false) if must_fail => { if o.stderr.is_empty() { return Err("write failure without a message".into()); } return Ok(()); }
        (Ok(_), false) => return Err(format!("exit {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr))),
        _ => {}
    }
    let got = if to_file { std::fs::read(&outp).map_err(|e| format!("exit 0 but no output file: {e}"))? } else { o.stdout };
    let w = format!("{}\n", want.unwrap());
    if got != w.as_bytes() { let at = got.iter().zip(w.as_bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len())); return Err(format!("exit 0 but the output differs at byte {at} ({} bytes written, {} expected)", got.len(), w.len())); }
    Ok(())
}
