//! Mechanical extraction of the real functions of /repo/src into one Verus file.
//!
//! The text of every function is the source text itself: syn only supplies byte ranges.  Edits are
//! (a) insertion of contracts / invariants / proof blocks from the contract files, and
//! (b) the rewrite rules R1..R9 listed in DESIGN.md, each counted in the report.
use proc_macro2::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Debug, Clone)]
struct FnSpec {
    ret: Option<String>,
    spec: String,
    attr: String,
    loops: BTreeMap<usize, String>,
    closures: BTreeMap<String, String>,
    at: Vec<(String, String)>,
    params: Vec<(String, String)>,
    ghosts: Vec<String>,
    gcalls: Vec<(Vec<String>, String)>,
    rewrites: Vec<(String, String)>,
    generics: Option<String>,
    tail: Option<String>,
    used: bool,
}

#[derive(Default, Debug, Clone)]
struct TypeSpec {
    attr: String,
    after: String,
    used: bool,
}

#[derive(Default, Debug)]
struct FileSpec {
    path: String,
    module: Vec<String>,
    extra: String,
    dropuse: Vec<String>,
    bcast: String,
    drops: Vec<String>,
    only: bool,
    features: Vec<String>,
    types: HashMap<String, TypeSpec>,
    fns: BTreeMap<String, FnSpec>,
}

fn parse_sidecar(text: &str, files: &mut Vec<FileSpec>) {
    enum Cur {
        None,
        Extra,
        TypeAfter(String),
        Spec,
        Attr,
        Loop(usize),
        Closure(String),
        At(String),
        Tail,
    }
    let mut cur = Cur::None;
    let mut fname = String::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            let (dir, arg) = rest.split_once(' ').unwrap_or((rest, ""));
            let arg = arg.trim();
            match dir {
                "file" => {
                    let (path, module) = arg.split_once(" mod").unwrap_or((arg, ""));
                    let module = module
                        .trim()
                        .split("::")
                        .filter(|s| !s.is_empty())
                        .map(str::to_string)
                        .collect();
                    files.push(FileSpec {
                        path: path.trim().to_string(),
                        module,
                        ..Default::default()
                    });
                    cur = Cur::None;
                    continue;
                }
                _ => {}
            }
            if dir == "#" {
                continue;
            }
            let f = files.last_mut().expect("@file first");
            match dir {
                "use" => {
                    f.extra.push_str(arg);
                    f.extra.push('\n');
                    cur = Cur::Extra;
                }
                "only" => f.only = true,
                "feature" => f.features.push(arg.to_string()),
                "bcast" => f.bcast = arg.to_string(),
                "dropuse" => f.dropuse.push(arg.to_string()),
                "drop" => f.drops.extend(arg.split_whitespace().map(str::to_string)),
                "type" => {
                    let (n, a) = arg.split_once(' ').unwrap_or((arg, ""));
                    f.types.insert(
                        n.to_string(),
                        TypeSpec {
                            attr: a.to_string(),
                            ..Default::default()
                        },
                    );
                    cur = Cur::TypeAfter(n.to_string());
                }
                "fn" => {
                    fname = arg.to_string();
                    f.fns.entry(fname.clone()).or_default();
                    cur = Cur::None;
                }
                _ => {
                    let s = f.fns.get_mut(&fname).expect("fn first");
                    match dir {
                        "ret" => s.ret = Some(arg.to_string()),
                        "spec" => cur = Cur::Spec,
                        "attr" => {
                            s.attr.push_str(arg);
                            s.attr.push('\n');
                            cur = Cur::Attr
                        }
                        "loop" => cur = Cur::Loop(arg.parse().expect("loop k")),
                        "closure" => cur = Cur::Closure(arg.to_string()),
                        "at" => {
                            s.at.push((arg.to_string(), String::new()));
                            cur = Cur::At(arg.to_string())
                        }
                        "tail" => {
                            s.tail = Some(String::new());
                            cur = Cur::Tail
                        }
                        "param" => {
                            let (n, t) = arg.split_once(':').expect("param n: t");
                            s.params.push((n.trim().into(), t.trim().into()));
                        }
                        "ghost" => s.ghosts.push(arg.to_string()),
                        "gcall" => {
                            let (n, t) = arg.split_once("=>").expect("gcall f g => arg");
                            s.gcalls.push((n.split_whitespace().map(String::from).collect(), t.trim().into()));
                        }
                        "generics" => s.generics = Some(arg.to_string()),
                        "rewrite" => {
                            let (a, b) = arg.split_once(" => ").expect("rewrite a => b");
                            s.rewrites.push((a.into(), b.into()));
                        }
                        d => panic!("unknown directive {d}"),
                    }
                }
            }
            continue;
        }
        let Some(f) = files.last_mut() else { continue };
        let mut push = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &cur {
            Cur::None => {}
            Cur::Extra => push(&mut f.extra),
            Cur::TypeAfter(n) => push(&mut f.types.get_mut(n).unwrap().after),
            other => {
                let s = f.fns.get_mut(&fname).unwrap();
                match other {
                    Cur::Spec => push(&mut s.spec),
                    Cur::Attr => push(&mut s.attr),
                    Cur::Loop(k) => push(s.loops.entry(*k).or_default()),
                    Cur::Closure(k) => push(s.closures.entry(k.clone()).or_default()),
                    Cur::At(_) => push(&mut s.at.last_mut().unwrap().1),
                    Cur::Tail => push(s.tail.as_mut().unwrap()),
                    _ => {}
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    order: i64,
    text: String,
}

struct Rw<'a> {
    src: &'a str,
    spec: &'a FnSpec,
    edits: Vec<Edit>,
    shape: String,
    bare: usize,
    loops: usize,
    closures: usize,
    seq: i64,
    rules: BTreeMap<&'static str, usize>,
    problems: Vec<String>,
    used_at: Vec<bool>,
    loop_pos: Vec<(usize, usize, usize, usize)>,
    ret_result: bool,
    closure_ctx: Option<String>,
    closure_counts: HashMap<String, usize>,
    used_closures: Vec<String>,
    tail_pos: Option<std::ops::Range<usize>>,
    in_err: usize,
    fn_params: Vec<String>,
    into_params: Vec<String>,
    stream: bool,
}

fn rg(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

/// R12 (nested form): a `for` body statement `if C { S; if D { T; continue; } } REST` becomes
/// `if C { S; if D { T; } else { REST } } else { REST }`. One site per call; None when there is none.
fn nested_continue(src: &str, ast: &syn::File) -> Option<String> {
    fn tail(b: &syn::Block) -> Option<&syn::Expr> {
        match b.stmts.last() { Some(syn::Stmt::Expr(e, _)) => Some(e), _ => None }
    }
    fn has(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Continue(c) => c.label.is_none(),
            syn::Expr::If(i) => tail(&i.then_branch).is_some_and(has) || i.else_branch.as_ref().is_some_and(|(_, e)| has(e)),
            syn::Expr::Block(b) => tail(&b.block).is_some_and(has),
            _ => false,
        }
    }
    // the text of a block's inside, continued with `rest` where it does not end in `continue`
    fn block(src: &str, b: &syn::Block, rest: &str) -> String {
        let r = rg(b.span());
        let inner = r.start + 1..r.end - 1;
        match b.stmts.last() {
            Some(syn::Stmt::Expr(e, semi)) if has(e) => {
                let er = rg(e.span());
                let _ = semi;
                format!("{}{}", &src[inner.start..er.start], expr(src, e, rest))
            }
            _ => format!("{}\n{rest}\n", &src[inner]),
        }
    }
    fn expr(src: &str, e: &syn::Expr, rest: &str) -> String {
        match e {
            syn::Expr::Continue(_) => String::new(),
            syn::Expr::If(i) => {
                let head = &src[rg(i.span()).start..rg(i.then_branch.span()).start];
                let th = block(src, &i.then_branch, rest);
                let el = match &i.else_branch {
                    None => rest.to_string(),
                    Some((_, e)) => match &**e {
                        syn::Expr::Block(b) => block(src, &b.block, rest),
                        e => if has(e) { expr(src, e, rest) } else { format!("{}\n{rest}\n", &src[rg(e.span())]) },
                    },
                };
                format!("{head}{{{th}}} else {{\n{el}\n}}")
            }
            syn::Expr::Block(b) => format!("{{{}}}", block(src, &b.block, rest)),
            e => src[rg(e.span())].to_string(),
        }
    }
    struct V<'s> { src: &'s str, out: Option<String> }
    impl<'s, 'ast> Visit<'ast> for V<'s> {
        fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
            if !is_test_cfg(&m.attrs, &[]) { visit::visit_item_mod(self, m); }
        }
        fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
            for (k, st) in f.body.stmts.iter().enumerate() {
                let syn::Stmt::Expr(e @ syn::Expr::If(i), _) = st else { continue };
                let direct = matches!(tail(&i.then_branch), Some(syn::Expr::Continue(_))) && i.else_branch.is_none();
                if direct || !has(e) || self.out.is_some() { continue; }
                let er = rg(e.span());
                let end = rg(f.body.span()).end - 1;
                let rest = if k + 1 < f.body.stmts.len() { self.src[rg(f.body.stmts[k + 1].span()).start..end].to_string() } else { String::new() };
                self.out = Some(format!("{}{}\n{}", &self.src[..er.start], expr(self.src, e, &rest), &self.src[end..]));
            }
            visit::visit_expr_for_loop(self, f);
        }
    }
    let mut v = V { src, out: None };
    v.visit_file(ast);
    v.out
}

/// comparisons of variables, fields and literals, joined by logical operators
fn simple_test(e: &syn::Expr) -> bool {
    fn atom(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(p) => p.path.segments.len() == 1,
            syn::Expr::Field(f) => atom(&f.base),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && atom(&u.expr),
            syn::Expr::Paren(p) => atom(&p.expr),
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Char(_)),
            _ => false,
        }
    }
    match e {
        syn::Expr::Paren(p) => simple_test(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && (simple_test(&u.expr) || atom(&u.expr)),
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::And(_) | syn::BinOp::Or(_) => simple_test(&b.left) && simple_test(&b.right),
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => atom(&b.left) && atom(&b.right),
            _ => false,
        },
        _ => false,
    }
}

const STR_METHODS: &[&str] = &[
    "contains", "find", "starts_with", "ends_with", "strip_prefix", "trim", "trim_start", "trim_end", "parse",
    "split", "repeat", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii",
    "to_vec", "extend", "sum", "is_nan", "is_finite", "is_sign_negative", "join", "position",
    "filter_map", "count", "is_some_and", "is_ok_and", "map_or_else", "map_or", "is_none_or", "rfind",
    "to_string", "get_or_insert_with", "split_once", "rev", "char_indices", "as_bytes_mut", "to_lowercase", "eq_ignore_ascii_case", "is_multiple_of", "is_control", "unwrap_or_else",
];

impl<'a> Rw<'a> {
    fn ins(&mut self, pos: usize, text: impl Into<String>) {
        self.seq += 1;
        let order = self.seq;
        self.edits.push(Edit {
            start: pos,
            end: pos,
            order,
            text: text.into(),
        });
    }
    fn ins_first(&mut self, pos: usize, text: impl Into<String>) {
        self.seq += 1;
        let order = self.seq - 1_000_000;
        self.edits.push(Edit {
            start: pos,
            end: pos,
            order,
            text: text.into(),
        });
    }
    fn rep(&mut self, r: std::ops::Range<usize>, text: impl Into<String>) {
        self.seq += 1;
        let order = self.seq;
        self.edits.push(Edit {
            start: r.start,
            end: r.end,
            order,
            text: text.into(),
        });
    }
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_default() += 1;
    }
    fn problem(&mut self, p: impl Into<String>) {
        self.problems.push(p.into());
    }

    /// a path used as a function argument becomes a closure that calls it
    fn eta(&mut self, ctx: &str, f: &syn::Expr) {
        let ar = rg(f.span());
        self.rule("R17-eta");
        self.closures += 1;
        let c = self.closure_counts.entry(ctx.into()).or_insert(0);
        let nk = format!("{ctx}:{c}");
        *c += 1;
        let pt = tok_text(f).replace(' ', "");
        let body = if pt.ends_with("::to_string") || pt == "String::from" { "v_x.v_to_string()".to_string() } else { format!("{pt}(v_x)") };
        let t = self.spec.closures.get(&nk).cloned();
        if t.is_some() { self.used_closures.push(nk); }
        let t = t.unwrap_or_else(|| "|$1|".into()).replace("$1", "v_x");
        let (h, prelude) = t.split_once(";;").unwrap_or((t.as_str(), ""));
        self.rep(ar, format!("{} {{ {} {} }}", h.trim_end(), prelude.trim(), body));
    }

    /// a closure whose body is a comparison of fields and literals states exactly that
    fn auto_test(&mut self, e: &syn::ExprClosure) {
        if e.inputs.iter().any(|p| !matches!(p, syn::Pat::Ident(_) | syn::Pat::Type(_) | syn::Pat::Wild(_))) || !matches!(e.output, syn::ReturnType::Default) {
            self.bare += 1;
            return;
        }
        let br = rg(e.body.span());
        let body = self.src[br.clone()].to_string();
        let bar = rg(e.or2_token.span()).end;
        self.ins(bar, format!(" -> (vr_: bool) ensures vr_ == ({body}) {{"));
        self.ins(br.end, " }");
        self.rule("R5-closure-auto");
    }

    fn let_chain_atoms<'e>(e: &'e syn::Expr, out: &mut Vec<&'e syn::Expr>) {
        if let syn::Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::And(_)) {
                Self::let_chain_atoms(&b.left, out);
                Self::let_chain_atoms(&b.right, out);
                return;
            }
        }
        out.push(e);
    }

    fn at_text(&mut self, key: &str) -> Option<String> {
        let mut out = String::new();
        let mut any = false;
        for (i, (k, t)) in self.spec.at.iter().enumerate() {
            if k == key {
                self.used_at[i] = true;
                out.push_str(t);
                any = true;
            }
        }
        any.then_some(out)
    }

    /// R12: `for` bodies may not contain `continue`: a statement `if C { A; continue; }` followed by
    /// REST becomes `if C { A } else { REST }`.
    fn no_continue(&mut self, body: &syn::Block) {
        let n = body.stmts.len();
        let mut closes = 0;
        for (i, s) in body.stmts.iter().enumerate() {
            let syn::Stmt::Expr(syn::Expr::If(e), _) = s else {
                if let syn::Stmt::Expr(syn::Expr::Continue(c), _) = s {
                    if i + 1 == n {
                        let r = rg(c.span());
                        self.rep(r, "()");
                        self.rule("R12-continue");
                    }
                }
                continue;
            };
            let Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) = e.then_branch.stmts.last() else { continue };
            if e.else_branch.is_some() {
                self.problem("continue with else");
                continue;
            }
            let cr = rg(c.span());
            self.rep(cr, "()");
            self.rule("R12-continue");
            if i + 1 < n {
                self.ins(rg(e.span()).end, " else {");
                closes += 1;
            }
        }
        if closes > 0 {
            self.ins(rg(body.span()).end - 1, "}".repeat(closes));
        }
    }

    fn loop_common(&mut self, whole: std::ops::Range<usize>, body: &syn::Block, k: usize) {
        let br = rg(body.span());
        if let Some(t) = self.spec.loops.get(&k) {
            self.ins(br.start, format!("\n{t}"));
        }
        if let Some(t) = self.at_text(&format!("loop_start {k}")) {
            self.ins(br.start + 1, format!("\n{t}"));
        }
        if let Some(t) = self.at_text(&format!("loop_end {k}")) {
            let pos = match body.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_)) => rg(e.span()).start,
                _ => br.end - 1,
            };
            self.ins(pos, format!("\n{t}\n"));
        }
        self.loop_pos.push((k, whole.start, whole.end, br.end));
    }

    fn format_args_edit(
        &mut self,
        mac: &syn::Macro,
        whole: std::ops::Range<usize>,
        target: Option<&str>,
        skip_first: bool,
    ) {
        use syn::parse::Parser;
        use syn::punctuated::Punctuated;
        // arguments may be `name = expr`
        let parser = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let Ok(args) = parser.parse2(mac.tokens.clone()) else {
            self.problem("format args not parsed");
            return;
        };
        let mut it = args.iter();
        if skip_first {
            it.next();
        }
        let Some(syn::Expr::Lit(syn::ExprLit {
            lit: syn::Lit::Str(fmt),
            ..
        })) = it.next()
        else {
            self.problem("format string is not a literal");
            return;
        };
        let fmtv = fmt.value();
        let mut named: Vec<(String, &syn::Expr)> = Vec::new();
        let mut pos: Vec<&syn::Expr> = Vec::new();
        for a in it {
            if let syn::Expr::Assign(asg) = a {
                if let syn::Expr::Path(p) = &*asg.left {
                    if let Some(id) = p.path.get_ident() {
                        named.push((id.to_string(), &asg.right));
                        continue;
                    }
                }
            }
            pos.push(a);
        }
        // pieces
        let mut out = String::new();
        let t = target.unwrap_or("vf_");
        let mut lit = String::new();
        let mut next = 0usize;
        let cs: Vec<char> = fmtv.chars().collect();
        let mut i = 0;
        let flush = |lit: &mut String, out: &mut String| {
            if !lit.is_empty() {
                let n = lit.chars().count();
                if n == 1 {
                    let _ = write!(out, "{t}.push({:?});", lit.chars().next().unwrap());
                } else {
                    let _ = write!(out, "{t}.push_str({:?});", lit);
                }
                lit.clear();
            }
        };
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                    lit.push('{');
                    i += 2;
                }
                '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    let mut name = String::new();
                    while j < cs.len() && cs[j] != '}' {
                        name.push(cs[j]);
                        j += 1;
                    }
                    i = j + 1;
                    flush(&mut lit, &mut out);
                    if let Some(base) = name.strip_suffix(":04x") {
                        let e = if base.is_empty() {
                            next += 1;
                            format!("va{}_", next - 1)
                        } else {
                            base.to_string()
                        };
                        let _ = write!(out, "{t}.push_str(&{e}.v_hex4());");
                        continue;
                    }
                    let debug = name.contains(':');
                    if debug {
                        // formatting options: value abstracted
                        let base = name.split(':').next().unwrap().to_string();
                        self.rule("R6-fmt-option-abstracted");
                        let e = if base.is_empty() {
                            next += 1;
                            format!("va{}_", next - 1)
                        } else {
                            base
                        };
                        let _ = write!(out, "{t}.push_str(&crate::vstubs::v_opaque_fmt(&{e}));");
                        continue;
                    }
                    let e = if name.is_empty() {
                        next += 1;
                        format!("va{}_", next - 1)
                    } else if let Ok(k) = name.parse::<usize>() {
                        format!("va{k}_")
                    } else {
                        name
                    };
                    let _ = write!(out, "{t}.push_str(&{e}.v_disp());");
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        flush(&mut lit, &mut out);
        self.rule("R6-format");
        // assemble: [whole.start .. arg0.start] -> "{ let va0_ = &(" ; between ... ; end
        let mut exprs: Vec<(String, &syn::Expr)> = pos
            .iter()
            .enumerate()
            .map(|(i, e)| (format!("va{i}_"), *e))
            .collect();
        exprs.extend(named.iter().map(|(n, e)| (n.clone(), *e)));
        let mut prev = whole.start;
        let mut head = String::from("{ ");
        for (n, e) in &exprs {
            let r = rg(e.span());
            let _ = write!(head, "let {n} = &(");
            self.rep(prev..r.start, head.clone());
            head = String::from("); ");
            prev = r.end;
            self.visit_expr(e);
        }
        let mut tail = head;
        if target.is_none() && self.in_err > 0 {
            // the text of an error is not specified: its arguments are evaluated, the text is arbitrary
            self.rule("R6-error-text-abstracted");
            tail.push_str("let vf_ = crate::vstubs::v_opaque_fmt(&());");
            out.clear();
        } else if target.is_none() {
            tail.push_str("let mut vf_ = String::new(); ");
        }
        tail.push_str(&out);
        if target.is_none() {
            tail.push_str(" vf_ }");
        } else {
            tail.push_str(" }");
        }
        self.rep(prev..whole.end, tail);
    }
}

fn tok_text(e: &impl quote::ToTokens) -> String {
    e.to_token_stream().to_string()
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl<'a, 'ast> Visit<'ast> for Rw<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        // statement / expression attributes carry no behaviour here
        self.rep(rg(a.span()), "");
        self.rule("R0-attr");
    }

    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        let mut atoms = Vec::new();
        Rw::let_chain_atoms(&e.cond, &mut atoms);
        let has_let = atoms.iter().any(|a| matches!(a, syn::Expr::Let(_)));
        if has_let && atoms.len() > 1 {
            self.rule("R1-let-chain");
            // split between atoms wherever either side is a `let`
            let mut closes = 0;
            let mut splits = Vec::new();
            for w in atoms.windows(2) {
                if matches!(w[0], syn::Expr::Let(_)) || matches!(w[1], syn::Expr::Let(_)) {
                    splits.push((rg(w[0].span()).end, rg(w[1].span()).start));
                }
            }
            if e.else_branch.is_some() {
                // label-break form: 'c: { if A { if let .. { break 'c BODY } } ELSE }
                self.problem("let-chain with else");
            }
            for (a, b) in splits {
                self.rep(a..b, " { if ");
                closes += 1;
            }
            let end = rg(e.then_branch.span()).end;
            self.ins(end, " }".repeat(closes));
            // proof hints use the innermost block
        }
        visit::visit_expr_if(self, e);
    }

    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let k = self.loops;
        self.loops += 1;
        self.shape.push('F');
        let whole = rg(e.span());
        // R4: for (i, x) in E.iter().enumerate()
        let mut done = false;
        if let (syn::Pat::Tuple(t), syn::Expr::MethodCall(m)) = (&*e.pat, &*e.expr) {
            if m.method == "enumerate" && t.elems.len() == 2 {
                if let syn::Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "iter" && inner.args.is_empty() {
                        let idx = &self.src[rg(t.elems[0].span())];
                        let x = &self.src[rg(t.elems[1].span())];
                        let recv = self.src[rg(inner.receiver.span())].to_string();
                        let idx = idx.to_string();
                        let x = x.to_string();
                        let pat = rg(e.pat.span());
                        self.rep(pat.start..rg(e.expr.span()).end, format!("{idx} in it{k}: 0..{recv}.len()"));
                        let b = rg(e.body.span());
                        self.ins_first(b.start + 1, format!(" let {x} = &{recv}[{idx}];"));
                        self.rule("R4-enumerate");
                        done = true;
                    }
                }
            }
        }
        // R4 (by value): for (i, x) in E.into_iter().enumerate()
        if let (false, syn::Expr::MethodCall(m)) = (done, &*e.expr) {
            if m.method == "enumerate" {
                if let syn::Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "into_iter" {
                        let es = rg(e.expr.span());
                        self.ins_first(es.start, format!("it{k}: crate::vstubs::v_enum("));
                        self.rep(rg(inner.receiver.span()).end..es.end, ")");
                        self.visit_expr(&inner.receiver);
                        self.rule("R4-enumerate");
                        done = true;
                    }
                }
            }
        }
        if !done {
            let es = rg(e.expr.span()).start;
            self.ins_first(es, format!("it{k}: "));
            self.visit_expr(&e.expr);
        }
        self.loop_common(whole, &e.body, k);
        self.no_continue(&e.body);
        self.visit_block(&e.body);
    }

    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let k = self.loops;
        self.loops += 1;
        self.shape.push('W');
        if let syn::Expr::Binary(_) = &*e.cond {
            let mut atoms = Vec::new();
            Rw::let_chain_atoms(&e.cond, &mut atoms);
            if atoms.len() > 1 && atoms.iter().any(|a| matches!(a, syn::Expr::Let(_))) {
                self.problem("let-chain in while");
            }
        }
        self.visit_expr(&e.cond);
        self.loop_common(rg(e.span()), &e.body, k);
        self.visit_block(&e.body);
    }

    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let k = self.loops;
        self.loops += 1;
        self.shape.push('L');
        self.loop_common(rg(e.span()), &e.body, k);
        self.visit_block(&e.body);
    }

    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let mut k = self.closures.to_string();
        self.closures += 1;
        if let Some(n) = self.closure_ctx.take() {
            let c = self.closure_counts.entry(n.clone()).or_insert(0);
            let nk = format!("{n}:{c}");
            *c += 1;
            if self.spec.closures.contains_key(&nk) {
                k = nk;
            }
        }
        if self.spec.closures.contains_key(&k) {
            self.used_closures.push(k.clone());
        }
        if !self.spec.closures.contains_key(&k) {
            for p in &e.inputs {
                if let syn::Pat::Wild(w) = p {
                    self.rep(rg(w.span()), "vw_");
                    self.rule("R5-closure-wildcard");
                }
            }
        }
        if let Some(t) = self.spec.closures.get(&k) {
            let whole = rg(e.span());
            let b = rg(e.body.span());
            // text:  header  [;; prelude]
            let mut t = t.clone();
            for (i, p) in e.inputs.iter().enumerate() {
                let pt = match p { syn::Pat::Type(pt) => tok_text(&pt.pat), p => tok_text(p) };
                t = t.replace(&format!("${}", i + 1), pt.trim());
            }
            let (h, prelude) = t.split_once(";;").unwrap_or((t.as_str(), ""));
            self.rep(whole.start..b.start, format!("{} {{ {}", h.trim_end(), prelude.trim()));
            self.ins(b.end, " }");
            self.rule("R5-closure-contract");
        } else if let (syn::Expr::Binary(b), 1) = (&*e.body, e.inputs.len()) {
            if let (syn::BinOp::Add(_), syn::Pat::Ident(p)) = (&b.op, &e.inputs[0]) {
                let whole = rg(e.span());
                let br = rg(e.body.span());
                let body = self.src[br.clone()].to_string();
                self.rep(whole.start..br.start, format!("|{}: usize| -> (vr_: usize) requires {body} <= usize::MAX ensures vr_ == {body} {{ ", p.ident));
                self.ins(br.end, " }");
                self.rule("R5-closure-auto");
            } else if simple_test(&e.body) {
                self.auto_test(e);
            } else {
                self.bare += 1;
            }
        } else if simple_test(&e.body) {
            self.auto_test(e);
        } else {
            self.bare += 1;
        }
        self.visit_expr(&e.body);
    }

    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        if let syn::Expr::Range(r) = &*e.index {
            self.rule("R2-range-index");
            let base = rg(e.expr.span());
            let whole = rg(e.span());
            let mut close = ")";
            if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                self.problem("inclusive range index");
            }
            match (&r.start, &r.end) {
                (Some(a), Some(b)) => {
                    self.rep(base.end..rg(a.span()).start, ".v_range(");
                    self.rep(rg(a.span()).end..rg(b.span()).start, ", ");
                    self.rep(rg(b.span()).end..whole.end, close);
                }
                (Some(a), None) => {
                    self.rep(base.end..rg(a.span()).start, ".v_from(");
                    self.rep(rg(a.span()).end..whole.end, close);
                }
                (None, Some(b)) => {
                    self.rep(base.end..rg(b.span()).start, ".v_to(");
                    self.rep(rg(b.span()).end..whole.end, close);
                }
                (None, None) => {
                    close = ".v_from(0)";
                    self.rep(base.end..whole.end, close);
                }
            }
            self.visit_expr(&e.expr);
            if let Some(a) = &r.start {
                self.visit_expr(a)
            }
            if let Some(b) = &r.end {
                self.visit_expr(b)
            }
            return;
        }
        visit::visit_expr_index(self, e);
    }

    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        // &x[a..b] : the accessor already returns a reference
        if let syn::Expr::Index(ix) = &*e.expr {
            if matches!(&*ix.index, syn::Expr::Range(_)) && e.mutability.is_none() {
                let r = rg(e.span());
                let inner = rg(e.expr.span());
                self.rep(r.start..inner.start, "");
            }
        }
        visit::visit_expr_reference(self, e);
    }

    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        // R26: an owning iterator kept for later is the prelude's stand-in for it
        if self.stream && n == "into_iter" && e.args.is_empty() {
            self.rule("R29-into-iter");
            self.rep(rg(e.method.span()), "v_into_iter");
            self.visit_expr(&e.receiver);
            return;
        }
        // R13: fallible collect
        if n == "collect" {
            let to_result = match &e.turbofish {
                Some(t) => tok_text(t).replace(' ', "").starts_with("::<Result<"),
                None => self.ret_result && self.tail_pos == Some(rg(e.span())),
            };
            if let (true, syn::Expr::MethodCall(m)) = (to_result, &*e.receiver) {
                if let (true, syn::Expr::MethodCall(i)) = (m.method == "map" && m.args.len() == 1, &*m.receiver) {
                    let name = if i.method == "into_iter" { "v_into_try_map" } else { "v_iter_try_map" };
                    if i.method == "into_iter" || i.method == "iter" {
                        self.rule("R13-try-collect");
                        let rr = rg(i.receiver.span());
                        let ar = rg(m.args[0].span());
                        self.rep(rr.end..ar.start, format!(".{name}("));
                        self.rep(ar.end..rg(e.span()).end, ")");
                        self.visit_expr(&i.receiver);
                        self.closure_ctx = Some("try".into());
                        self.visit_expr(&m.args[0]);
                        self.closure_ctx = None;
                        return;
                    }
                }
            }
        }
        // R17: X.into_iter().map(f).collect() and X.split(c).collect() into a Vec
        if n == "collect" {
            let to_vec = match &e.turbofish {
                Some(t) => tok_text(t).replace(' ', "").starts_with("::<Vec<"),
                None => true,
            };
            if let (true, syn::Expr::MethodCall(m)) = (to_vec, &*e.receiver) {
                if m.method == "split" && m.args.len() == 1 {
                    self.rule("R17-split-collect");
                    self.rep(rg(m.span()).end..rg(e.span()).end, "");
                    self.visit_expr(&e.receiver);
                    return;
                }
                if let (true, syn::Expr::MethodCall(i)) = (m.method == "map" && m.args.len() == 1, &*m.receiver) {
                    let name = match i.method.to_string().as_str() { "into_iter" | "split" => "v_into_map", "iter" => "v_iter_map", _ => "" };
                    if !name.is_empty() && matches!(m.args[0], syn::Expr::Closure(_) | syn::Expr::Path(_)) {
                        self.rule("R17-map-collect");
                        let ar = rg(m.args[0].span());
                        if i.method == "split" {
                            self.rep(rg(i.span()).end..ar.start, format!(".{name}("));
                            self.visit_expr(&m.receiver);
                        } else {
                            self.rep(rg(i.receiver.span()).end..ar.start, format!(".{name}("));
                            self.visit_expr(&i.receiver);
                        }
                        self.rep(ar.end..rg(e.span()).end, ")");
                        if let syn::Expr::Path(_) = &m.args[0] {
                            self.eta("map", &m.args[0]);
                        } else {
                            self.closure_ctx = Some("map".into());
                            self.visit_expr(&m.args[0]);
                            self.closure_ctx = None;
                        }
                        return;
                    }
                }
            }
        }
        // R20: X.iter().filter_map(f).collect() into a Vec
        if n == "collect" {
            if let syn::Expr::MethodCall(m) = &*e.receiver {
                if let (true, syn::Expr::MethodCall(i)) = (m.method == "filter_map" && m.args.len() == 1, &*m.receiver) {
                    if i.method == "iter" && matches!(m.args[0], syn::Expr::Closure(_)) {
                        self.rule("R20-filter-map-collect");
                        let ar = rg(m.args[0].span());
                        self.rep(rg(i.receiver.span()).end..ar.start, ".v_iter_filter_map(");
                        self.visit_expr(&i.receiver);
                        self.rep(ar.end..rg(e.span()).end, ")");
                        self.closure_ctx = Some("filter_map".into());
                        self.visit_expr(&m.args[0]);
                        self.closure_ctx = None;
                        return;
                    }
                }
            }
        }
        if n == "into" && e.args.is_empty() {
            if let syn::Expr::Path(p) = &*e.receiver {
                if self.into_params.contains(&tok_text(p)) {
                    self.rep(rg(e.receiver.span()).end..rg(e.span()).end, "");
                    return;
                }
            }
        }
        // R21: X[i].clone(): items are cloned through a trait that says the copy is equal
        if n == "clone" && e.args.is_empty() {
            if let syn::Expr::Index(x) = &*e.receiver {
                if !matches!(&*x.index, syn::Expr::Range(_)) {
                    self.rule("R21-item-clone");
                    self.rep(rg(e.method.span()), "v_clone");
                }
            }
        }
        // R19: X.iter().map(f).sum::<usize>()
        if n == "sum" && e.args.is_empty() {
            if let syn::Expr::MethodCall(m) = &*e.receiver {
                if let (true, syn::Expr::MethodCall(i)) = (m.method == "map" && m.args.len() == 1, &*m.receiver) {
                    if i.method == "iter" {
                        self.rule("R19-map-sum");
                        let ar = rg(m.args[0].span());
                        self.rep(rg(i.receiver.span()).end..ar.start, ".v_iter_map_sum(");
                        self.visit_expr(&i.receiver);
                        self.rep(ar.end..rg(e.span()).end, ")");
                        if matches!(m.args[0], syn::Expr::Path(_)) {
                            self.eta("sum", &m.args[0]);
                        } else {
                            self.closure_ctx = Some("sum".into());
                            self.visit_expr(&m.args[0]);
                            self.closure_ctx = None;
                        }
                        return;
                    }
                }
            }
        }
        // R18: X.iter().position(p), X.iter().all(p), X.iter().any(p)
        if matches!(n.as_str(), "position" | "all" | "any") && e.args.len() == 1 {
            if let (syn::Expr::MethodCall(i), syn::Expr::Closure(_)) = (&*e.receiver, &e.args[0]) {
                if i.method == "iter" {
                    self.rule("R18-iter-test");
                    let rr = rg(i.receiver.span());
                    self.rep(rr.end..rg(e.args[0].span()).start, format!(".v_iter_{n}("));
                    self.visit_expr(&i.receiver);
                    self.closure_ctx = Some(n.clone());
                    self.visit_expr(&e.args[0]);
                    self.closure_ctx = None;
                    return;
                }
            }
        }
        // R16: X.iter().find(p)
        if n == "find" && e.args.len() == 1 {
            if let (syn::Expr::MethodCall(i), syn::Expr::Closure(_)) = (&*e.receiver, &e.args[0]) {
                if i.method == "iter" {
                    self.rule("R16-iter-find");
                    let rr = rg(i.receiver.span());
                    self.rep(rr.end..rg(e.args[0].span()).start, ".v_iter_find(");
                    self.visit_expr(&i.receiver);
                    self.closure_ctx = Some("find".into());
                    self.visit_expr(&e.args[0]);
                    self.closure_ctx = None;
                    return;
                }
            }
        }
        if n == "count" {
            if let syn::Expr::MethodCall(c) = &*e.receiver {
                if c.method == "split_whitespace" {
                    self.rule("R14-count-abstracted");
                    self.rep(rg(c.receiver.span()).end..rg(e.span()).end, ".v_some_count()");
                    self.visit_expr(&c.receiver);
                    return;
                }
            }
        }
        // R14: X.chars().filter(..).count() is only used as a capacity hint: any number <= X.len()
        if n == "count" {
            if let syn::Expr::MethodCall(f) = &*e.receiver {
                if let (true, syn::Expr::MethodCall(c)) = (f.method == "filter", &*f.receiver) {
                    if c.method == "chars" {
                        self.rule("R14-count-abstracted");
                        let rr = rg(c.receiver.span());
                        self.rep(rr.end..rg(e.span()).end, ".v_some_count()");
                        self.visit_expr(&c.receiver);
                        return;
                    }
                }
            }
        }
        let gs: Vec<String> = self.spec.gcalls.iter().filter(|(g, _)| g.contains(&format!(".{n}"))).map(|(_, t)| t.clone()).collect();
        for t in gs {
            let pos = rg(e.paren_token.span.close()).start;
            self.rep(pos..pos, format!("{}{t}", if e.args.is_empty() || e.args.trailing_punct() { "" } else { ", " }));
        }
        if STR_METHODS.contains(&n.as_str()) {
            self.rule("R3-std-call");
            self.rep(rg(e.method.span()), format!("v_{n}"));
        }
        self.visit_expr(&e.receiver);
        for (i, a) in e.args.iter().enumerate() {
            if n == "map_or" && i == 1 && matches!(a, syn::Expr::Path(_)) {
                self.eta("map_or", a);
                continue;
            }
            if matches!(a, syn::Expr::Closure(_)) {
                self.closure_ctx = Some(n.clone());
            }
            self.visit_expr(a);
            self.closure_ctx = None;
        }
    }

    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        // R7: arithmetic on floats has some float as its result
        fn is_float(e: &syn::Expr) -> bool {
            match e {
                syn::Expr::Cast(c) => tok_text(&c.ty) == "f64",
                syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Float(_)),
                syn::Expr::Paren(p) => is_float(&p.expr),
                syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_)) && (is_float(&b.left) || is_float(&b.right)),
                _ => false,
            }
        }
        if matches!(e.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_)) && (is_float(&e.left) || is_float(&e.right)) {
            self.rule("R7-f64-arithmetic");
            let (l, r) = (rg(e.left.span()), rg(e.right.span()));
            self.ins(l.start, "crate::vstubs::v_f64_op(");
            self.rep(l.end..r.start, ", ");
            self.visit_expr(&e.left);
            self.visit_expr(&e.right);
            self.ins_first(r.end, ")");
            return;
        }
        // R26: X.as_os_str() == text
        if let (syn::BinOp::Eq(_), syn::Expr::MethodCall(m)) = (&e.op, &*e.left) {
            if m.method == "as_os_str" {
                self.rule("R26-path-is");
                let (l, r) = (rg(e.left.span()), rg(e.right.span()));
                self.rep(l.end..r.start, ".v_is(");
                self.visit_expr(&e.left);
                self.visit_expr(&e.right);
                self.ins_first(r.end, ")");
                return;
            }
        }
        // f64 comparison with the literal 0.0
        if let syn::Expr::Lit(l) = &*e.right {
            if let syn::Lit::Float(f) = &l.lit {
                if f.base10_parse::<f64>().ok() == Some(0.0) && matches!(e.op, syn::BinOp::Eq(_)) {
                    self.rule("R7-f64-is-zero");
                    let l = rg(e.left.span());
                    self.rep(l.end..rg(e.span()).end, ".v_is_zero()");
                    self.visit_expr(&e.left);
                    return;
                }
            }
        }
        visit::visit_expr_binary(self, e);
    }

    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        if tok_text(&e.ty) == "f64" {
            self.rule("R7-as-f64");
            self.rep(rg(e.expr.span()).end..rg(e.span()).end, ".v_as_f64()");
            self.visit_expr(&e.expr);
            return;
        }
        visit::visit_expr_cast(self, e);
    }

    fn visit_path(&mut self, p: &'ast syn::Path) {
        // R25: std's I/O, and serde_json, are stubs with the same paths inside this crate
        if p.segments.len() > 2 && p.segments[0].ident == "std" && matches!(p.segments[1].ident.to_string().as_str(), "fs" | "io" | "path" | "process") {
            self.rule("R25-std-io-path");
            self.rep(rg(p.segments[0].ident.span()), "crate::vio");
        } else if p.segments.len() > 1 && p.segments[0].ident == "serde_json" {
            self.rule("R25-serde-json-path");
            self.rep(rg(p.segments[0].ident.span()), "crate::serde_json");
        } else if p.segments.len() > 1 && p.segments[0].ident == "toon" {
            self.rule("R25-crate-path");
            self.rep(rg(p.segments[0].ident.span()), "crate");
        }
        visit::visit_path(self, p);
    }

    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &e.lit {
            self.rule("R27-byte-string");
            let v: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
            let t = if v.len() == 1 { format!("crate::vstubs::v_byte({})", v[0]) } else { format!("crate::vstubs::v_bs(&[{}])", v.join(", ")) };
            self.rep(rg(e.span()), t);
            return;
        }
        if let syn::Lit::Float(f) = &e.lit {
            if f.base10_parse::<f64>().ok() == Some(0.0) {
                self.rule("R7-f64-zero-literal");
                self.rep(rg(e.span()), "v_f0()");
            } else {
                self.rule("R7-f64-literal");
                self.rep(rg(e.span()), "crate::vstubs::v_f64_some()");
            }
        }
    }

    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let err = matches!(&*e.func, syn::Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "ToonError");
        self.in_err += err as usize;
        // R3: String::from(text) is text.to_string()
        if matches!(&*e.func, syn::Expr::Path(p) if tok_text(&p.path).replace(' ', "") == "String::from") && e.args.len() == 1 {
            self.rule("R3-std-call");
            self.rep(rg(e.func.span()), "");
            let end = rg(e.span()).end;
            self.ins(end, ".v_to_string()");
            self.visit_expr(&e.args[0]);
            return;
        }
        if let syn::Expr::Path(p) = &*e.func {
            let last = p.path.segments.last().unwrap().ident.to_string();
            // R22: a call of the user's function goes through its stub
            if p.path.segments.len() == 1 && self.fn_params.contains(&last) {
                self.rule("R22-user-function-call");
                let end = rg(p.span()).end;
                self.rep(end..end, ".v_call");
            }
            let gs: Vec<String> = self.spec.gcalls.iter().filter(|(n, _)| n.contains(&last)).map(|(_, t)| t.clone()).collect();
            for t in gs {
                let pos = rg(e.paren_token.span.close()).start;
                self.rep(pos..pos, format!("{}{t}", if e.args.is_empty() || e.args.trailing_punct() { "" } else { ", " }));
            }
        }
        visit::visit_expr_call(self, e);
        self.in_err -= err as usize;
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        let segs: Vec<String> = e.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 2 && segs[0] == "f64" {
            self.rule("R7-f64-path");
            self.rep(rg(e.span()), format!("v_f64_{}", segs[1]));
            return;
        }
        visit::visit_expr_path(self, e);
    }

    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.do_macro(&m.mac, rg(m.mac.span()));
    }

    fn visit_local(&mut self, l: &'ast syn::Local) {
        // let _ = write!(target, ...);
        if let (syn::Pat::Wild(_), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::Macro(m) = &*init.expr {
                if m.mac.path.is_ident("write") {
                    use syn::parse::Parser;
                    let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                    if let Ok(args) = parser.parse2(m.mac.tokens.clone()) {
                        if let Some(t) = args.first() {
                            let target = self.src[rg(t.span())].to_string();
                            self.rule("R6-write");
                            self.format_args_edit(&m.mac, rg(l.span()), Some(&target), true);
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.do_macro(&m.mac, rg(m.span()));
    }

    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let r = rg(s.span());
            let text = norm(&self.src[r.clone()]);
            for (i, (k, t)) in self.spec.at.iter().enumerate() {
                if self.used_at[i] {
                    continue;
                }
                if let Some(sn) = k.strip_prefix("before ") {
                    if text.starts_with(&norm(sn)) {
                        self.used_at[i] = true;
                        let t = t.clone();
                        self.ins(r.start, format!("\n{t}"));
                    }
                } else if let Some(sn) = k.strip_prefix("after ") {
                    if text.starts_with(&norm(sn)) {
                        self.used_at[i] = true;
                        let t = t.clone();
                        self.ins(r.end, format!("\n{t}"));
                    }
                }
            }
            if matches!(s, syn::Stmt::Item(i) if !matches!(i, syn::Item::Use(_))) {
                self.problem("nested item");
            }
            self.visit_stmt(s);
        }
    }
}

impl<'a> Rw<'a> {
    fn do_macro(&mut self, mac: &syn::Macro, whole: std::ops::Range<usize>) {
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match name.as_str() {
            "format" => self.format_args_edit(mac, whole, None, false),
            "matches" => {
                use syn::parse::Parser;
                // visit only the scrutinee
                let p = |input: syn::parse::ParseStream| -> syn::Result<syn::Expr> {
                    let e: syn::Expr = input.parse()?;
                    let _rest: proc_macro2::TokenStream = input.parse()?;
                    Ok(e)
                };
                if let Ok(e) = p.parse2(mac.tokens.clone()) {
                    self.visit_expr(&e);
                }
            }
            "vec" => {
                use syn::parse::Parser;
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                if let Ok(args) = parser.parse2(mac.tokens.clone()) {
                    for a in &args {
                        self.visit_expr(a);
                    }
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.rule("R8-panic");
                self.rep(whole, "crate::vstubs::v_panic()");
            }
            "eprintln" | "eprint" => {
                // R24: a message on standard error; its text is not modelled
                use syn::parse::Parser;
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                match parser.parse2(mac.tokens.clone()) {
                    Ok(args) if args.iter().all(|a| matches!(a, syn::Expr::Lit(_) | syn::Expr::Path(_) | syn::Expr::Field(_))) => {}
                    _ => self.problem("eprintln! with computed arguments"),
                }
                self.rule("R24-eprintln");
                let g = self.spec.gcalls.iter().find(|(n, _)| n.iter().any(|x| x == "eprintln")).map(|(_, t)| t.clone()).unwrap_or_default();
                let non_empty = !mac.tokens.is_empty();
                self.rep(whole, format!("crate::vio::v_eprintln({non_empty}{}{g})", if g.is_empty() { "" } else { ", " }));
            }
            other => self.problem(format!("macro {other}!")),
        }
    }
}

fn apply(src: &str, range: std::ops::Range<usize>, mut edits: Vec<Edit>) -> Result<String, String> {
    edits.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, e.order));
    // insertions at the end position of a replacement must come after it, handled by start order;
    let mut out = String::new();
    let mut pos = range.start;
    for e in &edits {
        if e.start < pos {
            return Err(format!("overlapping edits at {} ({:?})", e.start, e.text));
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..range.end]);
    Ok(out)
}

#[derive(Default)]
struct Report {
    fns: Vec<serde_json::Value>,
    types: Vec<String>,
    dropped: Vec<String>,
    problems: Vec<String>,
}

struct FnOut {
    text: String,
    key: String,
    line: usize,
    end_line: usize,
    rules: BTreeMap<&'static str, usize>,
    problems: Vec<String>,
    has_contract: bool,
    lost: Vec<String>,
    calls: Vec<String>,
    bare: usize,
    shape: String,
    params: usize,
}

struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.0.push(segs.join("::"));
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        self.0.push(format!(".{}", e.method));
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        self.0.push(segs.join("::"));
    }
}

fn do_fn(
    src: &str,
    key: &str,
    vis_pos: usize,
    sig: &syn::Signature,
    block: &syn::Block,
    spec: Option<&FnSpec>,
    demoted: bool,
    stream: bool,
) -> FnOut {
    let empty = FnSpec::default();
    let sp = spec.unwrap_or(&empty);
    let mut rw = Rw {
        src,
        spec: sp,
        edits: vec![],
        loops: 0,
        shape: String::new(),
        bare: 0,
        closures: 0,
        seq: 0,
        rules: Default::default(),
        problems: vec![],
        used_at: vec![false; sp.at.len()],
        loop_pos: vec![],
        ret_result: matches!(&sig.output, syn::ReturnType::Type(_, t) if tok_text(t).starts_with("Result <") || tok_text(t).contains(":: Result <")),
        closure_ctx: None,
        closure_counts: HashMap::new(),
        used_closures: vec![],
        in_err: 0,
        stream,
        fn_params: sig.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(pt) if tok_text(&pt.ty).contains("EncodeReplacer") => Some(tok_text(&pt.pat)), _ => None }).collect(),
        into_params: sig.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(pt) if tok_text(&pt.ty).replace(' ', "").starts_with("implInto<") => Some(tok_text(&pt.pat)), _ => None }).collect(),
        tail_pos: match block.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(rg(e.span())), _ => None },
    };
    let br = rg(block.span());
    let _ = vis_pos;
    // signature
    let sig_r = rg(sig.span());
    let mut sig_edits: Vec<Edit> = vec![];
    let mut push = |s: usize, e: usize, t: String| {
        let order = sig_edits.len() as i64;
        sig_edits.push(Edit {
            start: s,
            end: e,
            order,
            text: t,
        });
    };
    if let Some(c) = &sig.constness {
        push(rg(c.span()).start, rg(c.span()).end, String::new());
    }
    let last = sig.inputs.len().saturating_sub(1);
    for (n, i) in sig.inputs.iter().enumerate() {
        let t = match i {
            syn::FnArg::Receiver(r) => r.colon_token.map(|_| tok_text(&r.ty).replace(' ', "")),
            syn::FnArg::Typed(pt) => Some(tok_text(&pt.ty).replace(' ', "")),
        };
        // R25: a pinned receiver is the exclusive borrow it wraps, and a task context nothing reads is dropped
        match (t.as_deref(), i) {
            (Some("Pin<&mutSelf>"), syn::FnArg::Receiver(_)) => {
                let r = rg(i.span());
                push(r.start, r.end, "&mut self".into());
                *rw.rules.entry("R28-poll-signature").or_default() += 1;
            }
            (Some(t), syn::FnArg::Typed(pt)) if t.starts_with("&mutContext<") => {
                let name = tok_text(&pt.pat);
                if n == last && n > 0 && name.starts_with('_') && !tok_text(block).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name) {
                    let r = rg(sig.inputs[n - 1].span()).end..rg(i.span()).end;
                    push(r.start, r.end, String::new());
                } else {
                    rw.problems.push("the task context is used".into());
                }
            }
            _ => {}
        }
        // R15: an arbitrary iterator argument is the finite sequence of items it yields
        if let syn::FnArg::Typed(pt) = i {
            let t = tok_text(&pt.ty).replace(' ', "");
            if let Some(x) = t.strip_prefix("implIntoIterator<Item=").and_then(|x| x.strip_suffix('>')) {
                let r = rg(pt.ty.span());
                push(r.start, r.end, format!("Vec<{x}>"));
                *rw.rules.entry("R15-iterator-param").or_default() += 1;
            }
            // R23: a parameter of any type convertible into T is taken as the T it converts to
            if let Some(x) = t.strip_prefix("implInto<").and_then(|x| x.strip_suffix('>')) {
                let r = rg(pt.ty.span());
                push(r.start, r.end, x.to_string());
                *rw.rules.entry("R23-into-param").or_default() += 1;
            }
        }
    }
    for g in &sp.ghosts {
        let pos = rg(sig.paren_token.span.close()).start;
        push(pos, pos, format!("{}{g}", if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " }));
    }
    for (n, t) in &sp.params {
        let mut found = false;
        for i in &sig.inputs {
            if let syn::FnArg::Typed(pt) = i {
                if tok_text(&pt.pat).trim_start_matches("mut ") == *n {
                    let r = rg(pt.ty.span());
                    push(r.start, r.end, t.clone());
                    found = true;
                    *rw.rules.entry("R9-param-type").or_default() += 1;
                }
            }
        }
        if !found {
            rw.problems.push(format!("parameter {n} not found"));
        }
    }
    match &sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, t) => {
            if let Some(n) = &sp.ret {
                let r = rg(t.span());
                push(r.start, r.end, format!("({n}: {})", &src[r.clone()]));
            }
        }
    }
    let sig_text = apply(src, sig_r.clone(), sig_edits).unwrap_or_else(|e| {
        rw.problems.push(e);
        src[sig_r.clone()].to_string()
    });
    let mut attr = sp.attr.clone();
    let mut lost = vec![];
    let body_text;
    let is_external = attr.contains("external_body");
    if demoted || is_external {
        if !is_external {
            attr.push_str("#[verifier::external_body]\n");
        }
        body_text = "{ unimplemented!() }".to_string();
    } else {
        if let Some(t) = rw.at_text("entry") {
            rw.ins_first(br.start + 1, format!("\n{t}"));
        }
        rw.visit_block(block);
        // tail
        if let Some(t) = &sp.tail {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                let r = rg(e.span());
                rw.ins_first(r.start, "let vres_ = ");
                rw.ins(r.end, format!(";\n{t}\nvres_"));
            } else {
                rw.problems.push("no tail expression".into());
            }
        }
        if let Some(t) = rw.at_text("end") {
            let pos = match block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => rg(e.span()).start,
                _ => br.end - 1,
            };
            rw.ins(pos, format!("\n{t}\n"));
        }
        let lp = rw.loop_pos.clone();
        for (k, s, e, _b) in lp {
            if let Some(t) = rw.at_text(&format!("before_loop {k}")) {
                rw.ins_first(s, format!("\n{t}\n"));
            }
            if let Some(t) = rw.at_text(&format!("after_loop {k}")) {
                rw.ins(e, format!("\n{t}\n"));
            }
        }
        for (k, _) in &sp.loops {
            if *k >= rw.loops {
                lost.push(format!("loop {k}"));
            }
        }
        for (k, _) in &sp.closures {
            if !rw.used_closures.contains(k) {
                lost.push(format!("closure {k}"));
            }
        }
        for (i, (k, _)) in sp.at.iter().enumerate() {
            if !rw.used_at[i] {
                lost.push(k.clone());
            }
        }
        if rw.loops > sp.loops.len() && spec.is_some() {
            lost.push(format!("{} loops, {} invariants", rw.loops, sp.loops.len()));
        }
        let edits = std::mem::take(&mut rw.edits);
        let mut t = apply(src, br.clone(), edits).unwrap_or_else(|e| {
            rw.problems.push(e);
            "{ unimplemented!() }".into()
        });
        for (a, b) in &sp.rewrites {
            if t.contains(a.as_str()) {
                t = t.replacen(a.as_str(), b, 1);
                *rw.rules.entry("RX-custom-rewrite").or_default() += 1;
            } else {
                lost.push(format!("rewrite {a}"));
            }
        }
        body_text = t;
    }
    let mut calls = Calls(vec![]);
    calls.visit_block(block);
    let mut text = String::new();
    text.push_str(&attr);
    text.push_str("pub ");
    text.push_str(&sig_text);
    text.push('\n');
    if !sp.spec.trim().is_empty() {
        text.push_str(&sp.spec);
    }
    text.push_str(&body_text);
    text.push('\n');
    let start = sig.span().start().line;
    let end = block.span().end().line;
    FnOut {
        text,
        key: key.to_string(),
        line: start,
        end_line: end,
        rules: rw.rules,
        problems: rw.problems,
        has_contract: spec.is_some(),
        lost,
        calls: calls.0,
        bare: rw.bare,
        shape: rw.shape,
        params: sig.inputs.len(),
    }
}

fn strip_attrs(src: &str, r: std::ops::Range<usize>, attrs: &[syn::Attribute], inner: &[Vec<syn::Attribute>]) -> String {
    let mut edits = vec![];
    let mut seen = vec![];
    for a in attrs.iter().chain(inner.iter().flatten()) {
        let ar = rg(a.span());
        if ar.start >= r.start && ar.end <= r.end && !seen.contains(&ar.start) {
            seen.push(ar.start);
            edits.push(Edit {
                start: ar.start,
                end: ar.end,
                order: 0,
                text: String::new(),
            });
        }
    }
    apply(src, r, edits).unwrap()
}

/// whether the configuration the sidecar describes leaves the item out
fn is_test_cfg(attrs: &[syn::Attribute], features: &[String]) -> bool {
    attrs.iter().any(|a| {
        let t = tok_text(a).replace(' ', "");
        for f in features {
            if t == format!("#[cfg(feature=\"{f}\")]") {
                return false;
            }
            if t == format!("#[cfg(not(feature=\"{f}\"))]") {
                return true;
            }
        }
        t.starts_with("#[cfg(test") || t.starts_with("#[cfg(feature") || t.starts_with("#[cfg(all(test")
    })
}

fn fields_pub(src: &str, fields: &syn::Fields, r: std::ops::Range<usize>, attrs: &[syn::Attribute], head_vis: &syn::Visibility) -> String {
    let mut edits = vec![];
    for a in attrs {
        let ar = rg(a.span());
        if ar.start >= r.start {
            edits.push(Edit { start: ar.start, end: ar.end, order: 0, text: String::new() });
        }
    }
    if matches!(head_vis, syn::Visibility::Inherited) {
        // insert pub before the keyword: handled by the caller
    }
    for f in fields.iter() {
        for a in &f.attrs {
            let ar = rg(a.span());
            edits.push(Edit { start: ar.start, end: ar.end, order: 0, text: String::new() });
        }
        if matches!(f.vis, syn::Visibility::Inherited) {
            let s = f.ident.as_ref().map(|i| rg(i.span()).start).unwrap_or(rg(f.ty.span()).start);
            edits.push(Edit { start: s, end: s, order: 1, text: "pub ".into() });
        }
    }
    apply(src, r, edits).unwrap()
}

/// R26: a parameter `I: Iterator<Item = T>` of a type is the finite sequence of items it yields; `std::vec::IntoIter` is
/// the prelude's stand-in for it
fn iter_generics(g: &syn::Generics) -> Vec<(String, String)> {
    g.params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Type(t) => {
                let b = t.bounds.iter().map(|b| tok_text(b).replace(' ', "")).collect::<Vec<_>>();
                let item = b.first()?.strip_prefix("Iterator<Item=")?.strip_suffix('>')?.to_string();
                (g.params.len() == 1 && g.where_clause.is_none() && b[1..].iter().all(|x| x == "Unpin")).then(|| (t.ident.to_string(), item))
            }
            _ => None,
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // extract REPO OUT.rs REPORT.json PRELUDE_DIR SIDE1 SIDE2 ... -- demoted fns
    let repo = &args[1];
    let out_path = &args[2];
    let rep_path = &args[3];
    let mut sides = vec![];
    let mut preludes = vec![];
    let mut demoted: Vec<String> = vec![];
    let mut dem = false;
    for a in &args[4..] {
        if a == "--" {
            dem = true;
        } else if dem {
            demoted.push(a.clone());
        } else if a.ends_with(".rs") {
            preludes.push(a.clone());
        } else {
            sides.push(a.clone());
        }
    }
    let mut files = vec![];
    for s in &sides {
        parse_sidecar(&std::fs::read_to_string(s).unwrap(), &mut files);
    }
    let mut report = Report::default();
    // module tree: path -> text chunks
    let mut modules: BTreeMap<Vec<String>, Vec<(Option<usize>, String)>> = BTreeMap::new();
    let mut outs: Vec<(Vec<String>, FnOut)> = vec![];
    for f in &mut files {
        let p = format!("{repo}/{}", f.path);
        let chunks = modules.entry(f.module.clone()).or_default();
        let src = match std::fs::read_to_string(&p) {
            Ok(s) => s,
            Err(e) => {
                report.problems.push(format!("{}: {e}", f.path));
                continue;
            }
        };
        let (mut src, mut ast) = match syn::parse_file(&src) {
            Ok(a) => (src, a),
            Err(e) => {
                report.problems.push(format!("{}: parse error {e}", f.path));
                continue;
            }
        };
        for _ in 0..20 {
            let Some(t) = nested_continue(&src, &ast) else { break };
            match syn::parse_file(&t) {
                Ok(a) => { src = t; ast = a; report.dropped.push(format!("{}: R12-continue-nested applied", f.path)); }
                Err(e) => { report.problems.push(format!("{}: nested continue: {e}", f.path)); break; }
            }
        }
        let modname = f.module.join("::");
        chunks.push((None, f.extra.clone()));
        for item in &ast.items {
            match item {
                syn::Item::Use(u) => {
                    let t = tok_text(u);
                    let nt = norm(&t);
                    if is_test_cfg(&u.attrs, &f.features) || f.dropuse.iter().any(|d| d == "*" || nt.contains(&norm(d))) {
                        report.dropped.push(format!("{modname}: use {nt}"));
                        continue;
                    }
                    let r = rg(u.span());
                    chunks.push((None, format!("{}\n", strip_attrs(&src, r, &u.attrs, &[]))));
                }
                syn::Item::Const(c) => {
                    let n = c.ident.to_string();
                    if f.drops.contains(&n) || (f.only && !f.types.contains_key(&n)) {
                        report.dropped.push(format!("{modname}: const {n}"));
                        continue;
                    }
                    let r = rg(c.span());
                    let mut t = strip_attrs(&src, r, &c.attrs, &[]);
                    t = t.replace(": &str", ": &'static str");
                    let t = t.trim_start();
                    let t = if t.starts_with("pub") { t.to_string() } else { format!("pub {t}") };
                    let ts = f.types.get_mut(&n);
                    let (a, after) = match ts {
                        Some(x) => {
                            x.used = true;
                            (x.attr.clone(), x.after.clone())
                        }
                        None => Default::default(),
                    };
                    chunks.push((None, format!("{a}\n{t}\n{after}\n")));
                    report.types.push(format!("{modname}::{n}"));
                }
                syn::Item::Type(c) => {
                    let n = c.ident.to_string();
                    if f.drops.contains(&n) || (f.only && !f.types.contains_key(&n)) {
                        report.dropped.push(format!("{modname}: type {n}"));
                        continue;
                    }
                    if let Some(x) = f.types.get_mut(&n) {
                        x.used = true;
                    }
                    let t = strip_attrs(&src, rg(c.span()), &c.attrs, &[]);
                    let t = t.trim_start();
                    chunks.push((None, format!("{}{t}\n", if t.starts_with("pub") { "" } else { "pub " })));
                }
                syn::Item::Struct(_) | syn::Item::Enum(_) => {
                    let (n, attrs, vis, text) = match item {
                        syn::Item::Struct(s) => (
                            s.ident.to_string(),
                            &s.attrs,
                            &s.vis,
                            fields_pub(&src, &s.fields, rg(s.span()), &s.attrs, &s.vis),
                        ),
                        syn::Item::Enum(s) => {
                            let inner: Vec<Vec<syn::Attribute>> = s
                                .variants
                                .iter()
                                .flat_map(|v| {
                                    let mut x = vec![v.attrs.clone()];
                                    x.extend(v.fields.iter().map(|f| f.attrs.clone()));
                                    x
                                })
                                .collect();
                            (s.ident.to_string(), &s.attrs, &s.vis, strip_attrs(&src, rg(s.span()), &s.attrs, &inner))
                        }
                        _ => unreachable!(),
                    };
                    if is_test_cfg(attrs, &f.features) || f.drops.contains(&n) || (f.only && !f.types.contains_key(&n)) {
                        report.dropped.push(format!("{modname}: type {n}"));
                        continue;
                    }
                    let gens = match item {
                        syn::Item::Struct(s) => &s.generics,
                        syn::Item::Enum(s) => &s.generics,
                        _ => unreachable!(),
                    };
                    let mut text = text.replace("std::vec::IntoIter<", "crate::vasync::VIntoIter<");
                    if let Some((i, t)) = iter_generics(gens).pop() {
                        text = text.replacen(&src[rg(gens.span())], "", 1);
                        chunks.push((None, format!("pub type {i} = crate::vasync::VIntoIter<{t}>;\n")));
                    }
                    let derives: String = attrs.iter().map(|a| tok_text(a)).collect();
                    let (a, after) = match f.types.get_mut(&n) {
                        Some(x) => {
                            x.used = true;
                            (x.attr.clone(), x.after.clone())
                        }
                        None => {
                            if derives.contains("Copy") {
                                ("#[derive(Clone, Copy)]".to_string(), String::new())
                            } else {
                                (String::new(), String::new())
                            }
                        }
                    };
                    let text = text.trim_start();
                    let text = if matches!(vis, syn::Visibility::Inherited) {
                        format!("pub {text}")
                    } else {
                        text.to_string()
                    };
                    chunks.push((None, format!("{a}\n{text}\n{after}\n")));
                    report.types.push(format!("{modname}::{n}"));
                }
                syn::Item::Fn(func) => {
                    let n = func.sig.ident.to_string();
                    if is_test_cfg(&func.attrs, &f.features) || f.drops.contains(&n) || (f.only && !f.fns.contains_key(&n)) {
                        report.dropped.push(format!("{modname}: fn {n}"));
                        continue;
                    }
                    let key = format!("{modname}::{n}");
                    if let Some(s) = f.fns.get_mut(&n) {
                        s.used = true;
                    }
                    let fo = do_fn(
                        &src,
                        &key,
                        0,
                        &func.sig,
                        &func.block,
                        f.fns.get(&n),
                        demoted.contains(&key),
                        !f.features.is_empty(),
                    );
                    chunks.push((Some(outs.len()), fo.text.clone()));
                    outs.push((f.module.clone(), fo));
                }
                syn::Item::Impl(im) => {
                    let ty = tok_text(&im.self_ty).replace(' ', "");
                    let base = ty.split('<').next().unwrap().to_string();
                    let mut trait_name = im.trait_.as_ref().map(|(_, p, _)| tok_text(p).replace(' ', ""));
                    // R25: the poll function of a stream is a method of its type
                    let stream = trait_name.as_deref() == Some("Stream") && f.features.len() > 0;
                    if stream {
                        trait_name = None;
                    }
                    let item_ty = im.items.iter().find_map(|it| match it {
                        syn::ImplItem::Type(t) if stream => Some(src[rg(t.ty.span())].to_string()),
                        _ => None,
                    });
                    let its = iter_generics(&im.generics);
                    let ikey = match &trait_name {
                        Some(t) => format!("impl_{t}_for_{ty}"),
                        None => format!("impl_{base}"),
                    };
                    if is_test_cfg(&im.attrs, &f.features)
                        || f.drops.contains(&ikey)
                        || (trait_name.is_some() && !f.fns.keys().any(|k| k.starts_with(&format!("{ikey}::"))))
                        || (f.only && !f.fns.keys().any(|k| k.starts_with(&format!("{base}::")) || k.starts_with(&format!("{ikey}::"))))
                    {
                        report.dropped.push(format!("{modname}: {ikey}"));
                        continue;
                    }
                    let hdr = if stream || !its.is_empty() {
                        format!("impl {}", if its.is_empty() { &ty } else { &base })
                    } else {
                        src[rg(im.impl_token.span()).start..rg(im.brace_token.span.open()).start].to_string()
                    };
                    if trait_name.is_some() && !its.is_empty() {
                        report.problems.push(format!("{modname}: {ikey} over an iterator"));
                    }
                    chunks.push((None, format!("{hdr} {{\n")));
                    for it in &im.items {
                        if let syn::ImplItem::Fn(m) = it {
                            let n = m.sig.ident.to_string();
                            let fk = if trait_name.is_some() {
                                format!("{ikey}::{n}")
                            } else {
                                format!("{base}::{n}")
                            };
                            if f.drops.contains(&fk) || is_test_cfg(&m.attrs, &f.features) || (f.only && !f.fns.contains_key(&fk)) {
                                report.dropped.push(format!("{modname}: fn {fk}"));
                                continue;
                            }
                            let key = format!("{modname}::{fk}");
                            if let Some(s) = f.fns.get_mut(&fk) {
                                s.used = true;
                            }
                            let mut fo = do_fn(
                                &src,
                                &key,
                                0,
                                &m.sig,
                                &m.block,
                                f.fns.get(&fk),
                                demoted.contains(&key),
                                !f.features.is_empty(),
                            );
                            if let Some(t) = &item_ty {
                                fo.text = fo.text.replace("Self::Item", t);
                            }
                            if trait_name.is_some() {
                                fo.text = fo.text.replacen("pub fn", "fn", 1);
                            }
                            chunks.push((Some(outs.len()), fo.text.clone()));
                            outs.push((f.module.clone(), fo));
                        } else if item_ty.is_none() {
                            chunks.push((None, format!("{}\n", &src[rg(it.span())])));
                        }
                    }
                    chunks.push((None, "}\n".into()));
                }
                syn::Item::Mod(_) => {}
                other => {
                    let t: String = tok_text(other).chars().take(60).collect();
                    report.dropped.push(format!("{modname}: item {t}"));
                }
            }
        }
        for (n, s) in &f.fns {
            if !s.used {
                report.problems.push(format!("lost function {modname}::{n}"));
            }
        }
        for (n, s) in &f.types {
            if !s.used {
                report.problems.push(format!("lost type {modname}::{n}"));
            }
        }
    }
    // emit
    let mut out = String::new();
    for p in &preludes {
        out.push_str(&std::fs::read_to_string(p).unwrap());
        out.push('\n');
    }
    let mut fn_lines: HashMap<usize, (usize, usize)> = HashMap::new();
    // nested emission
    fn emit(
        prefix: &[String],
        modules: &BTreeMap<Vec<String>, Vec<(Option<usize>, String)>>,
        out: &mut String,
        fn_lines: &mut HashMap<usize, (usize, usize)>,
        cur_line: &mut usize,
        bcast: &HashMap<Vec<String>, String>,
    ) {
        let add = |out: &mut String, cur: &mut usize, t: &str| {
            out.push_str(t);
            *cur += t.matches('\n').count();
        };
        if let Some(chunks) = modules.get(prefix) {
            for (id, t) in chunks {
                let s = *cur_line;
                add(out, cur_line, t);
                if let Some(i) = id {
                    fn_lines.insert(*i, (s, *cur_line));
                }
            }
        }
        let mut kids: Vec<String> = modules
            .keys()
            .filter(|k| k.len() > prefix.len() && k[..prefix.len()] == *prefix)
            .map(|k| k[prefix.len()].clone())
            .collect();
        kids.sort();
        kids.dedup();
        for k in kids {
            let mut np = prefix.to_vec();
            np.push(k.clone());
            add(out, cur_line, &format!("pub mod {k} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vstubs::*;\n#[allow(unused_imports)] use crate::vspec::*;\nbroadcast use {{{}}};\n", bcast.get(&np).map_or("vstd::group_vstd_default, crate::vax::vgroup", String::as_str)));
            emit(&np, modules, out, fn_lines, cur_line, bcast);
            add(out, cur_line, "}\n");
        }
    }
    let mut cur = out.matches('\n').count() + 1;
    let head = "#[allow(unused_imports)] use crate::vstubs::*;\n#[allow(unused_imports)] use crate::vspec::*;\nverus! {\nbroadcast use {vstd::group_vstd_default, crate::vax::vgroup};\n";
    out.push_str(head);
    cur += 4;
    let bcast: HashMap<Vec<String>, String> = files.iter().filter(|f| !f.bcast.is_empty()).map(|f| (f.module.clone(), f.bcast.clone())).collect();
    emit(&[], &modules, &mut out, &mut fn_lines, &mut cur, &bcast);
    out.push_str("}\n");
    std::fs::write(out_path, &out).unwrap();
    for (i, (_m, fo)) in outs.iter().enumerate() {
        let (s, e) = fn_lines.get(&i).copied().unwrap_or((0, 0));
        report.fns.push(serde_json::json!({
            "key": fo.key, "out_start": s, "out_end": e, "src_line": fo.line, "src_end": fo.end_line,
            "rules": fo.rules, "problems": fo.problems, "contract": fo.has_contract, "lost": fo.lost,
            "calls": fo.calls, "shape": fo.shape, "bare": fo.bare, "params": fo.params, "demoted": demoted.contains(&fo.key),
        }));
    }
    let rep = serde_json::json!({
        "functions": report.fns, "types": report.types, "dropped": report.dropped, "problems": report.problems,
    });
    std::fs::write(rep_path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
