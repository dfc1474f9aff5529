// Emission of the Verus text: span based edits over the original source text.
use crate::contracts::{Contracts, FnC};
use crate::inline::{handler_msg, impl_prefix, type_name};
use crate::{is_cfg_dropped, Module};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct FnRec {
    key: String,
    start: usize, // line numbers in the generated file, filled at the end through markers
    end: usize,
    contracted: bool,
    external: bool,
    reason: String,
    locals: Vec<String>,
    sig: String,
    file: String,
    line: usize,
    marker: usize,
}

pub struct Out {
    c: Contracts,
    external: BTreeSet<String>,
    smoke: bool,
    fns: Vec<FnRec>,
    pub inlined: Vec<String>,
    notes: BTreeSet<String>,
    impls_done: BTreeSet<String>,
    world: BTreeSet<String>,
    world_keys: BTreeSet<String>,
    used: BTreeSet<String>,
    msgs: Vec<(String, String)>,
    default_external: bool,
    fnptr_values: BTreeMap<String, (String, String)>, // variant -> (expr path, arg type)
}

struct Edit {
    a: usize,
    b: usize,
    prio: i32,
    text: String,
}

const METHODS: &[(&str, &str)] = &[
    ("concat", "vp_concat"),
    ("to_vec", "vp_to_vec"),
    ("to_string", "vp_to_string"),
    ("to_owned", "vp_to_owned"),
    ("into_owned", "vp_into_owned"),
    ("to_be_bytes", "vp_to_be_bytes"),
    ("to_le_bytes", "vp_to_le_bytes"),
    ("try_into", "vp_try_into"),
    ("parse", "vp_parse"),
    ("step_by", "vp_step_by"),
    ("chunks_exact", "vp_chunks_exact"),
    ("sort_by", "vp_sort_by"),
    ("join", "vp_join"),
    ("shuffle", "vp_shuffle"),
    ("nth", "vp_nth"),
    ("sum", "vp_sum"),
    ("flat_map", "vp_flat_map"),
    ("is_ascii_digit", "vp_is_ascii_digit"),
    ("is_ascii_uppercase", "vp_is_ascii_uppercase"),
    ("is_ascii_lowercase", "vp_is_ascii_lowercase"),
    ("is_ascii_hexdigit", "vp_is_ascii_hexdigit"),
    ("copied", "vp_copied"),
    ("cmp", "vp_cmp"),
    ("map_or", "vp_map_or"),
    ("len", "vp_len"),
    ("extend", "vp_extend"),
    ("starts_with", "vp_starts_with"),
    ("ends_with", "vp_ends_with"),
    ("is_some_and", "vp_is_some_and"),
    ("is_ok_and", "vp_is_ok_and"),
    ("filter", "vp_filter"),
    ("or_else", "vp_or_else"),
    ("or", "vp_or"),
    ("and_then", "vp_and_then"),
    ("unwrap_or_else", "vp_unwrap_or_else"),
    ("unwrap_or_default", "vp_unwrap_or_default"),
    ("contains", "vp_contains"),
    ("reverse", "vp_reverse"),
    ("div_ceil", "vp_div_ceil"),
    ("abs_diff", "vp_abs_diff"),
    ("strip_prefix", "vp_strip_prefix"),
    ("dedup", "vp_dedup"),
    ("is_ascii_alphabetic", "vp_is_ascii_alphabetic"),
    ("is_ascii_alphanumeric", "vp_is_ascii_alphanumeric"),
    ("to_ascii_uppercase", "vp_to_ascii_uppercase"),
    ("to_ascii_lowercase", "vp_to_ascii_lowercase"),
    ("to_uppercase", "vp_to_uppercase"),
    ("to_lowercase", "vp_to_lowercase"),
    ("trim_end", "vp_trim_end"),
    ("trim_start", "vp_trim_start"),
    ("trim", "vp_trim"),
    ("eq_ignore_ascii_case", "vp_eq_ignore_ascii_case"),
    ("swap_bytes", "vp_swap_bytes"),
    ("split_last", "vp_split_last"),
    ("swap", "vp_swap"),
    ("sort_unstable", "vp_sort_unstable"),
    ("sort", "vp_sort"),
];

/// twins whose result is known only through the closure they are given
const BY_CLOSURE: &[&str] = &[
    "is_some_and", "is_ok_and", "is_none_or", "filter", "or_else", "any", "all", "position", "find", "map", "and_then", "unwrap_or_else",
    "map_or", "map_or_else", "flat_map", "filter_map", "retain", "take_while", "skip_while", "fold", "max_by_key", "min_by_key",
];

/// adapters of Option and Result that are written as the `match` they stand for
const AS_MATCH: &[&str] = &["map", "and_then", "map_or", "is_some_and", "is_ok_and", "is_none_or", "unwrap_or_else", "or_else", "filter"];

/// does the chain this is called on start with an iterator, judged by its form?
fn on_iterator(e: &syn::Expr) -> bool {
    const ITERS: &[&str] = &[
        "iter", "iter_mut", "into_iter", "chars", "bytes", "chunks", "chunks_exact", "windows", "split", "lines", "drain", "keys", "values", "step_by", "rev", "enumerate",
        "zip", "skip", "filter_map", "flat_map", "cloned", "char_indices", "into_values", "into_keys", "take_while", "skip_while", "chain",
    ];
    match e {
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            // one element of it is no iterator
            if ["next", "nth", "last", "find", "position", "first", "get", "pop", "max", "min", "pop_front", "pop_back"].contains(&n.as_str()) {
                return false;
            }
            ITERS.contains(&n.as_str()) || (["map", "filter", "take", "by_ref", "copied", "peekable"].contains(&n.as_str()) && on_iterator(&m.receiver))
        }
        syn::Expr::Paren(p) => on_iterator(&p.expr),
        syn::Expr::Range(_) => true,
        _ => false,
    }
}

/// `?`, `return` and the like leave the closure, not the function around it
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_await(&mut self, _: &'a syn::ExprAwait) {
        self.0 = true;
    }
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn inlined(c: &syn::ExprMethodCall) -> Option<&syn::ExprClosure> {
    let name = c.method.to_string();
    let (n, syn::Expr::Closure(cl)) = (c.args.len(), c.args.last()?) else { return None };
    if !AS_MATCH.contains(&name.as_str()) || n != if name == "map_or" { 2 } else { 1 } || cl.inputs.len() > 1 || on_iterator(&c.receiver) {
        return None;
    }
    if cl.inputs.is_empty() && !["unwrap_or_else", "or_else"].contains(&name.as_str()) || !matches!(cl.output, syn::ReturnType::Default) {
        return None;
    }
    let mut l = Leaves(false);
    l.visit_expr(&cl.body);
    (!l.0).then_some(cl)
}

// Functions and methods whose observable effect is recorded in the ghost world.
const WORLD_PRIMS: &[&str] = &[
    "do_send", "try_send", "write_all_at", "write_at", "open", "create",
    "start", "send", "recv_from", "connect",
];

const PATHS: &[(&str, &str)] = &[
    ("std::collections::HashMap", "crate::vp_ext::HashMap"),
    ("std::io", "crate::vp_ext::io"),
    ("std::fs", "crate::vp_ext::fs"),
    ("std::path", "crate::vp_ext::path"),
    ("std::net", "crate::vp_ext::net"),
    ("std::thread", "crate::vp_ext::thread"),
    ("std::time", "crate::vp_ext::time"),
    ("std::sync", "crate::vp_ext::sync"),
    ("std::str", "crate::vp_ext::str"),
    ("std::cmp", "crate::vp_ext::cmp"),
    ("std::os", "crate::vp_ext::os"),
    ("sha1", "crate::vp_ext::sha1"),
    ("serde_json", "crate::vp_ext::serde_json"),
    ("rand", "crate::vp_ext::rand"),
    ("url", "crate::vp_ext::url"),
    ("urlencoding", "crate::vp_ext::urlencoding"),
    ("ureq", "crate::vp_ext::ureq"),
    ("tokio", "crate::vp_ext::tokio"),
    ("actix", "crate::vp_ext::actix"),
    ("actix_web", "crate::vp_ext::actix_web"),
    ("u32::from_be_bytes", "crate::vp_ext::u32_from_be_bytes"),
    ("u16::from_be_bytes", "crate::vp_ext::u16_from_be_bytes"),
    ("u32::from_le_bytes", "crate::vp_ext::u32_from_le_bytes"),
    ("u16::from_le_bytes", "crate::vp_ext::u16_from_le_bytes"),
    ("char::from", "crate::vp_ext::vp_char_from"),
    ("crate::common::mock_stream", "crate::vp_ext::mock_stream"),
];

const USE_DROP: &[&str] = &["serde", "log", "std::fmt", "thiserror", "chrono", "env_logger", "actix_web", "actix_web::prelude"];
const LOGS: &[&str] = &["info", "error", "debug", "warn", "trace", "println", "eprintln"];

fn map_path(p: &str) -> Option<String> {
    let mut best: Option<(&str, &str)> = None;
    for (a, b) in PATHS {
        if p == *a || p.starts_with(&format!("{a}::")) {
            if best.map(|x| x.0.len() < a.len()).unwrap_or(true) {
                best = Some((a, b));
            }
        }
    }
    best.map(|(a, b)| format!("{b}{}", &p[a.len()..]))
}

// the same, called through a path
const WORLD_CALLS: &[&str] = &["fs::create_dir_all", "File::create", "File::open", "fs::read_to_string", "serde_json::to_writer", "create_dir_all", "to_writer"];

fn is_world_prim(n: &str) -> bool {
    WORLD_PRIMS.contains(&n)
}

/// `Type::name#n` for an associated function, `name#n` for a free function or a method
fn call_name(p: &syn::Path, self_ty: &str, nargs: usize) -> String {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let n = segs.last().unwrap();
    if segs.len() > 1 {
        let q = &segs[segs.len() - 2];
        let q = if q == "Self" { self_ty } else { q };
        if q.starts_with(char::is_uppercase) || q.starts_with('<') {
            return format!("{q}::{n}#{nargs}");
        }
        if MODS.with(|m| m.borrow().contains(&q.to_string())) {
            return format!("{q}::{n}#{nargs}");
        }
    }
    format!("{n}#{nargs}")
}

thread_local! {
    /// last path segments of the crate's modules
    static MODS: std::cell::RefCell<BTreeSet<String>> = std::cell::RefCell::new(BTreeSet::new());
}

/// names called in a block (last path segment or method), used for the world closure
struct Calls(BTreeSet<String>, String);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.0.insert(call_name(&p.path, &self.1, c.args.len()));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.0.insert(format!("{}#{}", c.method, c.args.len()));
        visit::visit_expr_method_call(self, c);
    }
}

struct LoopPos {
    kind: &'static str,
    body_start: usize, // position of '{' (invariant goes here)
    body_end: usize,
    start: usize,
    end: usize,
    iter_pos: usize,
}

struct FnInfo {
    loops: Vec<LoopPos>,
    locals: Vec<String>,
}

struct Collect<'s> {
    src: &'s str,
    info: FnInfo,
    depth: usize,
}

impl<'s, 'a> Visit<'a> for Collect<'s> {
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        self.push("while", w.body.span().byte_range(), w.span().byte_range(), 0);
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'a syn::ExprLoop) {
        self.push("loop", w.body.span().byte_range(), w.span().byte_range(), 0);
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) {
        self.push("for", w.body.span().byte_range(), w.span().byte_range(), w.expr.span().byte_range().start);
        visit::visit_expr_for_loop(self, w);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        if c.method == "for_each" {
            if let Some(syn::Expr::Closure(cl)) = c.args.first() {
                let r = cl.body.span().byte_range();
                self.push("foreach", r, c.span().byte_range(), c.receiver.span().byte_range().start);
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    // bindings in order of appearance (a lower case name in a pattern is a binding)
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
            self.info.locals.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.depth += 1;
        visit::visit_expr_closure(self, c);
        self.depth -= 1;
    }
}
impl<'s> Collect<'s> {
    fn push(&mut self, kind: &'static str, b: std::ops::Range<usize>, w: std::ops::Range<usize>, iter_pos: usize) {
        let _ = self.src;
        self.info.loops.push(LoopPos { kind, body_start: b.start, body_end: b.end, start: w.start, end: w.end, iter_pos });
    }
}

/// rename whole identifiers in contract text
fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let field = s > 0 && b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.');
            let path = s > 1 && b[s - 1] == ':' && b[s - 2] == ':';
            match map.get(&w) {
                Some(n) if !field && !path => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

struct BodyV<'o, 's> {
    src: &'s str,
    o: &'o mut Out,
    edits: Vec<Edit>,
    fc: Option<FnC>,
    map: BTreeMap<String, String>,
    closure_idx: usize,
    at_found: BTreeSet<usize>,
    has_world: bool,
    barefn_fields: BTreeSet<String>,
    ret_barefn: bool,
    uses: BTreeMap<String, String>,
    self_ty: String,
    in_handler: Option<String>,
    unsupported: Option<String>,
    refvars: BTreeSet<String>,
}

impl<'o, 's> BodyV<'o, 's> {
    fn ins(&mut self, p: usize, t: impl Into<String>) {
        self.edits.push(Edit { a: p, b: p, prio: 0, text: t.into() });
    }
    fn insp(&mut self, p: usize, prio: i32, t: impl Into<String>) {
        self.edits.push(Edit { a: p, b: p, prio, text: t.into() });
    }
    fn rep(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.edits.push(Edit { a, b, prio: 0, text: t.into() });
    }
    fn path_edit(&mut self, p: &syn::Path) {
        // rewrite the longest mapped prefix, textually
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        for n in (1..=segs.len()).rev() {
            let pre = segs[..n].join("::");
            if let Some(to) = map_path(&pre) {
                // only a direct table hit for this prefix length
                if PATHS.iter().any(|(a, _)| *a == pre) {
                    if n == 1 && self.uses.contains_key(&segs[0]) {
                        return;
                    }
                    if n == 1 && segs.len() == 1 {
                        return; // a plain identifier, not a crate
                    }
                    let a = p.segments[0].ident.span().byte_range().start;
                    let b = p.segments[n - 1].ident.span().byte_range().end;
                    self.rep(a, b, to);
                    return;
                }
            }
        }
    }
    /// `x.and_then(|v| body)` becomes the `match` it stands for
    fn adapter(&mut self, c: &syn::ExprMethodCall, cl: &syn::ExprClosure, name: &str) {
        self.o.notes.insert("adapters of Option and Result that take a closure rewritten to the match they stand for".into());
        let (rs, re) = (c.receiver.span().byte_range().start, c.receiver.span().byte_range().end);
        let (bs, be) = (cl.body.span().byte_range().start, cl.body.span().byte_range().end);
        let end = c.span().byte_range().end;
        let (p, q) = match cl.inputs.first() {
            None => ("_".to_string(), "_".to_string()),
            Some(p) => match p {
                syn::Pat::Type(t) => (self.src[t.pat.span().byte_range()].to_string(), "_".into()),
                p => (self.src[p.span().byte_range()].to_string(), "_".into()),
            },
        };
        let _ = q;
        const G: &str = "crate::vp_ext::cf::Cf::Go";
        const S: &str = "crate::vp_ext::cf::Cf::Stop";
        let failed = if cl.inputs.is_empty() { "_".to_string() } else { format!("crate::vp_ext::cf::Failed({p})") };
        let by_ref = cl.inputs.first().map(|p| matches!(p, syn::Pat::Reference(_))).unwrap_or(false);
        // a reference pattern takes the reference off
        let (p, take) = if by_ref {
            let syn::Pat::Reference(r) = cl.inputs.first().unwrap() else { unreachable!() };
            ("vp_a".to_string(), format!("let {} = *vp_a; ", &self.src[r.pat.span().byte_range()]))
        } else {
            (p, String::new())
        };
        let (open, mid, close) = match name {
            "map" => ("crate::vp_ext::cf::join(match ".to_string(), format!(" {{ {G}({p}) => {{ {take} {G}("), format!(") }}, {S}(vp_e) => {S}(vp_e) }})")),
            "and_then" => ("(match ".into(), format!(" {{ {G}({p}) => {{ {take} "), format!(" }}, {S}(vp_e) => crate::vp_ext::cf::stop(vp_e) }})")),
            "is_some_and" | "is_ok_and" => ("(match ".into(), format!(" {{ {G}({p}) => {{ {take} "), format!(" }}, {S}(_) => false }})")),
            "is_none_or" => ("(match ".into(), format!(" {{ {G}({p}) => {{ {take} "), format!(" }}, {S}(_) => true }})")),
            "unwrap_or_else" => ("(match ".into(), format!(" {{ {G}(vp_g) => vp_g, {S}({failed}) => {{ "), " } })".into()),
            "or_else" => ("(match ".into(), format!(" {{ {G}(vp_g) => crate::vp_ext::cf::go(vp_g), {S}({failed}) => {{ "), " } })".into()),
            "filter" => ("(match ".into(), format!(" {{ {G}(vp_g) => {{ let {p} = &vp_g; {take} let vp_k = "), format!("; if vp_k {{ Some(vp_g) }} else {{ None }} }}, {S}(_) => None }})")),
            _ => ("(match (".into(), String::new(), String::new()),
        };
        let (mid, close) = if name == "map_or" {
            let d = c.args[0].span().byte_range();
            self.insp(d.start, 4, "");
            self.rep(re, d.start, ".vp_cf(), ");
            (
                (d.end, format!(") {{ ({G}({p}), _) => {{ {take} ")),
                format!(" }}, ({S}(_), vp_d) => vp_d }})"),
            )
        } else {
            ((re, format!(".vp_cf(){mid}")), close)
        };
        self.insp(rs, 9, open);
        self.rep(mid.0, bs, mid.1);
        self.rep(be, end, close);
        self.visit_expr(&c.receiver);
        if name == "map_or" {
            self.visit_expr(&c.args[0]);
        }
        self.closure_idx += 1;
        self.visit_expr(&cl.body);
    }
    fn world_arg(&mut self, close: usize, nargs: usize, trailing: bool) {
        let t = if nargs == 0 || trailing { "vp_w" } else { ", vp_w" };
        self.insp(close, 5, t);
    }
}

impl<'o, 's, 'a> Visit<'a> for BodyV<'o, 's> {
    fn visit_path(&mut self, p: &'a syn::Path) {
        self.path_edit(p);
        visit::visit_path(self, p);
    }
    fn visit_type_path(&mut self, t: &'a syn::TypePath) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        let r = t.span().byte_range();
        if s == "Self::Result" {
            if let Some(res) = self.in_handler.clone() {
                self.rep(r.start, r.end, res);
                return;
            }
        }
        if s == "Self::Context" {
            self.rep(r.start, r.end, "crate::vp_ext::actix::Context<Self>");
            return;
        }
        visit::visit_type_path(self, t);
    }
    fn visit_type_bare_fn(&mut self, t: &'a syn::TypeBareFn) {
        let r = t.span().byte_range();
        self.rep(r.start, r.end, "crate::vp_fnptr::F");
        self.o.notes.insert("function-pointer type replaced by a generated enum of the functions it can hold".into());
    }
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        let r = a.span().byte_range();
        self.rep(r.start, r.end, "");
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let attrs: &[syn::Attribute] = match s {
            syn::Stmt::Local(l) => &l.attrs,
            syn::Stmt::Expr(e, _) => expr_attrs(e),
            syn::Stmt::Macro(m) => &m.attrs,
            syn::Stmt::Item(i) => match i {
                syn::Item::Const(c) => &c.attrs,
                syn::Item::Fn(f) => &f.attrs,
                syn::Item::Use(u) => &u.attrs,
                _ => &[],
            },
        };
        let r = s.span().byte_range();
        if is_cfg_dropped(attrs) {
            self.rep(r.start, r.end, "");
            self.o.notes.insert("cfg(test)/windows statements dropped".into());
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            if m.semi_token.is_some() && self.is_log(&m.mac) {
                self.rep(r.start, r.end, "");
                self.o.notes.insert("log macro statements dropped".into());
                return;
            }
        }
        if let Some(fc) = &self.fc {
            let t = &self.src[r.clone()];
            let norm: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
            let mut add = vec![];
            for (i, (pat, txt)) in fc.at.iter().enumerate() {
                let (after, pat) = match pat.strip_prefix("after ") {
                    Some(p) => (true, p),
                    None => (false, pat.as_str()),
                };
                let pat = rename(pat, &self.map);
                if norm.starts_with(&pat) {
                    add.push((after, rename(txt, &self.map)));
                    self.at_found.insert(i);
                }
            }
            for (after, t) in add {
                if after {
                    self.insp(r.end, -5, format!("\n{t}"));
                } else {
                    self.insp(r.start, 5, format!("{t}\n"));
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let r = m.span().byte_range();
        if self.is_log(m) {
            self.rep(r.start, r.end, "()");
            self.o.notes.insert("log macro expressions replaced by ()".into());
            return;
        }
        if m.path.is_ident("format") {
            if self.format(m).is_none() {
                self.unsupported = Some("format! directive".into());
            }
            return;
        }
        if m.path.is_ident("vec") {
            if m.tokens.is_empty() {
                self.rep(r.start, r.end, "Vec::new()");
                return;
            }
            // visit the elements as expressions
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(es) = p.parse2(m.tokens.clone()) {
                for e in &es {
                    let e: &syn::Expr = unsafe { std::mem::transmute::<&syn::Expr, &'a syn::Expr>(e) };
                    self.visit_expr(e);
                }
                std::mem::forget(es);
            } else {
                #[allow(dead_code)]
                struct Rep(syn::Expr, syn::Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(x) = syn::parse2::<Rep>(m.tokens.clone()) {
                    // vec![e; n] -> vp_vec(e, n)
                    let (a, b) = (x.0.span().byte_range(), x.1.span().byte_range());
                    self.rep(r.start, a.start, "crate::vp_ext::vp_vec_repeat(");
                    self.rep(a.end, b.start, ", ");
                    self.rep(b.end, r.end, ")");
                    let x = Box::leak(Box::new(x));
                    self.visit_expr(&x.0);
                    self.visit_expr(&x.1);
                }
            }
            return;
        }
        if m.path.is_ident("matches") {
            // matches!(e, p) is expanded to a match expression
            struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let a = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<syn::Token![,]>();
                    Ok(M(a, p, g))
                }
            }
            if let Ok(x) = syn::parse2::<M>(m.tokens.clone()) {
                let x: &'static M = Box::leak(Box::new(x));
                let (a, b) = (x.0.span().byte_range(), x.1.span().byte_range());
                self.rep(r.start, a.start, "(match ");
                self.rep(a.end, b.start, " { ");
                match &x.2 {
                    Some(g) => {
                        let gr = g.span().byte_range();
                        self.rep(gr.end, r.end, " => true, _ => false })");
                        self.visit_expr(g);
                    }
                    None => self.rep(b.end, r.end, " => true, _ => false })"),
                }
                self.visit_expr(&x.0);
            }
            return;
        }
        visit::visit_macro(self, m);
    }
    fn visit_expr_await(&mut self, e: &'a syn::ExprAwait) {
        let a = e.dot_token.span().byte_range().start;
        let b = e.await_token.span().byte_range().end;
        self.rep(a, b, "");
        self.o.notes.insert(".await removed: the future is run to completion at the call".into());
        visit::visit_expr_await(self, e);
    }
    // a bit operation on a loop variable that is a reference: Verus has the operator on values only
    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) {
        let by_ref = match &*w.expr {
            syn::Expr::Reference(_) => true,
            syn::Expr::MethodCall(m) => m.method == "iter",
            _ => false,
        };
        let mut added = None;
        if let (true, syn::Pat::Ident(p)) = (by_ref, &*w.pat) {
            if self.refvars.insert(p.ident.to_string()) {
                added = Some(p.ident.to_string());
            }
        }
        self.continues(&w.body);
        visit::visit_expr_for_loop(self, w);
        if let Some(n) = added {
            self.refvars.remove(&n);
        }
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        if matches!(b.op, syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) | syn::BinOp::Shr(_) | syn::BinOp::Shl(_)) {
            for e in [&b.left, &b.right] {
                if let syn::Expr::Path(p) = &**e {
                    if p.path.get_ident().map(|i| self.refvars.contains(&i.to_string())).unwrap_or(false) {
                        let r = p.span().byte_range();
                        self.insp(r.start, 6, "(*");
                        self.insp(r.end, -6, ")");
                        self.o.notes.insert("bit operations on `&u8` loop variables written with an explicit dereference".into());
                    }
                }
            }
        }
        // `|`, `&`, `|=`, `&=` on truth values
        let both = |v: &mut Self, f: &str| {
            let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
            v.insp(l.start, 7, format!("crate::vp_ext::{f}("));
            v.rep(l.end, r.start, ", ");
            v.insp(r.end, -7, ")");
            v.o.notes.insert("non-short-circuit operators on truth values rewritten to calls".into());
        };
        let assign = |v: &mut Self, f: &str| {
            let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
            let place = v.src[l.clone()].to_string();
            v.rep(l.end, r.start, format!(" = crate::vp_ext::{f}({place}, "));
            v.insp(r.end, -7, ")");
            v.o.notes.insert("non-short-circuit operators on truth values rewritten to calls".into());
        };
        match b.op {
            syn::BinOp::BitOr(_) if is_truth(&b.left) || is_truth(&b.right) => both(self, "bool_or"),
            syn::BinOp::BitAnd(_) if is_truth(&b.left) || is_truth(&b.right) => both(self, "bool_and"),
            syn::BinOp::BitOrAssign(_) if is_truth(&b.right) => assign(self, "bool_or"),
            syn::BinOp::BitAndAssign(_) if is_truth(&b.right) => assign(self, "bool_and"),
            _ => (),
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        for arm in &m.arms {
            if let syn::Pat::Lit(l) = &arm.pat {
                if let syn::Lit::Str(_) = &l.lit {
                    let r = l.span().byte_range();
                    let t = self.src[r.clone()].to_string();
                    self.rep(r.start, r.end, format!("vp_s if crate::vp_ext::str_eq(vp_s, {t})"));
                    self.o.notes.insert("string literal patterns rewritten to guarded bindings".into());
                }
            }
        }
        // P if g => a, _ => return ..   ->   P => if g { a } else { return .. }, _ => return ..
        if let [.., a, z] = &m.arms[..] {
            let simple = |e: &syn::Expr| matches!(e, syn::Expr::Lit(_) | syn::Expr::Path(_));
            let leaves = matches!(&*z.body, syn::Expr::Return(r) if r.expr.as_ref().map_or(true, |e| simple(e)));
            if let (Some((t, g)), true, true) = (&a.guard, leaves && z.guard.is_none(), matches!(z.pat, syn::Pat::Wild(_))) {
                let (gr, br) = (g.span().byte_range(), a.body.span().byte_range());
                let other = self.src[z.body.span().byte_range()].to_string();
                self.rep(t.span().byte_range().start, gr.start, "=> if ");
                self.rep(gr.end, br.start, " { ");
                self.insp(br.end, -9, format!(" }} else {{ {other} }}"));
                self.o.notes.insert("guard of the arm before a returning wildcard rewritten to if".into());
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_pat(&mut self, p: &'a syn::Pat) {
        if !matches!(p, syn::Pat::Lit(_)) {
            visit::visit_pat(self, p);
        }
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let r = l.span().byte_range();
            let t = b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
            self.rep(r.start, r.end, format!("(&[{t}])"));
            self.o.notes.insert("byte string literals written as arrays".into());
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Paren(p) = &*c.func {
            if let syn::Expr::Field(f) = &*p.expr {
                let n = f.member.to_token_stream().to_string();
                let r = p.span().byte_range();
                if self.barefn_fields.contains(&n) {
                    self.rep(r.start, r.start + 1, "");
                    self.rep(r.end - 1, r.end, ".vp_call");
                }
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            let full = p.path.to_token_stream().to_string().replace(' ', "");
            let user = self.o.world.contains(&call_name(&p.path, &self.self_ty, c.args.len()));
            let prim = {
                let t: Vec<&str> = full.split("::").collect();
                let two = if t.len() > 1 { t[t.len() - 2..].join("::") } else { full.clone() };
                WORLD_CALLS.contains(&two.as_str()) || (two == "create_dir_all")
            };
            if user || prim {
                self.world_arg(c.paren_token.span.close().byte_range().start, c.args.len(), c.args.trailing_punct());
            }
            let close = c.paren_token.span.close().byte_range().start;
            if let Some(fc) = self.fc.clone() {
                for (callee, arg) in &fc.ghost_args {
                    if *callee == n {
                        let t = if c.args.is_empty() || c.args.trailing_punct() { format!("{arg}") } else { format!(", {arg}") };
                        let t = rename(&t, &self.map);
                        self.insp(close, 6, t);
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let name = c.method.to_string();
        let mr = c.method.span().byte_range();
        // [a, b, c].concat()  ->  catN(a, b, c)
        if name == "concat" && c.args.is_empty() {
            if let syn::Expr::Array(arr) = &*c.receiver {
                let ar = arr.span().byte_range();
                let n = arr.elems.len();
                self.rep(ar.start, ar.start + 1, format!("crate::vp_ext::cat{n}("));
                self.rep(ar.end - 1, ar.end, ")");
                self.rep(ar.end, c.span().byte_range().end, "");
                self.o.notes.insert("[a, b, ..].concat() rewritten to catN(a, b, ..)".into());
                for e in &arr.elems {
                    self.visit_expr(e);
                }
                return;
            }
        }
        if name == "for_each" && c.args.len() == 1 {
            if let syn::Expr::Closure(cl) = &c.args[0] {
                if cl.inputs.len() == 1 {
                    let pat = self.src[cl.inputs[0].span().byte_range()].to_string();
                    let recv = c.receiver.span().byte_range();
                    let body = cl.body.span().byte_range();
                    let iter = self.fc.as_ref().and_then(|f| {
                        f.loops.values().find(|l| l.kind == "foreach" || l.kind == "for").and_then(|l| l.iter.clone())
                    });
                    let lab = iter.map(|i| format!("{i}: ")).unwrap_or_default();
                    // the temporary that is iterated gets a name
                    let inner = match &*c.receiver {
                        syn::Expr::MethodCall(m) if matches!(&*m.receiver, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) => Some(m.receiver.span().byte_range()),
                        _ => None,
                    };
                    let close = if let Some(i) = &inner {
                        self.insp(i.start, 9, "{ let vp_it = ");
                        self.insp(i.end, -9, format!("; for {pat} in {lab}vp_it"));
                        "; } }"
                    } else {
                        self.insp(recv.start, 9, format!("for {pat} in {lab}"));
                        "; }"
                    };
                    self.rep(recv.end, body.start, " ");
                    self.insp(body.start, 8, "{ ");
                    self.rep(body.end, c.span().byte_range().end, close);
                    self.o.notes.insert(".iter().for_each(closure) rewritten to a for loop".into());
                    self.visit_expr(&c.receiver);
                    self.visit_expr(&cl.body);
                    return;
                }
            }
        }
        // async move { body }.into_actor(self).spawn(ctx)
        if name == "spawn" {
            if let syn::Expr::MethodCall(ia) = &*c.receiver {
                if ia.method == "into_actor" {
                    if let syn::Expr::Async(a) = &*ia.receiver {
                        let ar = a.span().byte_range();
                        let br = a.block.span().byte_range();
                        self.rep(ar.start, br.start, "");
                        self.rep(br.end, c.span().byte_range().end, "");
                        self.o.notes.insert("async move {..}.into_actor(self).spawn(ctx) replaced by its block".into());
                        self.visit_block(&a.block);
                        return;
                    }
                }
            }
        }
        let close = c.paren_token.span.close().byte_range().start;
        // handlers' pool: exclusive access (see DESIGN: interior mutability)
        if (name == "as_ref") && c.args.is_empty() {
            let t = &self.src[c.receiver.span().byte_range()];
            if t.replace(char::is_whitespace, "").ends_with("piece_available_pool") {
                self.rep(mr.start, mr.end, "as_mut");
                self.o.notes.insert("piece_available_pool.as_ref() rewritten to as_mut(): pool modelled as exclusively owned".into());
            }
        }
        const ADAPT: &[&str] = &["map", "flat_map", "filter", "collect", "sum", "take", "skip", "rev", "enumerate", "all", "any", "nth", "copied", "cloned", "count", "fold", "position", "find", "last"];
        if ADAPT.contains(&name.as_str()) {
            if let syn::Expr::MethodCall(r) = &*c.receiver {
                if r.method == "iter" && r.args.is_empty() {
                    let rr = r.method.span().byte_range();
                    self.rep(rr.start, rr.end, "vp_iter");
                }
            }
        }
        if let (true, Some(syn::Expr::Closure(cl))) = (BY_CLOSURE.contains(&name.as_str()), c.args.last()) {
            // the closures of the receiver and of the other arguments come first
            let before = Closures::count(&c.receiver) + c.args.iter().rev().skip(1).map(Closures::count).sum::<usize>();
            let idx = self.closure_idx + before;
            if self.fc.as_ref().map(|f| !f.closures.contains_key(&idx)).unwrap_or(false) {
                if let Some(cl) = inlined(c) {
                    self.adapter(c, cl, &name);
                    return;
                }
                if pure_body(cl).is_none() {
                    self.unsupported = Some(format!("`{name}` with a closure that is no plain expression"));
                }
            }
        }
        if let Some((_, to)) = METHODS.iter().find(|(a, _)| *a == name) {
            let skip = name == "join" && c.args.is_empty() || name == "filter" && matches!(&*c.receiver, syn::Expr::MethodCall(r) if r.method.to_string().contains("iter"));
            if !skip {
                self.rep(mr.start, mr.end, *to);
            }
        }
        let user = self.o.world.contains(&format!("{}#{}", name, c.args.len()));
        if is_world_prim(&name) || user {
            self.world_arg(close, c.args.len(), c.args.trailing_punct());
        }
        if let Some(fc) = self.fc.clone() {
            for (callee, arg) in &fc.ghost_args {
                if *callee == name {
                    let t = if c.args.is_empty() || c.args.trailing_punct() { arg.clone() } else { format!(", {arg}") };
                    let t = rename(&t, &self.map);
                    self.insp(close, 6, t);
                }
            }
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let idx = self.closure_idx;
        self.closure_idx += 1;
        let spec = self.fc.as_ref().and_then(|f| f.closures.get(&idx).cloned());
        if let Some(s) = spec {
            let mut map = self.map.clone();
            // positional parameter names
            let hdr_params: Vec<String> = {
                let h = &s.header;
                let a = h.find('|').unwrap();
                let b = h[a + 1..].find('|').unwrap() + a + 1;
                split_top(&h[a + 1..b])
                    .iter()
                    .map(|p| p.split(':').next().unwrap().trim().to_string())
                    .collect()
            };
            for (i, p) in c.inputs.iter().enumerate() {
                let name = match p {
                    syn::Pat::Ident(x) => x.ident.to_string(),
                    syn::Pat::Type(t) => match &*t.pat {
                        syn::Pat::Ident(x) => x.ident.to_string(),
                        _ => continue,
                    },
                    _ => continue,
                };
                if let Some(h) = hdr_params.get(i) {
                    if *h != name {
                        map.insert(h.clone(), name);
                    }
                }
            }
            if hdr_params.len() != c.inputs.len() {
                self.unsupported = Some("closure parameters changed".into());
            }
            let hdr = rename(&s.header, &map);
            let spec = rename(&s.spec, &map);
            let a = c.or1_token.span().byte_range().start;
            let br = c.body.span().byte_range();
            let is_block = matches!(&*c.body, syn::Expr::Block(_));
            self.rep(a, br.start, format!("{hdr}\n{spec}"));
            let entry = rename(&s.entry, &map);
            if is_block {
                self.insp(br.start + 1, 3, format!("\n{entry}"));
            } else {
                self.insp(br.start, 3, format!("{{ {entry} "));
                self.insp(br.end, -3, " }");
            }
            self.visit_expr(&c.body);
            return;
        }
        let mut lets = String::new();
        for (i, p) in c.inputs.iter().enumerate() {
            match p {
                syn::Pat::Wild(w) => {
                    let r = w.span().byte_range();
                    self.rep(r.start, r.end, format!("vp_u{i}"));
                }
                // a pattern becomes a variable that is taken apart in the body
                syn::Pat::Reference(_) | syn::Pat::Tuple(_) => {
                    let r = p.span().byte_range();
                    if taken_apart(p) {
                        // a reference in front is taken off, the rest is matched as it stands
                        let (mut q, mut v) = (p, format!("vp_u{i}"));
                        while let syn::Pat::Reference(x) = q {
                            q = &x.pat;
                            v = format!("(*{v})");
                        }
                        lets.push_str(&format!("let {} = {v}; ", &self.src[q.span().byte_range()]));
                        self.rep(r.start, r.end, format!("vp_u{i}"));
                    }
                }
                _ => {}
            }
        }
        let br = c.body.span().byte_range();
        let braced = matches!(c.output, syn::ReturnType::Default);
        if braced && c.asyncness.is_none() {
            // a plain expression is its own contract
            if let Some(e) = pure_body(c) {
                let t = self.src[e.span().byte_range()].to_string();
                let close = c.or2_token.span().byte_range().end;
                self.insp(close, 4, format!(" -> (vp_c: _) ensures ({{ {lets} crate::vp_ext::same(vp_c, {t}) }}) "));
                if matches!(&*c.body, syn::Expr::Block(_)) {
                    self.insp(br.start + 1, 3, format!(" {lets}"));
                } else {
                    self.insp(br.start, 3, format!("{{ {lets}"));
                    self.insp(br.end, -3, " }");
                }
                self.visit_expr(&c.body);
                return;
            }
        }
        if !lets.is_empty() {
            self.insp(br.start, 3, format!("{{ {lets}"));
            self.insp(br.end, -3, " }");
        }
        self.visit_expr(&c.body);
    }
}

struct Closures(usize);
impl Closures {
    fn count(e: &syn::Expr) -> usize {
        let mut v = Closures(0);
        v.visit_expr(e);
        v.0
    }
}
impl<'a> Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.0 += 1;
        visit::visit_expr_closure(self, c);
    }
}

/// a closure's parameter that a `let` can take apart: `&x`, `(a, b)`, `&(a, _)`
fn taken_apart(p: &syn::Pat) -> bool {
    fn flat(p: &syn::Pat) -> bool {
        match p {
            syn::Pat::Ident(i) => i.by_ref.is_none() && i.mutability.is_none(),
            syn::Pat::Wild(_) => true,
            syn::Pat::Tuple(t) => t.elems.iter().all(flat),
            _ => false,
        }
    }
    match p {
        syn::Pat::Reference(r) => r.mutability.is_none() && taken_apart(&r.pat),
        p => flat(p),
    }
}

/// the body of a closure that is a plain expression over its parameters and what it captures
fn pure_body(c: &syn::ExprClosure) -> Option<&syn::Expr> {
    let ok = c.inputs.iter().all(|p| matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)) || taken_apart(p));
    let e = match &*c.body {
        syn::Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => e,
            _ => return None,
        },
        e => e,
    };
    (ok && plain(e, false)).then_some(e)
}

/// `typed`: the literal is an operand, its type is that of the other one
fn plain(e: &syn::Expr, typed: bool) -> bool {
    match e {
        syn::Expr::Paren(p) => plain(&p.expr, typed),
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Bool(_) | syn::Lit::Char(_) | syn::Lit::Byte(_) => true,
            syn::Lit::Int(i) => typed || !i.suffix().is_empty(),
            _ => false,
        },
        syn::Expr::Path(_) => true,
        syn::Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && plain(&m.receiver, false),
        syn::Expr::Field(f) => plain(&f.base, false),
        syn::Expr::Reference(r) => r.mutability.is_none() && plain(&r.expr, typed),
        syn::Expr::Unary(u) => match u.op {
            syn::UnOp::Not(_) => is_truth(&u.expr) && plain(&u.expr, false),
            syn::UnOp::Deref(_) => plain(&u.expr, false),
            _ => false,
        },
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            let t = is_lit(&b.left) as u8 + is_lit(&b.right) as u8 <= 1;
            match b.op {
                And(_) | Or(_) => plain(&b.left, false) && plain(&b.right, false),
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => t && plain(&b.left, true) && plain(&b.right, true),
                _ => false,
            }
        }
        _ => false,
    }
}

fn is_lit(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => is_lit(&p.expr),
        e => matches!(e, syn::Expr::Lit(_)),
    }
}

/// breaks that leave the loop whose body is visited
struct Breaks {
    at: Vec<std::ops::Range<usize>>,
}
impl<'a> Visit<'a> for Breaks {
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
        if b.label.is_none() && b.expr.is_none() {
            self.at.push(b.span().byte_range());
        }
    }
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

fn split_top(s: &str) -> Vec<String> {
    let mut d = 0;
    let mut cur = String::new();
    let mut out = vec![];
    for ch in s.chars() {
        match ch {
            '(' | '<' | '[' => d += 1,
            ')' | '>' | ']' => d -= 1,
            ',' if d == 0 => {
                out.push(cur.clone());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(ch);
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out
}

/// is this certainly a truth value, judged by its form?
fn is_truth(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => is_truth(&p.expr),
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && is_truth(&u.expr),
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_))
                || matches!(b.op, BitOr(_) | BitAnd(_) | BitXor(_)) && (is_truth(&b.left) || is_truth(&b.right))
        }
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n.starts_with("is_") || n == "starts_with" || n == "ends_with" || n == "contains" || n == "contains_key"
        }
        syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
        _ => false,
    }
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::MethodCall(x) => &x.attrs,
        syn::Expr::Call(x) => &x.attrs,
        syn::Expr::If(x) => &x.attrs,
        syn::Expr::Block(x) => &x.attrs,
        syn::Expr::Macro(x) => &x.attrs,
        syn::Expr::Match(x) => &x.attrs,
        syn::Expr::Assign(x) => &x.attrs,
        syn::Expr::ForLoop(x) => &x.attrs,
        syn::Expr::Try(x) => &x.attrs,
        _ => &[],
    }
}

/// the `continue;` a block ends with
fn ends_in_continue(b: &syn::Block) -> Option<std::ops::Range<usize>> {
    match b.stmts.last()? {
        s @ syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none() => Some(s.span().byte_range()),
        _ => None,
    }
}

struct Continues(usize);
impl<'a> Visit<'a> for Continues {
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        self.0 += 1;
    }
    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn continues_in(s: &syn::Stmt) -> usize {
    let mut c = Continues(0);
    c.visit_stmt(s);
    c.0
}

impl<'o, 's> BodyV<'o, 's> {
    /// `continue` in a `for` loop, which the verifier does not know: what follows goes into the other branch
    fn continues(&mut self, body: &syn::Block) {
        let end = body.span().byte_range().end - 1;
        for (k, s) in body.stmts.iter().enumerate() {
            if continues_in(s) != 1 {
                continue;
            }
            let r = s.span().byte_range();
            match s {
                // if c { ..; continue; } rest   ->   if c { .. } else { rest }
                syn::Stmt::Expr(syn::Expr::If(i), None) if i.else_branch.is_none() => {
                    let Some(c) = ends_in_continue(&i.then_branch) else { continue };
                    self.rep(c.start, c.end, "");
                    self.insp(r.end, -5, " else {");
                    self.insp(end, -1, "}");
                }
                // if c { a } else { ..; continue; } rest   ->   let go = if c { a; true } else { ..; false }; if go { rest }
                syn::Stmt::Expr(syn::Expr::If(i), None) => {
                    let Some((_, e)) = &i.else_branch else { continue };
                    let syn::Expr::Block(e) = &**e else { continue };
                    let (c, other) = match (ends_in_continue(&i.then_branch), ends_in_continue(&e.block)) {
                        (Some(c), None) => (c, &e.block),
                        (None, Some(c)) => (c, &i.then_branch),
                        _ => continue,
                    };
                    if matches!(other.stmts.last(), Some(syn::Stmt::Expr(_, None))) {
                        continue;
                    }
                    self.rep(c.start, c.end, "false");
                    self.insp(other.span().byte_range().end - 1, -5, " true ");
                    self.insp(r.start, 5, format!("let vp_go{k} = "));
                    self.insp(r.end, -5, format!("; if vp_go{k} {{"));
                    self.insp(end, -1, "}");
                }
                // let P = e else { continue; }; rest   ->   if let P = e { rest }
                syn::Stmt::Local(l) => {
                    let Some(init) = &l.init else { continue };
                    if let Some((t, d)) = &init.diverge {
                        let syn::Expr::Block(d) = &**d else { continue };
                        if d.block.stmts.len() != 1 || ends_in_continue(&d.block).is_none() {
                            continue;
                        }
                        self.insp(r.start, 5, "if ");
                        self.rep(t.span().byte_range().start, r.end, "{");
                        self.insp(end, -1, "}");
                    } else if let (syn::Expr::Match(m), syn::Pat::Ident(x)) = (&*init.expr, &l.pat) {
                        // let x = match e { P => a, Q => continue }; rest   ->   .. Some(a) .. None ..; if let Some(x) = x { rest }
                        let plain = m.arms.iter().all(|a| match &*a.body {
                            syn::Expr::Continue(c) => c.label.is_none(),
                            syn::Expr::Block(b) => ends_in_continue(&b.block).is_some() || continues_in(&syn::Stmt::Expr(syn::Expr::Block(b.clone()), None)) == 0,
                            e => continues_in(&syn::Stmt::Expr(e.clone(), None)) == 0,
                        });
                        if !plain {
                            continue;
                        }
                        for a in &m.arms {
                            let br = a.body.span().byte_range();
                            match &*a.body {
                                syn::Expr::Continue(_) => self.rep(br.start, br.end, "None"),
                                syn::Expr::Block(b) if ends_in_continue(&b.block).is_some() => {
                                    let c = ends_in_continue(&b.block).unwrap();
                                    self.rep(c.start, c.end, "None");
                                }
                                _ => {
                                    self.insp(br.start, 9, "Some(");
                                    self.insp(br.end, -9, ")");
                                }
                            }
                        }
                        if let Some(mt) = &x.mutability {
                            self.rep(mt.span().byte_range().start, mt.span().byte_range().end, "");
                        }
                        let b = &self.src[x.span().byte_range()];
                        let id = x.ident.to_string();
                        let t = format!(" if let Some({b}) = {id} {{");
                        self.insp(r.end, -5, t);
                        self.insp(end, -1, "}");
                    } else {
                        continue;
                    }
                }
                _ => continue,
            }
            self.o.notes.insert("`continue` in a `for` loop: the rest of the body goes into the other branch".into());
        }
    }
    fn is_log(&self, m: &syn::Macro) -> bool {
        let p = &m.path;
        let l = p.segments.last().unwrap().ident.to_string();
        LOGS.contains(&l.as_str()) && (p.segments.len() == 1 || p.segments[0].ident == "log")
    }
    fn format(&mut self, m: &syn::Macro) -> Option<()> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let es = p.parse2(m.tokens.clone()).ok()?;
        let es: &'static _ = Box::leak(Box::new(es));
        let mut it = es.iter();
        let lit = match it.next()? {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => return None,
            },
            _ => return None,
        };
        let args: Vec<&'static syn::Expr> = it.collect();
        // pieces
        enum P {
            Lit(String),
            Pos(bool),
            Name(String, bool),
        }
        let mut ps = vec![];
        let cs: Vec<char> = lit.chars().collect();
        let mut cur = String::new();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                    cur.push('{');
                    i += 1;
                }
                '}' => {
                    cur.push('}');
                    i += 1;
                }
                '{' => {
                    let j = cs[i..].iter().position(|c| *c == '}')? + i;
                    let inner: String = cs[i + 1..j].iter().collect();
                    ps.push(P::Lit(std::mem::take(&mut cur)));
                    let dbg = inner.ends_with(":?");
                    let name = inner.trim_end_matches(":?").to_string();
                    if name.is_empty() {
                        ps.push(P::Pos(dbg));
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next()?.is_numeric() {
                        ps.push(P::Name(name, dbg));
                    } else {
                        return None;
                    }
                    i = j;
                }
                c => cur.push(c),
            }
            i += 1;
        }
        ps.push(P::Lit(cur));
        let npos = ps.iter().filter(|p| matches!(p, P::Pos(_))).count();
        if npos != args.len() {
            return None;
        }
        let r = m.span().byte_range();
        let mut text = String::from("{ let mut vp_f = crate::vp_ext::fmt_new(); ");
        let mut pos = r.start;
        let mut k = 0;
        for p in &ps {
            match p {
                P::Lit(s) if s.is_empty() => {}
                P::Lit(s) => text.push_str(&format!("crate::vp_ext::fmt_lit(&mut vp_f, {:?}); ", s)),
                P::Name(n, d) => text.push_str(&format!("crate::vp_ext::{}(&mut vp_f, &({n})); ", if *d { "fmt_dbg" } else { "fmt_arg" })),
                P::Pos(d) => {
                    text.push_str(&format!("crate::vp_ext::{}(&mut vp_f, &(", if *d { "fmt_dbg" } else { "fmt_arg" }));
                    let ar = args[k].span().byte_range();
                    self.rep(pos, ar.start, std::mem::take(&mut text));
                    self.visit_expr(args[k]);
                    pos = ar.end;
                    text.push_str(")); ");
                    k += 1;
                }
            }
        }
        text.push_str("vp_f }");
        self.rep(pos, r.end, text);
        self.o.notes.insert("format! expanded to a sequence of fmt_lit/fmt_arg calls".into());
        Some(())
    }
}

fn apply(src: &str, a: usize, b: usize, mut edits: Vec<Edit>) -> Result<String, String> {
    // insertions before replacements at the same start; higher prio first, except negative (closing) ones
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by(|x, y| {
        let (e, f) = (&edits[*x], &edits[*y]);
        e.a.cmp(&f.a)
            .then((e.b != e.a).cmp(&(f.b != f.a)))
            .then(f.prio.cmp(&e.prio))
            .then(x.cmp(y))
    });
    let mut out = String::new();
    let mut pos = a;
    for i in idx {
        let e = &mut edits[i];
        if e.a < a || e.b > b {
            continue;
        }
        if e.a < pos {
            return Err(format!("overlapping edits near {:?}", &src[e.a..(e.a + 30).min(src.len())]));
        }
        out.push_str(&src[pos..e.a]);
        out.push_str(&e.text);
        pos = e.b;
    }
    out.push_str(&src[pos..b]);
    Ok(out)
}

impl Out {
    pub fn new(c: Contracts, external: BTreeSet<String>, smoke: bool) -> Out {
        Out {
            c,
            external,
            smoke,
            fns: vec![],
            inlined: vec![],
            notes: BTreeSet::new(),
            impls_done: BTreeSet::new(),
            world: BTreeSet::new(),
            world_keys: BTreeSet::new(),
            used: BTreeSet::new(),
            msgs: vec![],
            default_external: std::env::var("VP_DEFAULT_EXTERNAL").is_ok(),
            fnptr_values: BTreeMap::new(),
        }
    }

    /// functions flagged `world`, plus the uncontracted functions that call one
    fn compute_world(&mut self, root: &Module) {
        // (key, call name, names called)
        let mut all: Vec<(String, String, BTreeSet<String>)> = vec![];
        fn walk(m: &Module, all: &mut Vec<(String, String, BTreeSet<String>)>) {
            let ast = syn::parse_file(&m.src).unwrap();
            let mp = if m.path.is_empty() { "crate".into() } else { m.path.join("::") };
            for it in &ast.items {
                match it {
                    syn::Item::Fn(f) if !is_cfg_dropped(&f.attrs) && f.sig.ident != "main" => {
                        let mut c = Calls(BTreeSet::new(), String::new());
                        c.visit_block(&f.block);
                        all.push((format!("{mp}::{}", f.sig.ident), format!("{}#{}", f.sig.ident, f.sig.inputs.len()), c.0));
                    }
                    syn::Item::Impl(i) if !is_cfg_dropped(&i.attrs) => {
                        let handler = handler_msg(i);
                        let ty = type_name(&i.self_ty);
                        let hooks = matches!(&i.trait_, Some((_, p, _)) if p.segments.last().unwrap().ident == "Actor");
                        if i.trait_.is_some() && handler.is_none() && !hooks {
                            continue;
                        }
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                if is_cfg_dropped(&f.attrs) {
                                    continue;
                                }
                                let mut c = Calls(BTreeSet::new(), ty.clone());
                                c.visit_block(&f.block);
                                let n = f.sig.inputs.iter().filter(|a| matches!(a, syn::FnArg::Typed(_))).count();
                                let has_self = f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)));
                                let mut k = format!("{mp}::{}::{}", impl_prefix(i), f.sig.ident);
                                let mut cn = if has_self { format!("{}#{}", f.sig.ident, n) } else { format!("{ty}::{}#{}", f.sig.ident, n) };
                                if let Some(h) = &handler {
                                    k = format!("{k}_{h}");
                                    cn = format!("handler {k}");
                                }
                                if hooks {
                                    cn = format!("handler {k}");
                                }
                                all.push((k, cn, c.0));
                            }
                        }
                    }
                    _ => {}
                }
            }
            for ch in &m.children {
                walk(ch, all);
            }
        }
        fn mods(m: &Module) {
            if let Some(l) = m.path.last() {
                MODS.with(|x| x.borrow_mut().insert(l.clone()));
            }
            for c in &m.children {
                mods(c);
            }
        }
        mods(root);
        walk(root, &mut all);
        // a free function is called by its name alone or through its module
        let alias = |k: &str, n: &str| -> Option<String> {
            let s: Vec<&str> = k.split("::").collect();
            if n.starts_with("handler ") || n.contains("::") || s.len() < 2 || !s[s.len() - 2].starts_with(|c: char| c.is_lowercase()) {
                return None;
            }
            Some(format!("{}::{n}", s[s.len() - 2]))
        };
        for (k, n, _) in &all {
            if self.c.fns.get(k).map(|f| f.flag("world")).unwrap_or(false) {
                self.world.insert(n.clone());
                self.world.extend(alias(k, n));
                self.world_keys.insert(k.clone());
            }
        }
        loop {
            let mut ch = false;
            for (k, n, calls) in &all {
                if self.world_keys.contains(k) {
                    continue;
                }
                let prim = calls.iter().any(|c| {
                    let (nm, args) = c.split_once('#').unwrap();
                    (is_world_prim(nm) && !(nm == "send" && args != "1")) || WORLD_CALLS.contains(&nm)
                });
                if prim || calls.iter().any(|c| self.world.contains(c)) {
                    self.world.insert(n.clone());
                    self.world.extend(alias(k, n));
                    self.world_keys.insert(k.clone());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
    }

    pub fn run(&mut self, root: &Module, prelude: &str) -> String {
        self.compute_world(root);
        let mut body = String::new();
        self.module(root, &mut body, true);
        let mut fp = String::new();
        fp.push_str("pub mod vp_fnptr { use vstd::prelude::*;\n#[derive(Clone, Copy)] pub enum F { Nothing");
        for (v, _) in &self.fnptr_values {
            fp.push_str(&format!(", {v}"));
        }
        fp.push_str(" }\nimpl F {\n");
        let argty = self.fnptr_values.values().next().map(|x| x.1.clone()).unwrap_or("crate::messages::Message".into());
        fp.push_str(&format!("pub open spec fn accepts(self, m: {argty}) -> bool {{ match self {{ F::Nothing => false"));
        for (v, (p, _)) in &self.fnptr_values {
            fp.push_str(&format!(", F::{v} => {p}_spec(&m)"));
        }
        fp.push_str(" } }\n");
        fp.push_str(&format!("pub fn vp_call(&self, m: &{argty}) -> (r: bool) ensures r == self.accepts(*m) {{ match self {{ F::Nothing => false"));
        for (v, (p, _)) in &self.fnptr_values {
            fp.push_str(&format!(", F::{v} => {p}(m)"));
        }
        fp.push_str(" } }\n} }\n");
        fp.push_str("pub mod vp_msg { use vstd::prelude::*;\npub enum MsgView { Nothing");
        for (n, p) in &self.msgs {
            fp.push_str(&format!(", {n}({p})"));
        }
        fp.push_str(" }\n}\n");
        let mut text = prelude.replace("//VP_BODY//", &format!("{}\n{}\n{}", self.c.extra_top, fp, body));
        if !prelude.contains("//VP_BODY//") {
            text.push_str(&body);
        }
        // markers -> line numbers
        let mut outl = String::new();
        for (ln, line) in text.lines().enumerate() {
            for (pat, is_start) in [("/*VPS", true), ("/*VPE", false)] {
                let mut rest = line;
                while let Some(i) = rest.find(pat) {
                    let n: usize = rest[i + 5..].split('*').next().unwrap().parse().unwrap();
                    if let Some(f) = self.fns.iter_mut().find(|f| f.marker == n) {
                        if is_start {
                            f.start = ln + 1
                        } else {
                            f.end = ln + 1
                        }
                    }
                    rest = &rest[i + 5..];
                }
            }
            outl.push_str(line);
            outl.push('\n');
        }
        outl
    }

    fn use_leaves(t: &syn::UseTree, pre: &str, out: &mut Vec<(String, String)>) {
        let join = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
        match t {
            syn::UseTree::Path(p) => Self::use_leaves(&p.tree, &join(pre, &p.ident.to_string()), out),
            syn::UseTree::Name(n) => {
                let i = n.ident.to_string();
                if i == "self" {
                    let last = pre.split("::").last().unwrap().to_string();
                    out.push((pre.to_string(), last));
                } else {
                    out.push((join(pre, &i), i));
                }
            }
            syn::UseTree::Rename(r) => out.push((join(pre, &r.ident.to_string()), r.rename.to_string())),
            syn::UseTree::Glob(_) => out.push((join(pre, "*"), "*".into())),
            syn::UseTree::Group(g) => {
                for x in &g.items {
                    Self::use_leaves(x, pre, out);
                }
            }
        }
    }

    fn module(&mut self, m: &Module, out: &mut String, is_root: bool) {
        let mp = if is_root { "crate".to_string() } else { m.path.join("::") };
        if mp == "common::mock_stream" {
            self.notes.insert("module common::mock_stream not extracted (in-memory test double): stubbed with the contract of a stream".into());
            return;
        }
        let ast = syn::parse_file(&m.src).unwrap();
        let src = m.src.clone();
        if !is_root {
            out.push_str(&format!("pub mod {} {{\n", m.path.last().unwrap()));
        } else {
            out.push_str("pub mod vp_main {\n");
        }
        out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp_ext::exts::*;\nbroadcast use crate::vp_ext::vp_axioms::group;\n");
        let mut uses = BTreeMap::new();
        for it in &ast.items {
            if let syn::Item::Use(u) = it {
                if is_cfg_dropped(&u.attrs) {
                    continue;
                }
                let mut l = vec![];
                Self::use_leaves(&u.tree, "", &mut l);
                for (p, name) in l {
                    let p = if is_root && (p.starts_with("actors::") || p.starts_with("torrent::")) { format!("crate::{p}") } else { p };
                    let first = p.split("::").next().unwrap();
                    if USE_DROP.contains(&first) && !(first == "actix_web" && is_root)
                        || USE_DROP.iter().any(|d| d.contains("::") && (p == *d || p.starts_with(&format!("{d}::"))))
                    {
                        continue;
                    }
                    let q = map_path(&p).unwrap_or(p.clone());
                    uses.insert(name.clone(), q.clone());
                    let last = q.split("::").last().unwrap();
                    if name == "*" || last == name {
                        out.push_str(&format!("#[allow(unused_imports)] use {q};\n"));
                    } else {
                        out.push_str(&format!("#[allow(unused_imports)] use {q} as {name};\n"));
                    }
                }
            }
        }
        if let Some(p) = self.c.preludes.get(&mp) {
            out.push_str(p);
        }
        // struct fields of function-pointer type in this file
        let mut barefn = BTreeSet::new();
        for it in &ast.items {
            if let syn::Item::Struct(s) = it {
                for f in &s.fields {
                    if let (Some(i), syn::Type::BareFn(_)) = (&f.ident, &f.ty) {
                        barefn.insert(i.to_string());
                    }
                }
            }
        }
        for it in &ast.items {
            self.item(it, &src, m, &mp, &uses, &barefn, out, is_root);
        }
        if is_root {
            out.push_str("}\n");
        }
        for ch in &m.children {
            self.module(ch, out, false);
        }
        if !is_root {
            out.push_str("}\n");
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn item(&mut self, it: &syn::Item, src: &str, m: &Module, mp: &str, uses: &BTreeMap<String, String>, barefn: &BTreeSet<String>, out: &mut String, is_root: bool) {
        match it {
            syn::Item::Use(_) | syn::Item::Mod(_) => {}
            syn::Item::Const(c) => {
                if is_cfg_dropped(&c.attrs) {
                    return;
                }
                let ty = src[c.ty.span().byte_range()].to_string();
                let ty = if ty == "&str" { "&'static str".to_string() } else { ty };
                out.push_str(&format!("pub const {}: {} = {};\n", c.ident, ty, &src[c.expr.span().byte_range()]));
            }
            syn::Item::Static(_) | syn::Item::Macro(_) => {}
            syn::Item::Type(t) => {
                out.push_str(&format!("pub {}\n", src[t.type_token.span().byte_range().start..t.span().byte_range().end].to_string()));
            }
            syn::Item::Struct(s) => {
                if is_cfg_dropped(&s.attrs) {
                    return;
                }
                let mut v = self.bv(src, uses, barefn, String::new());
                for f in &s.fields {
                    if f.vis.span().byte_range().is_empty() {
                        let p = f.ident.as_ref().map(|i| i.span().byte_range().start).unwrap_or(f.ty.span().byte_range().start);
                        v.ins(p, "pub ");
                    }
                    for a in &f.attrs {
                        v.visit_attribute(a);
                    }
                    v.visit_type(&f.ty);
                }
                v.visit_generics(&s.generics);
                let a = s.struct_token.span().byte_range().start;
                let e = s.span().byte_range().end;
                let ed = std::mem::take(&mut v.edits);
                drop(v);
                let t = apply(src, a, e, ed).unwrap();
                if let Some(x) = self.c.types.get(&format!("{mp}::{}", s.ident)) {
                    out.push_str(x);
                }
                out.push_str("pub ");
                out.push_str(&t);
                out.push('\n');
                self.derives(mp, &s.attrs, &s.ident, &s.generics, out);
            }
            syn::Item::Enum(en) => {
                if is_cfg_dropped(&en.attrs) {
                    return;
                }
                let mut v = self.bv(src, uses, barefn, String::new());
                let mut froms = vec![];
                for var in &en.variants {
                    for a in &var.attrs {
                        v.visit_attribute(a);
                    }
                    for f in &var.fields {
                        if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                            froms.push((var.ident.to_string(), src[f.ty.span().byte_range()].to_string()));
                        }
                        for a in &f.attrs {
                            v.visit_attribute(a);
                        }
                        v.visit_type(&f.ty);
                    }
                }
                let a = en.enum_token.span().byte_range().start;
                let e = en.span().byte_range().end;
                let ed = std::mem::take(&mut v.edits);
                drop(v);
                let mut t = apply(src, a, e, ed).unwrap();
                if en.variants.is_empty() {
                    t = format!("enum {} {{ VpNever }}", en.ident);
                    self.notes.insert("an enum without variants gets one (the verifier has no empty types)".into());
                }
                if let Some(x) = self.c.types.get(&format!("{mp}::{}", en.ident)) {
                    out.push_str(x);
                }
                out.push_str("pub ");
                out.push_str(&t);
                out.push('\n');
                let n = &en.ident;
                for (var, ty) in froms {
                    let ty = if uses.contains_key(&ty) || ty.contains("::") { ty.clone() } else { ty.clone() };
                    out.push_str(&format!(
                        "impl From<{ty}> for {n} {{ fn from(e: {ty}) -> (r: {n}) ensures r == {n}::{var}(e) {{ {n}::{var}(e) }} }}\n\
                         impl vstd::std_specs::convert::FromSpecImpl<{ty}> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {ty}) -> {n} {{ {n}::{var}(e) }} }}\n"
                    ));
                    self.notes.insert("thiserror #[from] expanded to From impls".into());
                }
                if en.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Error")) {
                    out.push_str(&format!(
                        "impl crate::vp_ext::exts::VpToString for {n} {{ uninterp spec fn vp_str(&self) -> Seq<char>; #[verifier::external_body] fn vp_to_string(&self) -> (r: String) {{ unimplemented!() }} }}\n"
                    ));
                }
                self.derives(mp, &en.attrs, &en.ident, &en.generics, out);
            }
            syn::Item::Trait(t) => {
                if is_cfg_dropped(&t.attrs) {
                    return;
                }
                let extra = self.c.traits.get(&format!("{mp}::{}", t.ident)).cloned().unwrap_or_default();
                out.push_str(&format!("pub {} {{\n{extra}\n", &src[t.trait_token.span().byte_range().start..t.brace_token.span.open().byte_range().start]));
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        let key = format!("{mp}::{}::{}", t.ident, f.sig.ident);
                        let fc = self.c.fns.get(&key).cloned();
                        let sig = self.sig_text(&f.sig, src, uses, barefn, fc.as_ref(), &BTreeMap::new(), "", None, false, "");
                        out.push_str(&sig);
                        if let Some(fc) = &fc {
                            self.used.insert(key.clone());
                            out.push_str(&fc.spec);
                        }
                        out.push_str(";\n");
                    }
                }
                out.push_str("}\n");
            }
            syn::Item::Impl(i) => {
                if is_cfg_dropped(&i.attrs) {
                    return;
                }
                let pre = impl_prefix(i);
                let handler = handler_msg(i);
                let tname = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                match tname.as_deref() {
                    Some("Display") => {
                        let n = type_name(&i.self_ty);
                        out.push_str(&format!(
                            "impl crate::vp_ext::exts::VpToString for {n} {{ uninterp spec fn vp_str(&self) -> Seq<char>; #[verifier::external_body] fn vp_to_string(&self) -> (r: String) {{ unimplemented!() }} }}\n"
                        ));
                        self.notes.insert("fmt::Display impls not extracted (to_string() is uninterpreted)".into());
                        return;
                    }
                    Some("Actor") => {
                        self.notes.insert("actix Actor impls: the lifecycle hooks are extracted as inherent functions".into());
                    }
                    Some("Default") | Some("Debug") => return,
                    _ => {}
                }
                let hooks = tname.as_deref() == Some("Actor");
                let a = i.impl_token.span().byte_range().start;
                let b = i.brace_token.span.open().byte_range().start;
                let mut v = self.bv(src, uses, barefn, String::new());
                v.visit_generics(&i.generics);
                if let Some((_, p, f)) = &i.trait_ {
                    if handler.is_some() || hooks {
                        v.rep(p.span().byte_range().start, f.span().byte_range().end, "");
                    } else {
                        v.visit_path(p);
                    }
                }
                v.visit_type(&i.self_ty);
                let ed = std::mem::take(&mut v.edits);
                drop(v);
                out.push_str(&apply(src, a, b, ed).unwrap());
                out.push_str(" {\n");
                let ik = format!("{mp}::{pre}");
                if let Some(x) = self.c.impls.get(&ik) {
                    if pre.contains('@') || self.impls_done.insert(ik) {
                        out.push_str(x);
                    }
                }
                let mut result_ty = None;
                for x in &i.items {
                    if let syn::ImplItem::Type(t) = x {
                        if t.ident == "Result" && handler.is_some() {
                            let mut v = self.bv(src, uses, barefn, String::new());
                            v.visit_type(&t.ty);
                            let ed = std::mem::take(&mut v.edits);
                            drop(v);
                            let r = t.ty.span().byte_range();
                            result_ty = Some(apply(src, r.start, r.end, ed).unwrap());
                        }
                    }
                }
                for x in &i.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            if is_cfg_dropped(&f.attrs) {
                                continue;
                            }
                            let mut key = format!("{mp}::{pre}::{}", f.sig.ident);
                            if let Some(h) = &handler {
                                key = format!("{key}_{h}");
                            }
                            let in_trait = i.trait_.is_some() && handler.is_none() && !hooks;
                            self.function(key, &f.sig, &f.block, src, m, uses, barefn, handler.as_deref(), in_trait, result_ty.clone(), &type_name(&i.self_ty), out);
                        }
                        syn::ImplItem::Const(c) => {
                            out.push_str(&format!("pub const {}: {} = {};\n", c.ident, &src[c.ty.span().byte_range()], &src[c.expr.span().byte_range()]));
                        }
                        _ => {}
                    }
                }
                out.push_str("}\n");
            }
            syn::Item::Fn(f) => {
                if is_cfg_dropped(&f.attrs) {
                    return;
                }
                if is_root && f.sig.ident == "main" {
                    self.notes.insert("fn main (process set-up) not extracted".into());
                    return;
                }
                let key = format!("{mp}::{}", f.sig.ident);
                self.function(key, &f.sig, &f.block, src, m, uses, barefn, None, false, None, "", out);
            }
            _ => {}
        }
    }

    fn derives(&mut self, mp: &str, attrs: &[syn::Attribute], n: &syn::Ident, g: &syn::Generics, out: &mut String) {
        if !g.params.is_empty() {
            return;
        }
        let d: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string()).collect();
        let shared = n == "PiecePool";
        if shared && d.contains("Clone") {
            self.notes.insert("PiecePool: derive(Clone) dropped (clones share the pool; no cloned pool is verified)".into());
        }
        if d.contains("Clone") && !shared {
            out.push_str(&format!(
                "impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            ));
            self.notes.insert("derive(Clone) replaced by a trusted structural clone; other derives dropped".into());
        }
        if d.contains("Debug") {
            out.push_str(&format!("#[verifier::external] impl core::fmt::Debug for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}\n"));
        }
        if d.contains("Message") && !d.contains("Debug") {
            let ok = self.c.impls.get(&format!("{mp}::Message@{n}")).cloned().unwrap_or("open spec fn msg_ok(&self) -> bool { true }".into());
            out.push_str(&format!(
                "impl crate::vp_ext::actix::Message for {n} {{ open spec fn mv(&self) -> crate::vp_msg::MsgView {{ crate::vp_msg::MsgView::{n}(*self) }}\n{ok} }}\n"
            ));
            self.msgs.push((n.to_string(), format!("crate::{mp}::{n}")));
        }
    }

    fn bv<'o, 's>(&'o mut self, src: &'s str, uses: &BTreeMap<String, String>, barefn: &BTreeSet<String>, self_ty: String) -> BodyV<'o, 's> {
        BodyV {
            src,
            o: self,
            edits: vec![],
            fc: None,
            map: BTreeMap::new(),
            closure_idx: 0,
            at_found: BTreeSet::new(),
            has_world: false,
            barefn_fields: barefn.clone(),
            ret_barefn: false,
            uses: uses.clone(),
            self_ty,
            in_handler: None,
            unsupported: None,
            refvars: BTreeSet::new(),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn sig_text(&mut self, sig: &syn::Signature, src: &str, uses: &BTreeMap<String, String>, barefn: &BTreeSet<String>, fc: Option<&FnC>, map: &BTreeMap<String, String>, rename_to: &str, result_ty: Option<String>, world: bool, key: &str) -> String {
        let mut v = self.bv(src, uses, barefn, String::new());
        v.in_handler = result_ty;
        v.visit_generics(&sig.generics);
        let exclusive = key.starts_with("peer::piece_pool::PiecePool::");
        for a in &sig.inputs {
            match a {
                syn::FnArg::Typed(t) => {
                    for at in &t.attrs {
                        v.visit_attribute(at);
                    }
                    v.visit_type(&t.ty);
                    if let syn::Pat::Ident(p) = &*t.pat {
                        if p.ident == "_" {}
                    }
                }
                syn::FnArg::Receiver(r) => {
                    if exclusive && r.reference.is_some() && r.mutability.is_none() {
                        let s = r.self_token.span().byte_range().start;
                        v.ins(s, "mut ");
                    }
                }
            }
        }
        if !rename_to.is_empty() {
            let r = sig.ident.span().byte_range();
            v.rep(r.start, r.end, rename_to);
        }
        let close = sig.paren_token.span.close().byte_range();
        let trailing = sig.inputs.trailing_punct();
        let mut extra = vec![];
        if world {
            extra.push("vp_w: &mut crate::vp_ext::World".to_string());
        }
        if let Some(f) = fc {
            if !f.ghost_params.is_empty() {
                extra.push(rename(&f.ghost_params, map));
            }
        }
        if !extra.is_empty() {
            let t = extra.join(", ");
            let t = if sig.inputs.is_empty() || trailing { t } else { format!(", {t}") };
            v.insp(close.start, 5, t);
        }
        let mut end = close.end;
        if let syn::ReturnType::Type(_, t) = &sig.output {
            v.visit_type(t);
            let r = t.span().byte_range();
            end = r.end;
            if exclusive {
                if let syn::Type::Reference(rf) = &**t {
                    if rf.mutability.is_none() {
                        v.ins(rf.and_token.span().byte_range().end, "mut ");
                    }
                }
            }
            if let Some(rn) = fc.and_then(|f| f.ret.clone()) {
                v.insp(r.start, 9, format!("({rn}: "));
                v.insp(r.end, -9, ")");
            }
        }
        let start = sig.fn_token.span().byte_range().start;
        let ed = std::mem::take(&mut v.edits);
        drop(v);
        let mut t = apply(src, start, end, ed).unwrap();
        if let Some(w) = &sig.generics.where_clause {
            t.push(' ');
            t.push_str(&src[w.span().byte_range()]);
            if !t.trim_end().ends_with(',') {
                t.push(',');
            }
        }
        t.push('\n');
        t
    }

    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, key: String, sig: &syn::Signature, block: &syn::Block, src: &str, m: &Module, uses: &BTreeMap<String, String>, barefn: &BTreeSet<String>, handler: Option<&str>, in_trait: bool, result_ty: Option<String>, self_ty: &str, out: &mut String) {
        let fc = self.c.fns.get(&key).cloned();
        let mut reason = String::new();
        // parameter renaming
        let mut map = BTreeMap::new();
        let params: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some(match &*t.pat {
                    syn::Pat::Ident(p) => p.ident.to_string(),
                    _ => "_".into(),
                }),
                _ => None,
            })
            .collect();
        let tys: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string().replace(' ', ""),
                syn::FnArg::Receiver(r) => format!("{}{}self", if r.reference.is_some() { "&" } else { "" }, if r.mutability.is_some() { "mut " } else { "" }),
            })
            .collect();
        let sigtext = format!("({}){}", tys.join(","), sig.output.to_token_stream().to_string().replace(' ', ""));
        // loops and locals
        let mut col = Collect { src, info: FnInfo { loops: vec![], locals: vec![] }, depth: 0 };
        col.visit_block(block);
        let info = col.info;
        let nargs = params.len();
        let world = self.world_keys.contains(&key);
        let mut external = self.external.contains(&key);
        if external {
            reason = "body outside of the verifier's reach in this tree".into();
        }
        if let Some(f) = &fc {
            self.used.insert(key.clone());
            if f.flag("external") {
                external = true;
                reason = "trusted body (contract assumed)".into();
            }
            if f.params.len() != params.len() {
                external = true;
                reason = format!("lost anchor: parameters {:?} expected {:?}", params, f.params);
            } else if !f.params.iter().all(|e| params.contains(e)) {
                // the same names in another order need no renaming
                for (e, a) in f.params.iter().zip(&params) {
                    if e != a {
                        map.insert(e.clone(), a.clone());
                    }
                }
            }
            if !f.locals.is_empty() {
                if f.locals.len() == info.locals.len() {
                    for (e, a) in f.locals.iter().zip(&info.locals) {
                        if e != a && !info.locals.contains(e) {
                            map.insert(e.clone(), a.clone());
                        }
                    }
                } else {
                    let missing: Vec<_> = f.locals.iter().filter(|l| !info.locals.contains(l)).cloned().collect();
                    if !missing.is_empty() && !external {
                        external = true;
                        reason = format!("lost anchor: local bindings {missing:?} not found");
                    }
                }
            }
            let same = |k: &'static str| if k == "foreach" { "for" } else { k };
            let kinds: Vec<&str> = info.loops.iter().map(|l| same(l.kind)).collect();
            let exp: Vec<&str> = f.loops.values().map(|l| if l.kind == "foreach" { "for" } else { l.kind.as_str() }).collect();
            if kinds != exp && !f.flag("external") && !external {
                external = true;
                reason = format!("lost anchor: loops {kinds:?}, contract written for {exp:?}");
            }
        }
        if fc.is_none() && self.default_external {
            external = true;
            reason = "no contract yet".into();
        }
        let marker = self.fns.len();
        // body
        let smoke = if self.smoke { "assert(false);\n" } else { "" };
        let mut v = self.bv(src, uses, barefn, self_ty.to_string());
        v.fc = fc.clone();
        v.map = map.clone();
        v.has_world = world;
        v.in_handler = result_ty.clone();
        if let syn::ReturnType::Type(_, t) = &sig.output {
            v.ret_barefn = matches!(&**t, syn::Type::BareFn(_));
        }
        if v.ret_barefn {
            if let Some(syn::Stmt::Expr(syn::Expr::Path(p), None)) = block.stmts.last() {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let r = p.span().byte_range();
                let variant = segs.join("_");
                let full = match v.uses.get(&segs[0]) {
                    Some(u) => format!("{u}::{}", segs[1..].join("::")),
                    None => segs.join("::"),
                };
                let argty = v.uses.get("Message").cloned().unwrap_or("crate::messages::Message".into());
                v.o.fnptr_values.insert(variant.clone(), (full, argty));
                v.rep(r.start, r.end, format!("crate::vp_fnptr::F::{variant}"));
            } else {
                v.unsupported = Some("function pointer value".into());
            }
        } else {
            for s in &block.stmts {
                v.visit_stmt(s);
            }
            // loop { .. break .. } x  ->  loop { .. return x .. } x
            if let [.., syn::Stmt::Expr(l, _), syn::Stmt::Expr(syn::Expr::Path(t), None)] = &block.stmts[..] {
                let tail = src[t.span().byte_range()].to_string();
                let mut b = Breaks { at: vec![] };
                match l {
                    syn::Expr::Loop(l) => b.visit_block(&l.body),
                    syn::Expr::While(l) => b.visit_block(&l.body),
                    syn::Expr::ForLoop(l) => b.visit_block(&l.body),
                    _ => (),
                }
                for r in b.at {
                    v.rep(r.start, r.end, format!("return {tail}"));
                    v.o.notes.insert("break out of a loop right before the result rewritten to return".into());
                }
            }
        }
        // loops
        if let (Some(f), false) = (&fc, external) {
            for (n, l) in &f.loops {
                let p = &info.loops[*n];
                let inv = rename(&l.inv, &map);
                if !inv.trim().is_empty() {
                    v.insp(p.body_start, 20, format!("\n{inv}"));
                }
                if let Some(it) = &l.iter {
                    if p.kind == "for" {
                        v.insp(p.iter_pos, 9, format!("{it}: "));
                    }
                }
                if !l.entry.is_empty() {
                    let off = if p.kind == "foreach" { 0 } else { 1 };
                    v.insp(p.body_start + off, 4, format!("\n{}", rename(&l.entry, &map)));
                }
                if !l.end.is_empty() {
                    if p.kind == "foreach" {
                        v.insp(p.body_end, -2, format!("; {}", rename(&l.end, &map)));
                    } else {
                        v.insp(p.body_end - 1, -2, format!(";\n{}", rename(&l.end, &map)));
                    }
                }
                if !l.before.is_empty() {
                    v.insp(p.start, 30, format!("{}\n", rename(&l.before, &map)));
                }
                if !l.after.is_empty() {
                    v.insp(p.end, -30, format!("\n{}\n", rename(&l.after, &map)));
                }
            }
        }
        if let Some(f) = &fc {
            for (i, (pat, _)) in f.at.iter().enumerate() {
                if !external && !v.at_found.contains(&i) {
                    external = true;
                    reason = format!("lost anchor: statement {pat}");
                }
            }
            if !external && v.closure_idx != f.closures.len() && !f.closures.is_empty() {
                external = true;
                reason = format!("lost anchor: {} closures, contract written for {}", v.closure_idx, f.closures.len());
            }
        }
        if let Some(u) = v.unsupported.clone() {
            if !external {
                external = true;
                reason = format!("unsupported construct: {u}");
            }
        }
        let br = block.span().byte_range();
        if key.starts_with("peer::piece_pool::PiecePool::") {
            // exclusive model of the shared pool
            let t = &src[br.clone()];
            if let Some(i) = t.find("&self.0") {
                v.rep(br.start + i, br.start + i + 1, "&mut ");
            }
            v.o.notes.insert("PiecePool: &self methods verified as &mut self (the mutex gives exclusive access)".into());
        }
        let has_tail = matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
        let mut exit_wrap = None;
        if let Some(f) = &fc {
            if !f.exit.trim().is_empty() {
                exit_wrap = Some(rename(&f.exit, &map));
            }
        }
        if let Some(x) = &exit_wrap {
            if has_tail {
                let r = block.stmts.last().unwrap().span().byte_range();
                v.insp(r.start, 40, "let vp_ret = ".to_string());
                v.insp(r.end, -40, format!(";\n{x}\nvp_ret"));
            } else {
                v.insp(br.end - 1, -40, format!("\n{x}\n"));
            }
        }
        let mut entry = String::new();
        if let Some(f) = &fc {
            entry = rename(&f.entry, &map);
        }
        let edits = std::mem::take(&mut {
            let mut e = std::mem::take(&mut v.edits);
            e.push(Edit { a: br.start + 1, b: br.start + 1, prio: 50, text: format!("\n{entry}\n{smoke}") });
            e
        });
        // BodyV borrow ends here
        let vs_edits = edits;
        drop(v);
        let body = match apply(src, br.start, br.end, vs_edits) {
            Ok(b) => b,
            Err(e) => {
                external = true;
                reason = format!("unsupported construct: {e}");
                String::from("{ unimplemented!() }")
            }
        };
        let (line, file) = (sig.fn_token.span().start().line, m.file.display().to_string());
        let vis = if in_trait { "" } else { "pub " };
        let newname = match handler {
            Some(h) => format!("{}_{h}", sig.ident),
            None => String::new(),
        };
        let st = self.sig_text(sig, src, uses, barefn, fc.as_ref(), &map, &newname, result_ty, world, &key);
        out.push_str(&format!("/*VPS{marker}*/\n"));
        if external {
            out.push_str("#[verifier::external_body]\n");
        }
        if let Some(f) = &fc {
            out.push_str(&f.attrs);
        }
        out.push_str(vis);
        out.push_str(&st);
        if let Some(f) = &fc {
            out.push_str(&rename(&f.spec, &map));
        }
        if external {
            if st.contains("impl FnMut(&mut Peer, usize)") {
                out.push_str("{ |vp_p: &mut Peer, vp_n: usize| { } }");
            } else {
                out.push_str("{ unimplemented!() }");
            }
        } else {
            out.push_str(&body);
        }
        out.push_str(&format!("\n/*VPE{marker}*/\n"));
        self.fns.push(FnRec {
            key,
            start: 0,
            end: 0,
            contracted: fc.is_some(),
            external,
            reason,
            locals: info.locals.clone(),
            sig: sigtext,
            file,
            line,
            marker,
        });
    }

    pub fn json(&self) -> String {
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
        let mut s = String::from("{\n\"functions\": [\n");
        let v: Vec<String> = self
            .fns
            .iter()
            .map(|f| {
                format!(
                    "{{\"key\": \"{}\", \"start\": {}, \"end\": {}, \"contracted\": {}, \"external\": {}, \"reason\": \"{}\", \"locals\": \"{}\", \"sig\": \"{}\", \"file\": \"{}\", \"line\": {}}}",
                    esc(&f.key), f.start, f.end, f.contracted, f.external, esc(&f.reason), f.locals.join(" "), esc(&f.sig), esc(&f.file), f.line
                )
            })
            .collect();
        s.push_str(&v.join(",\n"));
        let list = |x: Vec<String>| x.iter().map(|i| format!("\"{}\"", esc(i))).collect::<Vec<_>>().join(",\n");
        let unused: Vec<String> = self.c.fns.keys().filter(|k| !self.used.contains(*k)).cloned().collect();
        s.push_str(&format!(
            "\n],\n\"inlined\": [{}],\n\"notes\": [{}],\n\"missing\": [{}]\n}}\n",
            list(self.inlined.clone()),
            list(self.notes.iter().cloned().collect()),
            list(unused)
        ));
        s
    }
}
