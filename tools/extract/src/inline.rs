// Pre-pass: calls from functions under contract to functions that have no contract (helpers that
// were extracted by an edit) are replaced by the helper's body, at the text level. Only helpers of
// the same file with plain by-value patterns, no generics and no early exit are inlined; anything
// else is left alone (the caller then loses its anchor and is handled by the bounded stand-in).
use crate::contracts::Contracts;
use crate::Module;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let mut n = s.ident.to_string();
            if let syn::PathArguments::AngleBracketed(_) = &s.arguments {
                let a = s.arguments.to_token_stream().to_string().replace(' ', "");
                if n == "Vec" || n == "Option" || n == "HashMap" {
                    n.push_str(&a);
                }
            }
            n
        }
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn impl_prefix(i: &syn::ItemImpl) -> String {
    let t = type_name(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let l = p.segments.last().unwrap();
            let n = l.ident.to_string();
            if n == "Handler" {
                t
            } else {
                format!("{n}@{t}")
            }
        }
        None => t,
    }
}

pub fn handler_msg(i: &syn::ItemImpl) -> Option<String> {
    let (_, p, _) = i.trait_.as_ref()?;
    let l = p.segments.last()?;
    if l.ident != "Handler" {
        return None;
    }
    if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
        if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
            return Some(type_name(t));
        }
    }
    None
}

struct Helper {
    params: Vec<(String, String)>, // (pattern text, type text)
    ret: Option<String>,
    body: String,
    is_method: bool,
    self_mut: bool,
}

struct Exit(bool);
impl<'a> Visit<'a> for Exit {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.is_ident("format") && m.tokens.to_string().contains('?') {
            self.0 = true;
        }
    }
}

fn text<T: Spanned>(src: &str, t: &T) -> String {
    src[t.span().byte_range()].to_string()
}

fn helper_of(src: &str, sig: &syn::Signature, block: &syn::Block) -> Option<Helper> {
    if !sig.generics.params.is_empty() || sig.asyncness.is_some() {
        return None;
    }
    let mut e = Exit(false);
    e.visit_block(block);
    if e.0 {
        return None;
    }
    let mut h = Helper { params: vec![], ret: None, body: text(src, block), is_method: false, self_mut: false };
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                if r.reference.is_none() {
                    return None;
                }
                h.is_method = true;
                h.self_mut = r.mutability.is_some();
            }
            syn::FnArg::Typed(t) => {
                let ty = text(src, &*t.ty);
                if ty.contains("impl ") || ty.contains('\'') {
                    return None;
                }
                h.params.push((text(src, &*t.pat), ty));
            }
        }
    }
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let ty = text(src, &**t);
        if ty.contains("impl ") || ty.contains('\'') {
            return None;
        }
        h.ret = Some(ty);
    }
    Some(h)
}

struct Finder<'a> {
    src: &'a str,
    free: &'a BTreeMap<String, Helper>,
    methods: &'a BTreeMap<String, Helper>, // of the impl type: "Type::name"
    self_ty: String,
    edit: Option<(usize, usize, String)>,
    name: String,
}

impl<'a> Finder<'a> {
    fn build(&mut self, whole: std::ops::Range<usize>, h: &Helper, args: Vec<String>, name: String) {
        if args.len() != h.params.len() {
            return;
        }
        let mut t = String::from("{ ");
        // arguments are evaluated first, in order, then bound to the parameter names
        for (i, (a, (_, ty))) in args.iter().zip(&h.params).enumerate() {
            if ty.starts_with('&') && !ty.starts_with("&mut") {
                // shared references: no annotation needed when the argument is already a reference expression
                t.push_str(&format!("let vp_arg{i}: {ty} = {a}; "));
            } else {
                t.push_str(&format!("let vp_arg{i}: {ty} = {a}; "));
            }
        }
        for (i, (p, _)) in h.params.iter().enumerate() {
            t.push_str(&format!("let {p} = vp_arg{i}; "));
        }
        match &h.ret {
            Some(r) => t.push_str(&format!("let vp_out: {r} = {}; vp_out }}", h.body)),
            None => t.push_str(&format!("{} }}", h.body)),
        }
        // the block is parenthesised so that it can stand for any expression
        let t = format!("({t})");
        self.edit = Some((whole.start, whole.end, t));
        self.name = name;
    }
}

impl<'a, 'b> Visit<'b> for Finder<'a> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if self.edit.is_some() {
            return;
        }
        visit::visit_expr_call(self, c);
        if self.edit.is_some() {
            return;
        }
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let args: Vec<String> = c.args.iter().map(|a| text(self.src, a)).collect();
            let r = c.span().byte_range();
            if segs.len() == 1 {
                if let Some(h) = self.free.get(&segs[0]) {
                    self.build(r, h, args, segs[0].clone());
                }
            } else if segs.len() == 2 {
                let ty = if segs[0] == "Self" { self.self_ty.clone() } else { segs[0].clone() };
                let k = format!("{ty}::{}", segs[1]);
                if let Some(h) = self.methods.get(&k) {
                    if !h.is_method {
                        if h.body.contains("Self") && ty != self.self_ty {
                            return;
                        }
                        self.build(r, h, args, k);
                    }
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
        if self.edit.is_some() {
            return;
        }
        visit::visit_expr_method_call(self, c);
        if self.edit.is_some() {
            return;
        }
        if text(self.src, &*c.receiver) == "self" {
            let k = format!("{}::{}", self.self_ty, c.method);
            if let Some(h) = self.methods.get(&k) {
                if h.is_method {
                    let args = c.args.iter().map(|a| text(self.src, a)).collect();
                    self.build(c.span().byte_range(), h, args, k);
                }
            }
        }
    }
}

fn pass(m: &mut Module, c: &Contracts, log: &mut Vec<String>) -> bool {
    let ast = syn::parse_file(&m.src).unwrap();
    let mp = if m.path.is_empty() { "crate".to_string() } else { m.path.join("::") };
    let has = |k: &str| c.fns.contains_key(&format!("{mp}::{k}"));
    let mut free = BTreeMap::new();
    let mut methods = BTreeMap::new();
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !crate::is_cfg_dropped(&f.attrs) => {
                if !has(&f.sig.ident.to_string()) {
                    if let Some(h) = helper_of(&m.src, &f.sig, &f.block) {
                        free.insert(f.sig.ident.to_string(), h);
                    }
                }
            }
            syn::Item::Impl(i) if i.trait_.is_none() && !crate::is_cfg_dropped(&i.attrs) => {
                if !i.generics.params.is_empty() {
                    // parameters' types may mention the generics: annotation stays valid inside the same impl
                }
                let p = impl_prefix(i);
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        if crate::is_cfg_dropped(&f.attrs) {
                            continue;
                        }
                        let k = format!("{p}::{}", f.sig.ident);
                        if !has(&k) {
                            if let Some(h) = helper_of(&m.src, &f.sig, &f.block) {
                                methods.insert(k, h);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if free.is_empty() && methods.is_empty() {
        return false;
    }
    let try_fn = |key: &str, self_ty: &str, block: &syn::Block| -> Option<(usize, usize, String, String)> {
        if !has(key) {
            return None;
        }
        let mut f = Finder {
            src: &m.src,
            free: &free,
            methods: &methods,
            self_ty: self_ty.to_string(),
            edit: None,
            name: String::new(),
        };
        f.visit_block(block);
        f.edit.map(|(a, b, t)| (a, b, t, f.name))
    };
    let mut found = None;
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !crate::is_cfg_dropped(&f.attrs) => {
                let k = f.sig.ident.to_string();
                found = try_fn(&k, "", &f.block).map(|e| (k, e));
            }
            syn::Item::Impl(i) if !crate::is_cfg_dropped(&i.attrs) => {
                let p = impl_prefix(i);
                let ty = type_name(&i.self_ty);
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let mut k = format!("{p}::{}", f.sig.ident);
                        if let Some(h) = handler_msg(i) {
                            k = format!("{k}_{h}");
                        }
                        found = try_fn(&k, &ty, &f.block).map(|e| (k, e));
                        if found.is_some() {
                            break;
                        }
                    }
                }
            }
            _ => {}
        }
        if found.is_some() {
            break;
        }
    }
    if let Some((k, (a, b, t, name))) = found {
        log.push(format!("{mp}::{name} inlined into {mp}::{k}"));
        m.src.replace_range(a..b, &t);
        return true;
    }
    false
}

pub fn run(m: &mut Module, c: &Contracts, log: &mut Vec<String>) {
    let mut n = 0;
    while n < 60 && pass(m, c, log) {
        n += 1;
    }
    for ch in &mut m.children {
        run(ch, c, log);
    }
}
