// vx: mechanical extraction of functions from /repo's current source into the Verus dialect.
//
// usage: vx UNIT.vx --repo DIR --out OUT.rs --meta META.json [--units DIR]
//
// A unit file names functions of the repository and their contracts.  On every run the functions
// are parsed (syn) from the current source, passed through the fixed list of rewrites implemented
// in norm.rs / desugar.rs, printed, and joined with the contracts, loop invariants and hints.
// No function body is stored in the unit file.
mod desugar;
mod norm;
mod place;
mod unit;

use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

fn norm_ty(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn base_ty(s: &str) -> String {
    let s = s.split('<').next().unwrap();
    s.rsplit("::").next().unwrap().to_string()
}

pub fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    // conditional compilation: linux, default features; everything else that we know is off
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if s.contains("test)") || s.contains("macos") || s.contains("feature=\"coz\"") || s.contains("verif") {
                return true;
            }
            if s.contains("not(feature=\"pyo3\")") {
                return true;
            }
        }
        if a.path().segments.last().map(|s| s.ident == "test").unwrap_or(false) {
            return true;
        }
    }
    false
}

struct Found {
    generics: Option<syn::Generics>, // of the impl
    self_ty: Option<syn::Type>,
    f: syn::ImplItemFn,
    line: usize,
}

fn as_impl_fn(f: &syn::ItemFn) -> syn::ImplItemFn {
    syn::ImplItemFn {
        attrs: f.attrs.clone(),
        vis: f.vis.clone(),
        defaultness: None,
        sig: f.sig.clone(),
        block: (*f.block).clone(),
    }
}

fn nested_fn(b: &syn::Block, name: &str) -> Option<syn::ImplItemFn> {
    struct V<'a>(&'a str, Option<syn::ImplItemFn>);
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
            if i.sig.ident == self.0 {
                self.1 = Some(as_impl_fn(i));
            }
            syn::visit::visit_item_fn(self, i);
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

fn find_fn(file: &syn::File, path: &str) -> Option<Found> {
    // path: name | Type::name | Type<Args>::name | Type::name::inner
    let parts: Vec<String> = split_path(path);
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !cfg_off(&f.attrs) => {
                if f.sig.ident == parts[0] {
                    if parts.len() == 1 {
                        return Some(Found { generics: None, self_ty: None, f: as_impl_fn(f), line: f.sig.ident.span().start().line });
                    }
                    if let Some(n) = nested_fn(&f.block, &parts[1]) {
                        let line = n.sig.ident.span().start().line;
                        return Some(Found { generics: None, self_ty: None, f: n, line });
                    }
                }
            }
            syn::Item::Impl(im) if parts.len() >= 2 && !cfg_off(&im.attrs) => {
                let st = norm_ty(&im.self_ty);
                let want = parts[0].replace(' ', "");
                let ok = if want.contains('<') { st == want } else { base_ty(&st) == want };
                if !ok {
                    continue;
                }
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        if f.sig.ident == parts[1] && !cfg_off(&f.attrs) {
                            if parts.len() == 2 {
                                return Some(Found {
                                    generics: Some(im.generics.clone()),
                                    self_ty: Some((*im.self_ty).clone()),
                                    line: f.sig.ident.span().start().line,
                                    f: f.clone(),
                                });
                            }
                            if let Some(n) = nested_fn(&f.block, &parts[2]) {
                                let line = n.sig.ident.span().start().line;
                                return Some(Found { generics: None, self_ty: None, f: n, line });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

pub fn split_path(p: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '<' {
            depth += 1;
        }
        if c == '>' {
            depth -= 1;
        }
        if depth == 0 && c == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            out.push(cur.clone());
            cur.clear();
            i += 2;
            continue;
        }
        cur.push(c);
        i += 1;
    }
    out.push(cur);
    out
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

/// Calls (function or method names) made inside a function, for the inliner.
fn simple_helper(f: &syn::ImplItemFn) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, &f.block);
    !v.0
}

/// Inlines calls to functions of the same file that are new, i.e. not known to the unit.
struct Inliner<'a> {
    file: &'a syn::File,
    known: &'a dyn Fn(&str) -> bool,
    self_ty: Option<String>,
    depth: usize,
    done: Vec<String>,
    failed: Vec<String>,
    n: usize,
}

impl<'a> Inliner<'a> {
    fn make(&mut self, name: &str, callee: &syn::ImplItemFn, recv: Option<syn::Expr>, args: Vec<syn::Expr>, tried: bool) -> Option<syn::Expr> {
        if self.depth > 3 {
            return None;
        }
        // `?` in the helper means the same at the call site when the call itself is under `?`
        let simple = simple_helper(callee);
        if !simple && !tried {
            self.failed.push(name.to_string());
            return None;
        }
        if !simple {
            // only `?`, no `return`
            struct R(bool);
            impl<'ast> syn::visit::Visit<'ast> for R {
                fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                    self.0 = true;
                }
                fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
            }
            let mut r = R(false);
            syn::visit::Visit::visit_block(&mut r, &callee.block);
            if r.0 {
                self.failed.push(name.to_string());
                return None;
            }
        }
        let mut stmts: Vec<syn::Stmt> = vec![];
        let mut k = 0;
        let mut body = callee.block.clone();
        if let Some(recv) = recv {
            // `self` stays `self` only when the receiver is `self`
            if recv.to_token_stream().to_string() != "self" {
                self.failed.push(name.to_string());
                return None;
            }
        }
        let mut names: Vec<(String, String)> = vec![];
        for inp in callee.sig.inputs.iter() {
            if let syn::FnArg::Typed(pt) = inp {
                let a = args.get(k)?.clone();
                k += 1;
                let pat = (*pt.pat).clone();
                let ty = (*pt.ty).clone();
                if let syn::Pat::Ident(pi) = &pat {
                    let fresh = format!("{}", pi.ident);
                    names.push((pi.ident.to_string(), fresh));
                }
                let has_impl = ty.to_token_stream().to_string().contains("impl ");
                if has_impl {
                    stmts.push(syn::parse_quote!(let #pat = #a;));
                } else {
                    stmts.push(syn::parse_quote!(let #pat: #ty = #a;));
                }
            }
        }
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        stmts.extend(body.stmts);
        self.done.push(name.to_string());
        self.n += 1;
        Some(syn::parse_quote!({ #(#stmts)* }))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // E? where E is an inlinable call: strip await
        let mut tried = false;
        let mut target: Option<syn::Expr> = None;
        {
            let mut inner: &syn::Expr = e;
            if let syn::Expr::Try(t) = inner {
                tried = true;
                inner = &t.expr;
            }
            if let syn::Expr::Await(a) = inner {
                inner = &a.base;
            }
            let was_tried = tried;
            match inner {
                syn::Expr::MethodCall(m) => {
                    let nm = m.method.to_string();
                    if m.receiver.to_token_stream().to_string() == "self" {
                        if let Some(st) = self.self_ty.clone() {
                            let p = format!("{}::{}", st, nm);
                            if !(self.known)(&p) && !(self.known)(&nm) {
                                if let Some(f) = find_fn(self.file, &p) {
                                    let args = m.args.iter().cloned().collect();
                                    let recv = (*m.receiver).clone();
                                    target = self.make(&nm, &f.f, Some(recv), args, was_tried);
                                }
                            }
                        }
                    }
                }
                syn::Expr::Call(c) => {
                    if let syn::Expr::Path(p) = &*c.func {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let nm = segs.last().unwrap().clone();
                        let full = if segs.len() == 1 {
                            Some(nm.clone())
                        } else if segs.len() == 2 && segs[0] == "Self" {
                            self.self_ty.clone().map(|t| format!("{}::{}", t, nm))
                        } else {
                            None
                        };
                        if let Some(full) = full {
                            if !(self.known)(&full) && !(self.known)(&nm) {
                                if let Some(f) = find_fn(self.file, &full) {
                                    let has_self = f.f.sig.receiver().is_some();
                                    if !has_self {
                                        let args = c.args.iter().cloned().collect();
                                        target = self.make(&nm, &f.f, None, args, was_tried);
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(mut t) = target {
            std::mem::swap(&mut t, e);
            if tried {
                let inner = e.clone();
                *e = syn::parse_quote!(#inner?);
            }
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut unit_path = String::new();
    let mut repo = "/repo".to_string();
    let mut out = String::new();
    let mut meta = String::new();
    let mut show = false;
    let mut probe = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => {
                repo = args[i + 1].clone();
                i += 1;
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 1;
            }
            "--meta" => {
                meta = args[i + 1].clone();
                i += 1;
            }
            "--show" => show = true,
            "--probe" => probe = true,
            a => unit_path = a.to_string(),
        }
        i += 1;
    }
    let mut u = unit::parse(&unit_path);
    if probe {
        for e in u.entries.iter_mut() {
            if let unit::Entry::Fn(f) = e {
                if !f.trusted {
                    f.probe = true;
                    f.hints.insert(0, ("fn-start".into(), "    proof { if vx_any(0) { assert(false); /*VXPROBE*/ } }\n".into()));
                    f.hints.push(("fn-end?".into(), "    proof { if vx_any(1) { assert(false); /*VXPROBE*/ } }\n".into()));
                }
            }
        }
    }
    let u = u;
    let mut problems: Vec<String> = vec![];
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut text = String::new();
    let mut fn_meta: Vec<String> = vec![];
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unreachable_patterns, unused_labels, unused_must_use)]\n");
    text.push_str("use vstd::prelude::*;\nverus! {\npub uninterp spec fn vx_any(k: int) -> bool;\n");
    let dir = std::path::Path::new(&unit_path).parent().unwrap().to_path_buf();
    for inc in &u.includes {
        let _ = writeln!(text, "//@@ include {}", inc);
        text.push_str(&std::fs::read_to_string(dir.join(inc)).unwrap_or_else(|e| panic!("{}: {}", inc, e)));
        text.push('\n');
    }
    let known_names: Vec<String> = u
        .entries
        .iter()
        .filter_map(|e| if let unit::Entry::Fn(f) = e { Some(f.name.clone()) } else { None })
        .chain(u.externs.iter().cloned())
        .collect();
    let mut fmt_cache: Vec<(usize, String)> = vec![]; // (entry idx, plain rust)
    let mut plain = String::new();
    let mut order: Vec<(usize, String)> = vec![];
    let mut placed: BTreeMap<usize, place::Placed> = BTreeMap::new();
    let _ = &mut fmt_cache;
    for (idx, e) in u.entries.iter().enumerate() {
        match e {
            unit::Entry::Text(_) => {}
            unit::Entry::Item(it) => {
                let file = match load(&mut files, &repo, &it.source, &u) {
                    Ok(f) => f,
                    Err(m) => {
                        problems.push(m);
                        continue;
                    }
                };
                match emit_item(file, it, &u) {
                    Some(s) => {
                        let _ = writeln!(plain, "const VX_BEGIN_{}: () = ();\n{}\nconst VX_END_{}: () = ();", idx, s, idx);
                        order.push((idx, String::new()));
                    }
                    None => problems.push(format!("item not found: {}", it.name)),
                }
            }
            unit::Entry::Fn(f) => {
                let file = match load(&mut files, &repo, &f.source, &u) {
                    Ok(x) => x.clone(),
                    Err(m) => {
                        problems.push(m);
                        continue;
                    }
                };
                let found = match find_fn(&file, &f.name) {
                    Some(x) => x,
                    None => {
                        problems.push(format!("function not found: {}", f.name));
                        continue;
                    }
                };
                let self_base = found.self_ty.as_ref().map(|t| base_ty(&norm_ty(t)));
                let mut func = found.f.clone();
                let src_hash = func.block.to_token_stream().to_string();
                let mut inlined = vec![];
                if !f.keep_from.is_empty() {
                    if let Err(m) = norm::keep_part(&mut func.block, &f.keep_from, f.keep_to.as_deref()) {
                        problems.push(format!("{}: {}", f.name, m));
                    }
                }
                if !f.trusted {
                    let kn = |s: &str| {
                        let last = s.rsplit("::").next().unwrap();
                        known_names.iter().any(|k| k == s || k.rsplit("::").next().unwrap() == last)
                    };
                    let mut inl = Inliner { file: &file, known: &kn, self_ty: self_base.clone(), depth: 0, done: vec![], failed: vec![], n: 0 };
                    inl.visit_block_mut(&mut func.block);
                    for x in &inl.failed {
                        problems.push(format!("{}: helper {} is not under contract and cannot be inlined", f.name, x));
                    }
                    inlined = inl.done;
                }
                let mut ctx = norm::Ctx::new(&u, f);
                norm::normalize(&mut func, &mut ctx);
                let locals = norm::locals(&func);
                if !f.locals.is_empty() && f.locals != locals {
                    if !norm::rename(&mut func, &locals, &f.locals) {
                        ctx.notes.push("locals differ from the recorded ones".into());
                    } else {
                        ctx.notes.push("locals renamed to the recorded ones".into());
                    }
                }
                desugar::desugar(&mut func, &mut ctx);
                let pl = place::place(&mut func, f, &mut ctx);
                for m in &ctx.problems {
                    problems.push(format!("{}: {}", f.name, m));
                }
                let shape = pl.shape.clone();
                if !f.trusted {
                    if let Some(s) = &f.shape {
                        if *s != shape.replace(['W', 'I', 'C'], "L") {
                            problems.push(format!("{}: loop structure is {} and the invariants are written for {}", f.name, shape, s));
                        }
                    }
                }
                fn_meta.push(format!(
                    "{{\"name\":{},\"source\":{},\"line\":{},\"trusted\":{},\"props\":{},\"shape\":{},\"locals\":{},\"inlined\":{},\"notes\":{},\"body_hash\":{}}}",
                    jstr(&f.name),
                    jstr(&f.source),
                    found.line,
                    f.trusted,
                    jlist(&f.props),
                    jstr(&shape),
                    jlist(&locals),
                    jlist(&inlined),
                    jlist(&ctx.notes),
                    jstr(&format!("{:x}", fnv(&src_hash)))
                ));
                if show {
                    eprintln!("== {} shape={} locals={}", f.name, shape, locals.join(" "));
                }
                // textual form
                let mut s = String::new();
                let fun = func.to_token_stream().to_string();
                if let (Some(st), false) = (&found.self_ty, f.free) {
                    let mut st = st.clone();
                    norm::fix_type(&mut st, &u);
                    let mut g = found.generics.clone().unwrap();
                    norm::fix_generics(&mut g, &u);
                    let (ig, _, wc) = g.split_for_impl();
                    let _ = write!(s, "impl {} {} {} {{ {} }}", ig.to_token_stream(), st.to_token_stream(), wc.to_token_stream(), fun);
                } else {
                    s.push_str(&fun);
                }
                let _ = writeln!(plain, "const VX_BEGIN_{}: () = ();\n{}\nconst VX_END_{}: () = ();", idx, s, idx);
                order.push((idx, String::new()));
                placed.insert(idx, pl);
            }
        }
    }
    // pretty-print the plain Rust with rustfmt so that verifier messages point at readable lines
    let pretty = place::rustfmt(&plain);
    let mut pieces: BTreeMap<usize, String> = BTreeMap::new();
    {
        let mut cur: Option<usize> = None;
        for line in pretty.lines() {
            let t = line.trim();
            if let Some(r) = t.strip_prefix("const VX_BEGIN_") {
                cur = Some(r.split(':').next().unwrap().parse().unwrap());
                continue;
            }
            if t.starts_with("const VX_END_") {
                cur = None;
                continue;
            }
            if let Some(c) = cur {
                pieces.entry(c).or_default().push_str(line);
                pieces.get_mut(&c).unwrap().push('\n');
            }
        }
    }
    for (idx, e) in u.entries.iter().enumerate() {
        match e {
            unit::Entry::Text(t) => {
                text.push_str("//@@ text\n");
                text.push_str(t);
                text.push('\n');
            }
            unit::Entry::Item(it) => {
                if let Some(p) = pieces.get(&idx) {
                    let _ = writeln!(text, "//@@ item {}", it.name);
                    match &it.constfn {
                        Some(c) => {
                            let f = unit::FnSpec { ret: Some("r".into()), spec: c.clone(), ..Default::default() };
                            text.push_str(&place::splice(p, &f, &place::Placed { shape: String::new(), unplaced: vec![] }));
                        }
                        None => text.push_str(p),
                    }
                }
            }
            unit::Entry::Fn(f) => {
                if let (Some(p), Some(pl)) = (pieces.get(&idx), placed.get(&idx)) {
                    let _ = writeln!(text, "//@@ fn {}", f.name);
                    text.push_str(&place::splice(p, f, pl));
                    text.push_str("//@@ end\n");
                }
            }
        }
    }
    text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&out, &text).unwrap();
    let assumed = count_assumed(&text);
    let m = format!(
        "{{\"unit\":{},\"functions\":[{}],\"problems\":{},\"assumed\":{},\"rewrites\":{}}}",
        jstr(&u.name),
        fn_meta.join(","),
        jlist(&problems),
        jlist(&assumed),
        jlist(&norm::rewrites_documented())
    );
    std::fs::write(&meta, m).unwrap();
    for p in &problems {
        eprintln!("vx: {}", p);
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Names of everything assumed rather than proved in the generated text.
fn count_assumed(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut pend: Option<&str> = None;
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("//") {
            continue;
        }
        for k in ["external_body", "assume_specification", "axiom fn", "admit()", "assume(", "uninterp"] {
            if t.contains(k) {
                pend = Some(k);
                if k == "assume(" || k == "admit()" {
                    out.push(format!("{} in: {}", k, t));
                    pend = None;
                }
            }
        }
        if let Some(k) = pend {
            for kw in ["fn ", "struct ", "assume_specification"] {
                if let Some(p) = t.find(kw) {
                    let mut name: String = t[p..].chars().take(70).collect();
                    if let Some(q) = name.find(|c| c == '(' || c == '{' || c == ';') {
                        name.truncate(q);
                    }
                    out.push(format!("{}: {}", k, name.trim()));
                    pend = None;
                    break;
                }
            }
        }
    }
    out
}

/// Closure lifting: R.METHOD(|p| body) becomes NAME(R.vx_METHOD(), captures..) with fn NAME(p, captures..) { body }.
struct Lifter<'a> {
    method: &'a str,
    name: &'a str,
    sig: syn::Signature,
    made: Vec<syn::Item>,
}

impl<'a> VisitMut for Lifter<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let mut new = None;
        if let syn::Expr::MethodCall(m) = e {
            if m.method == self.method && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    let k = self.made.len();
                    let name = quote::format_ident!("{}{}", self.name, if k == 0 { String::new() } else { k.to_string() });
                    let mut sig = self.sig.clone();
                    sig.ident = name.clone();
                    let mut caps: Vec<syn::Pat> = vec![];
                    for (i, a) in sig.inputs.iter_mut().enumerate() {
                        if let syn::FnArg::Typed(t) = a {
                            if i == 0 {
                                if let Some(p) = c.inputs.first() {
                                    let p = if let syn::Pat::Type(pt) = p { (*pt.pat).clone() } else { p.clone() };
                                    t.pat = Box::new(p);
                                }
                            } else {
                                caps.push((*t.pat).clone());
                            }
                        }
                    }
                    let body = &c.body;
                    let block: syn::Block = if let syn::Expr::Block(b) = &**body { b.block.clone() } else { syn::parse_quote!({ #body }) };
                    self.made.push(syn::Item::Fn(syn::ItemFn { attrs: vec![], vis: syn::Visibility::Inherited, sig, block: Box::new(block) }));
                    let r = &m.receiver;
                    let vm = quote::format_ident!("vx_{}", self.method);
                    new = Some(syn::parse_quote!({ let vx_cell = #r.#vm(); #name(vx_cell #(, #caps)*) }));
                }
            }
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn apply_lifts(file: &mut syn::File, src: &str, u: &unit::Unit) -> Result<(), String> {
    for (s, method, name, sig) in &u.lifts {
        if s != src {
            continue;
        }
        let sig = sig.strip_prefix("fn").unwrap_or(sig);
        let sg: syn::TraitItemFn = syn::parse_str(&format!("fn {}{};", name, sig)).map_err(|e| format!("@lift {}: {}", name, e))?;
        let mut l = Lifter { method, name, sig: sg.sig, made: vec![] };
        l.visit_file_mut(file);
        file.items.append(&mut l.made);
    }
    Ok(())
}

fn load<'a>(files: &'a mut BTreeMap<String, syn::File>, repo: &str, src: &str, u: &unit::Unit) -> Result<&'a syn::File, String> {
    if !files.contains_key(src) {
        let p = format!("{}/{}", repo, src);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
        let mut f = syn::parse_file(&t).map_err(|e| format!("{}: {}", p, e))?;
        apply_lifts(&mut f, src, u)?;
        files.insert(src.to_string(), f);
    }
    Ok(files.get(src).unwrap())
}

/// the statics declared by lazy_static!, as constants
fn lazies(file: &syn::File) -> Vec<syn::Item> {
    struct L(Vec<syn::Item>);
    impl syn::parse::Parse for L {
        fn parse(s: syn::parse::ParseStream) -> syn::Result<L> {
            let mut v = vec![];
            while !s.is_empty() {
                let attrs = s.call(syn::Attribute::parse_outer)?;
                let _: syn::Visibility = s.parse()?;
                s.parse::<syn::Token![static]>()?;
                s.parse::<syn::Token![ref]>()?;
                let n: syn::Ident = s.parse()?;
                s.parse::<syn::Token![:]>()?;
                let t: syn::Type = s.parse()?;
                s.parse::<syn::Token![=]>()?;
                let x: syn::Expr = s.parse()?;
                s.parse::<syn::Token![;]>()?;
                if !cfg_off(&attrs) {
                    v.push(syn::parse_quote!(pub const #n: #t = #x;));
                }
            }
            Ok(L(v))
        }
    }
    let mut out = vec![];
    for i in &file.items {
        if let syn::Item::Macro(m) = i {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "lazy_static") {
                if let Ok(l) = m.mac.parse_body::<L>() {
                    out.extend(l.0);
                }
            }
        }
    }
    out
}

fn emit_item(file: &syn::File, it: &unit::ItemSpec, u: &unit::Unit) -> Option<String> {
    for i in file.items.iter().chain(lazies(file).iter()) {
        let mut i = i.clone();
        let (name, attrs) = match &i {
            syn::Item::Const(c) => (format!("const {}", c.ident), c.attrs.clone()),
            syn::Item::Static(c) => (format!("static {}", c.ident), c.attrs.clone()),
            syn::Item::Struct(c) => (format!("struct {}", c.ident), c.attrs.clone()),
            syn::Item::Enum(c) => (format!("enum {}", c.ident), c.attrs.clone()),
            syn::Item::Type(c) => (format!("type {}", c.ident), c.attrs.clone()),
            _ => continue,
        };
        if name != it.name || cfg_off(&attrs) {
            continue;
        }
        norm::fix_item(&mut i, it, u);
        if let (Some(_), syn::Item::Const(c)) = (&it.constfn, &i) {
            let (n, t, x) = (&c.ident, &c.ty, &c.expr);
            let f: syn::Item = syn::parse_quote!(pub fn #n() -> VxRet<#t> { vx_fn!(); #x });
            return Some(f.to_token_stream().to_string());
        }
        return Some(i.to_token_stream().to_string());
    }
    None
}
