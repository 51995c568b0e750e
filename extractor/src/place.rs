// Phase C: numbering of loops, markers for invariants and hints, and the final textual splice.
use crate::norm::Ctx;
use crate::unit::FnSpec;
use quote::{format_ident, ToTokens};
use syn::visit_mut::{self, VisitMut};

pub struct Placed {
    pub shape: String,
    pub unplaced: Vec<String>,
}

/// Loop nesting, in source order: L, L(L), ...; L a `loop`, W a `while`, I a loop over an iterator,
/// C a chain of iterator adapters with an accumulator
struct Loops {
    n: usize,
    shape: String,
}
impl Loops {
    fn mark(&mut self, kind: char, b: &mut syn::Block) {
        let id = self.n;
        self.n += 1;
        self.shape.push(kind);
        let before = self.shape.len();
        self.shape.push('(');
        visit_mut::visit_block_mut(self, b);
        if self.shape.len() == before + 1 {
            self.shape.pop();
        } else {
            self.shape.push(')');
        }
        let l = syn::LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
        b.stmts.insert(0, syn::parse_quote!(vx_loop!(#l);));
    }
}
impl VisitMut for Loops {
    fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        let kind = match () {
            _ if !w.cond.to_token_stream().to_string().contains("vx_it") => 'W',
            _ if w.body.to_token_stream().to_string().contains("vx_acc") => 'C',
            _ => 'I',
        };
        self.mark(kind, &mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut syn::ExprLoop) {
        self.mark('L', &mut w.body);
    }
}

/// Calls in a statement outside nested blocks.
struct Calls(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_block(&mut self, _: &'ast syn::Block) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
}

fn loop_of_stmt(s: &syn::Stmt) -> Option<usize> {
    let e = match s {
        syn::Stmt::Expr(e, _) => e,
        _ => return None,
    };
    let b = match e {
        syn::Expr::While(w) => &w.body,
        syn::Expr::Loop(w) => &w.body,
        _ => return None,
    };
    if let Some(syn::Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("vx_loop") {
            return m.mac.tokens.to_string().parse().ok();
        }
    }
    None
}

struct Hints<'a> {
    want: &'a [(String, String)],
    used: Vec<bool>,
    counts: std::collections::BTreeMap<String, usize>,
    returns: usize,
}

fn marker(k: usize) -> syn::Stmt {
    let l = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
    syn::parse_quote!(vx_hint!(#l);)
}

impl<'a> Hints<'a> {
    fn at(&mut self, anchor: &str) -> Vec<syn::Stmt> {
        let mut v = vec![];
        for (i, (a, _)) in self.want.iter().enumerate() {
            if a == anchor {
                self.used[i] = true;
                v.push(marker(i));
            }
        }
        v
    }
}

impl<'a> VisitMut for Hints<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mut before = vec![];
            let mut after = vec![];
            if let Some(l) = loop_of_stmt(&s) {
                before.extend(self.at(&format!("before-loop {}", l)));
                after.extend(self.at(&format!("after-loop {}", l)));
            }
            let mut c = Calls(vec![]);
            syn::visit::Visit::visit_stmt(&mut c, &s);
            for name in c.0 {
                let k = self.counts.entry(name.clone()).or_insert(0);
                let kk = *k;
                *k += 1;
                before.extend(self.at(&format!("before-call {} {}", name, kk)));
                after.extend(self.at(&format!("after-call {} {}", name, kk)));
                before.extend(self.at(&format!("before-call {} *", name)));
                after.extend(self.at(&format!("after-call {} *", name)));
            }
            if let syn::Stmt::Local(l) = &s {
                let name = l.pat.to_token_stream().to_string();
                let name = name.trim_start_matches("mut ").split(' ').next().unwrap_or("").to_string();
                after.extend(self.at(&format!("after-let {}", name)));
                before.extend(self.at(&format!("before-let {}", name)));
                let k = self.counts.entry(format!("let {}", name)).or_insert(0);
                let kk = *k;
                *k += 1;
                after.extend(self.at(&format!("after-let {} {}", name, kk)));
                before.extend(self.at(&format!("before-let {} {}", name, kk)));
            }
            // loop body start / end
            let lid = loop_of_stmt(&s);
            visit_mut::visit_stmt_mut(self, &mut s);
            if let Some(l) = lid {
                let st = self.at(&format!("loop-start {}", l));
                let en = self.at(&format!("loop-end {}", l));
                let body = match &mut s {
                    syn::Stmt::Expr(syn::Expr::While(w), _) => &mut w.body,
                    syn::Stmt::Expr(syn::Expr::Loop(w), _) => &mut w.body,
                    _ => unreachable!(),
                };
                for (j, x) in st.into_iter().enumerate() {
                    body.stmts.insert(1 + j, x);
                }
                // a tail expression of unit type gets a semicolon
                if !en.is_empty() {
                    if let Some(syn::Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    body.stmts.extend(en);
                }
            }
            out.extend(before);
            let tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            if tail && !after.is_empty() {
                if let syn::Stmt::Expr(e, None) = s {
                    if lid.is_some() {
                        out.push(syn::Stmt::Expr(e, None));
                        out.extend(after);
                    } else {
                        out.push(syn::parse_quote!(let vx_tail = #e;));
                        out.extend(after);
                        out.push(syn::Stmt::Expr(syn::parse_quote!(vx_tail), None));
                    }
                }
            } else {
                out.push(s);
                out.extend(after);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Break(br) = e {
            let k = self.counts.entry("break".into()).or_insert(0);
            let kk = *k;
            *k += 1;
            let mut h = self.at(&format!("before-break {}", kk));
            h.extend(self.at("before-break *"));
            if !h.is_empty() && br.expr.is_none() {
                *e = syn::parse_quote!({ #(#h)* #br; });
            }
            return;
        }
        if let syn::Expr::Return(r) = e {
            let k = self.returns;
            self.returns += 1;
            let mut h = self.at(&format!("before-return {}", k));
            h.extend(self.at("before-return *"));
            if !h.is_empty() {
                let new: syn::Expr = match &r.expr {
                    Some(x) => syn::parse_quote!({ let vx_ret = #x; #(#h)* return vx_ret; }),
                    None => syn::parse_quote!({ #(#h)* return; }),
                };
                *e = new;
            }
        }
    }
}

pub fn place(f: &mut syn::ImplItemFn, spec: &FnSpec, ctx: &mut Ctx) -> Placed {
    let mut l = Loops { n: 0, shape: String::new() };
    if !spec.trusted {
        l.visit_block_mut(&mut f.block);
    }
    let mut h = Hints { want: &spec.hints, used: vec![false; spec.hints.len()], counts: Default::default(), returns: 0 };
    if !spec.trusted {
        h.visit_block_mut(&mut f.block);
        let st = h.at("fn-start");
        let mut en = h.at("fn-end");
        let endless = matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Loop(_), _)) | Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
        let pe = h.at("fn-end?");
        if !endless {
            en.extend(pe);
        }
        if !en.is_empty() {
            let has_tail = matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
            if has_tail {
                if let Some(syn::Stmt::Expr(e, None)) = f.block.stmts.pop() {
                    f.block.stmts.push(syn::parse_quote!(let vx_ret = #e;));
                    f.block.stmts.extend(en);
                    f.block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(vx_ret), None));
                }
            } else {
                f.block.stmts.extend(en);
            }
        }
        let rest = std::mem::take(&mut f.block.stmts);
        f.block.stmts = st;
        f.block.stmts.extend(rest);
    }
    let mut unplaced = vec![];
    for (i, u) in h.used.iter().enumerate() {
        if !u {
            unplaced.push(spec.hints[i].0.clone());
            ctx.problems.push(format!("hint anchor not found: {}", spec.hints[i].0));
        }
    }
    for k in spec.loops.keys() {
        if *k >= l.n {
            ctx.problems.push(format!("no loop {}", k));
        }
    }
    // contract marker and named result
    f.block.stmts.insert(0, syn::parse_quote!(vx_fn!();));
    if let (Some(_), syn::ReturnType::Type(_, t)) = (&spec.ret, &f.sig.output) {
        let id = format_ident!("VxRet");
        let t = t.clone();
        f.sig.output = syn::parse_quote!(-> #id<#t>);
    }
    Placed { shape: l.shape, unplaced }
}

pub fn rustfmt(s: &str) -> String {
    use std::io::Write;
    let mut c = match std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTFLAGS")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return fallback(s),
    };
    let mut inp = c.stdin.take().unwrap();
    let s2 = s.to_string();
    let th = std::thread::spawn(move || {
        let _ = inp.write_all(s2.as_bytes());
    });
    let o = c.wait_with_output().unwrap();
    let _ = th.join();
    if o.status.success() {
        String::from_utf8(o.stdout).unwrap()
    } else {
        fallback(s)
    }
}

fn fallback(s: &str) -> String {
    s.replace("; ", ";\n").replace("{ ", "{\n").replace("} ", "}\n")
}

pub fn splice(p: &str, f: &FnSpec, _pl: &Placed) -> String {
    let mut s = p.to_string();
    // result name
    if let Some(r) = &f.ret {
        if let Some(i) = s.find("VxRet<") {
            let start = i + "VxRet<".len();
            let b = s.as_bytes();
            let mut depth = 1;
            let mut j = start;
            while depth > 0 {
                match b[j] {
                    b'<' => depth += 1,
                    b'>' if b[j - 1] != b'-' && b[j - 1] != b'=' => depth -= 1,
                    _ => {}
                }
                j += 1;
            }
            let ty = s[start..j - 1].to_string();
            s = format!("{}({}: {}){}", &s[..i], r, ty, &s[j..]);
        }
    }
    // contract: before the body's opening brace
    if let Some(i) = s.find("vx_fn!();") {
        let open = s[..i].rfind('{').unwrap();
        s = format!("{}\n{}\n{{{}", &s[..open], f.spec, &s[i + "vx_fn!();".len()..]);
    }
    // loops
    let mut k = 0;
    loop {
        let m = match s.find("vx_loop!(") {
            Some(m) => m,
            None => break,
        };
        let end = m + s[m..].find(';').unwrap() + 1;
        let id: usize = s[m + "vx_loop!(".len()..m + s[m..].find(')').unwrap()].trim().parse().unwrap();
        let open = s[..m].rfind('{').unwrap();
        let mut inv = f.loops.get(&id).cloned().unwrap_or_default();
        let kw = s[..open].rfind("while ").unwrap_or(0);
        let kw = kw.max(s[..open].rfind("loop").unwrap_or(0));
        if let (Some(p), Some(q)) = (s[kw..open].find("vx_it"), s[kw..open].find(".next()")) {
            if p < q && s[kw + p + 5..kw + q].chars().all(|c| c.is_ascii_digit()) {
                let n = &s[kw + p + 5..kw + q];
                let auto = format!("    invariant vx_it{n}.seq() == vx_sq{n}, vx_it{n}.pos() <= vx_sq{n}.len(),\n");
                if !inv.contains("decreases") {
                    inv.push_str(&format!("    decreases vx_sq{n}.len() - vx_it{n}.pos()\n"));
                }
                inv = match inv.find("invariant") {
                    Some(i) => format!("{}{}{}", &inv[..i], auto, &inv[i + "invariant".len()..]),
                    None => format!("{}{}", auto, inv),
                };
            }
        }
        let pr = if f.probe { "\n    proof { if vx_any(2) { assert(false); /*VXPROBE*/ } }\n" } else { "" };
        s = format!("{}\n{}\n{{{}{}", &s[..open], inv, pr, &s[end..]);
        k += 1;
        if k > 1000 {
            break;
        }
    }
    while let Some(m) = s.find("vx_ghost!(") {
        let end = m + s[m..].find(';').unwrap() + 1;
        let id: usize = s[m + "vx_ghost!(".len()..m + s[m..].find(')').unwrap()].trim().parse().unwrap();
        s = format!("{}let ghost vx_sq{id} = vx_it{id}.seq();{}", &s[..m], &s[end..]);
    }
    for (n, t) in &f.lettys {
        s = s.replace(&format!("let {};", n), &format!("let {}: {};", n, t));
        s = s.replace(&format!("let mut {} = ", n), &format!("let mut {}: {} = ", n, t)).replace(&format!("let {} = ", n), &format!("let {}: {} = ", n, t));
    }
    // hints
    loop {
        let m = match s.find("vx_hint!(") {
            Some(m) => m,
            None => break,
        };
        let end = m + s[m..].find(';').unwrap() + 1;
        let id: usize = s[m + "vx_hint!(".len()..m + s[m..].find(')').unwrap()].trim().parse().unwrap();
        s = format!("{}\n{}\n{}", &s[..m], f.hints[id].1, &s[end..]);
    }
    let mut attrs = String::new();
    for a in &f.attrs {
        attrs.push_str(a);
        attrs.push('\n');
    }
    if f.trusted {
        attrs.push_str("#[verifier::external_body]\n");
    }
    // attributes go in front of the fn keyword
    if !attrs.is_empty() {
        if let Some(i) = find_fn_kw(&s) {
            s = format!("{}{}{}", &s[..i], attrs, &s[i..]);
        }
    }
    s
}

fn find_fn_kw(s: &str) -> Option<usize> {
    let i = s.find("pub fn ").or_else(|| s.find("fn "))?;
    Some(i)
}
