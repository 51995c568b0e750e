// Phase B: closures and iterators become explicit control flow.
use crate::norm::{toks, Ctx};
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};

const SOURCES: &[&str] = &[
    "iter", "into_iter", "iter_mut", "keys", "values", "drain", "node_indices", "edges_directed", "neighbors", "neighbors_directed", "lines", "by_ref", "rev",
    "iter_ones", "chars", "enumerate", "raw_nodes", "node_weights", "edges", "raw_edges", "edge_references",
];
const ADAPTERS: &[&str] = &["map", "filter", "filter_map", "flat_map", "take_while", "inspect"];
const CONSUMERS: &[&str] = &["collect", "max", "min", "sum", "for_each", "any", "all", "find", "count", "last", "fold"];

fn unroll(e: &syn::Expr) -> (syn::Expr, Vec<syn::ExprMethodCall>) {
    let mut v = vec![];
    let mut cur = e.clone();
    while let syn::Expr::MethodCall(m) = cur {
        cur = (*m.receiver).clone();
        v.push(m);
    }
    v.reverse();
    (cur, v)
}

fn reroll(base: syn::Expr, ms: &[syn::ExprMethodCall]) -> syn::Expr {
    let mut e = base;
    for m in ms {
        let mut m = m.clone();
        m.receiver = Box::new(e);
        e = syn::Expr::MethodCall(m);
    }
    e
}

fn mname(m: &syn::ExprMethodCall) -> String {
    m.method.to_string()
}

fn has_closure_or_fn_arg(m: &syn::ExprMethodCall) -> bool {
    m.args.len() >= 1 && matches!(m.args.last().unwrap(), syn::Expr::Closure(_) | syn::Expr::Path(_))
}

/// Statements binding `pat` to `e`, without reference patterns.
pub fn bind(pat: &syn::Pat, e: syn::Expr, n: &mut usize) -> Vec<syn::Stmt> {
    match pat {
        syn::Pat::Reference(r) => bind(&r.pat, syn::parse_quote!(*(#e)), n),
        syn::Pat::Paren(p) => bind(&p.pat, e, n),
        syn::Pat::Wild(_) => vec![],
        syn::Pat::Type(t) => bind(&t.pat, e, n),
        syn::Pat::Tuple(t) if toks(t).contains('&') => {
            let mut pre = vec![];
            let mut post = vec![];
            let mut elems: Vec<syn::Pat> = vec![];
            for p in t.elems.iter() {
                if toks(p).contains('&') {
                    let id = format_ident!("vx_r{}", *n);
                    *n += 1;
                    elems.push(syn::parse_quote!(#id));
                    post.extend(bind(p, syn::parse_quote!(#id), n));
                } else {
                    elems.push(p.clone());
                }
            }
            pre.push(syn::parse_quote!(let (#(#elems),*) = #e;));
            pre.extend(post);
            pre
        }
        p => vec![syn::parse_quote!(let #p = #e;)],
    }
}

fn block_of(stmts: Vec<syn::Stmt>, tail: Option<syn::Expr>) -> syn::Block {
    let mut s = stmts;
    if let Some(t) = tail {
        s.push(syn::Stmt::Expr(t, None));
    }
    syn::Block { brace_token: Default::default(), stmts: s }
}

fn expr_block(b: syn::Block) -> syn::Expr {
    syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
}

enum K {
    // what to do with an element that reaches the end of the chain
    Acc(Box<dyn Fn(syn::Expr) -> Vec<syn::Stmt>>),
}

struct D<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
}

impl<'a, 'b> D<'a, 'b> {
    fn tmp(&mut self) -> syn::Ident {
        let i = format_ident!("vx_t{}", self.ctx.n_tmp);
        self.ctx.n_tmp += 1;
        i
    }

    fn is_iter_chain(&self, base: &syn::Expr, ms: &[syn::ExprMethodCall]) -> Option<usize> {
        // index of the first closure adapter or consumer of an iterator chain
        let mut src = matches!(base, syn::Expr::Range(_)) || matches!(base, syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(_)));
        let cons = ms.iter().any(|m| {
            let n = mname(m);
            CONSUMERS.contains(&n.as_str()) && n != "count" && n != "last" && n != "find"
        });
        let base_ident = matches!(base, syn::Expr::Path(_));
        for (i, m) in ms.iter().enumerate() {
            let n = mname(m);
            if SOURCES.contains(&n.as_str()) {
                src = true;
            }
            if ADAPTERS.contains(&n.as_str()) && has_closure_or_fn_arg(m) {
                if src || n == "filter_map" || (base_ident && i == 0 && cons) {
                    return Some(i);
                }
            }
            if CONSUMERS.contains(&n.as_str()) && src && n != "count" && n != "last" {
                return Some(i);
            }
        }
        None
    }

    /// `e` is the source of a loop: rewrite native iterator constructors to the stand-ins.
    fn src_expr(&mut self, base: syn::Expr, ms: &[syn::ExprMethodCall]) -> syn::Expr {
        let base = match base {
            syn::Expr::Paren(p) => *p.expr,
            b => b,
        };
        let base = match &base {
            syn::Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    self.ctx.problems.push("inclusive range".into());
                }
                syn::parse_quote!(vx_range(#a, #b))
            }
            _ => base,
        };
        reroll(base, ms)
    }

    fn closure_apply(&mut self, f: &syn::Expr, arg: syn::Expr) -> (Vec<syn::Stmt>, syn::Expr) {
        match f {
            syn::Expr::Closure(c) => {
                let p = c.inputs.first().cloned();
                let pre = match p {
                    Some(p) => bind(&p, arg, &mut self.ctx.n_tmp),
                    None => vec![],
                };
                (pre, (*c.body).clone())
            }
            p => (vec![], syn::parse_quote!(#p(#arg))),
        }
    }

    /// push an Option-valued tail expression to the consumer
    fn push_option(&mut self, e: syn::Expr, k: &dyn Fn(syn::Expr) -> Vec<syn::Stmt>) -> Vec<syn::Stmt> {
        match e {
            syn::Expr::Block(b) => {
                let mut stmts = b.block.stmts.clone();
                let out = match stmts.pop() {
                    Some(syn::Stmt::Expr(t, None)) => {
                        let mut s = self.fix_returns(stmts, k);
                        s.extend(self.push_option(t, k));
                        s
                    }
                    Some(x) => {
                        stmts.push(x);
                        self.fix_returns(stmts, k)
                    }
                    None => vec![],
                };
                let bl = block_of(out, None);
                vec![syn::Stmt::Expr(expr_block(bl), None)]
            }
            syn::Expr::If(i) => {
                let t = self.push_option(expr_block(i.then_branch.clone()), k);
                let c = i.cond.clone();
                let el = i.else_branch.clone().map(|(_, e)| self.push_option(*e, k)).unwrap_or_default();
                vec![syn::parse_quote!(if #c { #(#t)* } else { #(#el)* })]
            }
            syn::Expr::Match(m) => {
                let mut arms = vec![];
                for a in &m.arms {
                    let b = self.push_option((*a.body).clone(), k);
                    let p = &a.pat;
                    let arm: syn::Arm = match &a.guard {
                        Some((_, g)) => syn::parse_quote!(#p if #g => { #(#b)* }),
                        None => syn::parse_quote!(#p => { #(#b)* }),
                    };
                    arms.push(arm);
                }
                let ex = &m.expr;
                vec![syn::parse_quote!(match #ex { #(#arms)* })]
            }
            syn::Expr::Call(c) if toks(&c.func) == "Some" => k(c.args.first().unwrap().clone()),
            syn::Expr::Path(p) if toks(&p) == "None" => vec![],
            syn::Expr::Return(r) => {
                let mut s = match r.expr {
                    Some(e) => self.push_option(*e, k),
                    None => vec![],
                };
                s.push(syn::parse_quote!(continue;));
                s
            }
            e => {
                let t = self.tmp();
                let s = k(syn::parse_quote!(#t));
                vec![syn::parse_quote!(match #e { Some(#t) => { #(#s)* } None => {} })]
            }
        }
    }

    /// `return X` inside a filter_map closure: hand X on and continue with the next element
    fn fix_returns(&mut self, stmts: Vec<syn::Stmt>, k: &dyn Fn(syn::Expr) -> Vec<syn::Stmt>) -> Vec<syn::Stmt> {
        struct R<'x>(&'x dyn Fn(syn::Expr) -> Vec<syn::Stmt>);
        impl<'x> VisitMut for R<'x> {
            fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                if let syn::Expr::Return(r) = e {
                    let mut s: Vec<syn::Stmt> = match r.expr.as_deref() {
                        Some(syn::Expr::Call(c)) if toks(&c.func) == "Some" => (self.0)(c.args.first().unwrap().clone()),
                        Some(syn::Expr::Path(p)) if toks(p) == "None" => vec![],
                        Some(o) => {
                            let s = (self.0)(syn::parse_quote!(vx_ro));
                            vec![syn::parse_quote!(match #o { Some(vx_ro) => { #(#s)* } None => {} })]
                        }
                        None => vec![],
                    };
                    s.push(syn::parse_quote!(continue;));
                    *e = expr_block(block_of(s, None));
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut b = block_of(stmts, None);
        R(k).visit_block_mut(&mut b);
        b.stmts
    }

    fn chain_body(&mut self, ms: &[syn::ExprMethodCall], elem: syn::Expr, k: &dyn Fn(syn::Expr) -> Vec<syn::Stmt>) -> Vec<syn::Stmt> {
        if ms.is_empty() {
            return k(elem);
        }
        let m = &ms[0];
        let rest = &ms[1..];
        let n = mname(m);
        let f = m.args.last().cloned();
        match n.as_str() {
            "map" => {
                let (mut pre, val) = self.closure_apply(f.as_ref().unwrap(), elem);
                // block-bodied closures: keep their statements
                let val = match val {
                    syn::Expr::Block(b) if matches!(b.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) => {
                        let mut st = b.block.stmts;
                        let t = match st.pop() {
                            Some(syn::Stmt::Expr(t, None)) => t,
                            _ => unreachable!(),
                        };
                        pre.extend(st);
                        t
                    }
                    v => v,
                };
                if rest.is_empty() {
                    pre.extend(k(val));
                    pre
                } else {
                    let t = self.tmp();
                    pre.push(syn::parse_quote!(let #t = #val;));
                    pre.extend(self.chain_body(rest, syn::parse_quote!(#t), k));
                    pre
                }
            }
            "filter" => {
                let t = self.tmp();
                let (pre, val) = self.closure_apply(f.as_ref().unwrap(), syn::parse_quote!(&#t));
                let inner = self.chain_body(rest, syn::parse_quote!(#t), k);
                let c = self.tmp();
                vec![
                    syn::parse_quote!(let #t = #elem;),
                    syn::parse_quote!(let #c = { #(#pre)* #val };),
                    syn::parse_quote!(if #c { #(#inner)* }),
                ]
            }
            "filter_map" | "flat_map" => {
                let (mut pre, val) = self.closure_apply(f.as_ref().unwrap(), elem);
                // evaluate lazily through the continuation
                let inner_rest: Vec<syn::ExprMethodCall> = rest.to_vec();
                if inner_rest.is_empty() {
                    let s = self.push_option(val, k);
                    pre.extend(s);
                } else {
                    let t = self.tmp();
                    let inner = self.chain_body(&inner_rest, syn::parse_quote!(#t), k);
                    pre.push(syn::parse_quote!(match #val { Some(#t) => { #(#inner)* } None => {} }));
                }
                pre
            }
            "cloned" | "copied" => {
                let t = self.tmp();
                let mut v: Vec<syn::Stmt> = vec![syn::parse_quote!(let #t = (#elem).clone();)];
                v.extend(self.chain_body(rest, syn::parse_quote!(#t), k));
                v
            }
            o => {
                self.ctx.problems.push(format!("iterator adapter .{}() after a closure is not supported", o));
                vec![]
            }
        }
    }

    fn make_loop(&mut self, base: syn::Expr, src: &[syn::ExprMethodCall], adapters: &[syn::ExprMethodCall], pat: Option<&syn::Pat>, k: &dyn Fn(syn::Expr) -> Vec<syn::Stmt>, label: Option<syn::Label>) -> (Vec<syn::Stmt>, syn::Expr) {
        let by_ref = src.last().map(|m| mname(m) == "by_ref").unwrap_or(false) && src.len() == 1;
        let (pre, it): (Vec<syn::Stmt>, syn::Expr) = if by_ref {
            (vec![], base)
        } else {
            let id = format_ident!("vx_it{}", self.ctx.n_it);
            self.ctx.n_it += 1;
            let s = self.src_expr(base, src);
            let g = syn::LitInt::new(&(self.ctx.n_it - 1).to_string(), proc_macro2::Span::call_site());
            (vec![syn::parse_quote!(let mut #id = #s.vx_into_iter();), syn::parse_quote!(vx_ghost!(#g);)], syn::parse_quote!(#id))
        };
        let (elem_pat, body): (syn::Pat, Vec<syn::Stmt>) = match pat {
            Some(p) if adapters.is_empty() && !toks(p).contains('&') => {
                let body = k(syn::parse_quote!(vx_unused));
                (p.clone(), body)
            }
            Some(p) => {
                let e = format_ident!("vx_e{}", self.ctx.n_tmp);
                self.ctx.n_tmp += 1;
                let n0 = &mut 1000usize;
                let p2 = p.clone();
                let k2 = |x: syn::Expr| -> Vec<syn::Stmt> {
                    let mut n1 = 1000usize;
                    let mut s = bind(&p2, x, &mut n1);
                    s.extend(k(syn::parse_quote!(vx_unused)));
                    s
                };
                let _ = n0;
                (syn::parse_quote!(#e), self.chain_body(adapters, syn::parse_quote!(#e), &k2))
            }
            None => {
                let e = format_ident!("vx_e{}", self.ctx.n_tmp);
                self.ctx.n_tmp += 1;
                (syn::parse_quote!(#e), self.chain_body(adapters, syn::parse_quote!(#e), k))
            }
        };
        let w: syn::Expr = match label {
            Some(l) => syn::parse_quote!(#l while let Some(#elem_pat) = #it.next() { #(#body)* }),
            None => syn::parse_quote!(while let Some(#elem_pat) = #it.next() { #(#body)* }),
        };
        (pre, w)
    }

    fn consume(&mut self, base: syn::Expr, ms: &[syn::ExprMethodCall], first: usize, ty: Option<String>) -> Option<syn::Expr> {
        // [src..first) [adapters..cons) cons rest
        let mut c = first;
        while c < ms.len() && !CONSUMERS.contains(&mname(&ms[c]).as_str()) {
            let n = mname(&ms[c]);
            if !ADAPTERS.contains(&n.as_str()) && n != "cloned" && n != "copied" {
                break;
            }
            c += 1;
        }
        if c >= ms.len() || !CONSUMERS.contains(&mname(&ms[c]).as_str()) {
            return None;
        }
        let src = &ms[..first];
        let adapters = &ms[first..c];
        let cons = &ms[c];
        let rest = &ms[c + 1..];
        let acc = format_ident!("vx_acc{}", self.ctx.n_acc);
        self.ctx.n_acc += 1;
        let acc2 = acc.clone();
        let turbofish = cons.turbofish.as_ref().map(|t| toks(&t.args));
        let n = mname(cons);
        let mut tail_acc: syn::Expr = syn::parse_quote!(#acc);
        let (init, k): (syn::Stmt, K) = match n.as_str() {
            "collect" => {
                let idx = self.ctx.n_collect;
                self.ctx.n_collect += 1;
                let t = self.ctx.f.collects.get(&idx).cloned().or(turbofish).or(ty.clone()).unwrap_or_else(|| "Vec<_>".into());
                let t = t.replace(' ', "");
                let (init, k): (syn::Stmt, K) = if t.starts_with("HashSet") {
                    (syn::parse_quote!(let mut #acc = HashSet::new();), K::Acc(Box::new(move |e| vec![syn::parse_quote!(#acc2.insert(#e);)])))
                } else if t.starts_with("HashMap") {
                    (
                        syn::parse_quote!(let mut #acc = HashMap::new();),
                        K::Acc(Box::new(move |e| {
                            if let syn::Expr::Tuple(t) = &e {
                                let (a, b) = (&t.elems[0], &t.elems[1]);
                                vec![syn::parse_quote!(#acc2.insert(#a, #b);)]
                            } else {
                                vec![syn::parse_quote!(let vx_kv = #e;), syn::parse_quote!(#acc2.insert(vx_kv.0, vx_kv.1);)]
                            }
                        })),
                    )
                } else if t.starts_with("Option<Vec") || t.starts_with("Result<Vec") {
                    // stops at the first None (Err), which is the result
                    let stop = format_ident!("{}s", acc);
                    let x = self.tmp();
                    if t.starts_with("Option") {
                        tail_acc = syn::parse_quote!(match #stop { None => Some(#acc), Some(_) => None });
                        (
                            syn::parse_quote!(let (mut #acc, mut #stop) = (Vec::new(), None::<()>);),
                            K::Acc(Box::new(move |e| vec![syn::parse_quote!(match #e { Some(#x) => { #acc2.push(#x); } None => { #stop = Some(()); break; } })])),
                        )
                    } else {
                        tail_acc = syn::parse_quote!(match #stop { None => Ok(#acc), Some(vx_err) => Err(vx_err) });
                        (
                            syn::parse_quote!(let (mut #acc, mut #stop) = (Vec::new(), None);),
                            K::Acc(Box::new(move |e| vec![syn::parse_quote!(match #e { Ok(#x) => { #acc2.push(#x); } Err(vx_err) => { #stop = Some(vx_err); break; } })])),
                        )
                    }
                } else {
                    if !(t.starts_with("Vec") || t == "ValueMaps") {
                        self.ctx.problems.push(format!("collect into {} is not supported", t));
                    }
                    (syn::parse_quote!(let mut #acc = Vec::new();), K::Acc(Box::new(move |e| vec![syn::parse_quote!(#acc2.push(#e);)])))
                };
                (init, k)
            }
            "max" => (
                syn::parse_quote!(let mut #acc = None;),
                K::Acc(Box::new(move |e| {
                    vec![
                        syn::parse_quote!(let vx_v = #e;),
                        syn::parse_quote!(#acc2 = match #acc2 { Some(vx_m) => if vx_v >= vx_m { Some(vx_v) } else { Some(vx_m) }, None => Some(vx_v) };),
                    ]
                })),
            ),
            "min" => (
                syn::parse_quote!(let mut #acc = None;),
                K::Acc(Box::new(move |e| {
                    vec![
                        syn::parse_quote!(let vx_v = #e;),
                        syn::parse_quote!(#acc2 = match #acc2 { Some(vx_m) => if vx_v < vx_m { Some(vx_v) } else { Some(vx_m) }, None => Some(vx_v) };),
                    ]
                })),
            ),
            "sum" => {
                let t: syn::Type = syn::parse_str(&turbofish.unwrap_or_else(|| "u64".into())).unwrap();
                (syn::parse_quote!(let mut #acc: #t = 0;), K::Acc(Box::new(move |e| vec![syn::parse_quote!(#acc2 = #acc2 + #e;)])))
            }
            "count" => (syn::parse_quote!(let mut #acc: usize = 0;), K::Acc(Box::new(move |e| vec![syn::parse_quote!(let _vx_c = #e;), syn::parse_quote!(#acc2 = #acc2 + 1;)]))),
            "any" | "all" | "for_each" => {
                let f = cons.args.first().unwrap().clone();
                let is_any = n == "any";
                let init: syn::Stmt = match n.as_str() {
                    "any" => syn::parse_quote!(let mut #acc = false;),
                    "all" => syn::parse_quote!(let mut #acc = true;),
                    _ => syn::parse_quote!(let #acc = ();),
                };
                let nn = n.clone();
                (
                    init,
                    K::Acc(Box::new(move |e| {
                        let (pre, val): (Vec<syn::Stmt>, syn::Expr) = match &f {
                            syn::Expr::Closure(c) => {
                                let mut q = 2000usize;
                                (bind(c.inputs.first().unwrap(), e, &mut q), (*c.body).clone())
                            }
                            p => (vec![], syn::parse_quote!(#p(#e))),
                        };
                        if nn == "for_each" {
                            let mut v = pre;
                            v.push(syn::Stmt::Expr(val, Some(Default::default())));
                            v
                        } else if is_any {
                            vec![syn::parse_quote!(if { #(#pre)* #val } { #acc2 = true; break; })]
                        } else {
                            vec![syn::parse_quote!(if !({ #(#pre)* #val }) { #acc2 = false; break; })]
                        }
                    })),
                )
            }
            o => {
                self.ctx.problems.push(format!("iterator consumer .{}() is not supported", o));
                return None;
            }
        };
        let K::Acc(k) = k;
        let (pre, w) = self.make_loop(base, src, adapters, None, &*k, None);
        let tail = reroll(tail_acc, rest);
        let mut stmts: Vec<syn::Stmt> = vec![];
        stmts.extend(pre);
        stmts.push(init);
        stmts.push(syn::Stmt::Expr(w, None));
        Some(expr_block(block_of(stmts, Some(tail))))
    }

    /// `G.filter_map(|n, w| NODE, |_, w| Some(..))`: NODE for every node in index order, collected; the
    /// stand-in `vx_filter_graph` keeps the nodes with a value and the edges between them.  The edge
    /// closure has to be a plain `Some(..)`.
    fn graph_filter_map(&mut self, mc: &syn::ExprMethodCall) -> Option<syn::Expr> {
        let (nc, ec) = match (&mc.args[0], &mc.args[1]) {
            (syn::Expr::Closure(a), syn::Expr::Closure(b)) if a.inputs.len() == 2 && b.inputs.len() == 2 => (a.clone(), b.clone()),
            _ => return None,
        };
        let mut eb = (*ec.body).clone();
        while let syn::Expr::Block(b) = &eb {
            match b.block.stmts.as_slice() {
                [syn::Stmt::Expr(x, None)] => eb = x.clone(),
                _ => break,
            }
        }
        let edge_some = matches!(&eb, syn::Expr::Call(c) if toks(&c.func) == "Some" && matches!(c.args.first(), Some(syn::Expr::Path(_)) | Some(syn::Expr::Tuple(_)) | Some(syn::Expr::Unary(_))));
        if !edge_some {
            self.ctx.problems.push("filter_map of a graph whose edge closure is not Some(..)".into());
            return None;
        }
        let g = (*mc.receiver).clone();
        if !matches!(g, syn::Expr::Path(_)) {
            self.ctx.problems.push("filter_map of a graph that is not a local variable".into());
            return None;
        }
        let keep = format_ident!("vx_keep{}", self.ctx.n_keep);
        let label = syn::Lifetime::new(&format!("'vx_g{}", self.ctx.n_keep), proc_macro2::Span::call_site());
        self.ctx.n_keep += 1;
        let it = format_ident!("vx_it{}", self.ctx.n_it);
        let gl = syn::LitInt::new(&self.ctx.n_it.to_string(), proc_macro2::Span::call_site());
        self.ctx.n_it += 1;
        let el = self.tmp();
        let mut pre = bind(&nc.inputs[0], syn::parse_quote!(#el), &mut self.ctx.n_tmp);
        pre.extend(bind(&nc.inputs[1], syn::parse_quote!(#g.vx_at(#el)), &mut self.ctx.n_tmp));
        // `return X` hands X on for this node
        struct R(syn::Ident, syn::Lifetime);
        impl VisitMut for R {
            fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let syn::Expr::Return(r) = e {
                    let (k, l) = (&self.0, &self.1);
                    let x = r.expr.clone();
                    *e = syn::parse_quote!({ #k.push(#x); continue #l; });
                }
            }
        }
        let mut body = (*nc.body).clone();
        R(keep.clone(), label.clone()).visit_expr_mut(&mut body);
        let v = self.tmp();
        let (stmts, tail) = match body {
            syn::Expr::Block(b) if matches!(b.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) => {
                let mut st = b.block.stmts;
                match st.pop() {
                    Some(syn::Stmt::Expr(t, None)) => (st, t),
                    _ => unreachable!(),
                }
            }
            o => (vec![], o),
        };
        Some(syn::parse_quote!({
            let mut #keep = Vec::new();
            let mut #it = #g.node_indices().vx_into_iter();
            vx_ghost!(#gl);
            #label: while let Some(#el) = #it.next() {
                #(#pre)*
                #(#stmts)*
                let #v = #tail;
                #keep.push(#v);
            }
            #g.vx_filter_graph(#keep)
        }))
    }

    fn rewrite(&mut self, e: &mut syn::Expr, ty: Option<String>) -> bool {
        match e {
            syn::Expr::ForLoop(f) => {
                let pat = (*f.pat).clone();
                let body = f.body.stmts.clone();
                // `for mut item in MAP.iter_mut() { item.F = E; }`: one key at a time
                let (base, ms) = unroll(&f.expr);
                if ms.last().map(|m| mname(m) == "iter_mut").unwrap_or(false) {
                    let m = reroll(base, &ms[..ms.len() - 1]);
                    let kid = format_ident!("vx_k{}", self.ctx.n_tmp);
                    self.ctx.n_tmp += 1;
                    let p2: syn::Pat = match &pat {
                        syn::Pat::Ident(i) => {
                            let id = &i.ident;
                            syn::parse_quote!(#id)
                        }
                        p => p.clone(),
                    };
                    let new: syn::Expr = syn::parse_quote!(for #kid in #m.vx_keys() { let #p2 = #m.get_mut(&#kid).unwrap(); #(#body)* });
                    *e = new;
                    return self.rewrite(e, None);
                }
                let first = self.is_iter_chain(&base, &ms).unwrap_or(ms.len());
                let (pre, w) = self.make_loop(base, &ms[..first], &ms[first..], Some(&pat), &|_| body.clone(), f.label.clone());
                let mut stmts = pre;
                stmts.push(syn::Stmt::Expr(w, None));
                *e = expr_block(block_of(stmts, None));
                true
            }
            syn::Expr::MethodCall(mc) => {
                let n = mname(mc);
                if n == "extend" && mc.args.len() == 1 {
                    let r = &mc.receiver;
                    let a = &mc.args[0];
                    let new: syn::Expr = syn::parse_quote!(for vx_x in #a { #r.push(vx_x); });
                    *e = new;
                    return self.rewrite(e, None);
                }
                if n == "filter_map" && mc.args.len() == 2 {
                    if let Some(new) = self.graph_filter_map(&mc) {
                        *e = new;
                        return true;
                    }
                }
                let (base, ms) = unroll(e);
                // retained consumer without closures: .collect() directly on a source
                if let Some(first) = self.is_iter_chain(&base, &ms) {
                    if mname(&ms[first]) == "collect" {
                        let t = ms[first].turbofish.as_ref().map(|t| toks(&t.args)).or(ty.clone()).unwrap_or_else(|| "Vec<_>".into());
                        if t.starts_with("Vec") {
                            self.ctx.n_collect += 1;
                            let src = self.src_expr(base, &ms[..first]);
                            let v: syn::Expr = syn::parse_quote!(#src.vx_into_iter().vx_collect_vec());
                            *e = reroll(v, &ms[first + 1..]);
                            return true;
                        }
                    }
                    if let Some(new) = self.consume(base, &ms, first, ty) {
                        *e = new;
                        return true;
                    }
                    return false;
                }
                // Option / Result combinators with closures
                let mc = match e {
                    syn::Expr::MethodCall(m) => m.clone(),
                    _ => unreachable!(),
                };
                let r = (*mc.receiver).clone();
                let arg0 = mc.args.first().cloned();
                let lit_closure = matches!(arg0, Some(syn::Expr::Closure(_)));
                let fn_path = matches!(arg0, Some(syn::Expr::Path(_)));
                let is_result = || {
                    let s = toks(&r);
                    self.ctx.u.result_fns.iter().any(|f| s.contains(&format!("{}(", f)))
                };
                match n.as_str() {
                    // the text of an error is dropped
                    "with_context" if lit_closure => {
                        *e = syn::parse_quote!(#r.vx_context());
                        true
                    }
                    "map" if lit_closure || fn_path => {
                        let res = is_result();
                        let t = self.tmp();
                        let (pre, v) = self.closure_apply(&arg0.unwrap(), syn::parse_quote!(#t));
                        *e = if res {
                            syn::parse_quote!(match #r { Ok(#t) => { #(#pre)* Ok(#v) } Err(vx_err) => Err(vx_err) })
                        } else {
                            syn::parse_quote!(match #r { Some(#t) => { #(#pre)* Some(#v) } None => None })
                        };
                        true
                    }
                    "and_then" if lit_closure => {
                        let t = self.tmp();
                        let (pre, v) = self.closure_apply(&arg0.unwrap(), syn::parse_quote!(#t));
                        *e = syn::parse_quote!(match #r { Some(#t) => { #(#pre)* #v } None => None });
                        true
                    }
                    "map_err" if lit_closure => {
                        let t = self.tmp();
                        let (pre, v) = self.closure_apply(&arg0.unwrap(), syn::parse_quote!(#t));
                        *e = syn::parse_quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#t) => { #(#pre)* Err(#v) } });
                        true
                    }
                    "unwrap_or_else" if lit_closure => {
                        let c = match arg0 {
                            Some(syn::Expr::Closure(c)) => c,
                            _ => unreachable!(),
                        };
                        let body = &c.body;
                        *e = if c.inputs.is_empty() {
                            syn::parse_quote!(match #r { Some(vx_some) => vx_some, None => #body })
                        } else {
                            let p = &c.inputs[0];
                            syn::parse_quote!(match #r { Ok(vx_ok) => vx_ok, Err(#p) => #body })
                        };
                        true
                    }
                    "then" if lit_closure || fn_path => {
                        let v: syn::Expr = match arg0.unwrap() {
                            syn::Expr::Closure(c) => *c.body,
                            p => syn::parse_quote!(#p()),
                        };
                        *e = syn::parse_quote!(if #r { Some(#v) } else { None });
                        true
                    }
                    "remove_if" if mc.args.len() == 2 => {
                        let (k, c) = match (&mc.args[0], &mc.args[1]) {
                            (k, syn::Expr::Closure(c)) if c.inputs.len() == 2 => (k.clone(), c.clone()),
                            _ => return false,
                        };
                        let (kp, vp, b) = (c.inputs[0].clone(), c.inputs[1].clone(), c.body);
                        let kb: Option<syn::Stmt> = if matches!(kp, syn::Pat::Wild(_)) { None } else { Some(syn::parse_quote!(let #kp = vx_rk;)) };
                        let vb: Option<syn::Stmt> = if matches!(vp, syn::Pat::Wild(_)) { None } else { Some(syn::parse_quote!(let #vp = vx_rv;)) };
                        *e = syn::parse_quote!({
                            let vx_rk = #k;
                            let vx_rc = match #r.get(vx_rk) { Some(vx_rv) => { #kb #vb #b } None => false };
                            if vx_rc { #r.remove(vx_rk) } else { None }
                        });
                        true
                    }
                    "or_insert_with" if lit_closure => {
                        if let syn::Expr::MethodCall(en) = &r {
                            if en.method == "entry" {
                                let (m, k) = (&en.receiver, &en.args[0]);
                                let v: syn::Expr = match arg0.unwrap() {
                                    syn::Expr::Closure(c) => *c.body,
                                    _ => unreachable!(),
                                };
                                *e = syn::parse_quote!(#m.vx_entry_or_insert(#k, #v));
                                return true;
                            }
                        }
                        false
                    }
                    "or_insert" => {
                        if let syn::Expr::MethodCall(en) = &r {
                            if en.method == "entry" {
                                let (m, k) = (&en.receiver, &en.args[0]);
                                let v = arg0.unwrap();
                                *e = syn::parse_quote!(#m.vx_entry_or_insert(#k, #v));
                                return true;
                            }
                        }
                        false
                    }
                    _ => false,
                }
            }
            _ => false,
        }
    }
}

impl<'a, 'b> VisitMut for D<'a, 'b> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let ty = match &l.pat {
            syn::Pat::Type(t) => Some(toks(&t.ty)),
            _ => None,
        };
        if let Some(init) = &mut l.init {
            if ty.is_some() {
                while self.rewrite(&mut init.expr, ty.clone()) {}
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        while self.rewrite(e, None) {}
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
}

/// Method renames: native iterator constructors to the stand-ins; panicking accessors in panics-ok functions.
struct Names<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
}
impl<'a, 'b> VisitMut for Names<'a, 'b> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = mname(m);
        let new = match n.as_str() {
            "iter" => Some("vx_iter"),
            "into_iter" => Some("vx_into_iter"),
            "unwrap_or_default" => Some("vx_unwrap_or_default"),
            "expect" if self.ctx.f.panics_ok => Some("vx_expect_ok"),
            "unwrap" if self.ctx.f.panics_ok => Some("vx_unwrap_ok"),
            _ => None,
        };
        if let Some(x) = new {
            m.method = format_ident!("{}", x);
            if x == "vx_expect_ok" {
                m.args.clear();
            }
        }
        if let Some(x) = self.ctx.u.methodmap.get(&n) {
            m.method = format_ident!("{}", x);
        }
        if self.ctx.f.eff && self.ctx.u.eff.contains(&n) {
            m.args.push(syn::parse_quote!(eff));
        }
    }
    fn visit_expr_assign_mut(&mut self, a: &mut syn::ExprAssign) {
        // X[k].f = v on a stand-in collection
        fn place(e: &mut syn::Expr, ix: &dyn Fn(&str) -> Option<String>) {
            match e {
                syn::Expr::Field(f) => place(&mut f.base, ix),
                syn::Expr::Index(i) => {
                    let b = toks(&i.expr);
                    let l = b.rsplit('.').next().unwrap().trim_start_matches("(*").trim_end_matches(')').to_string();
                    if let Some(m) = ix(&l) {
                        let m = format_ident!("{}_mut", m);
                        let (x, k) = (&i.expr, &i.index);
                        *e = syn::parse_quote!(#x.#m(#k));
                    }
                }
                _ => {}
            }
        }
        if matches!(&*a.left, syn::Expr::Field(_)) {
            let u = self.ctx.u;
            place(&mut a.left, &|l| u.index.get(l).cloned());
        }
        visit_mut::visit_expr_assign_mut(self, a);
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if self.ctx.f.eff && self.ctx.u.eff.contains(&n) {
                c.args.push(syn::parse_quote!(eff));
            }
            for (f, k) in &self.ctx.u.mutargs {
                if *f == n {
                    if let Some(syn::Expr::Reference(r)) = c.args.iter_mut().nth(*k) {
                        r.mutability = Some(Default::default());
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // indexing of stand-in collections
        visit_mut::visit_expr_mut(self, e);
        // x[a..], x[..b], x[a..b] (with or without a leading &) become calls that return the slice by reference
        let sl = match &*e {
            syn::Expr::Reference(r) => &*r.expr,
            x => x,
        };
        if let syn::Expr::Index(i) = sl {
            if let syn::Expr::Range(r) = &*i.index {
                let x = &i.expr;
                let new: Option<syn::Expr> = match (&r.start, &r.end, &r.limits) {
                    (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(syn::parse_quote!(#x.vx_slice_to(#b))),
                    (Some(a), None, _) => Some(syn::parse_quote!(#x.vx_slice_from(#a))),
                    (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(syn::parse_quote!(#x.vx_slice(#a, #b))),
                    (None, None, _) => Some(syn::parse_quote!(#x.vx_slice_full())),
                    _ => None,
                };
                if let Some(n) = new {
                    *e = n;
                    return;
                }
            }
        }
        if let syn::Expr::Reference(r) = e {
            // (the inner index was rewritten before this node was reached)
            if let syn::Expr::MethodCall(m) = &*r.expr {
                if m.method.to_string().starts_with("vx_slice") {
                    *e = (*r.expr).clone();
                    return;
                }
            }
        }
        if let syn::Expr::Index(i) = e {
            let b = toks(&i.expr);
            let l = b.rsplit('.').next().unwrap().trim_start_matches("(*").trim_end_matches(')').to_string();
            if let Some(m) = self.ctx.u.index.get(&l) {
                let m = format_ident!("{}", m);
                let (x, k) = (&i.expr, &i.index);
                *e = syn::parse_quote!(#x.#m(#k));
            }
        }
        // `a == &b` compares what the references lead to: `*a == b`
        if let syn::Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                let strip = |x: &syn::Expr| match x {
                    syn::Expr::Reference(r) if r.mutability.is_none() => Some((*r.expr).clone()),
                    _ => None,
                };
                let (l, r) = (strip(&b.left), strip(&b.right));
                if l.is_some() || r.is_some() {
                    let de = |x: &syn::Expr| -> syn::Expr { syn::parse_quote!(*#x) };
                    let nl = l.unwrap_or_else(|| de(&b.left));
                    let nr = r.unwrap_or_else(|| de(&b.right));
                    *b.left = nl;
                    *b.right = nr;
                }
            }
        }
        // operators on stand-in types, named by the unit
        if let syn::Expr::Binary(b) = e {
            let ops = &self.ctx.f.opcalls;
            let (l, r) = (toks(&b.left), toks(&b.right));
            let strip = |s: &str| s.trim_start_matches('*').trim_start_matches('(').trim_end_matches(')').to_string();
            if ops.contains(&strip(&l)) || ops.contains(&strip(&r)) {
                let f = match b.op {
                    syn::BinOp::Sub(_) => "vx_sub",
                    syn::BinOp::Add(_) => "vx_add",
                    syn::BinOp::Mul(_) => "vx_mul",
                    syn::BinOp::Div(_) => "vx_div",
                    syn::BinOp::Lt(_) => "vx_lt",
                    syn::BinOp::Gt(_) => "vx_gt",
                    syn::BinOp::Le(_) => "vx_le",
                    syn::BinOp::Ge(_) => "vx_ge",
                    syn::BinOp::Eq(_) => "vx_eq",
                    syn::BinOp::Ne(_) => "vx_ne",
                    _ => return,
                };
                let f = format_ident!("{}", f);
                let (l, r) = (&b.left, &b.right);
                *e = syn::parse_quote!(#f(#l, #r));
            }
        }
    }
}

/// Reference patterns left over (in match arms, if-let, while-let).
struct RefPats {
    n: usize,
    bad: Vec<String>,
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut post: Vec<syn::Stmt> = vec![];
        self.strip(&mut a.pat, &mut post);
        if !post.is_empty() {
            if a.guard.is_some() {
                self.bad.push("reference pattern with a guard".into());
            }
            let b = &a.body;
            a.body = Box::new(syn::parse_quote!({ #(#post)* #b }));
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut syn::ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let syn::Expr::Let(l) = &mut *i.cond {
            let mut post: Vec<syn::Stmt> = vec![];
            self.strip(&mut l.pat, &mut post);
            post.append(&mut i.then_branch.stmts);
            i.then_branch.stmts = post;
        }
    }
    fn visit_expr_while_mut(&mut self, i: &mut syn::ExprWhile) {
        visit_mut::visit_expr_while_mut(self, i);
        if let syn::Expr::Let(l) = &mut *i.cond {
            let mut post: Vec<syn::Stmt> = vec![];
            self.strip(&mut l.pat, &mut post);
            post.append(&mut i.body.stmts);
            i.body.stmts = post;
        }
    }
}
impl RefPats {
    fn strip(&mut self, p: &mut syn::Pat, post: &mut Vec<syn::Stmt>) {
        struct S<'x>(&'x mut RefPats, &'x mut Vec<syn::Stmt>);
        impl<'x> VisitMut for S<'x> {
            fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
                if let syn::Pat::Reference(r) = p {
                    if let syn::Pat::Ident(i) = &*r.pat {
                        let id = i.ident.clone();
                        let fresh = format_ident!("vx_p{}", self.0.n);
                        self.0.n += 1;
                        self.1.push(syn::parse_quote!(let #id = *#fresh;));
                        *p = syn::parse_quote!(#fresh);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        S(self, post).visit_pat_mut(p);
    }
}

/// `let p = loop { .. break v; .. };` becomes `let p; loop { .. p = v; break; .. }`
struct LoopVal(usize);
impl VisitMut for LoopVal {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        struct Br(syn::Ident, bool);
        impl VisitMut for Br {
            fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                match e {
                    syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_) => {}
                    syn::Expr::Break(br) if br.label.is_none() && br.expr.is_some() => {
                        let (n, v) = (&self.0, br.expr.clone().unwrap());
                        *e = syn::parse_quote!({ #n = #v; break; });
                        self.1 = true;
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let syn::Stmt::Local(l) = &mut s {
                let (inner, ty) = match &l.pat {
                    syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                if let (syn::Pat::Ident(i), Some(init)) = (&inner, &mut l.init) {
                    if let syn::Expr::Loop(w) = &mut *init.expr {
                        let id = i.ident.clone();
                        let lv = quote::format_ident!("vx_lv{}", self.0);
                        let mut v = Br(lv.clone(), false);
                        v.visit_block_mut(&mut w.body);
                        if v.1 {
                            let w = w.clone();
                            self.0 += 1;
                            let m = &i.mutability;
                            match ty {
                                Some(t) => out.push(syn::parse_quote!(let #lv: #t;)),
                                None => out.push(syn::parse_quote!(let #lv;)),
                            }
                            out.push(syn::Stmt::Expr(syn::Expr::Loop(w), None));
                            out.push(syn::parse_quote!(let #m #id = #lv;));
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn desugar(f: &mut syn::ImplItemFn, ctx: &mut Ctx) {
    LoopVal(0).visit_block_mut(&mut f.block);
    if ctx.f.trusted {
        return;
    }
    D { ctx }.visit_block_mut(&mut f.block);
    let mut r = RefPats { n: 0, bad: vec![] };
    r.visit_block_mut(&mut f.block);
    ctx.problems.extend(r.bad);
    Names { ctx }.visit_block_mut(&mut f.block);
}
