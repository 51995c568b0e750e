// Phase A: normalisation.  Attributes, logging, async, unsafe, module paths and macros.
use crate::unit::{FnSpec, ItemSpec, Unit};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};

pub struct Ctx<'a> {
    pub u: &'a Unit,
    pub f: &'a FnSpec,
    pub problems: Vec<String>,
    pub notes: Vec<String>,
    pub n_it: usize,
    pub n_acc: usize,
    pub n_keep: usize,
    pub n_tmp: usize,
    pub n_collect: usize,
}

impl<'a> Ctx<'a> {
    pub fn new(u: &'a Unit, f: &'a FnSpec) -> Self {
        Ctx { u, f, problems: vec![], notes: vec![], n_it: 0, n_acc: 0, n_keep: 0, n_tmp: 0, n_collect: 0 }
    }
}

pub fn rewrites_documented() -> Vec<String> {
    [
        "R1 attributes, doc comments, items under an inactive cfg, nested `use` and logging macros (tracing, println) are dropped; rawlog!(..) becomes a call that returns any Result",
        "R2 async/await are erased (in units that say so, an await becomes a call of a stand-in) and tokio::select! becomes a match on an arbitrary branch number (where the unit says so, an arm awaiting a named call is preceded by a stand-in call with the same arguments, recording that the arm was there): each function is verified as if it ran without interference between awaits; unsafe blocks become plain blocks",
        "R3 module prefixes of paths are dropped, so that external types and functions resolve to the stand-ins (with assumed contracts) of the unit",
        "R4 format!/json!/anyhow! become calls returning an arbitrary value (in functions marked formats, format! becomes an uninterpreted function of the literal and the arguments); matches! becomes match; assert!/panic!/unreachable! become calls whose precondition is the asserted condition (or, in functions marked panics-ok, calls that do not return when it is false)",
        "R5 a closure bound to a name, borrowing what it captures, is put where the name is used; closures passed to Option/Result combinators become match expressions; HashMap::remove_if becomes get, test, remove; `.with_context(|| ..)` becomes `.vx_context()` (the text of the error is dropped)",
        "R6 for loops and iterator chains (iter, map, filter, filter_map, max, sum, collect, extend ...) become while-let loops over an explicit iterator vx_itN with an explicit accumulator vx_accN (collecting Options or Results stops at the first None or Err); Graph::filter_map becomes a loop that evaluates the node closure for every node in index order, then vx_filter_graph, and is only accepted when the edge closure is a plain Some(..); `let p = loop { .. break v .. }` assigns v to a variable before an ordinary break",
        "R7 reference patterns (&x), also in parameters, become a binding followed by a dereference; parameter patterns X(name): X<T> keep the name; `a == &b` compares `*a == b`; x[a..b] becomes a call returning the slice",
        "R8 a constant of a stand-in type becomes a function returning its initialiser; indexing of stand-in collections becomes a call of the named accessor; receivers and parameter types listed in the unit file (interior mutability made explicit: &self to &mut self; guards of shared maps to exclusive references) are replaced; struct literals lose the initialisers of fields the unit drops",
        "R9 local names are renamed to the recorded ones when only the names differ; calls to functions of the same file that the unit does not know are inlined",
        "R11 a closure passed to a method named by @lift becomes a function of its own (parameter and captures explicit), called with the exclusive reference the method would pass",
        "R10 explicit single-expression substitutions (@subst) and dropped statements (@dropstmt) listed in the unit file; with @keepfrom/@keepto only the named consecutive part of a function's statements is kept (what comes before and after is dropped, and its variables become parameters)",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// keeps the statements from the first that begins with one of `from` to the next that begins with `to`
pub fn keep_part(b: &mut syn::Block, from: &[String], to: Option<&str>) -> Result<(), String> {
    let has = |s: &syn::Stmt, p: &str| toks(s).starts_with(&p.replace(' ', ""));
    let Some(i) = b.stmts.iter().position(|s| from.iter().any(|p| has(s, p))) else {
        return Err(format!("no statement begins with {}", from.join(" | ")));
    };
    let j = match to {
        None => b.stmts.len() - 1,
        Some(p) => match b.stmts[i..].iter().position(|s| has(s, p)) {
            Some(k) => i + k,
            None => return Err(format!("no statement begins with {}", p)),
        },
    };
    b.stmts.truncate(j + 1);
    b.stmts.drain(..i);
    Ok(())
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "str", "char", "bool", "self", "vx"];

fn fix_path(p: &mut syn::Path, u: &Unit) {
    let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
    if let Some(r) = u.pathmap.get(&full) {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut np: syn::Path = syn::parse_str(r).expect("pathmap target");
        if !args.is_empty() {
            np.segments.last_mut().unwrap().arguments = args;
        }
        *p = np;
        return;
    }
    let n = p.segments.len();
    if n >= 2 {
        // keep the last segment, plus a preceding one when it names a type
        let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
        let prev = segs[n - 2].ident.to_string();
        let keep_prev = prev.chars().next().unwrap().is_uppercase() || PRIMS.contains(&prev.as_str()) && prev != "self";
        let mut new: Vec<syn::PathSegment> = vec![];
        if keep_prev {
            new.push(segs[n - 2].clone());
        }
        new.push(segs[n - 1].clone());
        p.leading_colon = None;
        p.segments = new.into_iter().collect();
    }
    if let Some(l) = p.segments.last_mut() {
        // anyhow::Result<T>
        if l.ident == "Result" {
            if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments {
                if a.args.len() == 1 {
                    a.args.push(syn::parse_quote!(AnyhowError));
                }
            }
        }
    }
    if p.segments.len() >= 1 {
        let first = p.segments[0].ident.to_string();
        if let Some(r) = u.typemap.get(&first) {
            if let Ok(np) = syn::parse_str::<syn::Path>(r) {
                if np.segments.len() == 1 {
                    p.segments[0].ident = np.segments[0].ident.clone();
                    if !np.segments[0].arguments.is_empty() {
                        p.segments[0].arguments = np.segments[0].arguments.clone();
                    }
                }
            }
        }
    }
}

/// Attributes are removed at token level (`#[..]` and `#![..]`).
pub fn strip_attrs(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Punct(q)) = it.peek() {
                    if q.as_char() == '!' {
                        it.next();
                    }
                }
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if g.delimiter() == Delimiter::Bracket {
                        it.next();
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &t {
            let mut n = Group::new(g.delimiter(), strip_attrs(g.stream()));
            n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else {
            out.push(t);
        }
    }
    out.into_iter().collect()
}

struct TypeFix<'a>(&'a Unit);
impl<'a> VisitMut for TypeFix<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p, self.0);
        visit_mut::visit_path_mut(self, p);
    }
}

pub fn fix_type(t: &mut syn::Type, u: &Unit) {
    TypeFix(u).visit_type_mut(t);
}
pub fn fix_generics(t: &mut syn::Generics, u: &Unit) {
    TypeFix(u).visit_generics_mut(t);
}

pub fn fix_item(i: &mut syn::Item, it: &ItemSpec, u: &Unit) {
    match i {
        syn::Item::Struct(s) => {
            s.vis = syn::parse_quote!(pub);
            fix_fields(&mut s.fields, it, true);
        }
        syn::Item::Enum(e) => {
            e.vis = syn::parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                fix_fields(&mut v.fields, it, false);
            }
        }
        syn::Item::Const(c) => {
            c.vis = syn::parse_quote!(pub);
            if let Some(t) = it.field_ty.get("expr") {
                c.expr = Box::new(syn::parse_str(t).unwrap());
            }
            if let Some(t) = it.field_ty.get("type") {
                c.ty = Box::new(syn::parse_str(t).unwrap());
            }
        }
        _ => {}
    }
    TypeFix(u).visit_item_mut(i);
    *i = syn::parse2(strip_attrs(i.to_token_stream())).expect("item");
    let attrs: Vec<syn::Attribute> = it
        .attrs
        .iter()
        .map(|a| {
            let mut v = syn::Attribute::parse_outer.parse_str(a).unwrap();
            v.remove(0)
        })
        .collect();
    match i {
        syn::Item::Struct(s) => s.attrs = attrs,
        syn::Item::Enum(s) => s.attrs = attrs,
        _ => {}
    }
}

fn fix_fields(f: &mut syn::Fields, it: &ItemSpec, vis: bool) {
    match f {
        syn::Fields::Named(n) => {
            let kept = n
                .named
                .iter()
                .filter(|x| !crate::cfg_off(&x.attrs) && !it.drop_fields.contains(&x.ident.as_ref().unwrap().to_string()))
                .cloned()
                .map(|mut x| {
                    x.attrs.clear();
                    if vis {
                        x.vis = syn::parse_quote!(pub);
                    }
                    if let Some(t) = it.field_ty.get(&x.ident.as_ref().unwrap().to_string()) {
                        x.ty = syn::parse_str(t).unwrap();
                    }
                    x
                })
                .collect();
            n.named = kept;
        }
        syn::Fields::Unnamed(n) => {
            for x in n.unnamed.iter_mut() {
                x.attrs.clear();
                if vis {
                    x.vis = syn::parse_quote!(pub);
                }
            }
        }
        _ => {}
    }
}

struct Branch {
    pat: syn::Pat,
    fut: syn::Expr,
    guard: Option<syn::Expr>,
    handler: syn::Expr,
}
struct Select(Vec<Branch>);
impl Parse for Select {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        if input.peek(syn::Ident) {
            let fork = input.fork();
            let id: syn::Ident = fork.parse()?;
            if id == "biased" {
                let _: syn::Ident = input.parse()?;
                let _: syn::Token![;] = input.parse()?;
            }
        }
        while !input.is_empty() {
            let (pat, fut, guard);
            if input.peek(syn::Token![else]) {
                let _: syn::Token![else] = input.parse()?;
                pat = syn::parse_quote!(_);
                fut = syn::parse_quote!(());
                guard = None;
            } else {
                pat = syn::Pat::parse_multi_with_leading_vert(input)?;
                let _: syn::Token![=] = input.parse()?;
                fut = input.parse()?;
                guard = if input.peek(syn::Token![,]) && !input.peek(syn::Token![=>]) {
                    let _: syn::Token![,] = input.parse()?;
                    let _: syn::Token![if] = input.parse()?;
                    Some(input.parse()?)
                } else {
                    None
                };
            }
            let _: syn::Token![=>] = input.parse()?;
            let handler = if input.peek(syn::token::Brace) {
                let b: syn::Block = input.parse()?;
                syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
            } else {
                input.parse()?
            };
            if input.peek(syn::Token![,]) {
                let _: syn::Token![,] = input.parse()?;
            }
            v.push(Branch { pat, fut, guard, handler });
        }
        Ok(Select(v))
    }
}

struct MatchesArgs(syn::Expr, syn::Pat, Option<syn::Expr>);
impl Parse for MatchesArgs {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let e = i.parse()?;
        let _: syn::Token![,] = i.parse()?;
        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(syn::Token![if]) {
            let _: syn::Token![if] = i.parse()?;
            Some(i.parse()?)
        } else {
            None
        };
        if i.peek(syn::Token![,]) {
            let _: syn::Token![,] = i.parse()?;
        }
        Ok(MatchesArgs(e, p, g))
    }
}

struct ExprList(Vec<syn::Expr>, bool); // bool: `[a; n]` form
impl Parse for ExprList {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        if i.is_empty() {
            return Ok(ExprList(v, false));
        }
        v.push(i.parse()?);
        if i.peek(syn::Token![;]) {
            let _: syn::Token![;] = i.parse()?;
            v.push(i.parse()?);
            return Ok(ExprList(v, true));
        }
        while i.peek(syn::Token![,]) {
            let _: syn::Token![,] = i.parse()?;
            if i.is_empty() {
                break;
            }
            v.push(i.parse()?);
        }
        Ok(ExprList(v, false))
    }
}

fn macro_name(m: &syn::Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}

const ERASED: &[&str] = &["debug", "trace", "info", "warn", "error", "println", "eprintln", "debug_assert", "debug_assert_eq"];

struct Norm<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    in_select: usize,
}

impl<'a, 'b> Norm<'a, 'b> {
    fn erased(&self, m: &syn::Macro) -> bool {
        let n = macro_name(m);
        ERASED.contains(&n.as_str()) || self.ctx.u.erase_macros.contains(&n) || toks(&m.path).starts_with("coz::")
    }

    /// format!("..{}..{b}..", a) as vx_fmt2("..{}..{}..", &a, &b), where the unit asks for it
    fn format(&mut self, m: &syn::Macro) -> Option<syn::Expr> {
        if !self.ctx.f.formats {
            return None;
        }
        let args: Vec<syn::Expr> = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?.into_iter().collect();
        let lit = match args.first()? {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let (mut out, mut used, mut next) = (String::new(), Vec::<syn::Expr>::new(), 1);
        let mut it = lit.chars().peekable();
        while let Some(c) = it.next() {
            out.push(c);
            if c == '{' || c == '}' {
                if it.peek() == Some(&c) {
                    out.push(it.next().unwrap());
                    continue;
                }
                if c == '}' {
                    return None;
                }
                let mut inner = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        x => inner.push(x),
                    }
                }
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), format!(":{}", b)),
                    None => (inner.clone(), String::new()),
                };
                if spec.contains('$') || spec.contains('*') {
                    return None;
                }
                let a: syn::Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(k) = name.parse::<usize>() {
                    args.get(k + 1)?.clone()
                } else {
                    syn::parse_str(&name).ok()?
                };
                if matches!(a, syn::Expr::Assign(_)) {
                    return None;
                }
                used.push(a);
                out.push_str(&spec);
                out.push('}');
            }
        }
        let f = quote::format_ident!("vx_fmt{}", used.len());
        Some(syn::parse_quote!(#f(#out #(, &#used)*)))
    }

    fn expand(&mut self, m: &syn::Macro) -> Option<syn::Expr> {
        let n = macro_name(m);
        let ok = self.ctx.f.panics_ok;
        let e: syn::Expr = match n.as_str() {
            "rawlog" => syn::parse_quote!(vx_rawlog()),
            "format" => self.format(m).unwrap_or_else(|| syn::parse_quote!(vx_format())),
            "anyhow" => syn::parse_quote!(vx_anyhow()),
            "json" => syn::parse_quote!(vx_json()),
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                if ok {
                    syn::parse_quote!(vx_panic_ok())
                } else {
                    syn::parse_quote!(vx_panic())
                }
            }
            "assert" => {
                let l: ExprList = syn::parse2(m.tokens.clone()).ok()?;
                let c = &l.0[0];
                if ok {
                    syn::parse_quote!(vx_assert_ok(#c))
                } else {
                    syn::parse_quote!(vx_assert(#c))
                }
            }
            "assert_eq" => {
                let l: ExprList = syn::parse2(m.tokens.clone()).ok()?;
                let (a, b) = (&l.0[0], &l.0[1]);
                if ok {
                    syn::parse_quote!(vx_assert_ok(#a == #b))
                } else {
                    syn::parse_quote!(vx_assert(#a == #b))
                }
            }
            "matches" => {
                let a: MatchesArgs = syn::parse2(m.tokens.clone()).ok()?;
                let (e, p) = (a.0, a.1);
                match a.2 {
                    Some(g) => syn::parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => syn::parse_quote!(match #e { #p => true, _ => false }),
                }
            }
            "pin" => {
                let l: ExprList = syn::parse2(m.tokens.clone()).ok()?;
                l.0[0].clone()
            }
            "vec" => {
                let l: ExprList = syn::parse2(m.tokens.clone()).ok()?;
                if l.1 {
                    let (a, b) = (&l.0[0], &l.0[1]);
                    syn::parse_quote!(vx_vec_from_elem(#a, #b))
                } else if l.0.is_empty() {
                    syn::parse_quote!(Vec::new())
                } else {
                    let xs = &l.0;
                    syn::parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#xs);)* vx_v })
                }
            }
            "select" => {
                let s: Select = match syn::parse2(m.tokens.clone()) {
                    Ok(s) => s,
                    Err(e) => {
                        self.ctx.problems.push(format!("select!: {}", e));
                        return None;
                    }
                };
                let n = s.0.len();
                let mut arms: Vec<syn::Arm> = vec![];
                let mut armed: Vec<syn::Stmt> = vec![];
                for (i, b) in s.0.into_iter().enumerate() {
                    let Branch { pat, fut, guard, handler } = b;
                    let pat: syn::Pat = if toks(&pat) == "_" { syn::parse_quote!(_vx) } else { pat };
                    let sel: syn::Pat = if i + 1 == n {
                        syn::parse_quote!(_)
                    } else {
                        let l = syn::LitInt::new(&format!("{}usize", i), proc_macro2::Span::call_site());
                        syn::parse_quote!(#l)
                    };
                    let fut: syn::Expr = match fut {
                        // `&mut future` polls a pinned future: same as awaiting it
                        syn::Expr::Reference(r) if r.mutability.is_some() => *r.expr,
                        f => f,
                    };
                    if let syn::Expr::Call(c) = &fut {
                        if let syn::Expr::Path(p) = &*c.func {
                            let last = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                            if let Some(by) = self.ctx.u.armed.get(&last) {
                                let (by, args) = (quote::format_ident!("{}", by), &c.args);
                                armed.push(syn::parse_quote!(#by(#args);));
                            }
                        }
                    }
                    if guard.is_some() {
                        self.ctx.problems.push("select! guards are not supported".into());
                    }
                    arms.push(syn::parse_quote!(#sel => { let #pat = #fut; #handler }));
                }
                let nl = syn::LitInt::new(&format!("{}usize", n), proc_macro2::Span::call_site());
                if armed.is_empty() {
                    syn::parse_quote!(match vx_select(#nl) { #(#arms)* })
                } else {
                    syn::parse_quote!({ #(#armed)* match vx_select(#nl) { #(#arms)* } })
                }
            }
            _ => {
                self.ctx.problems.push(format!("macro {}! is not supported", n));
                return None;
            }
        };
        Some(e)
    }
}

impl<'a, 'b> VisitMut for Norm<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                syn::Stmt::Item(syn::Item::Const(c)) if c.generics.params.is_empty() => {
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    out.push(syn::parse_quote!(let #n: #t = #e;));
                }
                syn::Stmt::Item(_) => {} // nested fn/const/use: extracted separately when needed
                syn::Stmt::Macro(sm) => {
                    if crate::cfg_off(&sm.attrs) || self.erased(&sm.mac) {
                        continue;
                    }
                    if let Some(e) = self.expand(&sm.mac) {
                        // a tail macro has no semicolon
                        out.push(syn::Stmt::Expr(e, sm.semi_token));
                    }
                }
                syn::Stmt::Expr(syn::Expr::Macro(em), semi) => {
                    if crate::cfg_off(&em.attrs) || self.erased(&em.mac) {
                        continue;
                    }
                    if let Some(e) = self.expand(&em.mac) {
                        out.push(syn::Stmt::Expr(e, semi));
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    let attrs = match &e {
                        syn::Expr::Block(b) => b.attrs.clone(),
                        syn::Expr::Call(c) => c.attrs.clone(),
                        _ => vec![],
                    };
                    if crate::cfg_off(&attrs) {
                        continue;
                    }
                    let st = toks(&e);
                    if self.ctx.f.drop_stmts.iter().any(|d| st.starts_with(&d.replace(' ', ""))) {
                        continue;
                    }
                    out.push(syn::Stmt::Expr(e, semi));
                }
                syn::Stmt::Local(l) => {
                    let st = toks(&l);
                    if self.ctx.f.drop_stmts.iter().any(|d| st.starts_with(&d.replace(' ', ""))) {
                        continue;
                    }
                    if crate::cfg_off(&l.attrs) {
                        continue;
                    }
                    out.push(syn::Stmt::Local(l));
                }
            }
        }
        // a diverging last statement takes whatever type the block needs
        if let Some(syn::Stmt::Expr(e, semi)) = out.last_mut() {
            if matches!(toks(e).as_str(), "vx_panic_ok()" | "vx_panic()") {
                *semi = None;
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p, self.ctx.u);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // substitutions named by the unit
        if !self.ctx.f.subst.is_empty() {
            let t = toks(e);
            for (a, b) in &self.ctx.f.subst {
                if t == a.replace(' ', "") {
                    *e = syn::parse_str(b).unwrap_or_else(|x| panic!("@subst {}: {}", b, x));
                    return;
                }
            }
        }
        loop {
            let new: Option<syn::Expr> = match e {
                syn::Expr::Await(a) if self.ctx.u.awaits => {
                    let b = &a.base;
                    Some(syn::parse_quote!(vx_await(#b)))
                }
                syn::Expr::Await(a) => Some((*a.base).clone()),
                syn::Expr::Unsafe(b) => {
                    let b = b.block.clone();
                    Some(syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
                }
                syn::Expr::Async(b) => {
                    let b = b.block.clone();
                    Some(syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
                }
                syn::Expr::Paren(p) if !matches!(&*p.expr, syn::Expr::Range(_) | syn::Expr::Cast(_) | syn::Expr::Binary(_) | syn::Expr::Unary(_) | syn::Expr::Closure(_) | syn::Expr::Reference(_)) => Some((*p.expr).clone()),
                syn::Expr::Macro(m) => {
                    if self.erased(&m.mac) {
                        Some(syn::parse_quote!(()))
                    } else {
                        let mac = m.mac.clone();
                        self.expand(&mac)
                    }
                }
                _ => None,
            };
            match new {
                Some(n) => *e = n,
                None => break,
            }
        }
        // *STATIC: the deref of a lazy static is its value
        if let syn::Expr::Unary(un) = e {
            if let (syn::UnOp::Deref(_), syn::Expr::Path(p)) = (&un.op, &*un.expr) {
                if self.ctx.u.constfns.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                    *e = (*un.expr).clone();
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            let l = p.path.segments.last().unwrap().ident.to_string();
            let n = p.path.segments.len();
            let of_type = n >= 2 && p.path.segments[n - 2].ident.to_string().starts_with(|c: char| c.is_uppercase());
            if self.ctx.u.constfns.contains(&l) && !of_type {
                let id = format_ident!("{}", l);
                *e = syn::parse_quote!(#id());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // struct shorthand: S { x } -> S { x: x }, so that renaming is safe
        if let syn::Expr::Struct(s) = e {
            let mut n = s.path.segments.last().unwrap().ident.to_string();
            if n == "Self" {
                n = self.ctx.f.name.split("::").next().unwrap_or("").to_string();
            }
            let drop: Vec<String> = self.ctx.u.entries.iter().filter_map(|x| if let crate::unit::Entry::Item(i) = x { Some(i) } else { None }).filter(|i| i.name == format!("struct {}", n)).flat_map(|i| i.drop_fields.clone()).collect();
            if !drop.is_empty() {
                s.fields = s.fields.iter().filter(|f| !matches!(&f.member, syn::Member::Named(m) if drop.contains(&m.to_string()))).cloned().collect();
            }
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }

    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Struct(s) = p {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_macro_mut(&mut self, _m: &mut syn::Macro) {}
}

pub fn normalize(f: &mut syn::ImplItemFn, ctx: &mut Ctx) {
    f.attrs.clear();
    f.vis = syn::parse_quote!(pub);
    f.defaultness = None;
    f.sig.asyncness = None;
    f.sig.constness = None;
    f.sig.unsafety = None;
    f.sig.abi = None;
    let spec = ctx.f;
    // parameters
    let mut pre: Vec<syn::Stmt> = vec![];
    let mut k = 0usize;
    let mut inputs: Vec<syn::FnArg> = vec![];
    for a in f.sig.inputs.iter() {
        match a {
            syn::FnArg::Receiver(r) => {
                let mut r = r.clone();
                r.attrs.clear();
                if let Some(t) = &spec.recv {
                    let x: syn::FnArg = syn::parse_str(t).unwrap();
                    inputs.push(x);
                } else if spec.selfmut {
                    inputs.push(syn::parse_quote!(&mut self));
                } else {
                    inputs.push(syn::FnArg::Receiver(r));
                }
            }
            syn::FnArg::Typed(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                // X(name): X<T> (an axum extractor) becomes name: T
                if let syn::Pat::TupleStruct(ts) = &*t.pat {
                    if let (1, Some(syn::Pat::Ident(i)), syn::Type::Path(tp)) = (ts.elems.len(), ts.elems.first(), &*t.ty) {
                        if let (Some(a), Some(b)) = (ts.path.segments.last(), tp.path.segments.last()) {
                            if let (true, syn::PathArguments::AngleBracketed(ab)) = (a.ident == b.ident, &b.arguments) {
                                if let Some(syn::GenericArgument::Type(inner)) = ab.args.first() {
                                    let (pat, ty) = (syn::Pat::Ident(i.clone()), inner.clone());
                                    *t.pat = pat;
                                    *t.ty = ty;
                                }
                            }
                        }
                    }
                }
                let simple = matches!(&*t.pat, syn::Pat::Ident(_));
                let mut name = match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => format!("vx_arg{}", k),
                };
                if let Some(ty) = spec.param_ty.get(&format!("#{}", k)).or_else(|| spec.param_ty.get(&name)) {
                    if ty == "-" {
                        k += 1;
                        continue;
                    }
                    t.ty = syn::parse_str(ty).unwrap_or_else(|e| panic!("paramty {}: {}", ty, e));
                }
                if !simple {
                    let id = format_ident!("vx_arg{}", k);
                    let p = (*t.pat).clone();
                    pre.push(syn::parse_quote!(let #p = #id;));
                    t.pat = syn::parse_quote!(#id);
                    name = id.to_string();
                }
                let _ = name;
                inputs.push(syn::FnArg::Typed(t));
                k += 1;
            }
        }
    }
    for p in &spec.add_params {
        inputs.push(syn::parse_str(p).unwrap());
    }
    f.sig.inputs = inputs.into_iter().collect();
    if let Some(r) = &spec.ret_ty {
        if r == "-" {
            f.sig.output = syn::ReturnType::Default;
        } else {
            let t: syn::Type = syn::parse_str(r).unwrap();
            f.sig.output = syn::parse_quote!(-> #t);
        }
    }
    if let Some(g) = &spec.generics {
        if g == "-" {
            f.sig.generics = Default::default();
        } else {
            let g: syn::Generics = syn::parse_str(g).unwrap();
            f.sig.generics = g;
        }
    }
    if let Some(n) = &spec.rename_to {
        f.sig.ident = format_ident!("{}", n);
    }
    pre.append(&mut f.block.stmts);
    f.block.stmts = pre;
    let mut n = Norm { ctx, in_select: 0 };
    n.visit_signature_mut(&mut f.sig);
    if spec.trusted {
        f.block = syn::parse_quote!({ unimplemented!() });
        if spec.eff {
            f.sig.inputs.push(syn::parse_quote!(eff: &mut Eff));
        }
        return;
    }
    n.visit_block_mut(&mut f.block);
    let _ = n.in_select;
    Closures.visit_block_mut(&mut f.block);
    let stripped = strip_attrs(f.to_token_stream());
    *f = syn::parse2(stripped).expect("strip_attrs");
    if spec.eff {
        f.sig.inputs.push(syn::parse_quote!(eff: &mut Eff));
    }
}

/// `let f = |a| body;` whose uses are all calls `f(x)` or method arguments: the body is put where it is used.  Only for
/// closures that borrow what they capture, do not jump, and whose names mean the same at every use.
struct Closures;
impl Closures {
    fn candidate(s: &syn::Stmt) -> Option<(String, syn::ExprClosure)> {
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if let syn::Expr::Closure(c) = &*i.expr {
                    if c.capture.is_none() && c.inputs.iter().all(|p| matches!(p, syn::Pat::Ident(_))) {
                        return Some((p.ident.to_string(), c.clone()));
                    }
                }
            }
        }
        None
    }
}
struct Jumps(bool);
impl<'ast> syn::visit::Visit<'ast> for Jumps {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
}
#[derive(Default)]
struct Names {
    used: Vec<String>,
    bound: Vec<String>,
}
impl<'ast> syn::visit::Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.bound.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.segments.len() == 1 {
            self.used.push(p.path.segments[0].ident.to_string());
        }
    }
}
struct PutClosure<'a> {
    name: &'a str,
    c: &'a syn::ExprClosure,
    n: usize,
}
impl<'a> VisitMut for PutClosure<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let is = |x: &syn::Expr| toks(x) == self.name;
        match e {
            syn::Expr::Call(k) if is(&k.func) && k.args.len() == self.c.inputs.len() => {
                let (ps, xs, b) = (self.c.inputs.iter(), k.args.iter(), &self.c.body);
                *e = if k.args.is_empty() { syn::parse_quote!(#b) } else { syn::parse_quote!({ #(let #ps = #xs;)* #b }) };
                self.n += 1;
            }
            syn::Expr::MethodCall(m) => {
                for a in m.args.iter_mut() {
                    if toks(a) == self.name {
                        *a = syn::Expr::Closure(self.c.clone());
                        self.n += 1;
                    }
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((name, c)) = Self::candidate(&b.stmts[i]) {
                use syn::visit::Visit;
                let mut j = Jumps(false);
                j.visit_expr(&c.body);
                let mut body = Names::default();
                body.visit_expr(&c.body);
                let mut rest = Names::default();
                for s in &b.stmts[i + 1..] {
                    rest.visit_stmt(s);
                }
                let uses = rest.used.iter().filter(|u| **u == name).count();
                if !j.0 && !rest.bound.contains(&name) && !body.used.iter().any(|u| rest.bound.contains(u)) {
                    let mut tail: Vec<syn::Stmt> = b.stmts[i + 1..].to_vec();
                    let mut put = PutClosure { name: &name, c: &c, n: 0 };
                    for s in tail.iter_mut() {
                        put.visit_stmt_mut(s);
                    }
                    if put.n == uses {
                        b.stmts.truncate(i);
                        b.stmts.extend(tail);
                        continue;
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// Bound names in order of appearance.
pub fn locals(f: &syn::ImplItemFn) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let s = p.ident.to_string();
            if !s.chars().next().unwrap().is_uppercase() {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_signature(&mut v, &f.sig);
    syn::visit::Visit::visit_block(&mut v, &f.block);
    v.0
}

/// Renames the locals to the recorded names. The two lists are aligned on the names they share, and between two
/// shared names a run of new names is taken for an equally long run of missing ones. A name is only renamed if
/// that is consistent, and if the recorded name is used for nothing else in the function.
pub fn rename(f: &mut syn::ImplItemFn, cur: &[String], want: &[String]) -> bool {
    use std::collections::{BTreeMap, BTreeSet};
    let (n, m) = (cur.len(), want.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if cur[i] == want[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (cs, ws): (BTreeSet<&String>, BTreeSet<&String>) = (cur.iter().collect(), want.iter().collect());
    let mut map: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut gap = |a: &[String], b: &[String]| {
        let a: Vec<&String> = a.iter().filter(|x| !ws.contains(x)).collect();
        let b: Vec<&String> = b.iter().filter(|x| !cs.contains(x)).collect();
        if a.len() == b.len() {
            for (x, y) in a.iter().zip(&b) {
                let e = map.entry((*x).clone()).or_insert(Some((*y).clone()));
                if e.as_ref() != Some(*y) {
                    *e = None;
                }
            }
        }
    };
    let (mut i, mut j, mut i0, mut j0) = (0, 0, 0, 0);
    while i < n && j < m {
        if cur[i] == want[j] {
            gap(&cur[i0..i], &want[j0..j]);
            i += 1;
            j += 1;
            i0 = i;
            j0 = j;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    gap(&cur[i0..], &want[j0..]);
    let mut to: BTreeMap<String, usize> = BTreeMap::new();
    for y in map.values().flatten() {
        *to.entry(y.clone()).or_default() += 1;
    }
    let mut names = Names::default();
    syn::visit::Visit::visit_block(&mut names, &f.block);
    let map: BTreeMap<String, String> = map
        .into_iter()
        .filter_map(|(x, y)| y.map(|y| (x, y)))
        .filter(|(_, y)| to[y] == 1 && !names.used.iter().any(|u| u == y))
        .collect();
    if map.is_empty() {
        return false;
    }
    struct R<'a>(&'a BTreeMap<String, String>);
    impl<'a> VisitMut for R<'a> {
        fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
            if let Some(n) = self.0.get(&p.ident.to_string()) {
                p.ident = format_ident!("{}", n);
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_pat_mut(&mut self, p: &mut syn::FieldPat) {
            if p.colon_token.is_none() {
                p.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_pat_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, p: &mut syn::FieldValue) {
            if p.colon_token.is_none() {
                p.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_value_mut(self, p);
        }
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if p.path.segments.len() == 1 && p.qself.is_none() {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    p.path.segments[0].ident = format_ident!("{}", n);
                }
            }
            visit_mut::visit_expr_path_mut(self, p);
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            m.tokens = toks(m.tokens.clone(), self.0);
        }
    }
    fn toks(t: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
        let mut dot = false;
        t.into_iter()
            .map(|x| match x {
                TokenTree::Ident(i) => {
                    let d = std::mem::replace(&mut dot, false);
                    match map.get(&i.to_string()) {
                        Some(n) if !d => TokenTree::Ident(format_ident!("{}", n)),
                        _ => TokenTree::Ident(i),
                    }
                }
                TokenTree::Group(g) => {
                    dot = false;
                    TokenTree::Group(proc_macro2::Group::new(g.delimiter(), toks(g.stream(), map)))
                }
                TokenTree::Punct(p) => {
                    dot = p.as_char() == '.';
                    TokenTree::Punct(p)
                }
                x => {
                    dot = false;
                    x
                }
            })
            .collect()
    }
    R(&map).visit_signature_mut(&mut f.sig);
    R(&map).visit_block_mut(&mut f.block);
    true
}
