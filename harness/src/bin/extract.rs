//! Mechanical extraction of the functions of /repo/src into a normal form that
//! Verus accepts.  Usage: extract <src-dir> <contracted-names-file> <out.json>
//!
//! What is rewritten (and nothing else) is listed in /verif/DESIGN.md,
//! section "What the extraction does".
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ printing

fn print_ts(ts: TokenStream) -> String {
    let mut out = String::new();
    let mut indent = 0usize;
    let mut prev_word = false;
    emit(ts, &mut out, &mut indent, &mut prev_word);
    out
}

fn nl(out: &mut String, indent: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..indent {
        out.push_str("    ");
    }
}

fn emit(ts: TokenStream, out: &mut String, indent: &mut usize, prev_word: &mut bool) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Ident(id) => {
                let s = id.to_string();
                // marker macros
                if (s == "__m" || s == "__l" || s == "__c") && i + 2 < toks.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&toks[i + 1], &toks[i + 2]) {
                        if p.as_char() == '!' {
                            let arg = g.stream().to_string().replace(' ', "");
                            if *prev_word { out.push(' '); }
                            if s == "__m" {
                                nl(out, *indent);
                                out.push_str(&format!("/*@{}@*/", arg));
                                nl(out, *indent);
                            } else {
                                let tag = if s == "__l" { "loop" } else { "closure" };
                                out.push_str(&format!("/*@{}_{}@*/", tag, arg));
                            }
                            *prev_word = false;
                            i += 3;
                            if let Some(TokenTree::Punct(p)) = toks.get(i) {
                                if p.as_char() == ';' && s == "__m" { i += 1; }
                            }
                            continue;
                        }
                    }
                }
                if *prev_word { out.push(' '); }
                out.push_str(&s);
                *prev_word = true;
            }
            TokenTree::Literal(l) => {
                if *prev_word { out.push(' '); }
                out.push_str(&l.to_string());
                *prev_word = true;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '\'' {
                    if *prev_word { out.push(' '); }
                    out.push('\'');
                    *prev_word = false;
                } else if p.spacing() == Spacing::Joint {
                    if *prev_word && c != ':' && c != '!' { out.push(' '); }
                    out.push(c);
                    *prev_word = false;
                } else {
                    if *prev_word && c != ',' && c != ';' && c != '.' && c != ':' && c != '!' && c != '?' { out.push(' '); }
                    out.push(c);
                    if c == ';' {
                        nl(out, *indent);
                    } else if c != '.' && c != '!' && c != '&' && c != '*' && !(c == ':' && out.ends_with("::")) && c != '?' {
                        out.push(' ');
                    }
                    *prev_word = false;
                    // keep `a . b` compact but never glue two operators
                    if (c == '&' || c == '*' || c == '!') && matches!(toks.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() != '&') {
                        out.push(' ');
                    }
                }
            }
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if o == "{" {
                    out.push_str(" {");
                    *indent += 1;
                    nl(out, *indent);
                    *prev_word = false;
                    emit(g.stream(), out, indent, prev_word);
                    *indent -= 1;
                    nl(out, *indent);
                    out.push_str("} ");
                    if !matches!(toks.get(i + 1), Some(TokenTree::Punct(_)) | None)
                        && !matches!(toks.get(i + 1), Some(TokenTree::Ident(x)) if x == "else") {
                        nl(out, *indent);
                    }
                    *prev_word = false;
                } else {
                    if *prev_word && o == "(" {
                        let kw = out.rsplit(|ch: char| !ch.is_alphanumeric() && ch != '_').next().unwrap_or("");
                        if ["match", "if", "in", "return", "while", "let", "mut"].contains(&kw) { out.push(' '); }
                    }
                    if o.is_empty() && *prev_word { out.push(' '); *prev_word = false; }
                    out.push_str(o);
                    if !o.is_empty() { *prev_word = false; }
                    emit(g.stream(), out, indent, prev_word);
                    out.push_str(c);
                    if !c.is_empty() { *prev_word = true; }
                }
            }
        }
        i += 1;
    }
}

fn flat_tokens(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() { out.push(o.into()); }
                flat_tokens(g.stream(), out);
                if !c.is_empty() { out.push(c.into()); }
            }
            other => out.push(other.to_string()),
        }
    }
}

// ------------------------------------------------------------------ collection

#[derive(Clone)]
struct FnRec {
    module: String,
    self_ty: Option<String>,
    trait_name: Option<String>,
    sig: Signature,
    block: Block,
}

impl FnRec {
    fn key(&self) -> String {
        match &self.self_ty {
            Some(t) => format!("{}::{}", t, self.sig.ident),
            None => format!("{}::{}", self.module, self.sig.ident),
        }
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[test]" || s.contains("cfg(test)")
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.clone() {
                    if let TokenTree::Ident(i) = t { v.push(i.to_string()); }
                }
            }
        }
    }
    v
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}

/// All fields and items public, so that specifications may talk about them.
struct MakePub;
impl VisitMut for MakePub {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = parse_quote!(pub); }
}

/// `&str` in a const/static type needs an explicit lifetime inside Verus.
struct StaticRefs;
impl VisitMut for StaticRefs {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); }
        visit_mut::visit_type_reference_mut(self, r);
    }
}

#[derive(Default)]
struct Crate {
    fns: Vec<FnRec>,
    types: Vec<Value>,
    consts: Vec<Value>,
    uses: BTreeMap<String, Vec<String>>,
    skipped: Vec<String>,
    lazies: Vec<(String, Lazy)>,
}

/// `static ref NAME: TY = INIT;` of lazy_static! (or a LazyLock with a closure)
#[derive(Clone)]
struct Lazy { name: Ident, ty: Type, init: Expr }
impl syn::parse::Parse for Lazy {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        i.call(Attribute::parse_outer)?;
        let _: Visibility = i.parse()?;
        i.parse::<Token![static]>()?;
        i.parse::<Token![ref]>()?;
        let name = i.parse()?;
        i.parse::<Token![:]>()?;
        let ty = i.parse()?;
        i.parse::<Token![=]>()?;
        let init = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(Lazy { name, ty, init })
    }
}
struct Lazies(Vec<Lazy>);
impl syn::parse::Parse for Lazies {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !i.is_empty() { v.push(i.parse()?); }
        Ok(Lazies(v))
    }
}

fn boxed(e: &Expr) -> Expr {
    if let Expr::Call(c) = e {
        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Box::new") && c.args.len() == 1 { return boxed(&c.args[0]); }
    }
    if let Expr::Paren(p) = e { return boxed(&p.expr); }
    e.clone()
}

/// A lazily initialised static is a function without arguments; one that holds a closure made by
/// `f(args)`, where f's body is the closure, is that closure as a function (callback arguments of f
/// are put in the place where the closure calls them).
fn lazy_fn(module: &str, z: &Lazy, c: &Crate) -> Option<FnRec> {
    let name = &z.name;
    let ty = &z.ty;
    if let Expr::Call(call) = &z.init {
        if let Some(f) = ident_expr(&call.func).and_then(|n| c.fns.iter().find(|f| f.module == module && f.self_ty.is_none() && f.sig.ident == n)) {
            if let Some(Stmt::Expr(t, None)) = f.block.stmts.last() {
                if let Expr::Closure(k) = boxed(t) {
                    let mut body = (*k.body).clone();
                    let mut pre: Vec<Stmt> = f.block.stmts[..f.block.stmts.len() - 1].to_vec();
                    for (inp, a) in f.sig.inputs.iter().zip(call.args.iter()) {
                        if let FnArg::Typed(t) = inp {
                            match (pat_name(&t.pat), boxed(a)) {
                                (Some(n), Expr::Closure(cb)) => {
                                    struct Put(String, ExprClosure);
                                    impl VisitMut for Put {
                                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                                            visit_mut::visit_expr_mut(self, e);
                                            if let Expr::Call(c) = e {
                                                if ident_expr(&c.func).as_deref() == Some(&self.0) {
                                                    let b = &self.1.body;
                                                    let lets: Vec<Stmt> = self.1.inputs.iter().zip(c.args.iter()).map(|(p, a)| { let p = strip_ty(p); parse_quote!(let #p = #a;) }).collect();
                                                    *e = parse_quote!({ #(#lets)* #b });
                                                }
                                            }
                                        }
                                    }
                                    Put(n, cb).visit_expr_mut(&mut body);
                                }
                                _ => { let p = &t.pat; pre.push(parse_quote!(let #p = #a;)); }
                            }
                        }
                    }
                    let ps: Vec<&Pat> = k.inputs.iter().collect();
                    if !ps.iter().all(|p| matches!(p, Pat::Type(_))) { return None; }
                    let out = &k.output;
                    let sig: Signature = parse_quote!(fn #name(#(#ps),*) #out);
                    let mut stmts = pre;
                    match body { Expr::Block(b) => stmts.extend(b.block.stmts), e => stmts.push(Stmt::Expr(e, None)) }
                    return Some(FnRec { module: module.into(), self_ty: None, trait_name: None, sig, block: parse_quote!({ #(#stmts)* }) });
                }
            }
        }
    }
    let init = &z.init;
    Some(FnRec { module: module.into(), self_ty: None, trait_name: None, sig: parse_quote!(fn #name() -> #ty), block: parse_quote!({ #init }) })
}

/// a use of a lazily initialised static is a call of its function
struct LazyUse { names: BTreeSet<String> }
impl VisitMut for LazyUse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if ident_expr(expr).map(|n| self.names.contains(&n)).unwrap_or(false) { let x = expr.clone(); *e = parse_quote!(#x()); return; }
        }
        if ident_expr(e).map(|n| self.names.contains(&n)).unwrap_or(false) { let x = e.clone(); *e = parse_quote!(#x()); return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("format") {
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                let mut v: Vec<Expr> = a.into_iter().collect();
                for e in v.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote!(#(#v),*);
            }
        }
    }
}

fn collect_items(module: &str, items: &[Item], c: &mut Crate) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if is_test(&f.attrs) { continue; }
                c.fns.push(FnRec { module: module.into(), self_ty: None, trait_name: None, sig: f.sig.clone(), block: (*f.block).clone() });
            }
            Item::Impl(im) => {
                if is_test(&im.attrs) { continue; }
                let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
                let tr = im.trait_.as_ref().map(|t| t.0.to_token_stream().to_string().replace(' ', ""));
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) { continue; }
                        // Clone, derived or written out, is read from the expanded source (std_impl)
                        if tr.as_deref().map(|t| t.ends_with("Clone")).unwrap_or(false) { continue; }
                        c.fns.push(FnRec { module: module.into(), self_ty: Some(ty.clone()), trait_name: tr.clone(), sig: f.sig.clone(), block: f.block.clone() });
                    } else if let ImplItem::Const(k) = ii {
                        c.skipped.push(format!("{}::{}::{}", module, ty, k.ident));
                    }
                }
            }
            Item::Struct(s) => {
                let d = derives(&s.attrs);
                let mut s = s.clone();
                StripAttrs.visit_item_struct_mut(&mut s);
                MakePub.visit_item_struct_mut(&mut s);
                let fields: Vec<Value> = s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), f.ty.to_token_stream().to_string()])).collect();
                c.types.push(json!({"module": module, "name": s.ident.to_string(), "kind": "struct", "derives": d, "text": print_ts(s.to_token_stream()), "fields": fields}));
            }
            Item::Enum(s) => {
                let d = derives(&s.attrs);
                let mut s = s.clone();
                StripAttrs.visit_item_enum_mut(&mut s);
                s.vis = parse_quote!(pub);
                c.types.push(json!({"module": module, "name": s.ident.to_string(), "kind": "enum", "derives": d, "text": print_ts(s.to_token_stream())}));
            }
            Item::Const(k) => {
                let mut k = k.clone();
                StripAttrs.visit_item_const_mut(&mut k);
                MakePub.visit_item_const_mut(&mut k);
                StaticRefs.visit_type_mut(&mut k.ty);
                c.consts.push(json!({"module": module, "name": k.ident.to_string(), "text": print_ts(k.to_token_stream())}));
            }
            Item::Static(k) => {
                let mut lazy = false;
                if let (Type::Path(t), Expr::Call(e)) = (&*k.ty, &*k.expr) {
                    if let Some(s) = t.path.segments.last() {
                        if let (true, PathArguments::AngleBracketed(a), Some(Expr::Closure(f))) = (s.ident == "LazyLock" || s.ident == "Lazy", &s.arguments, e.args.first()) {
                            if let Some(GenericArgument::Type(ty)) = a.args.first() {
                                c.lazies.push((module.into(), Lazy { name: k.ident.clone(), ty: ty.clone(), init: (*f.body).clone() }));
                                lazy = true;
                            }
                        }
                    }
                }
                if !lazy { c.skipped.push(format!("{}::{}", module, k.ident)); }
            }
            Item::Macro(m) if m.mac.path.segments.last().map(|s| s.ident == "lazy_static").unwrap_or(false) => {
                match syn::parse2::<Lazies>(m.mac.tokens.clone()) {
                    Ok(l) => for z in l.0 { c.lazies.push((module.into(), z)); },
                    Err(_) => c.skipped.push(format!("{}::lazy_static!", module)),
                }
            }
            Item::Type(k) => {
                let mut k = k.clone();
                MakePub.visit_item_type_mut(&mut k);
                c.types.push(json!({"module": module, "name": k.ident.to_string(), "kind": "alias", "derives": [], "text": print_ts(k.to_token_stream())}));
            }
            Item::Use(u) => {
                c.uses.entry(module.into()).or_default().push(u.tree.to_token_stream().to_string().replace(' ', ""));
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) { continue; }
                if let Some(its) = &m.content { collect_items(module, its.items(), c); }
            }
            _ => {}
        }
    }
}

trait ModItems { fn items(&self) -> &[Item]; }
impl<A> ModItems for (A, Vec<Item>) { fn items(&self) -> &[Item] { &self.1 } }

// ------------------------------------------------------------------ helpers on syntax

struct Finder { ret: bool, quest: bool }
impl Finder {
    fn new() -> Self { Finder { ret: false, quest: false } }
}
impl<'a> Visit<'a> for Finder {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) { self.ret = true; visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, r: &'a ExprTry) { self.quest = true; visit::visit_expr_try(self, r); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
/// break/continue that refer to the loop whose body we look at
struct LoopJumps { brk: bool, cont: bool }
impl<'a> Visit<'a> for LoopJumps {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.brk = true; }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.cont = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
}

fn jumps_expr(e: &Expr) -> (bool, bool) {
    let mut f = Finder::new();
    f.visit_expr(e);
    (f.ret, f.quest)
}
fn diverges_block(b: &Block) -> bool {
    b.stmts.iter().any(diverges_stmt)
}
fn diverges_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, _) => diverges_expr(e),
        Stmt::Macro(m) => is_panic_mac(&m.mac),
        _ => false,
    }
}
fn is_panic_mac(m: &Macro) -> bool {
    m.path.get_ident().map(|i| ["panic", "unreachable", "unimplemented", "todo"].contains(&i.to_string().as_str())).unwrap_or(false)
}
fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Macro(m) => is_panic_mac(&m.mac),
        Expr::Call(c) => c.func.to_token_stream().to_string().replace(' ', "").ends_with("vpanic"),
        Expr::Block(b) => diverges_block(&b.block),
        Expr::Paren(p) => diverges_expr(&p.expr),
        Expr::If(i) => match &i.else_branch {
            Some((_, el)) => diverges_block(&i.then_branch) && diverges_expr(el),
            None => false,
        },
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| arm_expr(a).map(diverges_expr).unwrap_or(false)),
        _ => false,
    }
}

fn arm_expr(a: &Arm) -> Option<&Expr> { Some(&a.body) }

/// Rewrites a block whose `return`s are all in tail-able positions into an
/// expression block without `return`.  None if not possible.
fn untail(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let mut f = Finder::new();
        f.visit_stmt(s);
        if f.quest { return None; }
        if !f.ret { continue; }
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(e, _) => {
                let e2 = untail_expr(e, rest)?;
                out.push(Stmt::Expr(e2, None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
fn untail_expr(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    match e {
        Expr::Return(r) => {
            let v = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or_else(|| parse_quote!(()));
            if jumps_expr(&v).0 { return untail_expr(&v, &[]); }
            Some(v)
        }
        Expr::Paren(p) => untail_expr(&p.expr, rest),
        Expr::Block(b) => {
            let mut v = b.block.stmts.clone();
            if !rest.is_empty() {
                fix_last(&mut v);
                v.extend_from_slice(rest);
            }
            let v = untail(&v)?;
            Some(parse_quote!({ #(#v)* }))
        }
        Expr::If(i) => {
            if jumps_expr(&i.cond).0 { return None; }
            let cont = |b: &[Stmt]| -> Option<Block> {
                let mut v = b.to_vec();
                if !v.iter().any(diverges_stmt) && !rest.is_empty() {
                    fix_last(&mut v);
                    v.extend_from_slice(rest);
                }
                let v = untail(&v)?;
                Some(parse_quote!({ #(#v)* }))
            };
            let t = cont(&i.then_branch.stmts)?;
            let e = match &i.else_branch {
                None => cont(&[])?,
                Some((_, e)) => match &**e {
                    Expr::Block(b) => cont(&b.block.stmts)?,
                    other => {
                        let s = Stmt::Expr(other.clone(), None);
                        cont(&[s])?
                    }
                },
            };
            let c = &i.cond;
            Some(parse_quote!(if #c #t else #e))
        }
        Expr::Match(m) => {
            if jumps_expr(&m.expr).0 { return None; }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let body = arm_expr(a)?.clone();
                let mut v = match &body { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                if !v.iter().any(diverges_stmt) && !rest.is_empty() {
                    fix_last(&mut v);
                    v.extend_from_slice(rest);
                }
                let v = untail(&v)?;
                a.body = Box::new(parse_quote!({ #(#v)* }));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m2))
        }
        _ => None,
    }
}
fn fix_last(v: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
        *semi = Some(Default::default());
    }
}

fn ident_expr(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e { p.path.get_ident().map(|i| i.to_string()) } else { None }
}

fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}

// ------------------------------------------------------------------ inlining of helpers

struct Inliner<'c> {
    fns: &'c HashMap<String, FnRec>,
    methods: &'c HashMap<String, Vec<String>>,
    contracted: &'c BTreeSet<String>,
    module: String,
    self_ty: Option<String>,
    stack: Vec<String>,
    log: Vec<String>,
    n: usize,
}

struct RenameSelf(Ident);
impl VisitMut for RenameSelf {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") { *p = self.0.clone().into(); }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
struct RenameSelfTy(String);
impl VisitMut for RenameSelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" { s.ident = Ident::new(&self.0, s.ident.span()); }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

impl<'c> Inliner<'c> {
    fn body_of(&mut self, key: &str) -> Option<FnRec> {
        if self.contracted.contains(key) || self.stack.contains(&key.to_string()) || self.stack.len() > 6 { return None; }
        let f = self.fns.get(key)?.clone();
        // needs lifetimes/where clauses only in types: fine.
        let mut f2 = f.clone();
        StripAttrs.visit_block_mut(&mut f2.block);
        let stmts = untail(&f2.block.stmts)?;
        if stmts.iter().any(|s| { let mut x = Finder::new(); x.visit_stmt(s); x.ret || x.quest }) { return None; }
        f2.block.stmts = stmts;
        if let Some(t) = &f2.self_ty { RenameSelfTy(t.clone()).visit_block_mut(&mut f2.block); RenameSelfTy(t.clone()).visit_signature_mut(&mut f2.sig); }
        if f.module != self.module { return None; }
        // inline inside the helper too
        let saved = self.self_ty.clone();
        self.self_ty = f2.self_ty.clone();
        self.stack.push(key.to_string());
        let mut b = f2.block.clone();
        self.visit_block_mut(&mut b);
        self.stack.pop();
        self.self_ty = saved;
        f2.block = b;
        Some(f2)
    }

    fn build(&mut self, f: FnRec, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let generic = !f.sig.generics.params.is_empty();
        let mut pats: Vec<TokenStream> = vec![];
        let mut tys: Vec<TokenStream> = vec![];
        let mut block = f.block.clone();
        let mut vals: Vec<Expr> = vec![];
        let mut ai = args.into_iter();
        let mut pre = quote!();
        for inp in f.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(r) => {
                    let recv = recv.clone()?;
                    if ident_expr(&recv).as_deref() == Some("self") { continue; }
                    self.n += 1;
                    let id = Ident::new(&format!("__recv{}", self.n), proc_macro2::Span::call_site());
                    RenameSelf(id.clone()).visit_block_mut(&mut block);
                    let by_ref = r.to_token_stream().to_string().replace(' ', "");
                    let v: Expr = if by_ref.starts_with("&mut") { parse_quote!(&mut #recv) } else if by_ref.starts_with('&') { parse_quote!(&#recv) } else { recv };
                    pre = quote!(let #id = #v;);
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let ty = &t.ty;
                    let ts = ty.to_token_stream().to_string();
                    if ts.contains("impl ") || ts.contains("dyn ") || generic { tys.push(quote!(_)); } else { tys.push(quote!(#ty)); }
                    let p = &t.pat;
                    pats.push(quote!(#p));
                    vals.push(a);
                }
            }
        }
        if ai.next().is_some() { return None; }
        let binds = if vals.len() == 1 {
            let (p, t, v) = (&pats[0], &tys[0], &vals[0]);
            quote!(let #p: #t = #v;)
        } else if vals.is_empty() { quote!() } else {
            quote!(let (#(#pats),*): (#(#tys),*) = (#(#vals),*);)
        };
        let b = &block.stmts;
        let has_ret_ty = matches!(f.sig.output, ReturnType::Type(..));
        self.log.push(f.key());
        if has_ret_ty && !generic {
            if let ReturnType::Type(_, t) = &f.sig.output {
                let tt = t.to_token_stream().to_string();
                if !tt.contains("impl ") && !tt.contains("Self") && !tt.contains('&') && !tt.contains("!") {
                    return Some(parse_quote!({ #pre #binds let __inl: #t = { #(#b)* }; __inl }));
                }
            }
        }
        Some(parse_quote!({ #pre #binds #(#b)* }))
    }
}

impl<'c> VisitMut for Inliner<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() { return; }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let cands: Vec<String> = match segs.len() {
                        1 => vec![format!("{}::{}", self.module, segs[0])],
                        _ => {
                            let a = &segs[segs.len() - 2];
                            let b = &segs[segs.len() - 1];
                            let a = if a == "Self" { self.self_ty.clone().unwrap_or_default() } else if a == "self" || a == "crate" { self.module.clone() } else { a.clone() };
                            vec![format!("{}::{}", a, b)]
                        }
                    };
                    for k in cands {
                        if let Some(f) = self.body_of(&k) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let has_recv = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                            let r = if has_recv {
                                None
                            } else { self.build(f, None, args) };
                            if let Some(n) = r { *e = n; return; }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let on_self = ident_expr(&m.receiver).as_deref() == Some("self");
                let key = if on_self {
                    self.self_ty.as_ref().map(|t| format!("{}::{}", t, name))
                } else {
                    match self.methods.get(&name) {
                        Some(v) if v.len() == 1 && !STD_METHODS.contains(&name.as_str()) => Some(v[0].clone()),
                        _ => None,
                    }
                };
                if let Some(k) = key {
                    if let Some(f) = self.body_of(&k) {
                        if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                            let recv = (*m.receiver).clone();
                            let args: Vec<Expr> = m.args.iter().cloned().collect();
                            if let Some(n) = self.build(f, Some(recv), args) { *e = n; }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

const STD_METHODS: &[&str] = &["new", "clone", "len", "push", "get", "get_mut", "insert", "remove", "iter", "map", "contains", "contains_key", "is_empty", "to_string", "add", "sort", "default", "has", "at", "size", "eq", "cmp", "take", "extend", "first", "last"];

// ------------------------------------------------------------------ normalisation

struct Norm {
    callback_methods: BTreeMap<String, usize>,
    callback_params: BTreeSet<String>,
    n: usize,
    notes: BTreeSet<String>,
    /// locals that are collections without indices
    unindexed: BTreeSet<String>,
}

impl Norm {
    fn fresh(&mut self, base: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("__{}{}", base, self.n), proc_macro2::Span::call_site())
    }
    fn note(&mut self, s: &str) { self.notes.insert(s.into()); }
}

fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    let e = match e { Expr::Paren(p) => &p.expr, e => e };
    if let Expr::Closure(c) = e {
        let (r, q) = jumps_expr(&c.body);
        if r {
            // closures with early returns: try to remove them
            let stmts = match &*c.body { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
            if q { return None; }
            let v = untail(&stmts)?;
            let body: Expr = parse_quote!({ #(#v)* });
            return Some((c.inputs.iter().cloned().collect(), body));
        }
        if q { return None; }
        let mut body = (*c.body).clone();
        if let ReturnType::Type(_, t) = &c.output {
            let b = body.clone();
            body = parse_quote!({ let __cr: #t = #b; __cr });
        }
        Some((c.inputs.iter().cloned().collect(), body))
    } else { None }
}

fn strip_ty(p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() } }

/// Splits a method chain `base.a().b(x)` into (base, [calls outermost last]).
fn chain(e: &Expr) -> (Expr, Vec<(String, Vec<Expr>, TokenStream)>) {
    let mut calls = vec![];
    let mut cur = e.clone();
    loop {
        match cur {
            Expr::MethodCall(m) => {
                calls.push((m.method.to_string(), m.args.iter().cloned().collect(), m.turbofish.to_token_stream()));
                cur = *m.receiver;
            }
            Expr::Paren(p) => { cur = *p.expr; }
            other => { calls.reverse(); return (other, calls); }
        }
    }
}
fn unchain(base: Expr, calls: &[(String, Vec<Expr>, TokenStream)]) -> Expr {
    let mut e = base;
    for (n, a, t) in calls {
        let id = Ident::new(n, proc_macro2::Span::call_site());
        e = parse_quote!(#e . #id #t (#(#a),*));
    }
    e
}

const ITER_SRC: &[&str] = &["iter", "iter_mut", "into_iter", "par_iter", "into_par_iter", "par_iter_mut"];
/// methods of the stubbed dependency that yield an iterator
const STUB_ITERS: &[&str] = &["all_generated_locations_for", "by_original_location"];
const ADAPT: &[&str] = &["map", "filter", "cloned", "copied", "enumerate", "inspect", "filter_map", "skip", "take", "rev", "zip", "flat_map", "flatten", "take_while", "skip_while", "chain"];
const TERM: &[&str] = &["collect", "for_each", "all", "any", "find", "position", "count", "find_map", "sum", "max", "min", "last", "fold"];

impl Norm {
    /// `base.iter().adapters*.terminal(..)` as an explicit loop.
    fn iter_pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let (base, calls) = chain(e);
        if calls.is_empty() { return None; }
        let (term, targs, _) = calls.last().unwrap().clone();
        if !TERM.contains(&term.as_str()) { return None; }
        // last iterator source in the chain, or a range base
        let mut hoisted: Vec<Stmt> = vec![];
        let src = calls.iter().rposition(|(n, a, _)| (ITER_SRC.contains(&n.as_str()) && a.is_empty()) || STUB_ITERS.contains(&n.as_str()));
        let (mut source, adapters): (Expr, &[_]) = match src {
            Some(i) => {
                let (n, _, _) = &calls[i];
                let whole = unchain(base.clone(), &calls[..=i]);
                let mut recv = unchain(base, &calls[..i]);
                if matches!(n.as_str(), "iter" | "par_iter") && matches!(recv, Expr::MethodCall(_) | Expr::Call(_)) {
                    // the value iterated over lives as long as the loop
                    let s = self.fresh("src");
                    hoisted.push(parse_quote!(let #s = #recv;));
                    recv = parse_quote!(#s);
                }
                let it: Expr = match n.as_str() {
                    "iter" | "par_iter" => parse_quote!((#recv).iter()),
                    m if STUB_ITERS.contains(&m) => whole,
                    "iter_mut" | "par_iter_mut" => parse_quote!((#recv).iter_mut()),
                    _ => parse_quote!(#recv),
                };
                if n.starts_with("par") || n.contains("_par_") { self.note("rayon parallel iterator read as its sequential, order-preserving counterpart"); }
                (it, &calls[i + 1..calls.len() - 1])
            }
            None => match base {
                Expr::Range(_) => (base.clone(), &calls[..calls.len() - 1]),
                Expr::Paren(ref p) if matches!(*p.expr, Expr::Range(_)) => ((*p.expr).clone(), &calls[..calls.len() - 1]),
                _ => {
                    // `X.for_each(f)` on something that is already an iterator
                    if term == "for_each" && calls.len() >= 1 {
                        (unchain(base, &calls[..calls.len() - 1]), &calls[..0])
                    } else { return None; }
                }
            },
        };
        if adapters.iter().any(|(n, _, _)| !ADAPT.contains(&n.as_str())) { return None; }
        if let Expr::Paren(p) = &source { if matches!(*p.expr, Expr::Path(_)) { source = (*p.expr).clone(); } }
        let x0 = self.fresh("x");
        let mut cur: Expr = parse_quote!(#x0);
        let mut pre: Vec<Stmt> = hoisted; // before the loop
        let mut stmts: Vec<Stmt> = vec![]; // in the loop, before the terminal
        let mut closers: Vec<Box<dyn Fn(Vec<Stmt>) -> Vec<Stmt>>> = vec![];
        let mut post: Vec<Stmt> = vec![]; // end of body
        let mut nested = false;
        let mut counter: Option<Ident> = None; // the loop counts
        // `.chain(more)` at the end: a second loop
        let mut more: Option<Expr> = None;
        let adapters = match adapters.last() {
            Some((n, a, _)) if n == "chain" && term == "collect" => { more = Some(a[0].clone()); &adapters[..adapters.len() - 1] }
            _ => adapters,
        };
        for (n, a, _) in adapters {
            match n.as_str() {
                "cloned" | "copied" => { cur = parse_quote!((#cur).clone()); }
                "map" | "inspect" => {
                    let y = self.fresh("y");
                    if let Some((ps, body)) = closure_parts(&a[0]) {
                        if ps.len() != 1 { return None; }
                        let p = strip_ty(&ps[0]);
                        if n == "inspect" { return None; }
                        stmts.push(parse_quote!(let #y = { let #p = #cur; #body };));
                    } else if matches!(a[0], Expr::Path(_)) {
                        let f = &a[0];
                        stmts.push(parse_quote!(let #y = #f(#cur);));
                    } else { return None; }
                    cur = parse_quote!(#y);
                }
                "filter" => {
                    let (ps, body) = closure_parts(&a[0])?;
                    let p = strip_ty(&ps[0]);
                    let y = self.fresh("y");
                    stmts.push(parse_quote!(let #y = #cur;));
                    let before = std::mem::take(&mut stmts);
                    closers.push(Box::new(move |inner: Vec<Stmt>| {
                        let mut v = before.clone();
                        let st: Stmt = parse_quote!(if { let #p = &#y; #body } { #(#inner)* });
                        v.push(st);
                        v
                    }));
                    let y2 = Ident::new(&format!("__y{}", self.n), proc_macro2::Span::call_site());
                    cur = parse_quote!(#y2);
                }
                "enumerate" if stmts.is_empty() && closers.is_empty() && counter.is_none() => {
                    let k = self.fresh("n");
                    counter = Some(k.clone());
                    cur = parse_quote!((#k, #cur));
                }
                "enumerate" => {
                    let k = self.fresh("n");
                    pre.push(parse_quote!(let mut #k: usize = 0;));
                    let y = self.fresh("y");
                    stmts.push(parse_quote!(let #y = (#k, #cur);));
                    post.push(parse_quote!(#k += 1;));
                    if !closers.is_empty() { return None; }
                    cur = parse_quote!(#y);
                }
                "flat_map" => {
                    let (ps, body) = closure_parts(&a[0])?;
                    let p = strip_ty(ps.first()?);
                    let y = self.fresh("y");
                    if !post.is_empty() { return None; }
                    let before = std::mem::take(&mut stmts);
                    let (c0, y0) = (cur.clone(), y.clone());
                    closers.push(Box::new(move |inner: Vec<Stmt>| {
                        let mut v = before.clone();
                        v.push(parse_quote!(let #p = #c0;));
                        let st: Stmt = parse_quote!(for #y0 in #body { #(#inner)* });
                        v.push(st);
                        v
                    }));
                    nested = true;
                    cur = parse_quote!(#y);
                }
                _ => return None,
            }
        }
        // a loop in the loop: `break` would leave the inner one only
        if nested && !matches!(term.as_str(), "collect" | "for_each") { return None; }
        let (source, x0): (Expr, Pat) = match &counter {
            Some(k) => (parse_quote!(#source.enumerate()), parse_quote!((#k, #x0))),
            None => (source, parse_quote!(#x0)),
        };
        let wrap = |inner: Vec<Stmt>| -> Vec<Stmt> {
            let mut v = stmts.clone();
            v.extend(inner);
            for c in closers.iter().rev() { v = c(v); }
            v
        };
        let out = match term.as_str() {
            "collect" => {
                if adapters.is_empty() && src.is_none() { return None; }
                let acc = self.fresh("out");
                let b = wrap(vec![parse_quote!(#acc.push(#cur);)]);
                let again: Vec<Stmt> = match more {
                    Some(m) => { let z = self.fresh("x"); vec![parse_quote!(for #z in crate::vshim::items(#m) { #acc.push(#z); })] }
                    None => vec![],
                };
                parse_quote!({ let mut #acc = Vec::new(); #(#pre)* for #x0 in #source { #(#b)* #(#post)* } #(#again)* #acc })
            }
            "for_each" => {
                let call: Stmt = if let Some((ps, body)) = closure_parts(&targs[0]) {
                    let p = strip_ty(ps.first()?);
                    parse_quote!({ let #p = #cur; #body; })
                } else if let Some(id) = ident_expr(&targs[0]) {
                    let id = Ident::new(&id, proc_macro2::Span::call_site());
                    if self.callback_params.contains(&id.to_string()) {
                        parse_quote!(#id.push((#cur).clone());)
                    } else { parse_quote!(#id(#cur);) }
                } else { return None; };
                let b = wrap(vec![call]);
                parse_quote!({ #(#pre)* for #x0 in #source { #(#b)* #(#post)* } })
            }
            "all" | "any" => {
                let (ps, body) = closure_parts(&targs[0])?;
                let p = strip_ty(ps.first()?);
                let acc = self.fresh(if term == "all" { "flag" } else { "hit" });
                let (init, cond): (Expr, Expr) = if term == "all" {
                    (parse_quote!(true), parse_quote!(!{ let #p = #cur; #body }))
                } else { (parse_quote!(false), parse_quote!({ let #p = #cur; #body })) };
                let neg: Expr = if term == "all" { parse_quote!(false) } else { parse_quote!(true) };
                if !post.is_empty() { return None; }
                let b = wrap(vec![parse_quote!(if #cond { #acc = #neg; break; })]);
                parse_quote!({ let mut #acc = #init; #(#pre)* for #x0 in #source { #(#b)* } #acc })
            }
            "find" => {
                let (ps, body) = closure_parts(&targs[0])?;
                let p = strip_ty(ps.first()?);
                let acc = self.fresh("found");
                let y = self.fresh("y");
                if !post.is_empty() { return None; }
                let b = wrap(vec![parse_quote!(let #y = #cur;), parse_quote!(if { let #p = &#y; #body } { #acc = Some(#y); break; })]);
                parse_quote!({ let mut #acc = None; #(#pre)* for #x0 in #source { #(#b)* } #acc })
            }
            "find_map" => {
                let (ps, body) = closure_parts(&targs[0])?;
                let p = strip_ty(ps.first()?);
                let acc = self.fresh("found");
                if !post.is_empty() { return None; }
                let b = wrap(vec![parse_quote!(#acc = { let #p = #cur; #body };), parse_quote!(if #acc.is_some() { break; })]);
                parse_quote!({ let mut #acc = None; #(#pre)* for #x0 in #source { #(#b)* } #acc })
            }
            "position" => {
                let (ps, body) = closure_parts(&targs[0])?;
                let p = strip_ty(ps.first()?);
                let acc = self.fresh("found");
                let k = self.fresh("n");
                if !post.is_empty() || !closers.is_empty() || counter.is_some() { return None; }
                let b = wrap(vec![parse_quote!(if { let #p = #cur; #body } { #acc = Some(#k); break; })]);
                parse_quote!({ let mut #acc = None; #(#pre)* for (#k, #x0) in #source.enumerate() { #(#b)* } #acc })
            }
            _ => return None,
        };
        self.note("iterator pipeline with closures written as the loop it denotes");
        Some(out)
    }

    fn option_combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &*m.receiver;
        let in_iter = {
            let (base, calls) = chain(recv);
            let mut it = matches!(base, Expr::Range(_));
            for (n, _, _) in &calls {
                if ITER_SRC.contains(&n.as_str()) || STUB_ITERS.contains(&n.as_str()) || ["chars", "bytes", "split", "keys", "values", "lines"].contains(&n.as_str()) { it = true; }
                else if it && !ADAPT.contains(&n.as_str()) { it = false; }
            }
            it
        };
        if in_iter { return None; }
        let arg = |i: usize| m.args.iter().nth(i).cloned();
        let v = self.fresh("v");
        let r = match (name.as_str(), m.args.len()) {
            ("map", 1) | ("and_then", 1) | ("is_some_and", 1) | ("is_none_or", 1) => {
                let a = arg(0)?;
                let (p, body): (Pat, Expr) = match closure_parts(&a) {
                    Some((ps, b)) => { if ps.len() != 1 { return None; } (strip_ty(&ps[0]), b) }
                    None => if matches!(a, Expr::Path(_)) { (parse_quote!(#v), parse_quote!(#a(#v))) } else { return None; },
                };
                match name.as_str() {
                    "map" => parse_quote!(match #recv { Some(#p) => Some(#body), None => None }),
                    "and_then" => parse_quote!(match #recv { Some(#p) => #body, None => None }),
                    "is_some_and" => parse_quote!(match #recv { Some(#p) => #body, None => false }),
                    _ => parse_quote!(match #recv { Some(#p) => #body, None => true }),
                }
            }
            ("map_or", 2) => {
                let d = arg(0)?;
                let (ps, b) = closure_parts(&arg(1)?)?;
                let p = strip_ty(&ps[0]);
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("map_or_else", 2) => {
                let (_, d) = closure_parts(&arg(0)?)?;
                let (ps, b) = closure_parts(&arg(1)?)?;
                let p = strip_ty(&ps[0]);
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("unwrap_or_else", 1) => {
                let (ps, b) = closure_parts(&arg(0)?)?;
                if ps.is_empty() { parse_quote!(match #recv { Some(#v) => #v, None => #b }) }
                else { let p = strip_ty(&ps[0]); parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b }) }
            }
            ("or_else", 1) => {
                let (ps, b) = closure_parts(&arg(0)?)?;
                if !ps.is_empty() { return None; }
                parse_quote!(match #recv { Some(#v) => Some(#v), None => #b })
            }
            ("or", 1) => { let b = arg(0)?; if jumps_expr(&b).0 { return None; } let w = self.fresh("w"); parse_quote!({ let #v = #recv; let #w = #b; match #v { Some(__o) => Some(__o), None => #w } }) }
            ("filter", 1) => {
                let (ps, b) = closure_parts(&arg(0)?)?;
                let p = strip_ty(&ps[0]);
                parse_quote!(match #recv { Some(#v) => if { let #p = &#v; #b } { Some(#v) } else { None }, None => None })
            }
            ("then", 1) => {
                let (ps, b) = closure_parts(&arg(0)?)?;
                if !ps.is_empty() { return None; }
                parse_quote!(if #recv { Some(#b) } else { None })
            }
            ("then_with", 1) => {
                let (ps, b) = closure_parts(&arg(0)?)?;
                if !ps.is_empty() || jumps_expr(&b).0 { return None; }
                parse_quote!({ let #v = #recv; match #v { std::cmp::Ordering::Equal => #b, _ => #v } })
            }
            ("flatten", 0) => parse_quote!(match #recv { Some(#v) => #v, None => None }),
            ("as_deref", 0) => parse_quote!(match &(#recv) { Some(#v) => Some(#v.as_str()), None => None }),
            ("parse", 0) => parse_quote!(crate::vshim::vparse(#recv)),
            _ => return None,
        };
        self.note("Option combinator with a closure written as the match it denotes");
        Some(r)
    }
}

/// `&x` inside a pattern becomes `x`, with `let x = *x;` where the branch starts.
struct DerefPats(Vec<Ident>);
impl VisitMut for DerefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                if let Pat::Ident(i) = &*r.pat {
                    if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() {
                        self.0.push(i.ident.clone());
                        *p = Pat::Ident(i.clone());
                        return;
                    }
                }
                if let Pat::Tuple(_) = &*r.pat {
                    let mut inner = (*r.pat).clone();
                    // every name bound under the reference is a copy
                    for q in match &mut inner { Pat::Tuple(t) => t.elems.iter_mut(), _ => unreachable!() } {
                        if let Pat::Ident(i) = q { self.0.push(i.ident.clone()); }
                    }
                    *p = inner;
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
fn deref_pats(p: &mut Pat) -> Vec<Stmt> {
    let mut d = DerefPats(vec![]);
    d.visit_pat_mut(p);
    d.0.into_iter().map(|i| parse_quote!(let #i = *#i;)).collect()
}

fn is_stringy(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::Reference(_) => true,
        Expr::MethodCall(m) => m.method == "as_str",
        Expr::Paren(p) => is_stringy(&p.expr),
        _ => false,
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
fn bare(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => bare(&p.expr), e => e }
}

impl Norm {
    /// for x in v.iter() { .. }  ->  for k in 0..v.len() { let x = &v[k]; .. }   (also &v, and with enumerate)
    fn indexed_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        fn slice(e: &Expr) -> Option<(&Expr, bool)> {
            match bare(e) {
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((bare(&m.receiver), false)),
                Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((bare(&m.receiver), true)),
                Expr::Reference(r) => Some((bare(&r.expr), r.mutability.is_some())),
                _ => None,
            }.filter(|e| is_place(e.0))
        }
        // a shared reference to the vector in an Option
        if let Expr::MethodCall(m) = bare(&f.expr) {
            if m.method == "unwrap" && m.args.is_empty() {
                if let Expr::MethodCall(o) = bare(&m.receiver) {
                    if o.method == "as_ref" && o.args.is_empty() && is_place(&o.receiver) {
                        let s = self.fresh("src");
                        let whole = bare(&f.expr);
                        let mut f2 = f.clone();
                        f2.expr = Box::new(parse_quote!(#s.iter()));
                        let l = self.indexed_loop(&f2)?;
                        return Some(parse_quote!({ let #s = #whole; #l }));
                    }
                }
            }
        }
        let no = |e: &Expr| ident_expr(e).map(|n| self.unindexed.contains(&n)).unwrap_or(false);
        let ((v, mutable), counted) = match bare(&f.expr) {
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => (slice(&m.receiver)?, true),
            e => (slice(e)?, false),
        };
        if no(v) { return None; }
        let p = strip_ty(&f.pat);
        let k = self.fresh("n");
        let stmts = &f.body.stmts;
        let label = &f.label;
        self.note("for x in v.iter() written as a loop over the indices of v");
        let el: Expr = if mutable { parse_quote!(&mut #v[#k]) } else { parse_quote!(&#v[#k]) };
        if !counted { return Some(parse_quote!(#label for #k in 0..#v.len() { let #p = #el; #(#stmts)* })); }
        match &p {
            Pat::Tuple(t) if t.elems.len() == 2 => {
                let (a, b) = (&t.elems[0], &t.elems[1]);
                Some(parse_quote!(#label for #k in 0..#v.len() { let #a = #k; let #b = #el; #(#stmts)* }))
            }
            _ => Some(parse_quote!(#label for #k in 0..#v.len() { let #p = (#k, #el); #(#stmts)* })),
        }
    }
    /// loop { if X { break; } if Y { break; } rest }  ->  while !(X) && !(Y) { rest }
    fn leading_breaks(&mut self, e: &Expr) -> Option<Expr> {
        let l = match e { Expr::Loop(l) => l, _ => return None };
        let mut conds: Vec<Expr> = vec![];
        let mut k = 0;
        for s in &l.body.stmts {
            let i = match s { Stmt::Expr(Expr::If(i), _) => i, _ => break };
            if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 || has_let(&i.cond) { break; }
            let b = match &i.then_branch.stmts[0] { Stmt::Expr(Expr::Break(b), _) => b, _ => break };
            if b.expr.is_some() || b.label.is_some() { break; }
            conds.push((*i.cond).clone());
            k += 1;
        }
        if k == 0 { return None; }
        struct V(bool);
        impl<'a> Visit<'a> for V {
            fn visit_expr_break(&mut self, b: &'a ExprBreak) { if b.expr.is_some() { self.0 = true; } }
        }
        let mut v = V(false);
        v.visit_block(&l.body);
        if v.0 { return None; }
        let neg: Vec<Expr> = conds.iter().map(negated).collect();
        let rest = &l.body.stmts[k..];
        let label = &l.label;
        self.note("loop { if c { break; } .. } written as while !c { .. }");
        Some(parse_quote!(#label while #(#neg)&&* { #(#rest)* }))
    }
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn negated(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => negated(&p.expr),
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "is_none" || m.method == "is_some") => {
            let mut m = m.clone();
            m.method = Ident::new(if m.method == "is_none" { "is_some" } else { "is_none" }, m.method.span());
            Expr::MethodCall(m)
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
            let x = &u.expr;
            parse_quote!((#x))
        }
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            // comparisons of integers only would be needed for < and >: == and != negate for any type
            match b.op {
                BinOp::Eq(_) => parse_quote!(#l != #r),
                BinOp::Ne(_) => parse_quote!(#l == #r),
                BinOp::Or(_) => { let (a, b) = (negated(l), negated(r)); parse_quote!(#a && #b) }
                _ => parse_quote!(!(#e)),
            }
        }
        _ => parse_quote!(!(#e)),
    }
}

impl VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // callbacks first (they look at un-normalised closures)
        if let Expr::MethodCall(m) = e {
            if let Some(&idx) = self.callback_methods.get(&m.method.to_string()) {
                if let Some(a) = m.args.iter().nth(idx).cloned() {
                    if let Some((ps, body)) = closure_parts(&a) {
                        if ps.len() == 1 {
                            let t = self.fresh("trace");
                            let x = self.fresh("x");
                            let p = strip_ty(&ps[0]);
                            let mut m2 = m.clone();
                            *m2.args.iter_mut().nth(idx).unwrap() = parse_quote!(&mut #t);
                            *e = parse_quote!({ let mut #t = Vec::new(); #m2; for #x in #t.iter() { let #p = #x; #body; } });
                            self.note("callback argument replaced by the list of values it is called with");
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Some(f) = ident_expr(&c.func) {
                if self.callback_params.contains(&f) && !c.args.is_empty() {
                    let id = Ident::new(&f, proc_macro2::Span::call_site());
                    let a: Vec<Expr> = c.args.iter().map(|a| parse_quote!((#a).clone())).collect();
                    *e = if a.len() == 1 { let a = &a[0]; parse_quote!(#id.push(#a)) } else { parse_quote!(#id.push((#(#a),*))) };
                }
            }
        }
        if let Some(n) = self.text_function(e) { *e = n; self.visit_expr_mut(e); return; }
        if let Expr::Unary(u) = e {
            if let (UnOp::Not(_), Expr::MethodCall(m)) = (&u.op, bare(&u.expr)) {
                if m.method == "any" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        let mut c = c.clone();
                        c.body = Box::new(negated(&c.body));
                        let mut m = m.clone();
                        m.method = Ident::new("all", m.method.span());
                        m.args = std::iter::once(Expr::Closure(c)).collect();
                        self.note("!any(p) written as all(!p)");
                        *e = Expr::MethodCall(m);
                    }
                }
            }
        }
        // pipelines are matched from the outside in
        if matches!(e, Expr::MethodCall(_)) {
            if let Some(n) = self.iter_pipeline(e) { *e = n; self.visit_expr_mut(e); return; }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let pre = deref_pats(&mut l.pat);
                    if !pre.is_empty() {
                        let old = std::mem::take(&mut i.then_branch.stmts);
                        i.then_branch.stmts = pre.into_iter().chain(old).collect();
                        self.note("&x in a pattern written as x with let x = *x");
                    }
                }
            }
            Expr::Loop(_) => if let Some(w) = self.leading_breaks(e) { *e = w; },
            Expr::While(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let pre = deref_pats(&mut l.pat);
                    let old = std::mem::take(&mut i.body.stmts);
                    i.body.stmts = pre.into_iter().chain(old).collect();
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if matches!(a.pat, Pat::Guard(_)) { continue; }
                    let pre = deref_pats(&mut a.pat);
                    if !pre.is_empty() {
                        let b = &a.body;
                        a.body = Box::new(parse_quote!({ #(#pre)* #b }));
                        self.note("&x in a pattern written as x with let x = *x");
                    }
                }
            }
            _ => {}
        }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(n) = self.option_combinator(m) { *e = n; return; }
                if name == "extend" && m.args.len() == 1 {
                    let (recv, a) = (m.receiver.clone(), m.args[0].clone());
                    let x = self.fresh("x");
                    self.note("vec.extend(it) written as a loop of pushes");
                    *e = parse_quote!({ for #x in #a { #recv.push(#x); } });
                    return;
                }
                if (name == "to_owned" || name == "to_string" || name == "into") && m.args.is_empty() {
                    if let Expr::Lit(l) = &*m.receiver {
                        if matches!(l.lit, Lit::Str(_)) { let l = l.clone(); *e = parse_quote!(crate::vshim::lit(#l)); }
                    }
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "String::from" && c.args.len() == 1 { let a = c.args[0].clone(); *e = parse_quote!(crate::vshim::lit(#a)); }
            }
            Expr::Macro(m) => {
                if let Some(n) = self.macro_expr(&m.mac) { *e = n; }
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::AddAssign(_)) && is_stringy(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l.push_str(#r));
                }
            }
            Expr::ForLoop(f) => {
                let pre = deref_pats(&mut f.pat);
                if !pre.is_empty() {
                    let old = std::mem::take(&mut f.body.stmts);
                    f.body.stmts = pre.into_iter().chain(old).collect();
                }
                if let Some(n) = self.indexed_loop(f) { *e = n; return; }
            }
            Expr::Index(i) => {
                if let Expr::Reference(_) = &*i.index {
                    let (b, k) = (&i.expr, &i.index);
                    *e = parse_quote!((*#b.get(#k).unwrap()));
                    self.note("map[&key] written as *map.get(&key).unwrap()");
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            let words: BTreeSet<String> = l.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string()).collect();
            if ["LinkedList", "VecDeque", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap", "v_split_queue"].iter().any(|w| words.contains(*w)) {
                if let Some(n) = pat_name(&strip_ty(&l.pat)) { self.unindexed.insert(n); }
            }
            // the type that collect() collects into, where it is written at the binding
            if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
                if let Expr::MethodCall(m) = &mut *i.expr {
                    if m.method == "collect" && m.turbofish.is_none() {
                        let ty = &t.ty;
                        m.turbofish = Some(parse_quote!(::<#ty>));
                    }
                }
            }
        }
        if let Stmt::Macro(m) = s {
            if let Some(n) = self.macro_expr(&m.mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(n, semi);
                if let Stmt::Expr(e, _) = s { self.visit_expr_mut(e); }
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// is this a text: a literal, `x.as_str()`, `&s` (the other argument kinds of str's generic functions are chars and closures)
fn text_arg(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::MethodCall(m) => m.method == "as_str",
        Expr::Paren(p) => text_arg(&p.expr),
        _ => false,
    }
}
fn lit_text(e: &Expr) -> Option<String> {
    if let Expr::Lit(l) = e { if let Lit::Str(s) = &l.lit { return Some(s.value()); } }
    None
}

/// a char or text pattern, as a text
fn pattern(e: &Expr) -> Option<Expr> {
    if let Expr::Lit(l) = e {
        if let Lit::Char(c) = &l.lit {
            let t = syn::LitStr::new(&c.value().to_string(), c.span());
            return Some(parse_quote!(#t));
        }
    }
    if text_arg(e) { Some(e.clone()) } else { None }
}

impl Norm {
    /// functions of str that are generic over Pattern, or pipelines over a text's characters or pieces,
    /// written as calls of the stand-ins with their documented meaning
    fn text_function(&mut self, e: &Expr) -> Option<Expr> {
        let (base, calls) = chain(e);
        let n = calls.len();
        let name = |k: usize| calls[n - k].0.as_str();
        let arg = |k: usize| calls[n - k].1.first().cloned();
        let upto = |k: usize| unchain(base.clone(), &calls[..n - k]);
        let r: Expr = if n >= 3 && name(3) == "chars" && name(2) == "skip" && name(1) == "collect" {
            let (b, k) = (upto(3), arg(2)?);
            parse_quote!((#b).v_skip(#k))
        } else if n >= 2 && name(2) == "split" && name(1) == "count" && pattern(&arg(2)?).and_then(|p| lit_text(&p)).map_or(false, |t| !t.is_empty()) {
            let (b, k) = (upto(2), pattern(&arg(2)?)?);
            parse_quote!((#b).v_split_count(#k))
        } else if n >= 2 && name(2) == "split" && name(1) == "collect" {
            let (b, k) = (upto(2), arg(2)?);
            let t = calls[n - 1].2.to_string().replace(' ', "");
            if !matches!(&k, Expr::Lit(l) if matches!(l.lit, Lit::Char(_))) { return None; }
            if t.starts_with("::<Vec<") { parse_quote!((#b).v_split(#k)) }
            else if t.starts_with("::<LinkedList<") || t.starts_with("::<VecDeque<") { parse_quote!((#b).v_split_queue(#k)) }
            else { return None; }
        } else if n >= 1 && name(1) == "join" && lit_text(&arg(1)?).map(|t| !t.is_empty()).unwrap_or(false) {
            let (b, k) = (upto(1), arg(1)?);
            parse_quote!((#b).v_join(#k))
        } else if n >= 1 && matches!(name(1), "contains" | "starts_with" | "ends_with") && pattern(&arg(1)?).is_some() {
            let (b, k) = (upto(1), pattern(&arg(1)?)?);
            match name(1) {
                "contains" => parse_quote!((#b).v_contains(#k)),
                "starts_with" => parse_quote!((#b).v_starts(#k)),
                _ => parse_quote!((#b).v_ends(#k)),
            }
        } else if n >= 1 && matches!(name(1), "strip_prefix" | "strip_suffix" | "trim_end_matches" | "trim_start_matches" | "trim_matches") && calls[n - 1].1.len() == 1 && pattern(&arg(1)?).is_some() {
            let (b, k) = (upto(1), pattern(&arg(1)?)?);
            let f = Ident::new(&format!("v_{}", name(1)), proc_macro2::Span::call_site());
            parse_quote!((#b).#f(#k))
        } else if n >= 1 && name(1) == "replace" && calls[n - 1].1.len() == 2 && pattern(&calls[n - 1].1[0]).is_some() && text_arg(&calls[n - 1].1[1]) {
            let (b, a) = (upto(1), &calls[n - 1].1);
            let (x, y) = (pattern(&a[0])?, &a[1]);
            parse_quote!((#b).v_replace(#x, #y))
        } else if n >= 1 && name(1) == "repeat" && calls[n - 1].1.len() == 1 {
            let (b, k) = (upto(1), arg(1)?);
            parse_quote!((#b).v_repeat(#k))
        } else if n >= 1 && name(1) == "replacen" && calls[n - 1].1.len() == 3 {
            let (b, a) = (upto(1), &calls[n - 1].1);
            let (x, y, z) = (pattern(&a[0])?, &a[1], &a[2]);
            if !text_arg(y) { return None; }
            parse_quote!((#b).v_replacen(#x, #y, #z))
        } else { return None };
        self.note("generic text function (split, join, contains, starts_with, ends_with, repeat, replacen, chars().skip()) written as the stand-in with its documented meaning");
        Some(r)
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.note("panic!/unreachable!/unimplemented!/todo! message dropped"); Some(parse_quote!(crate::vshim::vpanic())) }
            "assert" | "debug_assert" | "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let a: Vec<Expr> = args.into_iter().collect();
                let c: Expr = if name.ends_with("_eq") { let (x, y) = (a.get(0)?, a.get(1)?); parse_quote!(#x == #y) }
                    else if name.ends_with("_ne") { let (x, y) = (a.get(0)?, a.get(1)?); parse_quote!(#x != #y) }
                    else { a.get(0)?.clone() };
                let mut r: Expr = parse_quote!(if !(#c) { crate::vshim::vpanic() });
                self.visit_expr_mut(&mut r);
                Some(r)
            }
            "matches" => {
                let ts = m.tokens.clone();
                let toks: Vec<TokenTree> = ts.into_iter().collect();
                let comma = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = toks[..comma].iter().cloned().collect();
                let mut p: Vec<TokenTree> = toks[comma + 1..].to_vec();
                if matches!(p.last(), Some(TokenTree::Punct(q)) if q.as_char() == ',') { p.pop(); }
                let p: TokenStream = p.into_iter().collect();
                let mut r: Expr = syn::parse2(quote!(match #e { #p => true, _ => false })).ok()?;
                self.visit_expr_mut(&mut r);
                Some(r)
            }
            "format" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let a: Vec<Expr> = args.into_iter().collect();
                let f = lit_text(a.first()?)?;
                let v = self.fresh("text");
                let mut stmts: Vec<Stmt> = vec![];
                let (mut used, mut plain, mut rest) = (1, String::new(), f.as_str());
                while let Some(i) = rest.find(|c| c == '{' || c == '}') {
                    plain.push_str(&rest[..i]);
                    let two = rest.get(i..i + 2).unwrap_or("");
                    if two == "{{" || two == "}}" { plain.push_str(&two[..1]); rest = &rest[i + 2..]; continue; }
                    let j = i + rest[i..].find('}')?;
                    let id = &rest[i + 1..j];
                    let x: Expr = if id.is_empty() { used += 1; a.get(used - 1)?.clone() } else { syn::parse_str::<Ident>(id).ok()?; syn::parse_str(id).ok()? };
                    if !plain.is_empty() { stmts.push(parse_quote!(#v.push_str(#plain);)); plain.clear(); }
                    stmts.push(parse_quote!(crate::vshim::show(&mut #v, &#x);));
                    rest = &rest[j + 1..];
                }
                plain.push_str(rest);
                if !plain.is_empty() { stmts.push(parse_quote!(#v.push_str(#plain);)); }
                if used != a.len() { return None; }
                self.note("format! with plain {} written as the pushes it denotes");
                let mut r: Expr = parse_quote!({ let mut #v = String::new(); #(#stmts)* #v });
                self.visit_expr_mut(&mut r);
                Some(r)
            }
            "vec" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                if args.is_empty() { return Some(parse_quote!(Vec::new())); }
                let v = self.fresh("vec");
                let a: Vec<Expr> = args.into_iter().collect();
                let mut r: Expr = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v });
                self.visit_expr_mut(&mut r);
                Some(r)
            }
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ for loops with continue

/// Fresh names are renumbered by order of appearance so that they are stable.
struct Renumber { seen: HashMap<String, String>, counts: HashMap<String, usize> }
const FRESH: &[&str] = &["x", "y", "n", "out", "flag", "found", "v", "w", "vec", "trace", "recv", "text"];
impl VisitMut for Renumber {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if let Some(rest) = s.strip_prefix("__") {
            let base: String = rest.chars().take_while(|c| c.is_alphabetic()).collect();
            if FRESH.contains(&base.as_str()) && rest.len() > base.len() && rest[base.len()..].chars().all(|c| c.is_ascii_digit()) {
                let n = match self.seen.get(&s) {
                    Some(n) => n.clone(),
                    None => {
                        let c = self.counts.entry(base.clone()).or_insert(0);
                        let n = format!("__{}_{}", base, c);
                        *c += 1;
                        self.seen.insert(s.clone(), n.clone());
                        n
                    }
                };
                *i = Ident::new(&n, i.span());
            }
        }
    }
}

struct ForCont { n: usize }
impl VisitMut for ForCont {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            let mut j = LoopJumps { brk: false, cont: false };
            j.visit_block(&f.body);
            if !j.cont { return; }
            let rng = match &*f.expr { Expr::Range(r) => Some(r.clone()), Expr::Paren(p) => if let Expr::Range(r) = &*p.expr { Some(r.clone()) } else { None }, _ => None };
            if let Some(r) = rng {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    let k = self.n;
                    self.n += 1;
                    let cnt = Ident::new(&format!("__idx{}", k), proc_macro2::Span::call_site());
                    let end = Ident::new(&format!("__end{}", k), proc_macro2::Span::call_site());
                    let p = strip_ty(&f.pat);
                    let stmts = &f.body.stmts;
                    let label = &f.label;
                    *e = parse_quote!({ let #end = #b; let mut #cnt = #a; #label while #cnt < #end { let #p = #cnt; #cnt += 1; #(#stmts)* } });
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ------------------------------------------------------------------ markers

struct Mark {
    loops: Vec<Value>,
    closures: Vec<Value>,
    rets: usize,
    lets: BTreeMap<String, usize>,
    calls: BTreeSet<String>,
    in_closure: usize,
}

fn mk(s: &str) -> Stmt {
    let id = Ident::new(s, proc_macro2::Span::call_site());
    parse_quote!(__m! { #id })
}

impl Mark {
    fn block_text(&mut self, b: &Block) -> String {
        let stmts = &b.stmts;
        print_ts(quote!(#(#stmts)*))
    }
}

impl VisitMut for Mark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut after = None;
            let mut before = None;
            if let Stmt::Local(l) = &s {
                if let Some(n) = pat_name(&l.pat) {
                    let c = self.lets.entry(n.clone()).or_insert(0);
                    after = Some(if *c == 0 { format!("let_{}", n) } else { format!("let_{}_{}", n, c) });
                    *c += 1;
                }
            }
            if let Stmt::Expr(Expr::Return(_), _) = &s {
                if self.in_closure == 0 {
                    before = Some(format!("ret_{}", self.rets));
                    self.rets += 1;
                }
            }
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let k = self.loops.len();
            self.visit_stmt_mut(&mut s);
            if is_loop { out.push(mk(&format!("lb_{}", k))); }
            if let Some(x) = before { out.push(mk(&x)); }
            out.push(s);
            if is_loop { out.push(mk(&format!("la_{}", k))); }
            if let Some(x) = after { out.push(mk(&x)); }
        }
        // a marker may not follow a tail expression
        if out.len() >= 2 {
            if let Stmt::Macro(_) = out[out.len() - 1] {
                if matches!(&out[out.len() - 2], Stmt::Expr(Expr::Macro(m), None) if m.mac.path.is_ident("__c")) { out.pop(); }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let k = self.loops.len();
                self.loops.push(Value::Null);
                let depth_before = k;
                let (kind, pat, head, label, mut body) = match e {
                    Expr::ForLoop(f) => { self.visit_expr_mut(&mut f.expr); ("for", print_ts(f.pat.to_token_stream()), print_ts(f.expr.to_token_stream()), f.label.to_token_stream().to_string(), f.body.clone()) }
                    Expr::While(w) => { self.visit_expr_mut(&mut w.cond); ("while", String::new(), print_ts(w.cond.to_token_stream()), w.label.to_token_stream().to_string(), w.body.clone()) }
                    Expr::Loop(l) => ("loop", String::new(), String::new(), l.label.to_token_stream().to_string(), l.body.clone()),
                    _ => unreachable!(),
                };
                self.visit_block_mut(&mut body);
                let txt = self.block_text(&body);
                let nested = self.loops.len() - depth_before - 1;
                self.loops[k] = json!({"kind": kind, "pat": pat, "head": head, "label": label, "body": txt, "nested": nested});
                let idx = proc_macro2::Literal::usize_unsuffixed(k);
                *e = parse_quote!(__l! { #idx });
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures.len();
                self.closures.push(Value::Null);
                self.in_closure += 1;
                self.visit_expr_mut(&mut c.body);
                self.in_closure -= 1;
                let pats: Vec<String> = c.inputs.iter().map(|p| print_ts(p.to_token_stream())).collect();
                let names: Vec<Option<String>> = c.inputs.iter().map(pat_name).collect();
                let mv = c.capture.is_some();
                let ret = print_ts(c.output.to_token_stream());
                self.closures[k] = json!({"pats": pats, "names": names, "move": mv, "ret": ret, "body": print_ts(c.body.to_token_stream())});
                let idx = proc_macro2::Literal::usize_unsuffixed(k);
                *e = parse_quote!(__c! { #idx });
                return;
            }
            _ => {}
        }
        if let Expr::Call(c) = e { self.calls.insert(c.func.to_token_stream().to_string().replace(' ', "")); }
        if let Expr::MethodCall(m) = e { self.calls.insert(format!(".{}", m.method)); }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ------------------------------------------------------------------ serde's derived code

/// Names of the expanded derive output rewritten to the names of the stand-in module `serde`.
struct Codec { ty: String, fields: HashMap<String, String> }
const PLAIN: &[&str] = &["Ok", "Err", "Some", "None", "Option", "Result", "Default", "Vec", "String"];
impl Codec {
    fn shorten(&self, p: &mut Path) {
        if p.segments.first().map(|s| s.ident == "_serde").unwrap_or(false) {
            let mut segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            if segs.first().map(|s| s.ident.to_string().starts_with("__private")).unwrap_or(false) { segs.remove(0); }
            if segs.is_empty() { return; }
            if PLAIN.contains(&segs[0].ident.to_string().as_str()) {
                p.leading_colon = None;
                p.segments = segs.into_iter().collect();
            } else {
                let last = segs.pop().unwrap();
                *p = parse_quote!(crate::serde::#last);
            }
        }
    }
}
impl VisitMut for Codec {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if s == "__Field" { *i = Ident::new(&format!("{}Field", self.ty), i.span()); }
        else if s == "__ignore" { *i = Ident::new("ignored", i.span()); }
        else if let Some(n) = self.fields.get(&s) { *i = Ident::new(&format!("f_{}", n), i.span()); }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.shorten(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_some() {
                if let Some(last) = p.path.segments.last() { let l = last.clone(); *e = parse_quote!(crate::serde::#l); }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    *e = parse_quote!(loop { let __next = #x; match __next { #p => #b _ => { break; } } });
                }
            }
            Expr::Match(m) => {
                fn texts(p: &Pat) -> Option<Vec<Lit>> {
                    match p {
                        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![l.lit.clone()]),
                        Pat::Or(o) => { let mut v = vec![]; for q in &o.cases { v.extend(texts(q)?); } Some(v) }
                        _ => None,
                    }
                }
                if !m.arms.iter().any(|a| texts(&a.pat).is_some()) { return; }
                let x = &m.expr;
                let mut r: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    match texts(&a.pat) {
                        Some(ts) => {
                            let mut c: Option<Expr> = None;
                            for t in ts { c = Some(match c { None => parse_quote!(crate::vshim::same_text(#x, #t)), Some(c) => parse_quote!(#c || crate::vshim::same_text(#x, #t)) }); }
                            let el = match r { Some(r) => r, None => return };
                            r = Some(parse_quote!(if #c { #b } else { #el }));
                        }
                        None => r = Some((**b).clone()),
                    }
                }
                if let Some(r) = r { *e = r; }
            }
            Expr::Cast(c) => {
                if let Expr::Lit(l) = &*c.expr { if let Lit::Bool(b) = &l.lit {
                    let n = proc_macro2::Literal::usize_suffixed(b.value as usize);
                    *e = parse_quote!(#n);
                } }
            }
            _ => {}
        }
    }
}

fn codec_items(module: &str, items: &[Item], c: &mut Crate) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) { continue; }
                let name = m.ident.to_string();
                if let Some(its) = &m.content { codec_items(if module.is_empty() { &name } else { module }, its.items(), c); }
            }
            Item::Impl(im) => { std_impl(module, im, c); }
            Item::Const(k) if k.ident == "_" => {
                if let Expr::Block(b) = &*k.expr {
                    for s in &b.block.stmts { if let Stmt::Item(Item::Impl(im)) = s { codec_impl(module, im, c); } }
                }
            }
            _ => {}
        }
    }
}

/// the Clone and Default implementations of the crate's types as the compiler gets them: T::derived_clone, T::derived_default
fn std_impl(module: &str, im: &ItemImpl, c: &mut Crate) -> Option<()> {
    let tr = im.trait_.as_ref()?.0.segments.last()?.ident.to_string();
    if !im.generics.params.is_empty() || is_test(&im.attrs) { return None; }
    let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
    let tyi: Type = (*im.self_ty).clone();
    let get = |n: &str| im.items.iter().find_map(|i| match i { ImplItem::Fn(f) if f.sig.ident == n => Some(f.clone()), _ => None });
    let (f, sig): (ImplItemFn, Signature) = match tr.as_str() {
        "Clone" => (get("clone")?, parse_quote!(fn derived_clone(&self) -> #tyi)),
        "Default" => (get("default")?, parse_quote!(fn derived_default() -> #tyi)),
        _ => return None,
    };
    let mut block = f.block;
    // `let _: AssertParamIsClone<T>;` of a derived Copy type
    block.stmts.retain(|s| !matches!(s, Stmt::Local(l) if l.init.is_none() && matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Wild(_)))));
    c.fns.push(FnRec { module: module.into(), self_ty: Some(ty), trait_name: None, sig, block });
    Some(())
}

fn codec_impl(module: &str, im: &ItemImpl, c: &mut Crate) -> Option<()> {
    let tr = im.trait_.as_ref()?.0.segments.last()?.ident.to_string();
    let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
    let tyi: Type = (*im.self_ty).clone();
    let get = |im: &ItemImpl, n: &str| im.items.iter().find_map(|i| match i { ImplItem::Fn(f) if f.sig.ident == n => Some(f.clone()), _ => None });
    let rec = |sig: Signature, block: Block| FnRec { module: module.into(), self_ty: Some(ty.clone()), trait_name: None, sig, block };
    if tr == "Serialize" {
        let mut f = get(im, "serialize")?;
        Codec { ty: ty.clone(), fields: HashMap::new() }.visit_block_mut(&mut f.block);
        c.fns.push(rec(parse_quote!(fn serialize(&self, __serializer: crate::serde::Serializer) -> Result<crate::serde::Written, crate::serde::Error>), f.block));
        return Some(());
    }
    if tr != "Deserialize" { return None; }
    let f = get(im, "deserialize")?;
    // the derived reader must hand __Visitor to deserialize_struct: anything else is not what the stand-ins describe
    match f.block.stmts.last()? {
        Stmt::Expr(Expr::Call(k), None) => {
            let n = k.func.to_token_stream().to_string().replace(' ', "");
            if n != "_serde::Deserializer::deserialize_struct" || !k.args.last()?.to_token_stream().to_string().starts_with("__Visitor") { return None; }
        }
        _ => return None,
    }
    let (mut en, mut vs, mut vm) = (None, None, None);
    for s in &f.block.stmts {
        match s {
            Stmt::Item(Item::Enum(e)) if e.ident == "__Field" => en = Some(e.clone()),
            Stmt::Item(Item::Impl(i)) => {
                let n = i.self_ty.to_token_stream().to_string().replace(' ', "");
                if n == "__FieldVisitor" { vs = get(i, "visit_str"); }
                if n.starts_with("__Visitor") { vm = get(i, "visit_map"); }
            }
            _ => {}
        }
    }
    let (mut en, mut vs, mut vm) = (en?, vs?, vm?);
    // __fieldN stands for the struct field it ends up in
    struct Lits(String, HashMap<String, String>);
    impl<'a> Visit<'a> for Lits {
        fn visit_expr_struct(&mut self, e: &'a ExprStruct) {
            if e.path.is_ident(&self.0) {
                for f in &e.fields {
                    if let (Member::Named(n), Some(v)) = (&f.member, ident_expr(&f.expr)) { self.1.insert(v, n.to_string()); }
                }
            }
            visit::visit_expr_struct(self, e);
        }
    }
    let mut l = Lits(ty.clone(), HashMap::new());
    l.visit_block(&vm.block);
    let mut k = Codec { ty: ty.clone(), fields: l.1 };
    let fi = Ident::new(&format!("{}Field", ty), proc_macro2::Span::call_site());
    StripAttrs.visit_item_enum_mut(&mut en);
    k.visit_item_enum_mut(&mut en);
    en.vis = parse_quote!(pub);
    c.types.push(json!({"module": "codec", "name": fi.to_string(), "kind": "enum", "derives": [], "text": print_ts(en.to_token_stream())}));
    StripAttrs.visit_block_mut(&mut vs.block);
    StripAttrs.visit_block_mut(&mut vm.block);
    k.visit_block_mut(&mut vs.block);
    k.visit_block_mut(&mut vm.block);
    c.fns.push(rec(parse_quote!(fn visit_field(__value: &str) -> Result<#fi, crate::serde::Error>), vs.block));
    c.fns.push(rec(parse_quote!(fn visit_map(mut __map: crate::serde::MapAccess) -> Result<#tyi, crate::serde::Error>), vm.block));
    Some(())
}

fn callback_index(sig: &Signature) -> Option<(usize, String, Type)> {
    // index among the non-receiver parameters
    let mut i = 0;
    for inp in &sig.inputs {
        if let FnArg::Typed(t) = inp {
            if let Type::ImplTrait(it) = &*t.ty {
                let s = it.to_token_stream().to_string();
                if !s.contains("->") && !s.contains("FnOnce") && (s.contains("Fn (") || s.contains("FnMut (")) {
                    for b in &it.bounds {
                        if let TypeParamBound::Trait(tb) = b {
                            if let PathArguments::Parenthesized(pa) = &tb.path.segments.last()?.arguments {
                                if !pa.inputs.is_empty() {
                                    let tys: Option<Vec<Type>> = pa.inputs.iter().map(|a| {
                                        let txt = a.to_token_stream().to_string();
                                        syn::parse_str(txt.trim_start_matches('&').trim()).ok()
                                    }).collect();
                                    let tys = tys?;
                                    let ty: Type = if tys.len() == 1 { tys[0].clone() } else { parse_quote!((#(#tys),*)) };
                                    return Some((i, pat_name(&t.pat)?, ty));
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    None
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = &args[1];
    let contracted: BTreeSet<String> = std::fs::read_to_string(&args[2]).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let mut c = Crate::default();
    let mut files: Vec<_> = std::fs::read_dir(src).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
    files.sort();
    let mut errors = vec![];
    for p in &files {
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        if stem.ends_with("_test") || stem == "main" || stem == "lib" { continue; }
        let text = std::fs::read_to_string(p).unwrap();
        match syn::parse_file(&text) {
            Ok(f) => collect_items(&stem, &f.items, &mut c),
            Err(e) => errors.push(format!("{}: {}", stem, e)),
        }
    }
    if let Some(p) = args.get(4) {
        match std::fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|t| syn::parse_file(&t).map_err(|e| e.to_string())) {
            Ok(f) => codec_items("", &f.items, &mut c),
            Err(e) => errors.push(format!("expanded source: {}", e)),
        }
    }
    let lz: Vec<FnRec> = c.lazies.iter().filter_map(|(m, z)| lazy_fn(m, z, &c)).collect();
    let value_lazies: BTreeSet<(String, String)> = lz.iter().filter(|f| f.sig.inputs.is_empty()).map(|f| (f.module.clone(), f.sig.ident.to_string())).collect();
    c.fns.extend(lz);
    for f in c.fns.iter_mut() {
        let names: BTreeSet<String> = value_lazies.iter().filter(|(m, _)| *m == f.module).map(|(_, n)| n.clone()).collect();
        if !names.is_empty() { LazyUse { names }.visit_block_mut(&mut f.block); }
    }
    let map: HashMap<String, FnRec> = c.fns.iter().map(|f| (f.key(), f.clone())).collect();
    let mut methods: HashMap<String, Vec<String>> = HashMap::new();
    for f in &c.fns {
        if f.self_ty.is_some() { methods.entry(f.sig.ident.to_string()).or_default().push(f.key()); }
    }
    let mut callback_methods = BTreeMap::new();
    for f in &c.fns {
        if let Some((i, _, _)) = callback_index(&f.sig) { callback_methods.insert(f.sig.ident.to_string(), i); }
    }
    let mut out_fns = vec![];
    for f in &c.fns {
        let key = f.key();
        let mut block = f.block.clone();
        StripAttrs.visit_block_mut(&mut block);
        let mut sig = f.sig.clone();
        let raw_tokens = { let mut v = vec![]; flat_tokens(block.to_token_stream(), &mut v); v };
        // inline uncontracted helpers
        let mut inl = Inliner { fns: &map, methods: &methods, contracted: &contracted, module: f.module.clone(), self_ty: f.self_ty.clone(), stack: vec![key.clone()], log: vec![], n: 0 };
        inl.visit_block_mut(&mut block);
        let inlined = inl.log.clone();
        // callbacks
        let mut cb = BTreeSet::new();
        if let Some((_, name, ty)) = callback_index(&sig) {
            cb.insert(name.clone());
            for inp in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = inp {
                    if pat_name(&t.pat).as_deref() == Some(&name) { *t.ty = parse_quote!(&mut Vec<#ty>); }
                }
            }
        }
        let mut norm = Norm { callback_methods: callback_methods.clone(), callback_params: cb.clone(), n: 0, notes: BTreeSet::new(), unindexed: BTreeSet::new() };
        if !cb.is_empty() { norm.note("callback parameter replaced by the list of values it is called with"); }
        norm.visit_block_mut(&mut block);
        Renumber { seen: HashMap::new(), counts: HashMap::new() }.visit_block_mut(&mut block);
        ForCont { n: 0 }.visit_block_mut(&mut block);
        let norm_tokens = { let mut v = vec![]; flat_tokens(block.to_token_stream(), &mut v); v };
        let mut mark = Mark { loops: vec![], closures: vec![], rets: 0, lets: BTreeMap::new(), calls: BTreeSet::new(), in_closure: 0 };
        mark.visit_block_mut(&mut block);
        // split off a tail expression for the `tail` marker
        let mut stmts = block.stmts.clone();
        let tail = matches!(stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Macro(m) if m.mac.path.is_ident("__l")));
        if tail { let l = stmts.pop().unwrap(); stmts.push(mk("tail")); stmts.push(l); } else { stmts.push(mk("tail")); }
        let body = print_ts(quote!(#(#stmts)*));
        let mut params = vec![];
        let mut recv = Value::Null;
        for inp in &sig.inputs {
            match inp {
                FnArg::Receiver(r) => recv = json!(r.to_token_stream().to_string()),
                FnArg::Typed(t) => params.push(json!({"pat": print_ts(t.pat.to_token_stream()), "name": pat_name(&t.pat), "ty": print_ts(t.ty.to_token_stream())})),
            }
        }
        let ret = match &sig.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => json!(print_ts(t.to_token_stream())) };
        let (g, _, w) = sig.generics.split_for_impl();
        out_fns.push(json!({
            "key": key, "module": f.module, "self_ty": f.self_ty, "trait": f.trait_name, "name": sig.ident.to_string(),
            "generics": print_ts(g.to_token_stream()), "where": print_ts(w.to_token_stream()),
            "recv": recv, "params": params, "ret": ret, "body": body, "tail": tail,
            "loops": mark.loops, "closures": mark.closures, "rets": mark.rets,
            "calls": mark.calls.iter().collect::<Vec<_>>(), "inlined": inlined,
            "notes": norm.notes.iter().collect::<Vec<_>>(), "raw_tokens": raw_tokens, "norm_tokens": norm_tokens,
        }));
    }
    let out = json!({"fns": out_fns, "types": c.types, "consts": c.consts, "uses": c.uses, "skipped": c.skipped, "errors": errors});
    std::fs::write(&args[3], serde_json::to_string_pretty(&out).unwrap()).unwrap();
}
