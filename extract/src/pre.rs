//! Rewrites that run before inlining: local functions and closures, Option/Result combinators,
//! and a few std conveniences, each into the plain form the other rules and Verus understand.
//! A rewrite that does not apply leaves the code as it is (the function may then end up outside
//! the verifier's reach, which is reported, never assumed).
use crate::inline::*;
use crate::scope::*;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Opt, Res }
/// return kind of every function of the crate, by name (None: they differ)
pub type Sigs = HashMap<String, Option<K>>;
pub fn ret_kind(o: &ReturnType) -> Option<K> { if let ReturnType::Type(_, t) = o { ty_kind(t) } else { None } }
fn ty_kind(t: &Type) -> Option<K> { if let Type::Path(p) = t { match p.path.segments.last()?.ident.to_string().as_str() { "Option" => Some(K::Opt), "Result" => Some(K::Res), _ => None } } else { None } }

pub fn prepare(b: &mut Block, sigs: &Sigs, params: &Signature, owner: Option<String>, boxed: bool, notes: &mut BTreeMap<String, usize>) {
    local_fns(b, owner, boxed, notes);
    let mut env = HashMap::new();
    for a in &params.inputs { if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Some(k)) = (&*t.pat, ty_kind(&t.ty)) { env.insert(i.ident.to_string(), k); } } }
    let mut p = Pre { sigs, env, n: 0, unit_res: false };
    p.unit_res = params.output.to_token_stream().to_string().replace(' ', "").starts_with("->Result<(),");
    p.tail(b);
    p.visit_block_mut(b);
    if p.n > 0 { *notes.entry("combinators and std conveniences to plain code".into()).or_default() += p.n; }
}
fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn fresh(s: &str) -> Ident { ident(&format!("{}__{}", s, offset())) }
fn words(t: proc_macro2::TokenStream, f: &mut dyn FnMut(String)) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => f(i.to_string()), proc_macro2::TokenTree::Group(g) => words(g.stream(), f), _ => {} } } }
fn count<T: ToTokens>(t: &T, n: &str) -> usize { let mut k = 0; words(t.to_token_stream(), &mut |w| if w == n { k += 1 }); k }

// ---------------------------------------------------------------- local functions, closures
/// names bound by patterns, with how often
fn binders(b: &Block) -> HashMap<String, usize> {
    struct V(HashMap<String, usize>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.0.entry(p.ident.to_string()).or_default() += 1; visit::visit_pat_ident(self, p); } }
    let mut v = V(HashMap::new()); v.visit_block(b); v.0
}
struct RenameCall<'a> { from: &'a str, to: &'a str }
impl<'a> VisitMut for RenameCall<'a> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func { if p.path.is_ident(self.from) { p.path = ident(self.to).into(); } }
        visit_mut::visit_expr_call_mut(self, c);
    }
}
fn local_fns(b: &mut Block, owner: Option<String>, boxed: bool, notes: &mut BTreeMap<String, usize>) {
    struct Find { out: Vec<(Helper, String)>, all: HashMap<String, usize> }
    impl VisitMut for Find {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut k = 0;
            while k < b.stmts.len() {
                let h = self.take(&b.stmts[k], &b.stmts[k + 1..], &b.stmts[..k]);
                if let Some((h, name)) = h {
                    let to = h.path.clone();
                    b.stmts.remove(k);
                    for s in b.stmts.iter_mut() { RenameCall { from: &name, to: &to }.visit_stmt_mut(s); }
                    let mut h = h; RenameCall { from: &name, to: &to }.visit_block_mut(&mut h.block);
                    for (o, _) in self.out.iter_mut() { RenameCall { from: &name, to: &to }.visit_block_mut(&mut o.block); }
                    self.out.push((h, name));
                } else { k += 1; }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    impl Find {
        fn take(&mut self, s: &Stmt, later: &[Stmt], earlier: &[Stmt]) -> Option<(Helper, String)> {
            match s {
                Stmt::Item(Item::Fn(f)) => {
                    let n = f.sig.ident.to_string();
                    let u = format!("{}__{}", n, offset());
                    let mut sig = f.sig.clone(); sig.ident = ident(&u);
                    Some((Helper { path: u, owner: None, sig, block: (*f.block).clone(), names: Default::default() }, n))
                }
                Stmt::Local(l) => {
                    let (p, _) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(&t.ty)), p => (p, None) };
                    let Pat::Ident(pi) = p else { return None };
                    let init = l.init.as_ref()?; if init.diverge.is_some() { return None; }
                    let Expr::Closure(c) = &*init.expr else { return None };
                    let n = pi.ident.to_string();
                    if earlier.iter().any(|s| count(s, &n) > 0) || self.all.get(&n) != Some(&1) { return None; }
                    // only ever called
                    let uses: usize = later.iter().map(|s| count(s, &n)).sum();
                    struct Calls(String, usize); impl<'a> Visit<'a> for Calls {
                        fn visit_expr_call(&mut self, c: &'a ExprCall) { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) { self.1 += 1; } visit::visit_expr_call(self, c); } }
                    let mut cs = Calls(n.clone(), 0); later.iter().for_each(|s| cs.visit_stmt(s));
                    if cs.1 != uses || uses == 0 { return None; }
                    // captured names mean the same thing at every call
                    let mut own = BTreeSet::new();
                    struct Own<'a>(&'a mut BTreeSet<String>); impl<'a, 'b> Visit<'a> for Own<'b> { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
                    Own(&mut own).visit_expr_closure(c);
                    let mut free = BTreeSet::new(); words(c.body.to_token_stream(), &mut |w| { free.insert(w); });
                    for w in free { if !own.contains(&w) && self.all.get(&w).copied().unwrap_or(0) > 1 { return None; } }
                    if c.capture.is_some() {
                        // a moved copy keeps the value at the definition: only names that are never assigned
                        let mut asg = false;
                        struct A<'a>(&'a BTreeSet<String>, &'a mut bool); impl<'x, 'a> Visit<'x> for A<'a> { fn visit_pat_ident(&mut self, p: &'x PatIdent) { if p.mutability.is_some() && self.0.contains(&p.ident.to_string()) { *self.1 = true; } } }
                        let mut fr = BTreeSet::new(); words(c.body.to_token_stream(), &mut |w| { fr.insert(w); });
                        later.iter().chain(earlier).for_each(|s| A(&fr, &mut asg).visit_stmt(s)); if asg || fr.contains("self") { return None; }
                    }
                    let u = format!("{}__{}", n, offset());
                    let id = ident(&u);
                    let args: Vec<FnArg> = c.inputs.iter().map(|p| match p { Pat::Type(t) => FnArg::Typed(PatType { attrs: vec![], pat: t.pat.clone(), colon_token: Default::default(), ty: t.ty.clone() }), p => parse_quote!(#p : _) }).collect();
                    let out = &c.output;
                    let sig: Signature = parse_quote!(fn #id(#(#args),*) #out);
                    let mut sig = sig; if matches!(sig.output, ReturnType::Default) { sig.output = parse_quote!(-> _); }
                    let block: Block = match &*c.body { Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.clone(), e => parse_quote!({ #e }) };
                    if let Some(x) = self.all.get_mut(&n) { *x -= 1; }
                    Some((Helper { path: u, owner: None, sig, block, names: Default::default() }, n))
                }
                _ => None,
            }
        }
    }
    let before = b.clone();
    let mut all = binders(b);
    // names bound twice only inside the closures themselves do not matter; parameters of the function are added by the caller's scope
    for v in all.values_mut() { *v = (*v).max(1); }
    let mut f = Find { out: vec![], all };
    f.visit_block_mut(b);
    if f.out.is_empty() { return; }
    let mut hs = Helpers::default();
    let names: Vec<String> = f.out.iter().map(|(h, _)| h.path.clone()).collect();
    for (mut h, _) in f.out { let mut n = BTreeMap::new(); Macros { notes: &mut n }.visit_block_mut(&mut h.block); hs.by_name.entry(h.path.clone()).or_default().push(h); }
    let mut i = Inliner::new(&hs, owner, boxed, false);
    i.visit_block_mut(b);
    if names.iter().any(|n| count(b, n) > 0) { *b = before; return; }
    *notes.entry("local function or closure inlined".into()).or_default() += names.len();
}

// ---------------------------------------------------------------- combinators
struct Pre<'a> { sigs: &'a Sigs, env: HashMap<String, K>, n: usize, unit_res: bool }
fn closure(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Path(p) = e { let ids: Vec<Ident> = (0..n).map(|_| fresh("v")).collect(); return Some((ids.iter().map(|i| parse_quote!(#i)).collect(), parse_quote!(#p(#(#ids),*)))); }
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() != n || has_try_expr(&c.body) || count(&c.body, "return") > 0 { return None; }
    let c = closure_of(e, n)?;
    Some((c.inputs.iter().cloned().collect(), (*c.body).clone()))
}
fn cheap(e: &Expr) -> bool { match e { Expr::Lit(_) | Expr::Path(_) => true, Expr::Field(f) => cheap(&f.base), Expr::Paren(p) => cheap(&p.expr), Expr::Reference(r) => cheap(&r.expr), Expr::Unary(u) => cheap(&u.expr), Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase()) && c.args.iter().all(cheap), _ => false } }
impl<'a> Pre<'a> {
    fn kind(&self, e: &Expr) -> Option<K> {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Path(p) => { let i = p.path.get_ident()?.to_string(); if i == "None" { Some(K::Opt) } else { self.env.get(&i).copied() } }
            Expr::Call(c) => { let Expr::Path(p) = &*c.func else { return None }; let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                match s.last()?.as_str() { "Some" => return Some(K::Opt), "Ok" | "Err" => return Some(K::Res), _ => {} }
                if s.len() >= 2 && ["bincode", "fs", "File"].contains(&s[s.len() - 2].as_str()) { return Some(K::Res); }
                self.sigs.get(s.last()?).copied().flatten() }
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem" | "checked_pow" | "get" | "get_mut" | "first" | "last" | "first_mut" | "last_mut" | "next" | "position" | "ok" | "err" | "pop" | "then_some" | "then" => Some(K::Opt),
                "ok_or" | "ok_or_else" | "map_err" | "read_to_end" | "write_all" => Some(K::Res),
                "map" | "and_then" | "as_ref" | "as_mut" | "filter" | "or_else" | "copied" | "cloned" => self.kind(&m.receiver),
                n => if STD.contains(&n) { None } else { self.sigs.get(n).copied().flatten() },
            },
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind(&a.body)),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.kind(e), _ => None },
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.kind(e), _ => None },
            _ => None,
        }
    }
    fn comb(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let name = m.method.to_string();
        let n = m.args.len();
        if name == "then" && n == 1 { let (_, b) = closure(&m.args[0], 0)?; return Some(parse_quote!(if #r { Some(#b) } else { None })); }
        if name == "then_some" && n == 1 && cheap(&m.args[0]) { let b = &m.args[0]; return Some(parse_quote!(if #r { Some(#b) } else { None })); }
        if matches!(name.as_str(), "map" | "and_then" | "map_or" | "map_or_else" | "is_some_and" | "is_ok_and" | "is_none_or" | "unwrap_or" | "unwrap_or_else" | "ok_or_else" | "or_else" | "map_err" | "filter" | "inspect_err") { } else { return None; }
        let k = self.kind(r)?;
        let v = fresh("v");
        Some(match (name.as_str(), k, n) {
            ("map", K::Opt, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }
            ("and_then", K::Opt, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => None }) }
            ("map_or", K::Opt, 2) if cheap(&m.args[0]) => { let d = &m.args[0]; let (p, b) = closure(&m.args[1], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) }
            ("map_or_else", K::Opt, 2) => { let (_, d) = closure(&m.args[0], 0)?; let (p, b) = closure(&m.args[1], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) }
            ("is_some_and", K::Opt, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => false }) }
            ("is_none_or", K::Opt, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => true }) }
            ("unwrap_or", K::Opt, 1) if cheap(&m.args[0]) => { let d = &m.args[0]; parse_quote!(match #r { Some(#v) => #v, None => #d }) }
            ("unwrap_or_else", K::Opt, 1) => { let (_, d) = closure(&m.args[0], 0)?; parse_quote!(match #r { Some(#v) => #v, None => #d }) }
            ("ok_or_else", K::Opt, 1) => { let (_, d) = closure(&m.args[0], 0)?; parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#d) }) }
            ("or_else", K::Opt, 1) => { let (_, d) = closure(&m.args[0], 0)?; parse_quote!(match #r { Some(#v) => Some(#v), None => #d }) }
            ("map", K::Res, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }) }
            ("and_then", K::Res, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#p) => #b, Err(#v) => Err(#v) }) }
            ("map_err", K::Res, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; let w = fresh("e"); let p: Pat = if matches!(p, Pat::Wild(_)) { parse_quote!(#w) } else { p.clone() }; parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }) }
            ("unwrap_or_else", K::Res, 1) => { let (p, d) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#v) => #v, Err(#p) => #d }) }
            ("map_or", K::Res, 2) if cheap(&m.args[0]) => { let d = &m.args[0]; let (p, b) = closure(&m.args[1], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#p) => #b, Err(#v) => #d }) }
            ("is_ok_and", K::Res, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#p) => #b, Err(#v) => false }) }
            ("or_else", K::Res, 1) => { let (p, b) = closure(&m.args[0], 1)?; let p = &p[0]; parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => #b }) }
            _ => return None,
        })
    }
    /// for p in it.map(|q| e) { .. }
    fn unmap(&mut self, f: &mut ExprForLoop) {
        loop {
            let Expr::MethodCall(m) = &*f.expr else { return };
            if m.method == "filter" && m.args.len() == 1 {
                let Some(c) = filtered(&f.pat, &m.args[0]) else { return };
                let b = &f.body; let r = (*m.receiver).clone();
                f.body = parse_quote!({ if #c #b }); f.expr = Box::new(r); self.n += 1;
                continue;
            }
            if m.method != "map" || m.args.len() != 1 || !is_iter(&m.receiver) && !matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "map") { return; }
            let Some((p, b)) = closure(&m.args[0], 1) else { return };
            let pat = &f.pat; let p = p[0].clone(); let r = (*m.receiver).clone();
            if !matches!(**pat, Pat::Wild(_)) { f.body.stmts.insert(0, parse_quote!(let #pat = #b;)); } else { f.body.stmts.insert(0, parse_quote!(let _unused = #b;)); }
            f.pat = Box::new(p); f.expr = Box::new(r);
            self.n += 1;
        }
    }
    fn try_each(&mut self, e: &Expr) -> Option<Stmt> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "try_for_each" || m.args.len() != 1 || !is_iter(&m.receiver) { return None; }
        let (pats, body): (Vec<Pat>, Expr) = { let Expr::Closure(c) = &m.args[0] else { return None }; if c.inputs.len() != 1 || count(&c.body, "return") > 0 { return None; } let c = closure_of(&m.args[0], 1)?; (c.inputs.iter().cloned().collect(), (*c.body).clone()) };
        let (p, it) = (&pats[0], &m.receiver);
        let mut v: Vec<Stmt> = match &body { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
        let Some(Stmt::Expr(t, None)) = v.pop() else { return None };
        if t.to_token_stream().to_string().replace(' ', "") != "Ok(())" { v.push(parse_quote!(#t?;)); }
        self.n += 1;
        Some(parse_quote!(for #p in #it { #(#v)* }))
    }
    fn tail(&mut self, b: &mut Block) {
        if !self.unit_res { return; }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() { let e = match e { Expr::Return(r) => match &r.expr { Some(x) => (**x).clone(), None => return }, e => e.clone() }; if let Some(s) = self.try_each(&e) { b.stmts.pop(); b.stmts.push(s); b.stmts.push(parse_quote!(return Ok(());)); } }
        else if let Some(Stmt::Expr(Expr::Return(r), Some(_))) = b.stmts.last() { if let Some(x) = r.expr.clone() { if let Some(s) = self.try_each(&x) { b.stmts.pop(); b.stmts.push(s); b.stmts.push(parse_quote!(return Ok(());)); } } }
    }
    fn stmt(&mut self, s: &Stmt) -> Option<Vec<Stmt>> {
        match s {
            Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => {
                // a loop over an array literal, item by item
                let (items, by_ref) = literal_items(&f.expr)?;
                let mut b = f.body.clone(); if has_continue(&b) { uncontinue(&mut b); }
                if has_continue(&b) || count(&b, "break") > 0 || !matches!(&*f.pat, Pat::Ident(_) | Pat::Tuple(_) | Pat::Reference(_) | Pat::Wild(_)) { return None; }
                let (first, items) = bound_first(&items);
                let mut v = first;
                for e in items { let w = bind(&f.pat, &e, by_ref, &b)?; let (l, b) = w; v.push(parse_quote!({ #(#l)* #b })); }
                self.n += 1;
                Some(v)
            }
            Stmt::Item(Item::Const(c)) => { let (i, t, e) = (&c.ident, &c.ty, &c.expr); self.n += 1; Some(vec![parse_quote!(let #i : #t = #e;)]) }
            Stmt::Expr(Expr::Try(t), Some(_)) => self.try_each(&t.expr).map(|s| vec![s]),
            Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "fill" && m.args.len() == 1 && pure(&m.receiver) => {
                let (x, v, q) = (&m.receiver, &m.args[0], fresh("q")); self.n += 1;
                if cheap(v) { return Some(vec![parse_quote!(for #q in #x.iter_mut() { *#q = #v; })]); }
                let l = fresh("l"); Some(vec![parse_quote!(let #l = #v;), parse_quote!(for #q in #x.iter_mut() { *#q = #l; })])
            }
            Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "clone_from" && m.args.len() == 1 && pure(&m.receiver) => {
                let (x, v) = (&m.receiver, &m.args[0]); self.n += 1;
                Some(vec![match v { Expr::Reference(r) if pure(&r.expr) => { let y = &r.expr; parse_quote!(#x = #y.clone();) } v => parse_quote!(#x = (#v).clone();) }])
            }
            Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "extend" && m.args.len() == 1 && pure(&m.receiver) => {
                let Expr::MethodCall(mm) = &m.args[0] else { return None };
                if mm.method != "map" || mm.args.len() != 1 || !is_iter(&mm.receiver) { return None; }
                let x = &m.receiver; if count(&m.args[0], &x.to_token_stream().to_string()) > 0 { return None; }
                let (p, b) = closure(&mm.args[0], 1)?; let (p, it) = (&p[0], &mm.receiver); self.n += 1;
                Some(vec![parse_quote!(for #p in #it { #x.push(#b); })])
            }
            // let x = HashMap::from([..]) keeps its place; see visit_expr_mut
            _ => None,
        }
    }
}

/// the items of an array literal that is iterated over, and whether the loop sees references to them
fn literal_items(e: &Expr) -> Option<(Vec<Expr>, bool)> {
    fn arr(e: &Expr) -> Option<Vec<Expr>> { match e { Expr::Paren(p) => arr(&p.expr), Expr::Array(a) if a.elems.len() <= 8 && a.elems.iter().all(item) => Some(a.elems.iter().cloned().collect()), _ => None } }
    fn item(e: &Expr) -> bool { match e { Expr::Tuple(t) => t.elems.iter().all(item), Expr::Reference(r) => pure(&r.expr), e => pure(e) } }
    match e {
        Expr::Paren(p) => literal_items(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => Some((arr(&r.expr)?, true)),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((arr(&m.receiver)?, true)),
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((arr(&m.receiver)?, false)),
        Expr::MethodCall(m) if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() => { let (v, r) = literal_items(&m.receiver)?; if r { Some((v, false)) } else { None } }
        e => Some((arr(e)?, false)),
    }
}
/// `[a, b].iter().all(|x| ..)` as a conjunction
fn unrolled(m: &ExprMethodCall) -> Option<Expr> {
    if !matches!(&*m.receiver, Expr::MethodCall(_)) { return None; }
    let (items, by_ref) = literal_items(&m.receiver)?;
    let (p, b) = closure(&m.args[0], 1)?;
    let mut out: Option<Expr> = None;
    for e in items { let (l, b) = bind(&p[0], &e, by_ref, &b)?; let x: Expr = if l.is_empty() { parse_quote!((#b)) } else { parse_quote!(({ #(#l)* #b })) }; out = Some(match out { None => x, Some(y) => if m.method == "all" { parse_quote!(#y && #x) } else { parse_quote!(#y || #x) } }); }
    let x = out?; Some(parse_quote!((#x)))
}
/// values read before the loop starts; references and constants stay where they are
fn bound_first(v: &[Expr]) -> (Vec<Stmt>, Vec<Expr>) {
    let mut out = vec![];
    fn go(e: &Expr, out: &mut Vec<Stmt>) -> Expr { match e {
        Expr::Tuple(t) => { let x: Vec<Expr> = t.elems.iter().map(|e| go(e, out)).collect(); parse_quote!((#(#x),*)) }
        Expr::Reference(_) | Expr::Lit(_) => e.clone(),
        Expr::Path(p) if p.path.segments.len() > 1 || p.path.segments[0].ident.to_string().chars().next().unwrap().is_uppercase() => e.clone(),
        e => { let n = fresh("i"); out.push(parse_quote!(let #n = #e;)); parse_quote!(#n) }
    } }
    let w = v.iter().map(|e| go(e, &mut out)).collect();
    (out, w)
}
/// the statements binding a pattern to one item, and the body with the then superfluous dereferences gone
fn bind<T: Clone + Derefs>(p: &Pat, e: &Expr, by_ref: bool, b: &T) -> Option<(Vec<Stmt>, T)> {
    let mut b = b.clone();
    let mut v: Vec<Stmt> = vec![];
    match (p, e, by_ref) {
        (Pat::Wild(_), _, _) => {}
        (Pat::Reference(r), e, true) => { let q = &r.pat; v.push(parse_quote!(let #q = #e;)); }
        (Pat::Ident(i), e, true) if i.by_ref.is_none() => v.push(parse_quote!(let #i = &#e;)),
        (Pat::Tuple(t), Expr::Tuple(x), _) if t.elems.len() == x.elems.len() => for (p, e) in t.elems.iter().zip(&x.elems) {
            match p {
                Pat::Wild(_) => {}
                Pat::Ident(i) if i.by_ref.is_none() => {
                    let n = i.ident.to_string();
                    if by_ref && !matches!(e, Expr::Reference(_)) { if b.strip(&n) { v.push(parse_quote!(let #i = #e;)) } else { v.push(parse_quote!(let #i = &#e;)) } }
                    else if by_ref { v.push(parse_quote!(let #i = &#e;)) } else { v.push(parse_quote!(let #i = #e;)) }
                }
                Pat::Tuple(_) if !by_ref => { v.push(parse_quote!(let #p = #e;)); }
                _ => return None,
            }
        },
        (Pat::Ident(_) | Pat::Tuple(_), e, false) => v.push(parse_quote!(let #p = #e;)),
        _ => return None,
    }
    Some((v, b))
}
/// names only used as plain operands or behind a dereference can hold the value itself
trait Derefs { fn strip(&mut self, n: &str) -> bool; }
struct Strip<'a> { n: &'a str, ok: bool }
impl<'a> Strip<'a> { fn is(&self, e: &Expr) -> bool { match e { Expr::Path(p) => p.path.is_ident(self.n), Expr::Paren(p) => self.is(&p.expr), _ => false } } }
impl<'a> VisitMut for Strip<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) { *e = (*u.expr).clone(); return; } }
        if let Expr::Binary(b) = e {
            // arithmetic between references takes the values; comparisons of two references too, if both are
            let arith = matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_));
            for x in [&mut b.left, &mut b.right] { if !(arith && self.is(x)) { self.visit_expr_mut(x); } }
            return;
        }
        if self.is(e) { self.ok = false; return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if count(m, self.n) > 0 { self.ok = false; } }
}
impl Derefs for Block { fn strip(&mut self, n: &str) -> bool { let mut b = self.clone(); let mut s = Strip { n, ok: true }; s.visit_block_mut(&mut b); if s.ok { *self = b; } s.ok } }
impl Derefs for Expr { fn strip(&mut self, n: &str) -> bool { let mut b = self.clone(); let mut s = Strip { n, ok: true }; s.visit_expr_mut(&mut b); if s.ok { *self = b; } s.ok } }
/// the condition of a filter in terms of the loop's own names: it is given a reference to each item
fn filtered(p: &Pat, c: &Expr) -> Option<Expr> {
    let Expr::Closure(c) = c else { return None };
    if c.inputs.len() != 1 || has_try_expr(&c.body) || count(&c.body, "return") > 0 { return None; }
    struct V<'a> { q: &'a str, to: &'a Ident, ok: bool }
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(self.q));
            let to = self.to;
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr) => *e = parse_quote!(#to),
                Expr::MethodCall(m) if is(&m.receiver) => { m.receiver = Box::new(parse_quote!(#to)); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
                Expr::Field(f) if is(&f.base) => f.base = Box::new(parse_quote!(#to)),
                Expr::Index(f) if is(&f.expr) => { f.expr = Box::new(parse_quote!(#to)); self.visit_expr_mut(&mut f.index); }
                e if is(e) => self.ok = false,
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) { if count(m, self.q) > 0 { self.ok = false; } }
    }
    fn go(p: &Pat, q: &Pat, b: &mut Expr) -> bool {
        let q = if let Pat::Type(t) = q { &*t.pat } else { q };
        match (p, q) {
            (_, Pat::Wild(_)) => true,
            (Pat::Ident(i), Pat::Ident(j)) => { let n = j.ident.to_string(); let mut v = V { q: &n, to: &i.ident, ok: true }; v.visit_expr_mut(b); v.ok }
            // the closure takes the item itself apart
            (Pat::Ident(i), Pat::Reference(r)) => match &*r.pat { Pat::Ident(j) => { let n = j.ident.to_string(); let mut s = HashMap::new(); let x = &i.ident; s.insert(n, SubstTo::Val(parse_quote!(#x))); Subst { map: &s, count: HashMap::new() }.visit_expr_mut(b); true } _ => false },
            (Pat::Tuple(x), Pat::Tuple(y)) if x.elems.len() == y.elems.len() => x.elems.iter().zip(&y.elems).all(|(p, q)| go(p, q, b)),
            _ => false,
        }
    }
    let mut b = (*c.body).clone();
    if go(p, &c.inputs[0], &mut b) { Some(b) } else { None }
}
/// `let mut it = ..; while let Some(x) = it.next() { .. }` with no other use of `it`: a for loop
fn while_next(b: &mut Block) -> bool {
    for k in 0..b.stmts.len() {
        let Stmt::Local(l) = &b.stmts[k] else { continue };
        let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) else { continue };
        if i.mutability.is_none() || init.diverge.is_some() { continue; }
        let n = i.ident.to_string();
        let Some(j) = (k + 1..b.stmts.len()).find(|j| count(&b.stmts[*j], &n) > 0) else { continue };
        if b.stmts[k + 1..].iter().map(|s| count(s, &n)).sum::<usize>() != 1 { continue; }
        if j != k + 1 { continue; }
        let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] else { continue };
        let Expr::Let(c) = &*w.cond else { continue };
        if w.label.is_some() || c.expr.to_token_stream().to_string().replace(' ', "") != format!("{}.next()", n) { continue; }
        let Pat::TupleStruct(t) = &*c.pat else { continue };
        if !t.path.is_ident("Some") || t.elems.len() != 1 { continue; }
        let mut e = &*init.expr; while let Expr::Paren(p) = e { e = &p.expr; }
        if !matches!(e, Expr::Range(_)) && !(matches!(e, Expr::MethodCall(_)) && is_iter(e)) { continue; }
        let (p, body) = (&t.elems[0], &w.body);
        b.stmts[j] = parse_quote!(for #p in #e #body);
        b.stmts.remove(k);
        return true;
    }
    false
}
/// a `continue` of this very loop
fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) { self.visit_expr(&f.expr); }
        fn visit_expr_while(&mut self, f: &'a ExprWhile) { self.visit_expr(&f.cond); }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false); v.visit_block(b); v.0
}
fn is_continue(e: &Expr) -> bool { match e { Expr::Continue(c) => c.label.is_none(), Expr::Block(b) => b.label.is_none() && b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, _) if is_continue(e)), _ => false } }
/// drops a `continue` at the end of a loop body, and puts what follows a statement that may continue under its other branch
fn uncontinue(b: &mut Block) {
    for k in 0..b.stmts.len() {
        let rest = |b: &mut Block| { let v: Vec<Stmt> = b.stmts.split_off(k + 1); v };
        match &b.stmts[k] {
            Stmt::Expr(e, _) if is_continue(e) => { b.stmts.truncate(k); return; }
            Stmt::Expr(Expr::If(_), _) if has_continue(&Block { brace_token: Default::default(), stmts: vec![b.stmts[k].clone()] }) => {
                let r = rest(b);
                let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() else { return };
                let ends = |x: &Block| matches!(x.stmts.last(), Some(Stmt::Expr(e, _)) if is_continue(e) || matches!(e, Expr::Return(_)));
                if ends(&i.then_branch) {
                    let mut e: Block = match i.else_branch.take() { Some((_, x)) => match *x { Expr::Block(b) => b.block, x => parse_quote!({ #x }) }, None => parse_quote!({}) };
                    if let Some(Stmt::Expr(_, s @ None)) = e.stmts.last_mut() { *s = Some(Default::default()); }
                    e.stmts.extend(r);
                    uncontinue(&mut i.then_branch); uncontinue(&mut e);
                    let e: Expr = parse_quote!(#e);
                    if !matches!(&e, Expr::Block(b) if b.block.stmts.is_empty()) { i.else_branch = Some((Default::default(), Box::new(e))); }
                } else if r.is_empty() {
                    uncontinue(&mut i.then_branch);
                    if let Some((_, x)) = &mut i.else_branch { let mut e: Block = match &**x { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) }; uncontinue(&mut e); *x = Box::new(parse_quote!(#e)); }
                } else if !has_continue(&i.then_branch) && matches!(&i.else_branch, Some((_, x)) if matches!(&**x, Expr::Block(x) if ends(&x.block))) {
                    if let Some(Stmt::Expr(_, s @ None)) = i.then_branch.stmts.last_mut() { *s = Some(Default::default()); }
                    i.then_branch.stmts.extend(r);
                    uncontinue(&mut i.then_branch);
                    if let Some((_, x)) = &mut i.else_branch { if let Expr::Block(x) = &mut **x { uncontinue(&mut x.block); } }
                } else { b.stmts.push(Stmt::Expr(Expr::If(i), None)); b.stmts.extend(r); return; }
                b.stmts.push(Stmt::Expr(Expr::If(i), None)); return;
            }
            Stmt::Local(l) if l.init.is_some() => {
                let i = l.init.as_ref().unwrap();
                if let Some((_, d)) = &i.diverge {
                    if !is_continue(d) { continue; }
                    let (p, e) = (l.pat.clone(), i.expr.clone());
                    let mut r: Block = Block { brace_token: Default::default(), stmts: rest(b) }; b.stmts.pop(); uncontinue(&mut r);
                    b.stmts.push(parse_quote!(if let #p = #e #r)); return;
                }
                let Expr::Match(m) = &*i.expr else { continue };
                let stay: Vec<usize> = (0..m.arms.len()).filter(|j| !is_continue(&m.arms[*j].body)).collect();
                if stay.len() != 1 || stay.len() == m.arms.len() { continue; }
                let (mut m, p) = (m.clone(), l.pat.clone());
                let v = m.arms[stay[0]].body.clone();
                let mut r: Block = Block { brace_token: Default::default(), stmts: rest(b) }; b.stmts.pop();
                r.stmts.insert(0, parse_quote!(let #p = #v;)); uncontinue(&mut r);
                for (j, a) in m.arms.iter_mut().enumerate() { a.body = Box::new(if j == stay[0] { parse_quote!(#r) } else { parse_quote!({}) }); a.comma = None; }
                b.stmts.push(Stmt::Expr(Expr::Match(m), None)); return;
            }
            Stmt::Expr(Expr::Match(m), _) if k + 1 == b.stmts.len() => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() { if let Expr::Block(x) = &mut *a.body { uncontinue(&mut x.block); } else if is_continue(&a.body) { a.body = Box::new(parse_quote!({})); } }
                b.stmts[k] = Stmt::Expr(Expr::Match(m), None); return;
            }
            _ => {}
        }
    }
}
/// `let mut x = vec![]; .. self.f = x;` with nothing in between that leaves the function or mentions `self.f`:
/// the field itself is built
fn into_field(b: &mut Block) -> bool {
    for j in 1..b.stmts.len() {
        let Stmt::Expr(Expr::Assign(a), Some(_)) = &b.stmts[j] else { continue };
        let (Expr::Field(f), Expr::Path(x)) = (&*a.left, &*a.right) else { continue };
        let (Some(x), Member::Named(field)) = (x.path.get_ident(), &f.member) else { continue };
        if f.base.to_token_stream().to_string() != "self" { continue; }
        let (x, field) = (x.to_string(), field.to_string());
        let Some(k) = (0..j).rev().find(|k| matches!(&b.stmts[*k], Stmt::Local(l) if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) && match &l.pat { Pat::Type(t) => matches!(&*t.pat, Pat::Ident(i) if i.ident == x), Pat::Ident(i) => i.ident == x, _ => false })) else { continue };
        let Stmt::Local(l) = &b.stmts[k] else { continue };
        let e = (*l.init.as_ref().unwrap().expr).clone();
        let s = e.to_token_stream().to_string().replace(' ', "");
        if !(s == "vec![]" || s.starts_with("Vec::new(") || s.starts_with("Vec::with_capacity(") || s.ends_with(".collect()")) { continue; }
        if count(&e, &field) > 0 || b.stmts[j + 1..].iter().any(|s| count(s, &x) > 0) { continue; }
        let between = &b.stmts[k + 1..j];
        let mut t = proc_macro2::TokenStream::new(); between.iter().for_each(|s| s.to_tokens(&mut t)); e.to_tokens(&mut t);
        // every use of self names another field, nothing leaves early, the name is not bound again
        let flat = t.to_string();
        let mut bad = ["return", "continue", "break", "loop"].iter().any(|w| count(&t, w) > 0) || flat.contains('?') || count(&t, &field) > 0 || between.iter().any(|s| binders(&Block { brace_token: Default::default(), stmts: vec![s.clone()] }).contains_key(&x));
        fn whole(t: proc_macro2::TokenStream) -> bool { let v: Vec<_> = t.into_iter().collect(); (0..v.len()).any(|i| match &v[i] {
            proc_macro2::TokenTree::Group(g) => whole(g.stream()),
            proc_macro2::TokenTree::Ident(n) if n == "self" => !(matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == '.') && matches!(v.get(i + 2), Some(proc_macro2::TokenTree::Ident(_))) && !matches!(v.get(i + 3), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis)),
            _ => false }) }
        bad |= whole(t);
        if bad { continue; }
        struct R<'a>(&'a str, Expr); impl<'a> VisitMut for R<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) { *e = self.1.clone(); return; } visit_mut::visit_expr_mut(self, e); }
        }
        let p: Expr = (*a.left).clone();
        if b.stmts[k + 1..j].iter().any(|s| { struct M<'a>(&'a str, bool); impl<'a, 'b> Visit<'b> for M<'a> { fn visit_macro(&mut self, m: &'b Macro) { if count(m, self.0) > 0 { self.1 = true; } } } let mut m = M(&x, false); m.visit_stmt(s); m.1 }) { continue; }
        for s in b.stmts[k + 1..j].iter_mut() { R(&x, p.clone()).visit_stmt_mut(s); }
        b.stmts[k] = parse_quote!(#p = #e;);
        b.stmts.remove(j);
        return true;
    }
    false
}
impl<'a> VisitMut for Pre<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        while into_field(b) || while_next(b) { self.n += 1; }
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let v = self.stmt(&s).unwrap_or_else(|| vec![s]);
            for mut s in v {
                self.visit_stmt_mut(&mut s);
                if let Stmt::Local(l) = &s {
                    let (p, t) = match &l.pat { Pat::Type(t) => (&*t.pat, ty_kind(&t.ty)), p => (p, None) };
                    if let Pat::Ident(i) = p { let k = t.or_else(|| l.init.as_ref().and_then(|x| self.kind(&x.expr))); let n = i.ident.to_string(); match k { Some(k) => { self.env.insert(n, k); } None => { self.env.remove(&n); } } }
                }
                out.push(s);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>()?; Ok(M(e, p, g)) } }
                if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() { *e = match g { None => parse_quote!(match #x { #p => true, _ => false }), Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }) }; self.n += 1; }
            }
        }
        if let Some(x) = chained(e) { *e = x; self.n += 1; }
        if let Some(x) = offset_range(e) { *e = x; self.n += 1; }
        if let Expr::ForLoop(f) = e { if from_one(f) { self.n += 1; } self.unmap(f); if matches!((&*f.pat, &*f.expr), (Pat::Wild(_), Expr::Range(_))) { f.pat = Box::new(parse_quote!(rep_idx)); self.n += 1; } if has_continue(&f.body) { let mut b = f.body.clone(); uncontinue(&mut b); if !has_continue(&b) { f.body = b; self.n += 1; } } }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { if (m.method == "all" || m.method == "any") && m.args.len() == 1 { if let Some(x) = unrolled(m) { *e = x; self.n += 1; return; } } }
        if let Expr::MethodCall(m) = e { if let Some(x) = self.comb(m) { *e = x; self.n += 1; return; } }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "HashMap::from" || f == "std::collections::HashMap::from") && c.args.len() == 1 { if let Expr::Array(a) = &c.args[0] {
                let pairs: Option<Vec<(Expr, Expr)>> = a.elems.iter().map(|x| match x { Expr::Tuple(t) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())), _ => None }).collect();
                if let Some(ps) = pairs { let h = fresh("h"); let (k, v): (Vec<_>, Vec<_>) = ps.into_iter().unzip(); let (kn, vn): (Vec<Ident>, Vec<Ident>) = k.iter().map(|_| (fresh("k"), fresh("v"))).unzip();
                    *e = parse_quote!({ #(let #kn = #k; let #vn = #v;)* let mut #h = HashMap::new(); #(#h.insert(#kn, #vn);)* #h }); self.n += 1; }
            } }
        }
    }
}

/// `crate::..` paths of the names a module can see, for bodies that move to another module
pub fn module_names(items: &[Item], subs: &[String], module: &[String]) -> HashMap<String, String> {
    let mut out = HashMap::new();
    let here = |n: &str| { let mut v = vec!["crate".to_string()]; v.extend(module.iter().cloned()); v.push(n.into()); v.join("::") };
    fn tree(t: &UseTree, pre: Vec<String>, module: &[String], subs: &[String], out: &mut HashMap<String, String>) {
        match t {
            UseTree::Path(p) => { let mut v = pre; let s = p.ident.to_string();
                if v.is_empty() { match s.as_str() { x if subs.iter().any(|y| y == x) => { v.push("crate".into()); v.extend(module.iter().cloned()); v.push(s); } "crate" => v.push("crate".into()), "self" => { v.push("crate".into()); v.extend(module.iter().cloned()); } "super" => { v.push("crate".into()); v.extend(module[..module.len().saturating_sub(1)].iter().cloned()); } _ => return } }
                else if s == "super" { v.pop(); } else { v.push(s); }
                tree(&p.tree, v, module, subs, out) }
            UseTree::Name(n) => { if pre.is_empty() { return; } let mut v = pre; let s = n.ident.to_string(); if s == "self" { let l = v.last().unwrap().clone(); out.insert(l, v.join("::")); return; } v.push(s.clone()); out.insert(s, v.join("::")); }
            UseTree::Rename(n) => { if pre.is_empty() { return; } let mut v = pre; v.push(n.ident.to_string()); out.insert(n.rename.to_string(), v.join("::")); }
            UseTree::Group(g) => g.items.iter().for_each(|x| tree(x, pre.clone(), module, subs, out)),
            UseTree::Glob(_) => {}
        }
    }
    for s in subs { out.insert(s.clone(), here(s)); }
    for i in items { match i {
        Item::Use(u) => tree(&u.tree, vec![], module, subs, &mut out),
        Item::Struct(s) => { out.insert(s.ident.to_string(), here(&s.ident.to_string())); }
        Item::Enum(s) => { out.insert(s.ident.to_string(), here(&s.ident.to_string())); }
        Item::Trait(s) => { out.insert(s.ident.to_string(), here(&s.ident.to_string())); }
        Item::Type(s) => { out.insert(s.ident.to_string(), here(&s.ident.to_string())); }
        Item::Const(s) => { out.insert(s.ident.to_string(), here(&s.ident.to_string())); }
        Item::Fn(s) => { out.insert(s.sig.ident.to_string(), here(&s.sig.ident.to_string())); }
        _ => {}
    } }
    out
}
/// makes the module-level names of a moved body absolute
pub struct Absolute<'a> { pub names: &'a HashMap<String, String> }
impl<'a> VisitMut for Absolute<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() { return; }
        let Some(f) = p.segments.first() else { return };
        if let Some(a) = self.names.get(&f.ident.to_string()) {
            let args = f.arguments.clone();
            let mut q: Path = parse_str(a).unwrap();
            q.segments.last_mut().unwrap().arguments = args;
            q.segments.extend(p.segments.iter().skip(1).cloned());
            *p = q;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(r) = m.parse_body::<ExprRepeatBody>() { let (mut a, mut b) = (r.0, r.1); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); m.tokens = quote!(#a ; #b); }
        else if let Ok(l) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { let mut l = l; l.iter_mut().for_each(|x| self.visit_expr_mut(x)); m.tokens = quote!(#l); }
    }
}

/// `for i in 1..n + 1` and `for i in 1..=n` count from nought, `i` is one more than the counter
fn from_one(f: &mut ExprForLoop) -> bool {
    fn one(e: &Expr) -> bool { matches!(e, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits() == "1")) }
    fn pure(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => pure(&f.base), Expr::Paren(p) => pure(&p.expr), Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && pure(&m.receiver), _ => false } }
    let Pat::Ident(v) = &*f.pat else { return false };
    if v.by_ref.is_some() || v.subpat.is_some() { return false; }
    let v = v.clone();
    let Expr::Range(r) = &*f.expr else { return false };
    let (Some(a), Some(b)) = (&r.start, &r.end) else { return false };
    if !one(a) { return false; }
    let n: Expr = match (&r.limits, &**b) {
        (RangeLimits::Closed(_), b) if pure(b) => b.clone(),
        (RangeLimits::HalfOpen(_), Expr::Binary(x)) if matches!(x.op, BinOp::Add(_)) && one(&x.right) && pure(&x.left) => (*x.left).clone(),
        (RangeLimits::HalfOpen(_), Expr::Binary(x)) if matches!(x.op, BinOp::Add(_)) && one(&x.left) && pure(&x.right) => (*x.right).clone(),
        _ => return false,
    };
    let len = n.to_token_stream().to_string().ends_with("len ()");
    if !len && matches!(r.limits, RangeLimits::HalfOpen(_)) { return false; } // the sum may overflow
    let c = fresh("off_idx");
    f.pat = Box::new(parse_quote!(#c)); f.expr = Box::new(parse_quote!(0..#n));
    f.body.stmts.insert(0, parse_quote!(let #v = #c + 1;));
    true
}

/// a loop over one sequence and then another is two loops
fn chained(e: &Expr) -> Option<Expr> {
    let Expr::ForLoop(f) = e else { return None };
    let Expr::MethodCall(m) = &*f.expr else { return None };
    if m.method != "chain" || m.args.len() != 1 || f.label.is_some() { return None; }
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; } }
    let mut v = V(false); v.visit_block(&f.body);
    if v.0 { return None; }
    let (p, b, x, y) = (&f.pat, &f.body, &m.receiver, &m.args[0]);
    Some(parse_quote!({ for #p in #x #b for #p in #y #b }))
}

/// `for v in a..a + n` counts from nought, `v` is `a` more than the counter (the sum itself is still taken, once,
/// so that its overflow stays an obligation)
fn offset_range(e: &Expr) -> Option<Expr> {
    fn place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false } }
    fn pure(e: &Expr) -> bool { match e { Expr::Lit(_) => true, Expr::Paren(p) => pure(&p.expr), Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) && pure(&b.left) && pure(&b.right), Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && place(&m.receiver), e => place(e) } }
    let Expr::ForLoop(f) = e else { return None };
    let Pat::Ident(v) = &*f.pat else { return None };
    let Expr::Range(r) = &*f.expr else { return None };
    let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return None };
    if f.label.is_some() || v.by_ref.is_some() || v.subpat.is_some() || matches!(&**a, Expr::Lit(_)) || !pure(a) || !pure(b) { return None; }
    let s = |e: &Expr| e.to_token_stream().to_string();
    let (c, base, end) = (fresh("off_idx"), fresh("off_base"), fresh("off_end"));
    let mut body = f.body.clone();
    let n: Expr = match &**b {
        Expr::Binary(x) if matches!(x.op, BinOp::Add(_)) && s(&x.left) == s(a) => (*x.right).clone(),
        Expr::Binary(x) if matches!(x.op, BinOp::Add(_)) && s(&x.right) == s(a) => (*x.left).clone(),
        _ => return None,
    };
    body.stmts.insert(0, parse_quote!(let #v = #base + #c;));
    Some(parse_quote!({ let #base = #a; let #end = #b; for #c in 0..#n #body }))
}
