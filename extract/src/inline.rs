//! Inlining of local functions that have no contract (helpers a refactoring introduced), so that
//! the code is verified against the contract of the function that calls them.
use crate::pre::Absolute;
use crate::scope::*;
use quote::ToTokens;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper { pub path: String, pub owner: Option<String>, pub sig: Signature, pub block: Block, pub names: std::rc::Rc<HashMap<String, String>> }
#[derive(Default)]
pub struct Helpers { pub by_name: HashMap<String, Vec<Helper>>, pub contract_names: BTreeSet<String> }

thread_local! { static N: Cell<usize> = const { Cell::new(1000) }; }
pub fn offset() -> usize { N.with(|n| { n.set(n.get() + 1000); n.get() }) }

pub const STD: &[&str] = &["len", "get", "get_mut", "iter", "iter_mut", "push", "insert", "clone", "unwrap", "expect", "max", "min", "powi", "sqrt", "exp", "last", "first", "last_mut", "first_mut", "map", "map_err", "ok_or", "sum", "fold", "zip", "enumerate", "rev", "abs", "is_none", "is_some", "is_err", "is_ok", "eq", "ne", "contains_key", "split_at_mut", "to_string", "into", "add", "mul", "sub", "div"];

/// What to do with `return`s of the helper at the call site.
#[derive(Clone, Copy, PartialEq)]
enum Mode { Value, Try, Ret }

fn has_loop_return(b: &Block) -> bool {
    struct V { depth: usize, hit: bool }
    impl<'a> Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) { self.depth += 1; visit::visit_expr_for_loop(self, f); self.depth -= 1; }
        fn visit_expr_while(&mut self, f: &'a ExprWhile) { self.depth += 1; visit::visit_expr_while(self, f); self.depth -= 1; }
        fn visit_expr_loop(&mut self, f: &'a ExprLoop) { self.depth += 1; visit::visit_expr_loop(self, f); self.depth -= 1; }
        fn visit_expr_return(&mut self, r: &'a ExprReturn) { if self.depth > 0 { self.hit = true; } visit::visit_expr_return(self, r); }
    }
    let mut v = V { depth: 0, hit: false }; v.visit_block(b); v.hit
}
fn count_returns<T: ToTokens>(b: &T) -> usize { fn w(t: proc_macro2::TokenStream) -> usize { t.into_iter().map(|x| match x { proc_macro2::TokenTree::Ident(i) => (i == "return") as usize, proc_macro2::TokenTree::Group(g) => w(g.stream()), _ => 0 }).sum() } w(b.to_token_stream()) }
fn has_try(b: &Block) -> bool { struct V(bool); impl<'a> Visit<'a> for V { fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} } let mut v = V(false); v.visit_block(b); v.0 }
fn diverges(b: &Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(e, _)) => diverges_expr(e), _ => false } }
fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false),
        Expr::Match(m) => m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}
/// Turns a statement list whose value is returned with `return` into one whose value is its tail.
fn structured(mut stmts: Vec<Stmt>, unit: bool) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    while !stmts.is_empty() {
        let s = stmts.remove(0);
        match s {
            Stmt::Expr(Expr::Return(r), _) => { if let Some(x) = r.expr { out.push(Stmt::Expr(*x, None)); } else if !unit { return None; } return Some(out); }
            Stmt::Expr(Expr::If(mut i), semi) if count_returns(&i) > 0 => {
                if count_returns(&i.cond) > 0 { return None; }
                // the rest of the list moves into the branches that do not return
                let last = stmts.is_empty();
                let rest = std::mem::take(&mut stmts);
                let t_div = diverges(&i.then_branch);
                let mut then = i.then_branch.stmts.clone();
                if last && semi.is_none() && !unit { let e = i.else_branch.as_ref()?; i.then_branch.stmts = structured(then, unit)?; let eb = as_stmts(&e.1); let eb = structured(eb, unit)?; i.else_branch = Some((Default::default(), Box::new(Expr::Block(parse_quote!({ #(#eb)* }))))); out.push(Stmt::Expr(Expr::If(i), None)); return Some(out); }
                let mut els: Vec<Stmt> = i.else_branch.as_ref().map(|(_, e)| as_stmts(e)).unwrap_or_default();
                let e_div = i.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false);
                if !t_div && !e_div { return None; }
                if !t_div { semi_tail(&mut then); then.extend(rest.iter().cloned()); }
                if !e_div { semi_tail(&mut els); els.extend(rest.iter().cloned()); }
                let (then, els) = (structured(then, unit)?, structured(els, unit)?);
                i.then_branch = parse_quote!({ #(#then)* });
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(parse_quote!({ #(#els)* })))));
                out.push(Stmt::Expr(Expr::If(i), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(mut m), _) if count_returns(&m) > 0 => {
                if count_returns(&m.expr) > 0 { return None; }
                let rest = std::mem::take(&mut stmts);
                let live = m.arms.iter().filter(|a| !diverges_expr(&a.body)).count();
                if live > 1 && !rest.is_empty() { return None; }
                for a in m.arms.iter_mut() {
                    let d = diverges_expr(&a.body);
                    let mut b = as_stmts(&a.body);
                    if !d && !rest.is_empty() { semi_tail(&mut b); b.extend(rest.iter().cloned()); }
                    let b = structured(b, unit)?;
                    a.body = Box::new(Expr::Block(parse_quote!({ #(#b)* }))); a.comma = None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), semi) if count_returns(&b) > 0 => { if stmts.is_empty() && semi.is_none() || diverges(&b.block) { let x = structured(b.block.stmts, unit)?; out.push(Stmt::Expr(Expr::Block(parse_quote!({ #(#x)* })), None)); return Some(out); } return None; }
            // let x = match e { Some(v) => v, None => return r };
            Stmt::Local(l) if count_returns(&l) > 0 => {
                let init = l.init.as_ref()?; if init.diverge.is_some() { return None; }
                let Expr::Match(m) = &*init.expr else { return None };
                if count_returns(&m.expr) > 0 { return None; }
                let mut m = m.clone(); let rest = std::mem::take(&mut stmts); let pat = &l.pat;
                if m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() != 1 { return None; }
                for a in m.arms.iter_mut() {
                    let b: Vec<Stmt> = if diverges_expr(&a.body) { as_stmts(&a.body) } else { let v = &a.body; let mut b: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)]; b.extend(rest.iter().cloned()); b };
                    let b = structured(b, unit)?;
                    a.body = Box::new(Expr::Block(parse_quote!({ #(#b)* }))); a.comma = None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            s => { if count_returns(&s) > 0 { return None; } out.push(s); }
        }
    }
    Some(out)
}
fn mentions<T: ToTokens>(t: &T, names: &[String]) -> bool { fn w(t: proc_macro2::TokenStream, n: &[String]) -> bool { t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => n.contains(&i.to_string()), proc_macro2::TokenTree::Group(g) => w(g.stream(), n), _ => false }) } w(t.to_token_stream(), names) }
fn as_stmts(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] } }
fn semi_tail(v: &mut [Stmt]) { if let Some(Stmt::Expr(_, s)) = v.last_mut() { if s.is_none() { *s = Some(Default::default()); } } }
/// the tail value of a Result-valued list, unwrapped: Ok(v) => v, Err(e) => return Err(e), x => x?
fn untry(stmts: &mut [Stmt], boxed: bool) {
    if let Some(Stmt::Expr(e, None)) = stmts.last_mut() { untry_expr(e, boxed); }
}
fn err_ret(c: &ExprCall, boxed: bool) -> Expr { if boxed { parse_quote!(return Err(crate::stubs::verr())) } else { parse_quote!(return #c) } }
fn untry_expr(e: &mut Expr, boxed: bool) {
    match e {
        Expr::If(i) => { untry(&mut i.then_branch.stmts, boxed); if let Some((_, x)) = &mut i.else_branch { untry_expr(x, boxed); } }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| untry_expr(&mut a.body, boxed)),
        Expr::Block(b) => untry(&mut b.block.stmts, boxed),
        Expr::Return(_) => {}
        Expr::Call(c) if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 => { let v = c.args[0].clone(); *e = v; }
        Expr::Call(c) if c.func.to_token_stream().to_string() == "Err" => *e = err_ret(c, boxed),
        _ => { let y = e.clone(); *e = parse_quote!((#y)?); }
    }
}
struct BoxErr; impl VisitMut for BoxErr { fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) { if let Some(Expr::Call(c)) = r.expr.as_deref() { if c.func.to_token_stream().to_string() == "Err" { r.expr = Some(parse_quote!(Err(crate::stubs::verr()))); } } } }
pub fn pure(e: &Expr) -> bool { match e { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => pure(&f.base), Expr::Index(i) => pure(&i.expr) && pure(&i.index), Expr::Paren(p) => pure(&p.expr), Expr::Cast(c) => pure(&c.expr), Expr::Unary(u) => pure(&u.expr), _ => false } }

pub struct Inliner<'a> { pub h: &'a Helpers, pub owner: Option<String>, pub boxed: bool, pub done: BTreeSet<String>, pub depth: usize, pub pre: Vec<Vec<Stmt>>, pub ret: bool, pub loops: usize }
impl<'a> Inliner<'a> {
    pub fn new(h: &'a Helpers, owner: Option<String>, boxed: bool, ret: bool) -> Self { Inliner { h, owner, boxed, done: BTreeSet::new(), depth: 0, pre: vec![], ret, loops: 0 } }
    fn find(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let cands = self.h.by_name.get(seg.last()?)?;
                let owner = if seg.len() >= 2 { let o = seg[seg.len() - 2].clone(); if o == "Self" { self.owner.clone() } else { Some(o) } } else { None };
                let v: Vec<&Helper> = cands.iter().filter(|h| match (&h.owner, &owner) { (Some(a), Some(b)) => a == b, (None, None) => true, (None, Some(b)) => b.chars().next().map(|c| c.is_lowercase()).unwrap_or(false), _ => false }).collect();
                if v.len() != 1 || v[0].sig.inputs.len() != c.args.len() { return None; }
                Some((v[0].clone(), c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if STD.contains(&n.as_str()) || self.h.contract_names.contains(&n) { return None; }
                let v: Vec<&Helper> = self.h.by_name.get(&n)?.iter().filter(|h| h.owner.is_some() && h.sig.receiver().is_some()).collect();
                if v.len() != 1 || v[0].sig.inputs.len() != m.args.len() + 1 { return None; }
                let mut a = vec![(*m.receiver).clone()]; a.extend(m.args.iter().cloned());
                Some((v[0].clone(), a))
            }
            _ => None,
        }
    }
    /// statements that compute the call, the last one its value
    fn expand(&mut self, h: &Helper, args: &[Expr], mode: Mode) -> Option<Vec<Stmt>> {
        if self.depth > 4 { return None; }
        let mut block = h.block.clone();
        // type parameters: the types are inferred where the body is placed
        let mut tps: Vec<String> = vec![];
        for p in &h.sig.generics.params { match p { GenericParam::Type(t) => tps.push(t.ident.to_string()), GenericParam::Lifetime(_) => {} _ => return None } }
        if !tps.is_empty() {
            struct D<'a>(&'a [String]);
            impl<'a> VisitMut for D<'a> { fn visit_local_mut(&mut self, l: &mut Local) { if let Pat::Type(t) = &l.pat { if mentions(&t.ty, self.0) { l.pat = (*t.pat).clone(); } } visit_mut::visit_local_mut(self, l); } }
            D(&tps).visit_block_mut(&mut block);
            if mentions(&block, &tps) { return None; }
        }
        let generic = |t: &Type| mentions(t, &tps) || t.to_token_stream().to_string().split_whitespace().any(|w| w == "impl");
        // Self in the helper means its own type
        if let Some(o) = &h.owner { struct S(Ident); impl VisitMut for S { fn visit_path_mut(&mut self, p: &mut Path) { if let Some(s) = p.segments.first_mut() { if s.ident == "Self" { s.ident = self.0.clone(); } } visit_mut::visit_path_mut(self, p); } } if self.owner.as_ref() != Some(o) { S(Ident::new(o, proc_macro2::Span::call_site())).visit_block_mut(&mut block); } }
        let mut r = Resolver::new(); r.n = offset();
        let mut map: HashMap<String, SubstTo> = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut sig = h.sig.clone();
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { Absolute { names: &h.names }.visit_type_mut(&mut t.ty); if generic(&t.ty) && !matches!(&*t.ty, Type::Reference(_)) { t.ty = parse_quote!(_); } } }
        for (a, arg) in sig.inputs.iter_mut().zip(args) {
            match a {
                FnArg::Receiver(rc) => {
                    let by_ref = rc.reference.is_some() || rc.ty.to_token_stream().to_string().starts_with('&');
                    let m = rc.mutability.is_some() && rc.reference.is_some() || rc.ty.to_token_stream().to_string().replace(' ', "").starts_with("&mut");
                    if !by_ref { return None; }
                    let mut p = arg; while let Expr::Paren(x) = p { p = &x.expr; } if let Expr::Reference(x) = p { p = &x.expr; }
                    if matches!(p, Expr::Path(x) if x.path.is_ident("self")) { continue; }
                    if !pure(p) { return None; }
                    map.insert("self".into(), SubstTo::Ref { place: p.clone(), mutable: m });
                }
                FnArg::Typed(t) => {
                    let open = matches!(&*t.ty, Type::Infer(_));
                    let is_ref = matches!(&*t.ty, Type::Reference(_)) || open && { let mut x = arg; while let Expr::Paren(y) = x { x = &y.expr; } matches!(x, Expr::Reference(r) if pure(&r.expr)) };
                    if open && matches!(arg, Expr::Path(p) if p.path.segments.len() > 1) { r.bind_pat(&mut t.pat); if let Pat::Ident(pi) = &*t.pat { map.insert(pi.ident.to_string(), SubstTo::Val(arg.clone())); continue; } return None; }
                    r.bind_pat(&mut t.pat);
                    let Pat::Ident(pi) = &*t.pat else { if is_ref { return None; } let (p, x) = (&t.pat, arg); lets.push(parse_quote!(let #p = #x;)); continue };
                    let n = pi.ident.to_string();
                    let mut x = arg; while let Expr::Paren(y) = x { x = &y.expr; }
                    if is_ref {
                        if let Expr::Reference(rf) = x { if pure(&rf.expr) { map.insert(n, SubstTo::Ref { place: (*rf.expr).clone(), mutable: rf.mutability.is_some() }); continue; } }
                        else if pure(x) { map.insert(n, SubstTo::Val(x.clone())); continue; }
                        else if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) { return None; }
                    }
                    let (p, x) = (&t.pat, arg); let ty = &t.ty;
                    lets.push(if is_ref || open { parse_quote!(let #p = #x;) } else { parse_quote!(let #p : #ty = #x;) });
                }
            }
        }
        r.visit_block_mut(&mut block);
        if !r.bad.is_empty() { return None; }
        if !h.names.is_empty() { Absolute { names: &h.names }.visit_block_mut(&mut block); }
        Subst { map: &map, count: HashMap::new() }.visit_block_mut(&mut block);
        let unit = matches!(&h.sig.output, ReturnType::Default) || h.sig.output.to_token_stream().to_string().replace(' ', "") == "->()";
        if has_try(&block) && mode == Mode::Value { return None; }
        let mut stmts = match mode {
            Mode::Ret => {
                let mut v = block.stmts;
                if self.boxed { v.iter_mut().for_each(|s| BoxErr.visit_stmt_mut(s)); }
                if !diverges(&Block { brace_token: Default::default(), stmts: v.clone() }) { if let Some(Stmt::Expr(_, s)) = v.last() { if s.is_some() && !unit { return None; } } }
                v
            }
            Mode::Try => {
                if has_loop_return(&block) {
                    // only errors may leave a loop
                    struct V(bool); impl<'a> Visit<'a> for V { fn visit_expr_return(&mut self, r: &'a ExprReturn) { if !matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err") { self.0 = true; } } }
                    let n = block.stmts.len(); if n == 0 { return None; }
                    let mut v = V(false); block.stmts[..n - 1].iter().for_each(|s| v.visit_stmt(s)); if v.0 { return None; }
                    if self.boxed { block.stmts.iter_mut().for_each(|s| BoxErr.visit_stmt_mut(s)); }
                    if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last().cloned() { *block.stmts.last_mut().unwrap() = Stmt::Expr(*r.expr?, None); }
                    let mut v = block.stmts; untry(&mut v, self.boxed); v
                } else {
                    // keep early Err returns as they are when that is all there is
                    let n = block.stmts.len(); if n == 0 { return None; }
                    let mut only_err = true;
                    struct V(bool); impl<'a> Visit<'a> for V { fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} fn visit_expr_return(&mut self, r: &'a ExprReturn) { if !matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err") { self.0 = true; } } }
                    let mut v = V(false); block.stmts[..n - 1].iter().for_each(|s| v.visit_stmt(s)); if v.0 { only_err = false; }
                    let mut v = if only_err { block.stmts } else { structured(block.stmts, unit)? };
                    if only_err { if let Some(Stmt::Expr(Expr::Return(r), _)) = v.last().cloned() { *v.last_mut().unwrap() = Stmt::Expr(*r.expr?, None); } }
                    if self.boxed { v.iter_mut().for_each(|s| BoxErr.visit_stmt_mut(s)); }
                    untry(&mut v, self.boxed);
                    v
                }
            }
            Mode::Value => { if has_loop_return(&block) { return None; } structured(block.stmts, unit)? }
        };
        // helpers calling helpers
        let mut inner = Block { brace_token: Default::default(), stmts };
        { let mut i = Inliner { h: self.h, owner: if self.owner == h.owner { self.owner.clone() } else { h.owner.clone() }, boxed: self.boxed, done: BTreeSet::new(), depth: self.depth + 1, pre: vec![], ret: mode == Mode::Ret, loops: 0 };
          i.visit_block_mut(&mut inner); self.done.extend(i.done); self.loops += i.loops; }
        stmts = inner.stmts;
        self.done.insert(h.path.clone());
        lets.extend(stmts);
        Some(lets)
    }
    fn hoistable(&self, h: &Helper) -> bool { !h.sig.inputs.iter().any(|a| match a { FnArg::Receiver(r) => r.mutability.is_some() || r.ty.to_token_stream().to_string().replace(' ', "").starts_with("&mut"), FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) }) }
    /// value of an expanded call: in front of the statement when nothing else can notice, else a block in place
    fn place(&mut self, h: &Helper, mut v: Vec<Stmt>, hoist: bool) -> Expr {
        if hoist && !self.pre.is_empty() && (self.hoistable(h)) {
            if let Some(Stmt::Expr(_, None)) = v.last() { if let Some(Stmt::Expr(x, None)) = v.pop() { self.pre.last_mut().unwrap().extend(v); return parse_quote!((#x)); } }
        }
        if v.len() == 1 { if let Stmt::Expr(x, None) = &v[0] { if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { return parse_quote!((#x)); } return x.clone(); } }
        parse_quote!({ #(#v)* })
    }
    /// the whole statement is the call: splice
    fn whole(&mut self, s: &Stmt) -> Option<Vec<Stmt>> {
        let (call, wrap): (&Expr, Box<dyn Fn(Expr) -> Stmt>) = match s {
            Stmt::Local(l) => { let i = l.init.as_ref()?; if i.diverge.is_some() { return None; } let l2 = l.clone(); (&i.expr, Box::new(move |x| { let mut l = l2.clone(); l.init.as_mut().unwrap().expr = Box::new(x); Stmt::Local(l) })) }
            Stmt::Expr(Expr::Assign(a), semi) => { if !pure(&a.left) { return None; } let (a2, semi) = (a.clone(), *semi); (&a.right, Box::new(move |x| { let mut a = a2.clone(); a.right = Box::new(x); Stmt::Expr(Expr::Assign(a), semi) })) }
            Stmt::Expr(e, semi @ Some(_)) if !matches!(e, Expr::Return(_)) => { let semi = *semi; (e, Box::new(move |x| Stmt::Expr(x, semi))) }
            _ => return None,
        };
        let (inner, mode) = match call { Expr::Try(t) => (&*t.expr, Mode::Try), e => (e, Mode::Value) };
        let (h, mut args) = self.find(inner)?;
        args.iter_mut().for_each(|a| self.visit_expr_mut(a));
        let mut v = self.expand(&h, &args, mode)?;
        match v.last() {
            Some(Stmt::Expr(x, None)) if !matches!(x, Expr::ForLoop(_) | Expr::While(_)) => { let Some(Stmt::Expr(x, None)) = v.pop() else { unreachable!() };
                let is_stmt = matches!(s, Stmt::Expr(_, _)) && !matches!(s, Stmt::Expr(Expr::Assign(_), _));
                if is_stmt && matches!(&x, Expr::Tuple(t) if t.elems.is_empty()) { return Some(v); }
                if is_stmt && matches!(&x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { v.push(Stmt::Expr(x, None)); if let Some(Stmt::Expr(_, s)) = v.last_mut() { *s = Some(Default::default()); } return Some(v); }
                v.push(wrap(x)); }
            _ => { if !matches!(s, Stmt::Expr(_, Some(_))) || matches!(s, Stmt::Expr(Expr::Assign(_), _)) { return None; } }
        }
        Some(v)
    }
}
pub fn closure_of(e: &Expr, n: usize) -> Option<ExprClosure> {
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() != n || count_returns(&c.body) > 0 { return None; }
    let mut c = c.clone();
    for p in c.inputs.iter_mut() { if let Pat::Type(t) = p { *p = (*t.pat).clone(); } }
    let mut r = Resolver::new(); r.n = offset();
    r.visit_expr_closure_mut(&mut c);
    if r.bad.is_empty() { Some(c) } else { None }
}
fn body_stmts(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) => { let mut v = b.block.stmts.clone(); semi_tail(&mut v); v } e => vec![Stmt::Expr(e.clone(), Some(Default::default()))] } }
pub fn is_iter(e: &Expr) -> bool { match e { Expr::MethodCall(m) if m.method == "take" || m.method == "skip" => m.args.len() == 1 && is_iter(&m.receiver), Expr::MethodCall(m) => ["iter", "iter_mut", "into_iter", "zip", "enumerate", "rev", "copied", "cloned"].contains(&m.method.to_string().as_str()), Expr::Paren(p) => is_iter(&p.expr) || matches!(&*p.expr, Expr::Range(_)), Expr::Path(_) => true, _ => false } }
impl<'a> Inliner<'a> {
    /// fold / map-collect / any / all over an iterator: a loop and the value it leaves
    fn closure_value(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Expr)> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let it = &m.receiver;
        match (name.as_str(), m.args.len()) {
            ("fold", 2) if is_iter(it) => {
                let c = closure_of(&m.args[1], 2)?;
                let (acc, pat, init, b) = (&c.inputs[0], &c.inputs[1], &m.args[0], &c.body);
                let Pat::Ident(a) = acc else { return None }; let a = &a.ident;
                Some((vec![parse_quote!(let mut #a = #init;), parse_quote!(for #pat in #it { #a = #b; })], parse_quote!(#a)))
            }
            ("any" | "all", 1) if is_iter(it) => {
                let c = closure_of(&m.args[0], 1)?;
                let (pat, b) = (&c.inputs[0], &c.body);
                let f = Ident::new(&format!("found__{}", offset()), proc_macro2::Span::call_site());
                if name == "any" { Some((vec![parse_quote!(let mut #f = false;), parse_quote!(for #pat in #it { if !#f && (#b) { #f = true; } })], parse_quote!(#f))) }
                else { Some((vec![parse_quote!(let mut #f = true;), parse_quote!(for #pat in #it { if #f && !(#b) { #f = false; } })], parse_quote!(#f))) }
            }
            ("collect", 0) => {
                let Expr::MethodCall(mm) = &**it else { return None };
                if mm.method != "map" || mm.args.len() != 1 || !is_iter(&mm.receiver) { return None; }
                let c = closure_of(&mm.args[0], 1)?;
                if has_try_expr(&c.body) { return None; }
                let (pat, b, it) = (&c.inputs[0], &c.body, &mm.receiver);
                let f = Ident::new(&format!("list__{}", offset()), proc_macro2::Span::call_site());
                Some((vec![parse_quote!(let mut #f = vec![];), parse_quote!(for #pat in #it { #f.push(#b); })], parse_quote!(#f)))
            }
            _ => None,
        }
    }
    /// statement forms: for_each; a place filled by collect; an early exit on any / all
    fn closure_stmt(&mut self, s: &Stmt) -> Option<Vec<Stmt>> {
        match s {
            Stmt::Expr(Expr::MethodCall(m), _) if m.method == "for_each" && m.args.len() == 1 && is_iter(&m.receiver) => {
                let c = closure_of(&m.args[0], 1)?;
                let (pat, it, b) = (&c.inputs[0], &m.receiver, body_stmts(&c.body));
                Some(vec![parse_quote!(for #pat in #it { #(#b)* })])
            }
            Stmt::Expr(Expr::Assign(a), Some(_)) if pure(&a.left) => {
                let (_, _) = self.closure_value(&a.right)?;
                let Expr::MethodCall(m) = &*a.right else { return None }; if m.method != "collect" { return None; }
                let Expr::MethodCall(mm) = &*m.receiver else { return None };
                let l = &a.left;
                let lt = l.to_token_stream().to_string();
                if a.right.to_token_stream().to_string().contains(&lt) { return None; }
                let c = closure_of(&mm.args[0], 1)?;
                let (pat, b, it) = (&c.inputs[0], &c.body, &mm.receiver);
                Some(vec![parse_quote!(#l = vec![];), parse_quote!(for #pat in #it { #l.push(#b); })])
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && diverges(&i.then_branch) => {
                let (mut c, mut neg) = (&*i.cond, false);
                loop { match c { Expr::Paren(p) => c = &p.expr, Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => { neg = !neg; c = &u.expr; } _ => break } }
                let Expr::MethodCall(m) = c else { return None };
                if m.args.len() != 1 || !is_iter(&m.receiver) { return None; }
                let want = if neg { "all" } else { "any" }; if m.method != want { return None; }
                let cl = closure_of(&m.args[0], 1)?;
                let (pat, b, it, then) = (&cl.inputs[0], &cl.body, &m.receiver, &i.then_branch);
                Some(vec![if neg { parse_quote!(for #pat in #it { if !(#b) #then }) } else { parse_quote!(for #pat in #it { if #b #then }) }])
            }
            _ => None,
        }
    }
}
pub fn has_try_expr(e: &Expr) -> bool { let b: Block = parse_quote!({ #e }); has_try(&b) }
/// assertions become explicit branches, output is dropped
pub struct Macros<'a> { pub notes: &'a mut BTreeMap<String, usize> }
impl<'a> Macros<'a> {
    fn cond(m: &Macro, eq: Option<bool>) -> Option<Expr> {
        let l = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        match eq { None => { let c = l.first()?; Some(parse_quote!(!(#c))) } Some(e) => { let (a, b) = (l.first()?, l.iter().nth(1)?); Some(if e { parse_quote!(!(#a == #b)) } else { parse_quote!(#a == #b) }) } }
    }
    fn expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        let c = match n.as_str() {
            "assert" | "debug_assert" => Self::cond(m, None)?,
            "assert_eq" | "debug_assert_eq" => Self::cond(m, Some(true))?,
            "assert_ne" | "debug_assert_ne" => Self::cond(m, Some(false))?,
            _ => return None,
        };
        *self.notes.entry("assertion macro to branch that must not be taken".into()).or_default() += 1;
        Some(parse_quote!(if #c { crate::stubs::vpanic::<()>(); }))
    }
}
impl<'a> VisitMut for Macros<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        let mut out = vec![];
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mac = match &s { Stmt::Macro(m) => Some(m.mac.clone()), Stmt::Expr(Expr::Macro(m), _) => Some(m.mac.clone()), _ => None };
            if let Some(m) = mac {
                let name = m.path.segments.last().unwrap().ident.to_string();
                if ["println", "eprintln", "print", "eprint"].contains(&name.as_str()) { *self.notes.entry("output macro dropped".into()).or_default() += 1; continue; }
                if let Some(e) = self.expr(&m) { out.push(Stmt::Expr(e, None)); continue; }
                if ["panic", "unreachable", "todo", "unimplemented"].contains(&name.as_str()) {
                    *self.notes.entry("panic macro to call that must not be reached".into()).or_default() += 1;
                    out.push(if k + 1 == n { Stmt::Expr(parse_quote!(crate::stubs::vpanic()), None) } else { parse_quote!(crate::stubs::vpanic::<()>();) }); continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { let n = m.mac.path.segments.last().unwrap().ident.to_string(); if ["panic", "unreachable", "todo", "unimplemented"].contains(&n.as_str()) { *e = parse_quote!(crate::stubs::vpanic()); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = std::mem::replace(&mut self.ret, false);
        let n = b.stmts.len();
        let mut out = vec![];
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            if let Some(mut v) = self.closure_stmt(&s) { self.loops += 1; v.iter_mut().for_each(|s| { self.pre.push(vec![]); self.visit_stmt_mut(s); out.extend(self.pre.pop().unwrap()); }); out.extend(v); continue; }
            if let Some(v) = self.whole(&s) { out.extend(v); continue; }
            // return h(..) / h(..) in tail position of the function
            let tail = match &s { Stmt::Expr(Expr::Return(r), _) => r.expr.as_deref().cloned(), Stmt::Expr(e, None) if saved && k + 1 == n => Some(e.clone()), _ => None };
            if let Some(e) = tail { if let Some((h, mut args)) = self.find(&e) {
                args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                if let Some(mut v) = self.expand(&h, &args, Mode::Ret) {
                    if let Some(Stmt::Expr(x, None)) = v.last().cloned() { if !diverges_expr(&x) { *v.last_mut().unwrap() = parse_quote!(return #x;); } }
                    out.extend(v); continue;
                }
            } }
            self.pre.push(vec![]);
            self.ret = saved && k + 1 == n && matches!(&s, Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::Block(_), None));
            self.visit_stmt_mut(&mut s);
            self.ret = false;
            out.extend(self.pre.pop().unwrap());
            out.push(s);
        }
        b.stmts = out;
        self.ret = saved;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { let p = std::mem::take(&mut self.pre); visit_mut::visit_expr_closure_mut(self, c); self.pre = p; }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // parts that are evaluated conditionally or repeatedly keep their calls in place
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => { self.visit_expr_mut(&mut b.left); let p = std::mem::take(&mut self.pre); self.visit_expr_mut(&mut b.right); self.pre = p; return; }
            Expr::While(_) | Expr::Loop(_) => { let p = std::mem::take(&mut self.pre); visit_mut::visit_expr_mut(self, e); self.pre = p; return; }
            Expr::Match(m) => { let r = self.ret; self.ret = false; self.visit_expr_mut(&mut m.expr); let p = std::mem::take(&mut self.pre); m.arms.iter_mut().for_each(|a| { self.ret = r; self.visit_arm_mut(a) }); self.ret = r; self.pre = p; return; }
            Expr::If(i) => { let r = self.ret; self.ret = false; self.visit_expr_mut(&mut i.cond); let p = std::mem::take(&mut self.pre); self.ret = r; self.visit_block_mut(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.ret = r; self.visit_expr_mut(x); } self.ret = r; self.pre = p; return; }
            Expr::Block(_) => {}
            Expr::ForLoop(f) => { let r = std::mem::replace(&mut self.ret, false); self.visit_expr_mut(&mut f.expr); let p = std::mem::take(&mut self.pre); self.visit_block_mut(&mut f.body); self.pre = p; self.ret = r; return; }
            _ => {}
        }
        if !matches!(e, Expr::Block(_)) { self.ret = false; }
        if let Some((mut v, x)) = self.closure_value(e) {
            self.loops += 1;
            v.iter_mut().for_each(|s| { let p = std::mem::take(&mut self.pre); self.visit_stmt_mut(s); self.pre = p; });
            if let Some(p) = self.pre.last_mut() { p.extend(v); *e = x; } else { *e = parse_quote!({ #(#v)* #x }); }
            return;
        }
        let (inner, mode) = match &*e { Expr::Try(t) => (&*t.expr, Mode::Try), x => (x, Mode::Value) };
        if let Some((h, mut args)) = self.find(inner) {
            args.iter_mut().for_each(|a| self.visit_expr_mut(a));
            if let Some(v) = self.expand(&h, &args, mode) { *e = self.place(&h, v, true); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn note_inlined(notes: &mut BTreeMap<String, usize>, done: &BTreeSet<String>) { for d in done { *notes.entry(format!("inlined helper {}", d)).or_default() += 1; } }
