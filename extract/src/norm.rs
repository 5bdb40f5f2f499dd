//! Normalisation of function bodies into the subset Verus accepts.  Every rule is a
//! source-to-source rewrite that keeps the meaning; `notes` counts each application.
use crate::scope::*;
use proc_macro2::Span;
use quote::quote;
use std::collections::{BTreeMap, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Notes = BTreeMap<String, usize>;
fn note(n: &mut Notes, k: &str) { *n.entry(k.to_string()).or_default() += 1; }

#[derive(Clone)]
pub enum It { Vec(Expr, bool), Val(Box<It>), Zip(Box<It>, Box<It>), Enumerate(Box<It>), Rev(Box<It>), Take(Box<It>, Expr), Skip(Box<It>, Expr), Range(Expr, Expr) }

/// `copied` and `cloned` apply to the items, whichever of them are visited
fn by_value(it: It) -> It { match it { It::Rev(a) => It::Rev(Box::new(by_value(*a))), It::Take(a, n) => It::Take(Box::new(by_value(*a)), n), It::Skip(a, n) => It::Skip(Box::new(by_value(*a)), n), a => It::Val(Box::new(a)) } }
/// a number that does not change while the loop runs
fn fixed(e: &Expr) -> bool { match e { Expr::Lit(_) => true, Expr::Path(p) => p.path.get_ident().is_some(), Expr::Paren(p) => fixed(&p.expr), _ => false } }
const ITER: [&str; 9] = ["iter", "iter_mut", "zip", "enumerate", "rev", "copied", "cloned", "take", "skip"];
fn parse_it(e: &Expr) -> Option<It> {
    match e {
        Expr::Paren(p) => parse_it(&p.expr),
        Expr::Reference(r) => { let m = r.mutability.is_some(); place(&r.expr).map(|p| It::Vec(p, m)) }
        Expr::Range(r) => { if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) { Some(It::Range((**a).clone(), (**b).clone())) } else { None } }
        Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
            ("iter", 0) => place(&m.receiver).map(|p| It::Vec(p, false)),
            ("iter_mut", 0) => place(&m.receiver).map(|p| It::Vec(p, true)),
            ("copied" | "cloned", 0) => Some(by_value(parse_it(&m.receiver)?)),
            ("take", 1) if fixed(&m.args[0]) => Some(It::Take(Box::new(parse_it(&m.receiver)?), m.args[0].clone())),
            ("skip", 1) if fixed(&m.args[0]) => Some(It::Skip(Box::new(parse_it(&m.receiver)?), m.args[0].clone())),
            ("into_iter", 0) => parse_it(&m.receiver),
            ("enumerate", 0) => Some(It::Enumerate(Box::new(parse_it(&m.receiver)?))),
            ("rev", 0) => Some(It::Rev(Box::new(parse_it(&m.receiver)?))),
            ("zip", 1) => Some(It::Zip(Box::new(parse_it(&m.receiver)?), Box::new(parse_it(&m.args[0])?))),
            _ => None,
        },
        Expr::Path(_) | Expr::Field(_) => place(e).map(|p| It::Vec(p, false)),
        _ => None,
    }
}
fn place(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Path(_) => Some(e.clone()),
        Expr::Field(f) => { place(&f.base)?; Some(e.clone()) }
        Expr::Paren(p) => place(&p.expr),
        Expr::Index(i) => { place(&i.expr)?; match &*i.index { Expr::Path(_) | Expr::Lit(_) => Some(e.clone()), Expr::Range(r) if r.start.is_none() && r.end.is_none() => place(&i.expr), _ => None } }
        _ => None,
    }
}
fn len_of(it: &It) -> Option<Expr> {
    Some(match it {
        It::Vec(p, _) => parse_quote!(#p.len()),
        It::Zip(a, b) => match (&**a, &**b) {
            (_, It::Range(..)) | (It::Range(..), _) => return None,
            _ => { let (x, y) = (len_of(a)?, len_of(b)?); parse_quote!(crate::stubs::umin(#x, #y)) }
        },
        It::Enumerate(a) | It::Rev(a) | It::Val(a) => len_of(a)?,
        It::Take(a, n) => { let x = len_of(a)?; parse_quote!(crate::stubs::umin(#x, #n)) }
        It::Skip(a, n) => { let x = len_of(a)?; parse_quote!((#x - crate::stubs::umin(#x, #n))) }
        It::Range(..) => return None,
    })
}
fn counts(it: &It) -> Vec<String> { match it { It::Take(a, n) | It::Skip(a, n) => { let mut v = counts(a); v.extend(path_name(n)); v } It::Zip(a, b) => { let mut v = counts(a); v.extend(counts(b)); v } It::Enumerate(a) | It::Rev(a) | It::Val(a) => counts(a), _ => vec![] } }
/// Binds the pattern to the element at index idx. Returns false if the shape is unknown.
fn bind(p: &Pat, it: &It, idx: &Expr, out: &mut HashMap<String, SubstTo>, first: &mut Vec<Stmt>) -> bool {
    match (p, it) {
        (Pat::Paren(p), _) => bind(&p.pat, it, idx, out, first),
        (Pat::Wild(_), _) => true,
        (Pat::Ident(i), It::Vec(v, m)) => { out.insert(i.ident.to_string(), SubstTo::Elem { place: v.clone(), idx: idx.clone(), mutable: *m }); true }
        (Pat::Ident(i), It::Val(a)) => { if let It::Vec(v, _) = &**a { out.insert(i.ident.to_string(), SubstTo::Val(parse_quote!(#v[#idx]))); true } else { false } }
        (Pat::Reference(r), It::Vec(v, _)) => { if let Pat::Ident(i) = &*r.pat { out.insert(i.ident.to_string(), SubstTo::Val(parse_quote!(#v[#idx]))); true } else { false } }
        (Pat::Tuple(t), It::Zip(a, b)) if t.elems.len() == 2 => bind(&t.elems[0], a, idx, out, first) && bind(&t.elems[1], b, idx, out, first),
        (Pat::Tuple(t), It::Enumerate(a)) if t.elems.len() == 2 => {
            let ok = match &t.elems[0] { Pat::Ident(i) => { out.insert(i.ident.to_string(), SubstTo::Val(idx.clone())); true } Pat::Wild(_) => true, _ => false };
            ok && bind(&t.elems[1], a, idx, out, first)
        }
        (_, It::Take(a, _)) => bind(p, a, idx, out, first),
        (_, It::Skip(a, n)) => {
            let Some(i) = path_name(idx) else { return false };
            let e = Ident::new(&format!("skip_{}", i), Span::call_site());
            first.push(parse_quote!(let #e = #n + #idx;));
            bind(p, a, &parse_quote!(#e), out, first)
        }
        (_, It::Rev(a)) => {
            let Some(n) = len_of(a) else { return false };
            // a name for the reversed index: the length is not read while an element is borrowed
            let Some(i) = path_name(idx) else { return false };
            let e = Ident::new(&format!("rev_{}", i), Span::call_site());
            first.push(parse_quote!(let #e = #n - 1 - #idx;));
            bind(p, a, &parse_quote!(#e), out, first)
        }
        _ => false,
    }
}

pub struct Norm<'a> { pub res: &'a mut Resolver, pub notes: &'a mut Notes, pub lets: HashMap<String, It>, pub slices: HashMap<String, Expr>, pub verr: bool, pub bad: Vec<String> }

fn idents(t: proc_macro2::TokenStream, out: &mut Vec<String>) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()), proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } } }
fn uses<T: quote::ToTokens>(t: &T, n: &str) -> usize { let mut v = vec![]; idents(t.to_token_stream(), &mut v); v.iter().filter(|x| *x == n).count() }
fn is_step(s: &Stmt, n: &str, down: bool) -> bool {
    let one = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits() == "1"));
    match s {
        Stmt::Expr(Expr::Binary(b), _) => path_name(&b.left).as_deref() == Some(n) && one(&b.right) && if down { matches!(b.op, BinOp::SubAssign(_)) } else { matches!(b.op, BinOp::AddAssign(_)) },
        Stmt::Expr(Expr::Assign(a), _) => path_name(&a.left).as_deref() == Some(n) && matches!(&*a.right, Expr::Binary(b) if path_name(&b.left).as_deref() == Some(n) && one(&b.right) && if down { matches!(b.op, BinOp::Sub(_)) } else { matches!(b.op, BinOp::Add(_)) }),
        _ => false,
    }
}
/// the variable a place starts from
fn root_name(e: &Expr) -> Option<String> { match e { Expr::Field(f) => root_name(&f.base), Expr::Index(i) => root_name(&i.expr), Expr::Paren(p) => root_name(&p.expr), Expr::Unary(u) => root_name(&u.expr), e => path_name(e) } }
fn assigns(b: &[Stmt], n: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'ast, 'a> Visit<'ast> for V<'a> {
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) { if uses(&a.left, self.0) > 0 && !matches!(&*a.left, Expr::Index(_)) { self.1 = true; } visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, b: &'ast ExprBinary) { let s = { let o = &b.op; quote!(#o).to_string() }; if s.len() >= 2 && s.ends_with('=') && !["==", "!=", "<=", ">="].contains(&s.as_str()) && uses(&b.left, self.0) > 0 && !matches!(&*b.left, Expr::Index(_)) { self.1 = true; } visit::visit_expr_binary(self, b); }
        fn visit_expr_reference(&mut self, r: &'ast ExprReference) { if r.mutability.is_some() && (root_name(&r.expr).as_deref() == Some(self.0) || root_name(&r.expr).is_none() && uses(&r.expr, self.0) > 0) { self.1 = true; } visit::visit_expr_reference(self, r); }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { if ["push", "pop", "clear", "truncate", "insert", "remove", "resize", "extend"].contains(&m.method.to_string().as_str()) && (root_name(&m.receiver).as_deref() == Some(self.0) || root_name(&m.receiver).is_none() && uses(&m.receiver, self.0) > 0) { self.1 = true; } visit::visit_expr_method_call(self, m); }
    }
    let mut v = V(n, false); b.iter().for_each(|s| v.visit_stmt(s)); v.1
}
/// `let mut i = a; while i < b { ..; i += 1; }` and the counterpart that counts down
fn while_to_for(b: &mut Block, notes: &mut Notes) {
    let mut k = 0;
    while k < b.stmts.len() {
        let hit = (|| -> Option<(usize, Stmt)> {
            let Stmt::Local(l) = &b.stmts[k] else { return None };
            let (p, _ty) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(&t.ty)), p => (p, None) };
            let Pat::Ident(pi) = p else { return None }; if pi.mutability.is_none() { return None; }
            let n = pi.ident.to_string();
            let a = &l.init.as_ref()?.expr;
            let w = (k + 1..b.stmts.len()).find(|j| uses(&b.stmts[*j], &n) > 0)?;
            if b.stmts[w + 1..].iter().any(|s| uses(s, &n) > 0) { return None; }
            let (cond, body): (Expr, Vec<Stmt>) = match &b.stmts[w] {
                Stmt::Expr(Expr::While(x), _) => ((*x.cond).clone(), x.body.stmts.clone()),
                Stmt::Expr(Expr::Loop(x), _) => {
                    // loop { if i >= b { break; } .. }
                    let Stmt::Expr(Expr::If(i), _) = x.body.stmts.first()? else { return None };
                    if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 || !matches!(&i.then_branch.stmts[0], Stmt::Expr(Expr::Break(_), _)) { return None; }
                    let Expr::Binary(c) = &*i.cond else { return None };
                    let (l, r) = (&c.left, &c.right);
                    let c = match c.op { BinOp::Ge(_) | BinOp::Eq(_) => parse_quote!(#l < #r), BinOp::Le(_) if quote!(#r).to_string() == "0" => parse_quote!(#l > 0), _ => return None };
                    (c, x.body.stmts[1..].to_vec())
                }
                _ => return None,
            };
            let Expr::Binary(c) = &cond else { return None };
            if body.iter().any(|s| uses(s, "continue") > 0 || uses(s, "break") > 0) { return None; }
            let i = &pi.ident;
            let (down, bound) = match c.op {
                BinOp::Lt(_) | BinOp::Ne(_) if path_name(&c.left).as_ref() == Some(&n) => (false, (*c.right).clone()),
                BinOp::Gt(_) if path_name(&c.right).as_ref() == Some(&n) => (false, (*c.left).clone()),
                BinOp::Gt(_) if path_name(&c.left).as_ref() == Some(&n) && matches!(&*c.right, Expr::Lit(x) if quote!(#x).to_string().starts_with('0')) => (true, (**a).clone()),
                _ => return None,
            };
            if matches!(c.op, BinOp::Ne(_)) && !matches!(&**a, Expr::Lit(x) if quote!(#x).to_string().starts_with('0')) { return None; }
            let mut body = body;
            if down { if !is_step(body.first()?, &n, true) { return None; } body.remove(0); } else { if !is_step(body.last()?, &n, false) { return None; } body.pop(); }
            if assigns(&body, &n) { return None; }
            if !down { let mut ids = vec![]; idents(quote!(#bound), &mut ids); if ids.iter().any(|x| x != "self" && x != "len" && assigns(&body, x)) { return None; } }
            let zero: Expr = parse_quote!(0);
            let ty_a: Expr = match (&l.pat, &**a) { (Pat::Type(t), Expr::Lit(_)) if !down => { let t = &t.ty; parse_quote!((#a as #t)) } _ => (**a).clone() };
            let _ = &zero;
            let lit = matches!(&ty_a, Expr::Paren(_));
            let start: Expr = if lit { (**a).clone() } else { ty_a };
            let st: Stmt = if down { parse_quote!(for #i in (0..#bound).rev() { #(#body)* }) } else { parse_quote!(for #i in #start..#bound { #(#body)* }) };
            Some((w, st))
        })();
        if let Some((w, st)) = hit { b.stmts[w] = st; b.stmts.remove(k); note(notes, "counting while loop to for loop"); } else { k += 1; }
    }
}
/// `let x = &p.f`, `let S { a, .. } = &p`: what each name refers to
fn ref_names(l: &Local) -> Option<HashMap<String, SubstTo>> {
    let i = l.init.as_ref()?; if i.diverge.is_some() { return None; }
    fn chain(e: &Expr) -> bool { match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => chain(&f.base), Expr::Paren(p) => chain(&p.expr), _ => false } }
    let Expr::Reference(r) = &*i.expr else { return None };
    if r.mutability.is_some() || !chain(&r.expr) { return None; }
    let pl = &*r.expr;
    let mut out = HashMap::new();
    let mut put = |p: &Pat, e: Expr| match p { Pat::Ident(x) if x.by_ref.is_none() && x.subpat.is_none() => { out.insert(x.ident.to_string(), SubstTo::Ref { place: e, mutable: false }); true } Pat::Wild(_) => true, _ => false };
    match &l.pat {
        Pat::Ident(_) => if !put(&l.pat, pl.clone()) { return None; },
        Pat::Struct(s) => for f in &s.fields { let m = &f.member; if !put(&f.pat, parse_quote!(#pl.#m)) { return None; } },
        Pat::Tuple(t) => for (k, p) in t.elems.iter().enumerate() { let m = Index::from(k); if matches!(p, Pat::Rest(_)) { return None; } if !put(p, parse_quote!(#pl.#m)) { return None; } },
        _ => return None,
    }
    Some(out)
}
/// is the name a direct operand of arithmetic?
fn operand(s: &Stmt, n: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'ast, 'a> Visit<'ast> for V<'a> { fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) && [&b.left, &b.right].iter().any(|e| path_name(e).as_deref() == Some(self.0)) { self.1 = true; }
        visit::visit_expr_binary(self, b); } }
    let mut v = V(n, false); v.visit_stmt(s); v.1
}
impl<'a> Norm<'a> {
    fn convert_for(&mut self, f: &mut ExprForLoop) {
        if let Expr::Path(_) = &*f.expr { if let Some(n) = path_name(&f.expr) { if let Some(it) = self.lets.get(&n).cloned() { self.build(f, it); return; } } }
        // inline let-bound iterators that appear inside the iterator expression
        if let Some(it) = self.parse_with_lets(&f.expr) { self.build(f, it); }
    }
    fn parse_with_lets(&self, e: &Expr) -> Option<It> {
        if let Expr::MethodCall(m) = e {
            if m.method == "zip" && m.args.len() == 1 { return Some(It::Zip(Box::new(self.parse_with_lets(&m.receiver)?), Box::new(self.parse_with_lets(&m.args[0])?))); }
            if m.method == "enumerate" { return Some(It::Enumerate(Box::new(self.parse_with_lets(&m.receiver)?))); }
            if m.method == "rev" { return Some(It::Rev(Box::new(self.parse_with_lets(&m.receiver)?))); }
            if m.args.len() == 1 && fixed(&m.args[0]) {
                if m.method == "take" { return Some(It::Take(Box::new(self.parse_with_lets(&m.receiver)?), m.args[0].clone())); }
                if m.method == "skip" { return Some(It::Skip(Box::new(self.parse_with_lets(&m.receiver)?), m.args[0].clone())); }
            }
        }
        if let Some(n) = path_name(e) { if let Some(it) = self.lets.get(&n) { return Some(it.clone()); } }
        parse_it(e)
    }
    fn build(&mut self, f: &mut ExprForLoop, it: It) {
        match &it {
            It::Range(..) => return, // native
            It::Rev(r) => if let It::Range(a, b) = &**r {
                // for i in (a..b).rev()  =>  for r in a..b { let i = b - 1 - (r - a); .. }
                let u = Ident::new(&self.res.fresh("r"), Span::call_site());
                let pat = &f.pat;
                let zero = matches!(a, Expr::Lit(l) if quote!(#l).to_string().starts_with('0'));
                let st: Stmt = if zero { parse_quote!(let #pat = #b - 1 - #u;) } else { parse_quote!(let #pat = #b - 1 - (#u - #a);) };
                f.body.stmts.insert(0, st);
                f.pat = Box::new(parse_quote!(#u));
                f.expr = Box::new(parse_quote!(#a..#b));
                note(self.notes, "reversed range to forward range");
                return;
            },
            _ => {}
        }
        // items left out at the front: the loop starts after them
        let (it, from) = match it { It::Skip(a, n) => { let Some(l) = len_of(&a) else { self.bad.push("iterator length".into()); return }; if counts(&It::Skip(a.clone(), n.clone())).iter().any(|n| assigns(&f.body.stmts, n)) { self.bad.push("iterator count changes".into()); return; } (*a, Some(parse_quote!(crate::stubs::umin(#l, #n)))) } it => (it, None::<Expr>) };
        let Some(len) = len_of(&it) else { self.bad.push("iterator length".into()); return };
        let u = Ident::new(&self.res.fresh("idx"), Span::call_site());
        let idx: Expr = parse_quote!(#u);
        if counts(&it).iter().any(|n| assigns(&f.body.stmts, n)) { self.bad.push("iterator count changes".into()); return; }
        let (mut map, mut first) = (HashMap::new(), vec![]);
        if !bind(&f.pat, &it, &idx, &mut map, &mut first) { self.bad.push("iterator pattern".into()); return; }
        let mut s = Subst { map: &map, count: HashMap::new() };
        s.visit_block_mut(&mut f.body);
        f.body.stmts.splice(0..0, first);
        f.pat = Box::new(parse_quote!(#u));
        f.expr = Box::new(match from { Some(x) => parse_quote!(#x..#len), None => parse_quote!(0..#len) });
        note(self.notes, "iterator loop to index loop");
    }
}
fn is_place_pure(e: &Expr) -> bool {
    match e { Expr::Path(_) | Expr::Lit(_) => true, Expr::Field(f) => is_place_pure(&f.base), Expr::Index(i) => is_place_pure(&i.expr) && is_place_pure(&i.index), Expr::Paren(p) => is_place_pure(&p.expr), Expr::Cast(c) => is_place_pure(&c.expr), Expr::Unary(u) => is_place_pure(&u.expr), Expr::Binary(b) => is_place_pure(&b.left) && is_place_pure(&b.right), _ => false }
}
pub fn strip_box_error(t: &mut Type, hit: &mut bool) {
    struct V<'a>(&'a mut bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = quote!(#t).to_string().replace(' ', "");
            if s == "Box<dynError>" || s == "Box<dynstd::error::Error>" { *t = parse_quote!(crate::stubs::VErr); *self.0 = true; return; }
            visit_mut::visit_type_mut(self, t);
        }
    }
    V(hit).visit_type_mut(t);
}
fn lit_str(e: &Expr) -> bool { matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) }

impl<'a> VisitMut for Norm<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        while_to_for(b, self.notes);
        // references used as numbers: the value they point to
        let mut k = 0;
        while k < b.stmts.len() {
            let map = if let Stmt::Local(l) = &b.stmts[k] { ref_names(l) } else { None };
            if let Some(map) = map { if map.keys().any(|n| b.stmts[k + 1..].iter().any(|s| operand(s, n))) {
                b.stmts.remove(k);
                let mut s = Subst { map: &map, count: HashMap::new() };
                for st in b.stmts[k..].iter_mut() { s.visit_stmt_mut(st); }
                note(self.notes, "reference to a number read as the number");
                continue;
            } }
            k += 1;
        }
        // find let-bound iterators / whole-vector slices and drop those statements
        let mut keep = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut drop_it = false;
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    let name = pi.ident.to_string();
                    if let Expr::MethodCall(m) = &*init.expr {
                        if ITER.contains(&m.method.to_string().as_str()) {
                            if let Some(it) = self.parse_with_lets(&init.expr) { self.lets.insert(name.clone(), it); drop_it = true; note(self.notes, "inlined let-bound iterator"); }
                        } else if m.method == "as_mut_slice" && m.args.is_empty() && place(&m.receiver).is_some() { self.slices.insert(name.clone(), (*m.receiver).clone()); drop_it = true; }
                    }
                    if let Expr::Reference(r) = &*init.expr {
                        if r.mutability.is_some() { if let Expr::Index(ix) = &*r.expr { if let Expr::Range(rg) = &*ix.index { if rg.start.is_none() && rg.end.is_none() {
                            if let Some(p) = place(&ix.expr) { self.slices.insert(name.clone(), p); drop_it = true; note(self.notes, "inlined whole-vector mutable slice"); }
                        } } } }
                    }
                }
            }
            if !drop_it {
                // for x in call() => let it = call(); for x in it
                if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s { let mut x = &*f.expr; while let Expr::Paren(p) = x { x = &p.expr; }
                    let hoist = match x { Expr::MethodCall(m) => !["iter", "iter_mut", "zip", "enumerate", "rev", "copied", "cloned", "into_iter", "take", "skip"].contains(&m.method.to_string().as_str()), Expr::Call(_) => true, _ => false };
                    let chain = match x { Expr::MethodCall(m) if !hoist => { let mut r = &*m.receiver; while let Expr::MethodCall(n) = r { if ["iter", "iter_mut", "zip", "enumerate", "rev", "copied", "cloned", "into_iter", "take", "skip"].contains(&n.method.to_string().as_str()) { r = &n.receiver } else { break } } if matches!(r, Expr::MethodCall(n) if n.method.to_string().starts_with("get_")) { Some(r.clone()) } else { None } } _ => None };
                    let u = Ident::new(&self.res.fresh("it"), Span::call_site());
                    if hoist { let x = x.clone(); let mut l: Stmt = parse_quote!(let #u = #x;); self.visit_stmt_mut(&mut l); keep.push(l); f.expr = Box::new(parse_quote!(#u)); note(self.notes, "loop source bound to a name first"); }
                    else if let Some(c) = chain {
                        struct R(String, Ident); impl VisitMut for R { fn visit_expr_mut(&mut self, e: &mut Expr) { if quote!(#e).to_string() == self.0 { let u = &self.1; *e = parse_quote!(#u); return; } visit_mut::visit_expr_mut(self, e); } }
                        let mut l: Stmt = parse_quote!(let #u = #c;); self.visit_stmt_mut(&mut l); keep.push(l); R(quote!(#c).to_string(), u).visit_expr_mut(&mut f.expr); note(self.notes, "loop source bound to a name first"); }
                }
                self.visit_stmt_mut(&mut s); keep.push(s);
            }
        }
        b.stmts = keep;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s { l.attrs.clear(); if let Pat::Type(t) = &mut l.pat { let mut h = false; strip_box_error(&mut t.ty, &mut h); } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e { self.convert_for(f); }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    if let Some(v) = self.slices.get(&p.path.segments[0].ident.to_string()) { let v = v.clone(); *e = parse_quote!(#v.as_mut_slice()); return; }
                }
                let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                for c in ["NEG_INFINITY", "INFINITY", "NAN", "MAX", "MIN_POSITIVE", "MIN", "EPSILON"] {
                    if s == format!("f32::{}", c) || s == format!("std::f32::{}", c) { let id = Ident::new(&c.to_lowercase(), Span::call_site()); note(self.notes, "f32 constant to stub"); *e = parse_quote!(crate::stubs::fconst::#id()); return; }
                }
                if s.starts_with("std::cmp::m") { let l = &p.path.segments.last().unwrap().ident; *e = parse_quote!(crate::stubs::cmp::#l); }
            }
            Expr::Binary(b) => {
                use BinOp::*;
                let op: Option<BinOp> = match b.op { AddAssign(_) => Some(Add(Default::default())), SubAssign(_) => Some(Sub(Default::default())), MulAssign(_) => Some(Mul(Default::default())), DivAssign(_) => Some(Div(Default::default())), RemAssign(_) => Some(Rem(Default::default())), _ => None };
                if let Some(op) = op {
                    if is_place_pure(&b.left) {
                        let (l, r) = (&b.left, &b.right);
                        note(self.notes, "compound assignment expanded");
                        let r: Expr = if is_place_pure(r) && !matches!(**r, Expr::Binary(_)) || matches!(**r, Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_)) { (**r).clone() } else { parse_quote!((#r)) };
                        *e = parse_quote!(#l = #l #op #r);
                    } else { self.bad.push("compound assignment to complex place".into()); }
                    return;
                }
                if matches!(b.op, Mul(_)) && matches!(*b.left, Expr::Reference(_)) && matches!(*b.right, Expr::Reference(_)) {
                    let (l, r) = (&b.left, &b.right);
                    note(self.notes, "operator on TensorStride to inherent call");
                    *e = parse_quote!(crate::tensor::helper::TensorStride::mul(#l, #r));
                }
            }
            // map[&key]: the entry must exist
            Expr::Index(ix) if matches!(&*ix.index, Expr::Reference(_)) => { let (m, k) = (&ix.expr, &ix.index); note(self.notes, "map[&key] to get(&key).unwrap()"); *e = parse_quote!((*#m.get(#k).unwrap())); }
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::MethodCall(m) if m.method == "unwrap"))) => { if let Expr::Paren(p) = &*r.expr { if let Expr::Unary(u) = &*p.expr { let x = (*u.expr).clone(); *e = x; } } }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(ix) = &*r.expr { if let Expr::Range(rg) = &*ix.index { if rg.start.is_none() && rg.end.is_none() { let p = &ix.expr; *e = parse_quote!(#p.as_mut_slice()); } } }
            }
            Expr::Call(c) => {
                let f = &c.func; let s = quote!(#f).to_string().replace(' ', "");
                if s == "Box::new" && c.args.len() == 1 { let a = &c.args[0]; note(self.notes, "Box::new to stub"); *e = parse_quote!(crate::stubs::box_layer(#a)); }
            }
            Expr::Try(t) if self.verr => {
                let x = &t.expr;
                note(self.notes, "? with boxed error expanded");
                *e = parse_quote!(match #x { Ok(v) => v, Err(_e) => return Err(crate::stubs::verr()) });
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {}
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "to_string" || m.method == "to_owned") => { note(self.notes, "to_string to stub"); m.method = Ident::new("vto_string", Span::call_site()); }
            Expr::Closure(c) => { for p in c.inputs.iter_mut() { if matches!(p, Pat::Wild(_)) { let u = Ident::new(&self.res.fresh("_w"), Span::call_site()); *p = parse_quote!(#u); } } }
            _ => {}
        }
        let _ = lit_str;
    }
}

// ---------- queries ----------
pub fn loop_tree(b: &Block) -> Vec<Vec<usize>> {
    struct V { cur: Vec<usize>, out: Vec<Vec<usize>>, next: Vec<usize> }
    impl V { fn enter<F: FnOnce(&mut V)>(&mut self, f: F) { let i = *self.next.last().unwrap(); *self.next.last_mut().unwrap() += 1; self.cur.push(i); self.out.push(self.cur.clone()); self.next.push(0); f(self); self.next.pop(); self.cur.pop(); } }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) { self.enter(|v| visit::visit_expr_for_loop(v, f)); }
        fn visit_expr_while(&mut self, f: &'ast ExprWhile) { self.enter(|v| visit::visit_expr_while(v, f)); }
        fn visit_expr_loop(&mut self, f: &'ast ExprLoop) { self.enter(|v| visit::visit_expr_loop(v, f)); }
    }
    let mut v = V { cur: vec![], out: vec![], next: vec![0] };
    v.visit_block(b);
    v.out
}
/// Locals assigned inside each loop: (name, loop path)
pub fn assigned_in(b: &Block, target: &[usize]) -> Vec<String> {
    struct V<'a> { cur: Vec<usize>, next: Vec<usize>, t: &'a [usize], out: Vec<String> }
    impl<'a> V<'a> { fn enter<F: FnOnce(&mut Self)>(&mut self, f: F) { let i = *self.next.last().unwrap(); *self.next.last_mut().unwrap() += 1; self.cur.push(i); self.next.push(0); f(self); self.next.pop(); self.cur.pop(); } }
    impl<'ast, 'a> Visit<'ast> for V<'a> {
        fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) { self.enter(|v| visit::visit_expr_for_loop(v, f)); }
        fn visit_expr_while(&mut self, f: &'ast ExprWhile) { self.enter(|v| visit::visit_expr_while(v, f)); }
        fn visit_expr_loop(&mut self, f: &'ast ExprLoop) { self.enter(|v| visit::visit_expr_loop(v, f)); }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if self.cur.starts_with(self.t) { if let Some(n) = path_name(&a.left) { if !self.out.contains(&n) { self.out.push(n); } } }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if self.cur.starts_with(self.t) {
                let mut e = &*m.receiver;
                loop { match e { Expr::Field(f) => e = &f.base, Expr::Index(i) => e = &i.expr, Expr::Paren(p) => e = &p.expr, _ => break } }
                if let Some(n) = path_name(e) { if !self.out.contains(&n) { self.out.push(n); } }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V { cur: vec![], next: vec![0], t: target, out: vec![] };
    v.visit_block(b);
    v.out
}
/// an item of a tensor, or arithmetic on one
fn float_read(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => float_read(&p.expr),
        Expr::Unary(u) => float_read(&u.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && (float_read(&b.left) || float_read(&b.right)),
        Expr::MethodCall(m) => m.method == "get_item",
        Expr::Index(i) => matches!(&*i.expr, Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "data")),
        _ => false,
    }
}
/// Mutable locals in declaration order: (name, "float" | "obj" | "int")
pub fn mut_locals(b: &Block) -> Vec<(String, String)> {
    struct V { out: Vec<(String, String)> }
    impl<'ast> Visit<'ast> for V {
        fn visit_local(&mut self, l: &'ast Local) {
            let (p, ty) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(t.ty.clone())), p => (p, None) };
            if let Pat::Ident(i) = p { if i.mutability.is_some() {
                let t = ty.map(|t| quote!(#t).to_string());
                let init = l.init.as_ref().map(|x| { let e = &x.expr; quote!(#e).to_string() }).unwrap_or_default();
                let float = match t { Some(t) => t == "f32", None => init.contains("fconst") || init.trim_start_matches("- ").parse::<f64>().is_ok() && (init.contains('.') || init.contains("f32")) || init.ends_with("f32") && init.contains('.') };
                let float = float || !matches!(&l.pat, Pat::Type(_)) && l.init.as_ref().map_or(false, |x| float_read(&x.expr));
                let obj = matches!(l.init.as_ref().map(|x| &*x.expr), Some(Expr::Call(_) | Expr::Struct(_) | Expr::Macro(_) | Expr::Array(_)));
                self.out.push((i.ident.to_string(), if float { "float" } else if obj { "obj" } else { "int" }.into()));
            } }
            visit::visit_local(self, l);
        }
    }
    let mut v = V { out: vec![] };
    v.visit_block(b);
    v.out
}
/// Names of called functions: last two path segments for paths, `.name` for methods.
pub fn callees(b: &Block) -> Vec<String> {
    struct V { out: Vec<String> }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func { let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect(); self.out.push(s.join("::")); }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { self.out.push(format!(".{}", m.method)); visit::visit_expr_method_call(self, m); }
        fn visit_macro(&mut self, m: &'ast Macro) {
            if let Ok(r) = m.parse_body::<ExprRepeatBody>() { let (a, b) = (r.0, r.1); let x: Block = parse_quote!({ #a; #b; }); self.out.extend(callees(&x)); }
            else if let Ok(l) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { for e in l.iter() { let x: Block = parse_quote!({ #e; }); self.out.extend(callees(&x)); } }
        }
    }
    let mut v = V { out: vec![] };
    v.visit_block(b);
    v.out.sort(); v.out.dedup();
    v.out
}
