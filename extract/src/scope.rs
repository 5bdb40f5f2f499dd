//! Gives every local binder of a function a unique name (`x__7`), resolving all uses lexically.
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Resolver { pub scopes: Vec<HashMap<String, String>>, pub n: usize, pub orig: HashMap<String, String>, pub bad: Vec<String> }

impl Resolver {
    pub fn new() -> Self { Resolver { scopes: vec![HashMap::new()], n: 0, orig: HashMap::new(), bad: vec![] } }
    pub fn fresh(&mut self, name: &str) -> String {
        self.n += 1;
        let u = format!("{}__{}", name, self.n);
        self.orig.insert(u.clone(), name.to_string());
        u
    }
    fn bind(&mut self, name: &str) -> String {
        let u = self.fresh(name);
        self.scopes.last_mut().unwrap().insert(name.to_string(), u.clone());
        u
    }
    fn look(&self, name: &str) -> Option<String> { self.scopes.iter().rev().find_map(|s| s.get(name).cloned()) }
    fn is_binder(name: &str) -> bool { name != "self" && name.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) }
    pub fn bind_pat(&mut self, p: &mut Pat) {
        match p {
            Pat::Ident(pi) => {
                let n = pi.ident.to_string();
                if Self::is_binder(&n) { pi.ident = Ident::new(&self.bind(&n), pi.ident.span()); }
                if let Some((_, sub)) = &mut pi.subpat { self.bind_pat(sub); }
            }
            Pat::Struct(ps) => {
                for f in ps.fields.iter_mut() {
                    if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
                    self.bind_pat(&mut f.pat);
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.bind_pat(e)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.bind_pat(e)),
            Pat::Reference(r) => self.bind_pat(&mut r.pat),
            Pat::Type(t) => self.bind_pat(&mut t.pat),
            Pat::Paren(t) => self.bind_pat(&mut t.pat),
            Pat::Slice(t) => t.elems.iter_mut().for_each(|e| self.bind_pat(e)),
            Pat::Or(o) => o.cases.iter_mut().for_each(|e| self.bind_pat(e)),
            Pat::Wild(_) | Pat::Lit(_) | Pat::Path(_) | Pat::Rest(_) | Pat::Range(_) => {}
            _ => self.bad.push("pattern".into()),
        }
    }
    fn cond(&mut self, c: &mut Expr) {
        // conditions may contain `let` patterns that scope over the branch
        match c {
            Expr::Let(l) => { self.visit_expr_mut(&mut l.expr); self.bind_pat(&mut l.pat); }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => { self.cond(&mut b.left); self.cond(&mut b.right); }
            e => self.visit_expr_mut(e),
        }
    }
}
impl VisitMut for Resolver {
    fn visit_block_mut(&mut self, b: &mut Block) { self.scopes.push(HashMap::new()); for s in b.stmts.iter_mut() { self.visit_stmt_mut(s); } self.scopes.pop(); }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge { self.visit_expr_mut(d); }
        }
        self.bind_pat(&mut l.pat);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.scopes.push(HashMap::new()); self.bind_pat(&mut f.pat); self.visit_block_mut(&mut f.body); self.scopes.pop();
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.scopes.push(HashMap::new());
        for p in c.inputs.iter_mut() { self.bind_pat(p); }
        self.visit_expr_mut(&mut c.body);
        self.scopes.pop();
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.scopes.push(HashMap::new());
        self.bind_pat(&mut a.pat);
        if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
        self.visit_expr_mut(&mut a.body);
        self.scopes.pop();
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.scopes.push(HashMap::new());
        self.cond(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        self.scopes.pop();
        if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e); }
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        self.scopes.push(HashMap::new());
        self.cond(&mut i.cond);
        self.visit_block_mut(&mut i.body);
        self.scopes.pop();
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let s = &mut p.path.segments[0];
            if let Some(u) = self.look(&s.ident.to_string()) { s.ident = Ident::new(&u, s.ident.span()); }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "vec" {
                if let Ok(r) = m.mac.parse_body::<ExprRepeatBody>() {
                    let (mut a, mut b) = (r.0, r.1);
                    self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                    m.mac.tokens = quote::quote!(#a ; #b);
                } else if let Ok(l) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut l = l; l.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    m.mac.tokens = quote::quote!(#l);
                } else { self.bad.push("vec! body".into()); }
            } else { self.bad.push(format!("macro {}!", name)); }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_macro_mut(&mut self, m: &mut StmtMacro) { self.bad.push(format!("macro {}!", m.mac.path.segments.last().unwrap().ident)); }
}
pub struct ExprRepeatBody(pub Expr, pub Expr);
impl syn::parse::Parse for ExprRepeatBody {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; let b = i.parse()?; if !i.is_empty() { return Err(i.error("x")); } Ok(ExprRepeatBody(a, b)) }
}

/// Simultaneous renaming of single-segment paths and binders (names are unique already).
pub struct Renamer<'a> { pub map: &'a HashMap<String, String> }
impl<'a> VisitMut for Renamer<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(u) = self.map.get(&s.ident.to_string()) { s.ident = Ident::new(u, s.ident.span()); }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(u) = self.map.get(&p.ident.to_string()) { p.ident = Ident::new(u, p.ident.span()); }
        if let Some((_, sp)) = &mut p.subpat { self.visit_pat_mut(sp); }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(r) = m.parse_body::<ExprRepeatBody>() { let (mut a, mut b) = (r.0, r.1); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); m.tokens = quote::quote!(#a ; #b); }
        else if let Ok(l) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { let mut l = l; l.iter_mut().for_each(|x| self.visit_expr_mut(x)); m.tokens = quote::quote!(#l); }
    }
}
/// Replaces uses of locals by expressions.
pub struct Subst<'a> { pub map: &'a HashMap<String, SubstTo>, pub count: HashMap<String, usize> }
#[derive(Clone)]
pub enum SubstTo { Elem { place: Expr, idx: Expr, mutable: bool }, Ref { place: Expr, mutable: bool }, Val(Expr) }
fn path1(e: &Expr) -> Option<String> { if let Expr::Path(p) = e { if p.qself.is_none() && p.path.segments.len() == 1 { return Some(p.path.segments[0].ident.to_string()); } } None }
pub fn path_name(e: &Expr) -> Option<String> { path1(e) }
fn unparen(e: &Expr) -> &Expr { if let Expr::Paren(p) = e { unparen(&p.expr) } else { e } }
impl<'a> Subst<'a> {
    fn elem(&mut self, e: &Expr) -> Option<Expr> {
        let n = path1(unparen(e))?;
        match self.map.get(&n)? { SubstTo::Elem { place, idx, .. } => { *self.count.entry(n).or_default() += 1; Some(parse_quote!(#place[#idx])) } SubstTo::Ref { place, .. } => { *self.count.entry(n).or_default() += 1; Some(place.clone()) } SubstTo::Val(_) => None }
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Binary(b) => {
                let arith = matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_));
                let cmp = matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_));
                let known = |e: &Expr| path1(unparen(e)).map(|n| matches!(self.map.get(&n), Some(SubstTo::Elem { .. } | SubstTo::Ref { .. }))).unwrap_or(false);
                // arithmetic on references is arithmetic on what they point to
                if arith || cmp && known(&b.left) && known(&b.right) {
                    if let Some(x) = self.elem(&b.left) { b.left = Box::new(x); } else { self.visit_expr_mut(&mut b.left); }
                    if let Some(x) = self.elem(&b.right) { b.right = Box::new(x); } else { self.visit_expr_mut(&mut b.right); }
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => { if let Some(x) = self.elem(&u.expr) { *e = x; return; } }
            Expr::MethodCall(m) => { if let Some(x) = self.elem(&m.receiver) { m.receiver = Box::new(x); m.args.iter_mut().for_each(|a| self.visit_expr_mut(a)); return; } }
            Expr::Field(f) => { if let Some(x) = self.elem(&f.base) { f.base = Box::new(x); return; } }
            Expr::Index(ix) => { if let Some(x) = self.elem(&ix.expr) { ix.expr = Box::new(x); self.visit_expr_mut(&mut ix.index); return; } }
            Expr::Path(_) => {
                if let Some(n) = path1(e) {
                    match self.map.get(&n) {
                        Some(SubstTo::Elem { place, idx, mutable }) => { *self.count.entry(n).or_default() += 1; *e = if *mutable { parse_quote!(&mut #place[#idx]) } else { parse_quote!(&#place[#idx]) }; }
                        Some(SubstTo::Ref { place, mutable }) => { *self.count.entry(n).or_default() += 1; *e = if *mutable { parse_quote!(&mut #place) } else { parse_quote!(&#place) }; }
                        Some(SubstTo::Val(v)) => { *self.count.entry(n).or_default() += 1; *e = v.clone(); }
                        None => {}
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(r) = m.parse_body::<ExprRepeatBody>() { let (mut a, mut b) = (r.0, r.1); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); m.tokens = quote::quote!(#a ; #b); }
        else if let Ok(l) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { let mut l = l; l.iter_mut().for_each(|x| self.visit_expr_mut(x)); m.tokens = quote::quote!(#l); }
    }
}
