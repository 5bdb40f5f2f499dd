//! extract <repo/src> <contracts dir> <out.rs> <out meta.json> [--mode full|probe] [--only f1,f2,..] [--stub f1,f2]
//!
//! Reads the crate's current source, drops test code, normalises the functions (see norm.rs),
//! attaches the contracts and writes one Verus file.  Functions in --stub (and, with --only,
//! every function not listed) keep their contract but lose their body (assumed contract).
//! In probe mode every function under contract gets the body `assert(false)`: each of them
//! must fail, otherwise its precondition is contradictory.
mod contract;
mod inline;
mod norm;
mod pre;
mod scope;
use contract::*;
use inline::*;
use norm::*;
use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use scope::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

struct Out { text: String, line: usize }
impl Out {
    fn push(&mut self, s: &str) { self.line += s.matches('\n').count(); self.text.push_str(s); }
    fn ln(&mut self, s: &str) { self.push(s); if !s.ends_with('\n') { self.push("\n"); } }
    fn toks(&mut self, t: TokenStream) { let mut s = String::new(); fmt(t, &mut s, 0, true); self.ln(&s); }
}
fn fmt(t: TokenStream, s: &mut String, depth: usize, in_brace: bool) {
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{\n", "}\n"), Delimiter::None => ("", "") };
                s.push_str(o);
                fmt(g.stream(), s, depth + 1, g.delimiter() == Delimiter::Brace);
                if g.delimiter() == Delimiter::Brace && !s.ends_with('\n') { s.push('\n'); }
                s.push_str(c);
                if g.delimiter() != Delimiter::Brace { s.push(' '); }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.spacing() == Spacing::Alone { if (p.as_char() == ';' || p.as_char() == ',') && in_brace { s.push('\n'); } else { s.push(' '); } }
            }
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' '); }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); }
        }
    }
}
fn toks(s: &str, what: &str) -> TokenStream { s.parse().unwrap_or_else(|e| panic!("contract text does not lex ({}): {}", what, e)) }

fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && { let s = a.to_token_stream().to_string().replace(' ', ""); s.contains("cfg(test)") || s.contains("verif_hooks") || s.contains("all(test") || s.contains("feature=") })
}
struct Module { path: Vec<String>, items: Vec<Item>, subs: Vec<Module>, file: String }
fn load(file: &FsPath, path: Vec<String>, items: Option<Vec<Item>>) -> Module {
    let items = items.unwrap_or_else(|| { let t = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e)); parse_file(&t).unwrap_or_else(|e| panic!("PARSE {}: {}", file.display(), e)).items });
    let mut m = Module { path: path.clone(), items: vec![], subs: vec![], file: file.to_string_lossy().into() };
    for it in items {
        if let Item::Mod(im) = &it {
            if cfg_off(&im.attrs) { continue; }
            let name = im.ident.to_string();
            let mut p = path.clone(); p.push(name.clone());
            if let Some((_, content)) = &im.content { m.subs.push(load(file, p, Some(content.clone()))); continue; }
            let stem = file.file_stem().unwrap().to_string_lossy().to_string();
            let dir: PathBuf = if stem == "lib" || stem == "mod" { file.parent().unwrap().into() } else { file.parent().unwrap().join(stem) };
            let cand = [dir.join(format!("{}.rs", name)), dir.join(&name).join("mod.rs")];
            let f = cand.iter().find(|c| c.exists()).unwrap_or_else(|| panic!("module file for {:?}", p));
            m.subs.push(load(f, p, None));
        } else { m.items.push(it); }
    }
    m
}

struct Cx { con: Contracts, only: Option<BTreeSet<String>>, stub: BTreeSet<String>, probe: bool, notes: Notes, fns: Vec<Value>, local_types: BTreeSet<String>, local_traits: BTreeSet<String>, used: BTreeSet<String>, all_fns: BTreeSet<String>, alias: BTreeMap<String, String>, alts: BTreeMap<String, usize>, comm: bool, helpers: Helpers, inlined: BTreeSet<String>, sigs: pre::Sigs, drop: BTreeSet<String> }

fn attrs_has(attrs: &[Attribute], d: &str) -> bool { attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == d)) }
fn simple_ty(t: &Type) -> bool { matches!(t.to_token_stream().to_string().as_str(), "u32" | "usize" | "bool" | "u8" | "u64" | "i32" | "u16" | "i64") }

fn emit_struct(cx: &mut Cx, o: &mut Out, s: &ItemStruct) {
    let mut s = s.clone();
    let (clone, copy, peq, hash, eq) = (attrs_has(&s.attrs, "Clone"), attrs_has(&s.attrs, "Copy"), attrs_has(&s.attrs, "PartialEq"), attrs_has(&s.attrs, "Hash"), attrs_has(&s.attrs, "Eq"));
    let simple = s.fields.iter().all(|f| simple_ty(&f.ty));
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); }
    let mut d: Vec<&str> = vec![];
    if copy { d.push("Clone"); d.push("Copy"); }
    if peq { d.push("PartialEq"); if simple { d.push("Eq"); } else if eq { d.push("Eq"); } }
    if hash { d.push("Hash"); }
    if !d.is_empty() { o.ln(&format!("#[derive({})]", d.join(", "))); }
    o.toks(s.to_token_stream());
    if peq && simple { o.ln(&format!("unsafe impl Structural for {} {{ }}", s.ident)); }
    if clone && !copy {
        // derive(Clone) expanded field by field
        let name = &s.ident;
        if let Fields::Named(n) = &s.fields {
            *cx.notes.entry("derive(Clone) expanded".into()).or_default() += 1;
            let fs: Vec<_> = n.named.iter().map(|f| { let i = f.ident.as_ref().unwrap(); quote!(#i : self.#i.clone()) }).collect();
            let key = format!("{}.clone", qual(&cx_path(o, cx), &name.to_string()));
            let f: ImplItemFn = parse_quote!(fn clone(&self) -> #name { return #name { #(#fs),* }; });
            o.ln(&format!("impl Clone for {} {{", name));
            emit_fn(cx, o, FnSrc { path: key, attrs: vec![], sig: f.sig, block: Some(f.block), in_trait: true, file: String::new(), line: 0, generated: true });
            o.ln("}");
        }
    }
}
thread_local! { static CUR: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
fn cx_path(_o: &Out, _cx: &Cx) -> Vec<String> { CUR.with(|c| c.borrow().clone()) }
fn qual(path: &[String], name: &str) -> String { let mut v = path.to_vec(); v.push(name.into()); v.join("::") }

struct Matched { rename: HashMap<String, String>, assigned: BTreeSet<String>, lost: Vec<String> }
fn match_loops(c: &Contract, b: &Block, tree: &[Vec<usize>], rename: &HashMap<String, String>, assigned: &BTreeSet<String>) -> Matched {
    let (mut rename, mut assigned, mut lost) = (rename.clone(), assigned.clone(), vec![]);
    let want: Vec<Vec<usize>> = c.loops.keys().cloned().collect();
    if want != tree { let mut t2 = tree.to_vec(); t2.sort(); if want != t2 { lost.push(format!("loop structure changed: contract expects {:?}, source has {:?}", want, t2)); } }
    if lost.is_empty() {
        let mls = mut_locals(b);
        let mut taken: BTreeSet<String> = BTreeSet::new();
        for (name, kind, lp) in &c.locals {
            let asg = assigned_in(b, lp);
            let cand: Vec<&String> = mls.iter().filter(|(n, k)| k == kind && asg.contains(n) && !taken.contains(n)).map(|(n, _)| n).collect();
            if let Some(x) = cand.first() { rename.insert((*x).clone(), name.clone()); assigned.insert(name.clone()); taken.insert((*x).clone()); }
            else { lost.push(format!("no {} local assigned in loop {:?}", kind, lp)); }
        }
        // loop variables
        let mut lv = LoopVars { cur: vec![], next: vec![0], out: vec![] };
        syn::visit::Visit::visit_block(&mut lv, b);
        for (p, n) in lv.out { if let Some(v) = c.loops.get(&p).and_then(|l| l.var.clone()) {
            match n { Some(n) => { rename.insert(n, v.clone()); assigned.insert(v); } None => lost.push("loop variable".into()) } } }
    }
    Matched { rename, assigned, lost }
}
struct FnSrc { path: String, attrs: Vec<Attribute>, sig: Signature, block: Option<Block>, in_trait: bool, file: String, line: usize, generated: bool }

fn emit_fn(cx: &mut Cx, o: &mut Out, mut f: FnSrc) {
    if cfg_off(&f.attrs) { return; }
    if cx.drop.contains(&f.path) && !cx.con.fns.contains_key(&f.path) && !cx.alias.contains_key(&f.path) { return; }
    cx.all_fns.insert(f.path.clone());
    let mut con = cx.con.fns.get(&f.path).or_else(|| cx.alias.get(&f.path).and_then(|a| cx.con.fns.get(a))).cloned();
    if let Some(c) = &con { cx.used.insert(c.path.clone()); }
    let mut lost: Vec<String> = vec![];
    let mut res = Resolver::new();
    let mut notes: Notes = BTreeMap::new();
    // ---- signature: receiver, parameter names, error type
    let mut verr = false;
    if let ReturnType::Type(_, t) = &mut f.sig.output { strip_box_error(t, &mut verr); }
    if verr { *notes.entry("boxed error type made opaque".into()).or_default() += 1; }
    let mut pnames: Vec<String> = vec![]; // original names
    let mut pats: Vec<String> = vec![]; // unique binder per param
    for a in f.sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                let t = r.ty.to_token_stream().to_string().replace(' ', "");
                let new: Receiver = if t.starts_with("&'") { r.clone() } else if t.starts_with("&mut") { parse_quote!(&mut self) } else if t.starts_with('&') { parse_quote!(&self) } else if r.mutability.is_some() { parse_quote!(mut self) } else { parse_quote!(self) };
                *r = new;
                pnames.push("self".into()); pats.push("self".into());
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                let mut h = false; strip_box_error(&mut t.ty, &mut h);
                let orig = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => { lost.push("parameter pattern".into()); "_".into() } };
                if orig == "_" || orig.is_empty() { t.pat = Box::new(parse_quote!(_unused)); }
                res.bind_pat(&mut t.pat);
                let u = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => String::new() };
                pnames.push(orig); pats.push(u);
            }
        }
    }
    let mut rename: HashMap<String, String> = HashMap::new();
    let mut assigned: BTreeSet<String> = BTreeSet::new();
    if let Some(c) = &con {
        if c.params.len() != pats.len() { lost.push(format!("expected {} parameters, found {}", c.params.len(), pats.len())); }
        else { for (u, cn) in pats.iter().zip(&c.params) { if u != "self" && !u.is_empty() { rename.insert(u.clone(), cn.clone()); assigned.insert(cn.clone()); } } }
    }
    let mut callee_names = vec![];
    let mut nloops = 0;
    let mut nalts = 0;
    let mut alt = 0;
    let mut src_line_end = 0;
    if let Some(b) = &mut f.block {
        src_line_end = { use syn::spanned::Spanned; b.span().end().line };
        Macros { notes: &mut notes }.visit_block_mut(b);
        if con.is_some() {
            let owner = f.path.rsplit_once('.').map(|(o, _)| o.rsplit("::").next().unwrap().to_string());
            pre::prepare(b, &cx.sigs, &f.sig, owner.clone(), verr, &mut notes);
            let mut i = Inliner::new(&cx.helpers, owner.clone(), verr, true);
            i.visit_block_mut(b);
            if !i.done.is_empty() { pre::prepare(b, &cx.sigs, &f.sig, owner, verr, &mut notes); }
            note_inlined(&mut notes, &i.done);
            if i.loops > 0 { *notes.entry("closure over an iterator to loop".into()).or_default() += i.loops; }
            cx.inlined.extend(i.done);
        }
        res.visit_block_mut(b);
        lost.extend(res.bad.iter().map(|x| format!("unsupported construct: {}", x)));
        { let mut n = Norm { res: &mut res, notes: &mut notes, lets: HashMap::new(), slices: HashMap::new(), verr, bad: vec![] };
          n.visit_block_mut(b); lost.extend(n.bad.iter().map(|x| format!("unsupported construct: {}", x))); }
        callee_names = callees(b);
        let tree = loop_tree(b);
        nloops = tree.len();
        if let Some(c) = con.take() {
            // the first way of writing the loops that fits; `--alts` asks for a later one
            let mut cands = vec![c.clone()]; cands[0].alts.clear(); cands.extend(c.alts.iter().cloned());
            let fits: Vec<(usize, Matched)> = cands.iter().enumerate().map(|(n, c)| (n, match_loops(c, b, &tree, &rename, &assigned))).collect();
            let good: Vec<usize> = fits.iter().filter(|x| x.1.lost.is_empty()).map(|x| x.0).collect();
            nalts = good.len();
            let pick = good.get(cx.alts.get(&f.path).copied().unwrap_or(0)).or(good.first()).copied().unwrap_or(0);
            let m = fits.into_iter().nth(pick).unwrap().1;
            if lost.is_empty() { rename = m.rename; assigned = m.assigned; lost.extend(m.lost); }
            con = Some(cands.swap_remove(pick));
            alt = pick;
        }
    }
    // remaining binders keep their original name unless it is taken by the contract
    for (u, orig) in &res.orig { if !rename.contains_key(u) {
        let n = if assigned.contains(orig) { format!("{}_s", orig) } else { orig.clone() };
        rename.insert(u.clone(), n); } }
    { let mut rn = Renamer { map: &rename };
      for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { rn.visit_pat_mut(&mut t.pat); } }
      if let Some(b) = &mut f.block { rn.visit_block_mut(b); } }
    let stubbed = cx.stub.contains(&f.path) || cx.only.as_ref().map(|s| !s.contains(&f.path)).unwrap_or(false) || !lost.is_empty();
    let has_body = f.block.is_some();
    // ---- attach loop contracts
    if let (Some(b), Some(c), false) = (&mut f.block, &con, stubbed || cx.probe) {
        if !c.every.trim().is_empty() {
            let out = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => t.to_token_stream().to_string() };
            if !out.is_empty() && out != "()" { tail_return(b); }
            HoistRet { res: out.starts_with("Result") }.visit_block_mut(b);
            let e = toks(&c.every, "every");
            let st = Stmt::Expr(Expr::Verbatim(quote!(proof { #e })), None);
            let last_ret = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
            let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) && !matches!(b.stmts.last(), Some(Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::Verbatim(_), _)));
            Every { st: st.clone() }.visit_block_mut(b);
            if !last_ret { let pos = if tail { b.stmts.len() - 1 } else { b.stmts.len() }; b.stmts.insert(pos, st); }
        }
        let mut at = Attach { c, cur: vec![], next: vec![0] };
        at.visit_block_mut(b);
        if !c.exit.trim().is_empty() {
            let e = toks(&c.exit, "exit");
            let st = Stmt::Expr(Expr::Verbatim(quote!(proof { #e })), None);
            let pos = match b.stmts.last() { Some(Stmt::Expr(Expr::Return(_), _)) => b.stmts.len() - 1, Some(Stmt::Expr(x, None)) if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::Verbatim(_)) => b.stmts.len() - 1, _ => b.stmts.len() };
            b.stmts.insert(pos, st);
        }
    }
    // ---- emit
    let start = o.line + 1;
    o.ln(&format!("// @fn {}", f.path));
    if stubbed && has_body { o.ln("#[verifier::external_body]"); }
    if !stubbed && nloops > 0 { o.ln("#[verifier::loop_isolation(false)]"); }
    if let Some(c) = &con { if !stubbed && !c.attr.trim().is_empty() { o.ln(&c.attr); } }
    let sig = &f.sig;
    let (ident, gen, wher) = (&sig.ident, &sig.generics, &sig.generics.where_clause);
    let ins = &sig.inputs;
    let mut head = TokenStream::new();
    if !f.in_trait { head.extend(quote!(pub)); }
    if sig.constness.is_some() { head.extend(quote!(const)); }
    let gp = &gen.params;
    let gtok = if gp.is_empty() { quote!() } else { quote!(< #gp >) };
    head.extend(quote!(fn #ident #gtok ( #ins )));
    if let ReturnType::Type(_, t) = &sig.output {
        match con.as_ref().and_then(|c| c.ret.clone()) { Some(r) => { let r = Ident::new(&r, Span::call_site()); head.extend(quote!(-> (#r : #t))) } None => head.extend(quote!(-> #t)) }
    }
    o.toks(head);
    if let Some(w) = wher { o.toks(w.to_token_stream()); }
    if let Some(c) = &con { o.ln(&c.spec); }
    let spec_end = o.line;
    match &f.block {
        None => o.ln(";"),
        Some(_) if stubbed => o.ln("{ unimplemented!() }"),
        Some(b) => {
            o.ln("{");
            if cx.probe && con.is_some() { o.ln("assert(false); // PROBE"); o.ln("loop decreases 0int { assume(false); }"); }
            else {
                if let Some(c) = &con { if !c.proof.trim().is_empty() { o.ln(&format!("proof {{\n{}\n}}", c.proof)); } }
                let mut ts = TokenStream::new(); for s in &b.stmts { s.to_tokens(&mut ts); }
                o.toks(ts);
            }
            o.ln("}");
        }
    }
    if !stubbed { for (k, v) in &notes { *cx.notes.entry(k.clone()).or_default() += v; } }
    let nreq = con.as_ref().map(|c| clause_counts(&c.spec)).unwrap_or((0, 0));
    cx.fns.push(json!({"path": f.path, "file": f.file, "line": f.line, "line_end": src_line_end, "contract": con.as_ref().map(|c| format!("{}:{}", c.file, c.line)), "contract_path": con.as_ref().map(|c| c.path.clone()), "requires": nreq.0, "ensures": nreq.1, "loops": nloops, "alts": nalts, "alt": alt, "lost": lost, "stubbed": stubbed && has_body, "has_body": has_body, "generated": f.generated, "start": start, "spec_end": spec_end, "end": o.line, "callees": callee_names, "sig": format!("{}", ins.iter().map(|a| match a { FnArg::Receiver(r) => r.to_token_stream().to_string(), FnArg::Typed(t) => t.ty.to_token_stream().to_string() }).collect::<Vec<_>>().join(",")), "notes": notes}));
}
fn clause_counts(s: &str) -> (usize, usize) {
    // top-level clauses: lines are counted at depth 0 separated by commas
    let (mut r, mut e, mut mode, mut depth, mut pend) = (0, 0, 0, 0i32, false);
    let mut word = String::new();
    for ch in s.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n").chars().chain(" ".chars()) {
        if ch.is_alphanumeric() || ch == '_' { word.push(ch); continue; }
        if !word.is_empty() {
            if depth == 0 && (word == "requires" || word == "ensures" || word == "decreases") { if pend { if mode == 1 { r += 1 } else if mode == 2 { e += 1 } } pend = false; mode = match word.as_str() { "requires" => 1, "ensures" => 2, _ => 0 }; } else { pend = true; }
            word.clear();
        }
        match ch { '(' | '[' | '{' => { depth += 1; pend = true } ')' | ']' | '}' => depth -= 1, ',' if depth == 0 => { if pend { if mode == 1 { r += 1 } else if mode == 2 { e += 1 } } pend = false; } _ => {} }
    }
    if pend { if mode == 1 { r += 1 } else if mode == 2 { e += 1 } }
    (r, e)
}
struct LoopVars { cur: Vec<usize>, next: Vec<usize>, out: Vec<(Vec<usize>, Option<String>)> }
impl LoopVars { fn enter<F: FnOnce(&mut Self)>(&mut self, n: Option<String>, f: F) { let i = *self.next.last().unwrap(); *self.next.last_mut().unwrap() += 1; self.cur.push(i); self.out.push((self.cur.clone(), n)); self.next.push(0); f(self); self.next.pop(); self.cur.pop(); } }
impl<'ast> syn::visit::Visit<'ast> for LoopVars {
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) { let n = match &*f.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }; self.enter(n, |v| syn::visit::visit_expr_for_loop(v, f)); }
    fn visit_expr_while(&mut self, f: &'ast ExprWhile) { self.enter(None, |v| syn::visit::visit_expr_while(v, f)); }
    fn visit_expr_loop(&mut self, f: &'ast ExprLoop) { self.enter(None, |v| syn::visit::visit_expr_loop(v, f)); }
}
/// the value of a body: always by `return`
fn tail_return(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() { if semi.is_none() { match e {
        Expr::Return(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Verbatim(_) => {}
        Expr::If(i) => { tail_return(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { tail_return_expr(x); } }
        Expr::Match(_) | Expr::Block(_) => tail_return_expr(e),
        _ => { let v = e.clone(); *e = parse_quote!(return #v); *semi = Some(Default::default()); }
    } } }
}
fn tail_return_expr(e: &mut Expr) {
    match e {
        Expr::Block(b) => tail_return(&mut b.block),
        Expr::If(i) => { tail_return(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { tail_return_expr(x); } }
        Expr::Match(m) => for a in m.arms.iter_mut() { let v = &mut a.body; if !matches!(**v, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) { let x = v.clone(); **v = parse_quote!({ #x }); } tail_return_expr(v); },
        _ => {}
    }
}
/// `return call(..)`: the call before the proof text
struct HoistRet { res: bool }
impl VisitMut for HoistRet {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            visit_mut::visit_stmt_mut(self, &mut s);
            if let Stmt::Expr(Expr::Return(r), _) = &mut s { if let Some(x) = &r.expr {
                let t = x.to_token_stream().to_string();
                let err = matches!(&**x, Expr::Call(c) if c.func.to_token_stream().to_string() == "Err");
                let body = match &**x { Expr::Call(c) if c.func.to_token_stream().to_string() == "Ok" => c.args.to_token_stream().to_string(), _ => t };
                if !err && (body.contains('(') && body.trim() != "()") {
                    let x = x.clone();
                    out.push(parse_quote!(let ret__ = #x;));
                    if self.res { out.push(parse_quote!(if ret__.is_err() { return ret__; })); }
                    *r = parse_quote!(return ret__);
                }
            } }
            out.push(s);
        }
        b.stmts = out;
    }
}
struct Every { st: Stmt }
impl VisitMut for Every {
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) { if i.cond.to_token_stream().to_string().replace(' ', "") == "ret__.is_err()" { return; } visit_mut::visit_expr_if_mut(self, i); }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            visit_mut::visit_stmt_mut(self, &mut s);
            if let Stmt::Expr(Expr::Return(r), _) = &s {
                let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
                if !err { out.push(self.st.clone()); }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
struct Attach<'a> { c: &'a Contract, cur: Vec<usize>, next: Vec<usize> }
impl<'a> VisitMut for Attach<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // proof text before / after a statement-level loop
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let mut key = self.cur.clone(); key.push(*self.next.last().unwrap());
            self.visit_stmt_mut(&mut s);
            if is_loop { if let Some(l) = self.c.loops.get(&key) {
                if !l.entry.trim().is_empty() { out.push(Stmt::Expr(Expr::Verbatim(toks(&l.entry, "entry")), None)); }
                if !l.before.trim().is_empty() { let t = toks(&l.before, "before"); out.push(Stmt::Expr(Expr::Verbatim(quote!(proof { #t })), None)); }
                out.push(s);
                if !l.after.trim().is_empty() { let t = toks(&l.after, "after"); out.push(Stmt::Expr(Expr::Verbatim(quote!(proof { #t })), None)); }
                continue;
            } }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) = e {
            let i = *self.next.last().unwrap(); *self.next.last_mut().unwrap() += 1;
            self.cur.push(i); self.next.push(0);
            let l = self.c.loops.get(&self.cur).cloned().unwrap_or_default();
            let inv = toks(&l.inv, "invariant");
            let (mut head, body) = match e {
                Expr::ForLoop(f) => { self.visit_block_mut(&mut f.body); let (p, x) = (&f.pat, &f.expr); (quote!(for #p in #x), f.body.clone()) }
                Expr::While(f) => { self.visit_block_mut(&mut f.body); let x = &f.cond; (quote!(while #x), f.body.clone()) }
                Expr::Loop(f) => { self.visit_block_mut(&mut f.body); (quote!(loop), f.body.clone()) }
                _ => unreachable!(),
            };
            let pb = toks(&l.begin, "begin"); let pe = toks(&l.end, "end");
            let mut st = TokenStream::new(); for s in &body.stmts { s.to_tokens(&mut st); }
            let b2 = if l.begin.trim().is_empty() { quote!() } else { quote!(proof { #pb }) };
            let e2 = if l.end.trim().is_empty() { quote!() } else { quote!(proof { #pe }) };
            let gh = toks(&l.ghost, "ghost");
            head.extend(quote!(#inv { #gh #b2 #st #e2 }));
            *e = Expr::Verbatim(head);
            self.next.pop(); self.cur.pop();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
fn line_of<T: syn::spanned::Spanned>(t: &T) -> usize { t.span().start().line }
fn subst_self_assoc(i: &ItemImpl, sig: &mut Signature) {
    // Self::Output / Self::Error in former trait impls
    struct V<'a>(&'a ItemImpl);
    impl<'a> VisitMut for V<'a> { fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { let n = &p.path.segments[1].ident; for it in &self.0.items { if let ImplItem::Type(a) = it { if a.ident == *n { *t = a.ty.clone(); return; } } } } }
        syn::visit_mut::visit_type_mut(self, t); } }
    V(i).visit_signature_mut(sig);
}
/// functions without contract: candidates for inlining
fn helpers(m: &Module, con: &Contracts, alias: &BTreeMap<String, String>, sigs: &pre::Sigs, traits: &BTreeSet<String>, h: &mut Helpers) {
    let subs: Vec<String> = m.subs.iter().map(|s| s.path.last().unwrap().clone()).collect();
    let names = std::rc::Rc::new(pre::module_names(&m.items, &subs, &m.path));
    let mut add = |path: String, owner: Option<String>, attrs: &[Attribute], sig: &Signature, block: &Block| {
        if cfg_off(attrs) { return; }
        if con.fns.contains_key(&path) || alias.contains_key(&path) { return; }
        let mut block = block.clone();
        let mut n = BTreeMap::new();
        Macros { notes: &mut n }.visit_block_mut(&mut block);
        let mut boxed = false; if let ReturnType::Type(_, t) = &mut sig.output.clone() { strip_box_error(t, &mut boxed); }
        pre::prepare(&mut block, sigs, sig, owner.clone(), boxed, &mut n);
        h.by_name.entry(sig.ident.to_string()).or_default().push(Helper { path, owner, sig: sig.clone(), block, names: names.clone() });
    };
    for it in &m.items { match it {
        Item::Fn(f) => add(qual(&m.path, &f.sig.ident.to_string()), None, &f.attrs, &f.sig, &f.block),
        Item::Impl(i) if i.trait_.is_none() && !cfg_off(&i.attrs) => { let o = i.self_ty.to_token_stream().to_string().replace(' ', ""); for x in &i.items { if let ImplItem::Fn(f) = x { add(format!("{}.{}", qual(&m.path, &o), f.sig.ident), Some(o.clone()), &f.attrs, &f.sig, &f.block); } } }
        // methods of the crate's own traits: a name implemented twice (or overridden) has two candidates and is left alone
        Item::Impl(i) if !cfg_off(&i.attrs) && i.trait_.as_ref().map(|(_, p, _)| traits.contains(&p.segments.last().unwrap().ident.to_string())).unwrap_or(false) => { let o = i.self_ty.to_token_stream().to_string().replace(' ', ""); for x in &i.items { if let ImplItem::Fn(f) = x { add(format!("{}.{}", qual(&m.path, &o), f.sig.ident), Some(o.clone()), &f.attrs, &f.sig, &f.block); } } }
        Item::Trait(t) if !cfg_off(&t.attrs) => { let o = t.ident.to_string(); for x in &t.items { if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { add(format!("{}.{}", qual(&m.path, &o), f.sig.ident), Some(o.clone()), &f.attrs, &f.sig, b); } } } }
        _ => {}
    } }
    for s in &m.subs { helpers(s, con, alias, sigs, traits, h); }
}
fn emit_module(cx: &mut Cx, o: &mut Out, m: &Module) {
    CUR.with(|c| *c.borrow_mut() = m.path.clone());
    for it in &m.items {
        match it {
            Item::Use(u) => {
                if cfg_off(&u.attrs) { continue; }
                let s = u.tree.to_token_stream().to_string().replace(' ', "");
                let root = s.split("::").next().unwrap_or("").to_string();
                if ["serde", "rand", "rand_distr", "bincode"].contains(&root.as_str()) || (root == "std" && !s.contains("HashMap") && !s.contains("collections")) { continue; }
                let mut u = u.clone(); u.attrs.clear(); u.vis = parse_quote!(pub);
                o.toks(quote!(#[allow(unused_imports)] #u));
            }
            Item::Struct(s) => { if !cfg_off(&s.attrs) { emit_struct(cx, o, s) } }
            Item::Enum(e) => {
                if cfg_off(&e.attrs) { continue; }
                let mut e = e.clone();
                let d0: Vec<&str> = ["Clone", "Copy", "PartialEq", "Eq", "Hash"].into_iter().filter(|d| attrs_has(&e.attrs, d)).collect();
                let unit = e.variants.iter().all(|v| v.fields.is_empty());
                e.attrs.clear(); e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                let mut d = d0.clone();
                if !d.contains(&"Copy") && !unit { d.retain(|x| *x != "Clone"); }
                if d.contains(&"PartialEq") && unit { if !d.contains(&"Eq") { d.push("Eq"); } }
                if !d.is_empty() { o.ln(&format!("#[derive({})]", d.join(", "))); }
                o.toks(e.to_token_stream());
                if d.contains(&"PartialEq") && unit { o.ln(&format!("unsafe impl Structural for {} {{ }}", e.ident)); }
            }
            Item::Trait(t) => {
                if cfg_off(&t.attrs) { continue; }
                let (name, sup) = (&t.ident, &t.supertraits);
                let tp = qual(&m.path, &name.to_string());
                o.toks(if sup.is_empty() { quote!(pub trait #name) } else { quote!(pub trait #name : #sup) });
                o.ln("{");
                if let Some(x) = cx.con.inner.get(&tp).cloned() { o.ln(&x); }
                for x in &t.items { match x {
                    TraitItem::Fn(f) => { let mut sig = f.sig.clone(); let _ = &mut sig;
                        emit_fn(cx, o, FnSrc { path: format!("{}.{}", tp, f.sig.ident), attrs: f.attrs.clone(), sig, block: f.default.clone(), in_trait: true, file: m.file.clone(), line: line_of(f), generated: false }) }
                    x => o.toks(x.to_token_stream()),
                } }
                o.ln("}");
            }
            Item::Impl(i) => {
                if cfg_off(&i.attrs) { continue; }
                let st = { let mut t = (*i.self_ty).clone(); if let Type::Reference(r) = &t { t = (*r.elem).clone(); } t };
                let owner = st.to_token_stream().to_string().replace(' ', "");
                let op = qual(&m.path, &owner);
                let local_trait = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).filter(|t| cx.local_traits.contains(t));
                if let Some(t) = &local_trait {
                    let g = &i.generics;
                    let tid = &i.trait_.as_ref().unwrap().1;
                    o.toks(quote!(impl #g #tid for #st));
                    o.ln("{");
                    if let Some(x) = cx.con.inner.get(&op).cloned() { o.ln(&x); }
                    for x in &i.items { if let ImplItem::Fn(f) = x {
                        emit_fn(cx, o, FnSrc { path: format!("{}.{}", op, f.sig.ident), attrs: f.attrs.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), in_trait: true, file: m.file.clone(), line: line_of(f), generated: false });
                    } else { o.toks(x.to_token_stream()); } }
                    o.ln("}");
                    let _ = t;
                } else {
                    if i.trait_.is_some() { *cx.notes.entry("foreign trait impl to inherent impl".into()).or_default() += 1; }
                    let g = if i.trait_.is_some() { Generics::default() } else { i.generics.clone() };
                    o.toks(quote!(impl #g #st));
                    o.ln("{");
                    for x in &i.items { match x {
                        ImplItem::Fn(f) => {
                            let mut sig = f.sig.clone();
                            if i.trait_.is_some() {
                                subst_self_assoc(i, &mut sig);
                                // drop impl lifetimes
                                struct L; impl VisitMut for L { fn visit_type_reference_mut(&mut self, t: &mut TypeReference) { if t.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) { t.lifetime = None; } syn::visit_mut::visit_type_reference_mut(self, t); } }
                                L.visit_signature_mut(&mut sig);
                                if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { if matches!(*i.self_ty, Type::Reference(_)) { *r = parse_quote!(&self); } }
                            }
                            emit_fn(cx, o, FnSrc { path: format!("{}.{}", op, f.sig.ident), attrs: f.attrs.clone(), sig, block: Some(f.block.clone()), in_trait: false, file: m.file.clone(), line: line_of(f), generated: false });
                        }
                        ImplItem::Const(c) => { let mut c = c.clone(); c.vis = parse_quote!(pub); if let Type::Reference(r) = &mut c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } } o.toks(c.to_token_stream()) }
                        ImplItem::Type(_) if i.trait_.is_some() => {}
                        x => o.toks(x.to_token_stream()),
                    } }
                    o.ln("}");
                    let t = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if t.as_deref() == Some("PartialEq") { if let Some(x) = cx.con.inner.get(&format!("{}/eq", op)).cloned() { o.ln(&x); *cx.notes.entry("== and != on a type with its own eq: the contract of eq".into()).or_default() += 1; } }
                }
            }
            Item::Fn(f) => emit_fn(cx, o, FnSrc { path: qual(&m.path, &f.sig.ident.to_string()), attrs: f.attrs.clone(), sig: f.sig.clone(), block: Some((*f.block).clone()), in_trait: false, file: m.file.clone(), line: line_of(f), generated: false }),
            Item::Const(c) => { let mut c = c.clone(); c.vis = parse_quote!(pub); c.attrs.clear(); if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } } o.toks(c.to_token_stream()) }
            Item::Type(c) => { let mut c = c.clone(); c.vis = parse_quote!(pub); c.attrs.clear(); o.toks(c.to_token_stream()) }
            Item::Macro(_) | Item::ExternCrate(_) => {}
            x => o.toks(x.to_token_stream()),
        }
    }
    for s in &m.subs {
        o.ln(&format!("pub mod {} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::vspec::*;\n#[allow(unused_imports)] use crate::lspec::*;\n#[allow(unused_imports)] use crate::nspec::*;\n#[allow(unused_imports)] use crate::stubs::*;\nbroadcast use {{crate::fax::fl, crate::stubs::keys::key_axioms, vstd::std_specs::hash::group_hash_axioms, crate::sspec::serial{}}};", s.path.last().unwrap(), if cx.comm { ", crate::fax::comm" } else { "" }));
        emit_module(cx, o, s);
        o.ln("}");
        CUR.with(|c| *c.borrow_mut() = m.path.clone());
    }
}
/// fields that were renamed: back to the names the contracts use (by type and order), when no
/// other struct has a field of that name that means something else
fn rename_fields(root: &mut Module, con: &Contracts, notes: &mut Notes) {
    fn structs<'a>(m: &'a Module, out: &mut Vec<(String, &'a ItemStruct)>) { for i in &m.items { if let Item::Struct(s) = i { if !cfg_off(&s.attrs) { out.push((qual(&m.path, &s.ident.to_string()), s)); } } } for s in &m.subs { structs(s, out); } }
    let mut map: HashMap<String, BTreeSet<String>> = HashMap::new();
    { let mut v = vec![]; structs(root, &mut v);
      for (p, s) in &v {
        let src: Vec<(String, String)> = s.fields.iter().filter_map(|f| Some((f.ident.as_ref()?.to_string(), f.ty.to_token_stream().to_string().replace(' ', "")))).collect();
        let empty = vec![];
        let can = con.structs.get(p).unwrap_or(&empty);
        let mut gone: Vec<&(String, String)> = if can.is_empty() { vec![] } else { can.iter().filter(|c| !src.iter().any(|f| f.0 == c.0)).collect() };
        for f in &src {
            let to = if can.iter().any(|c| c.0 == f.0) || can.is_empty() { f.0.clone() } else if let Some(k) = gone.iter().position(|c| c.1 == f.1) { gone.remove(k).0.clone() } else { f.0.clone() };
            map.entry(f.0.clone()).or_default().insert(to);
        }
      } }
    let map: HashMap<String, String> = map.into_iter().filter(|(k, v)| v.len() == 1 && !v.contains(k)).map(|(k, v)| (k, v.into_iter().next().unwrap())).collect();
    if map.is_empty() { return; }
    struct V<'a>(&'a HashMap<String, String>);
    impl<'a> V<'a> {
        fn m(&self, m: &mut Member) { if let Member::Named(i) = m { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } } }
        fn toks(&self, t: TokenStream) -> TokenStream { let mut dot = 0; t.into_iter().map(|x| { let prev = dot; dot = 0; match x {
            TokenTree::Punct(p) => { dot = if p.as_char() == '.' { if prev == 0 { 1 } else { 2 } } else { 0 }; TokenTree::Punct(p) }
            TokenTree::Ident(i) if prev == 1 => match self.0.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.toks(g.stream()))),
            x => x } }).collect() }
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_field_mut(&mut self, f: &mut ExprField) { self.m(&mut f.member); visit_mut::visit_expr_field_mut(self, f); }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.m(&mut f.member); visit_mut::visit_field_value_mut(self, f); }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.m(&mut f.member); visit_mut::visit_field_pat_mut(self, f); }
        fn visit_field_mut(&mut self, f: &mut Field) { if let Some(i) = &mut f.ident { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } } }
        fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.toks(m.tokens.clone()); }
    }
    fn go(m: &mut Module, v: &mut V) { for i in m.items.iter_mut() { v.visit_item_mut(i); } for s in m.subs.iter_mut() { go(s, v); } }
    for (a, b) in &map { *notes.entry(format!("field {} read as {}", a, b)).or_default() += 1; }
    go(root, &mut V(&map));
}
fn collect(m: &Module, types: &mut BTreeSet<String>, traits: &mut BTreeSet<String>) {
    for i in &m.items { match i { Item::Struct(s) => { types.insert(s.ident.to_string()); } Item::Enum(s) => { types.insert(s.ident.to_string()); } Item::Trait(t) => { traits.insert(t.ident.to_string()); } _ => {} } }
    for s in &m.subs { collect(s, types, traits); }
}
/// What the serde attributes in the source promise about stored data.
fn serde_facts(root: &Module) -> BTreeMap<String, bool> {
    fn items<'a>(m: &'a Module, path: &str, out: &mut Vec<&'a Item>) { if m.path.join("::") == path { out.extend(m.items.iter()); } for s in &m.subs { items(s, path, out); } }
    let get = |p: &str| { let mut v = vec![]; items(root, p, &mut v); v };
    let serde_attrs = |a: &[Attribute]| -> Vec<String> { a.iter().filter(|a| a.path().is_ident("serde")).map(|a| a.to_token_stream().to_string().replace(' ', "")).collect() };
    let no_attr = |f: &Fields| f.iter().all(|f| serde_attrs(&f.attrs).is_empty());
    let manual = |v: &Vec<&Item>, name: &str| v.iter().any(|i| matches!(i, Item::Impl(x) if x.trait_.as_ref().map(|t| { let n = t.1.segments.last().unwrap().ident.to_string(); n == "Serialize" || n == "Deserialize" }).unwrap_or(false) && x.self_ty.to_token_stream().to_string() == name));
    let plain = |p: &str, name: &str| -> bool {
        let v = get(p);
        if manual(&v, name) { return false; }
        v.iter().any(|i| match i {
            Item::Struct(s) => s.ident == name && attrs_has(&s.attrs, "Serialize") && attrs_has(&s.attrs, "Deserialize") && serde_attrs(&s.attrs).is_empty() && no_attr(&s.fields),
            Item::Enum(e) => e.ident == name && attrs_has(&e.attrs, "Serialize") && attrs_has(&e.attrs, "Deserialize") && serde_attrs(&e.attrs).is_empty() && e.variants.iter().all(|v| serde_attrs(&v.attrs).is_empty() && no_attr(&v.fields)),
            _ => false })
    };
    let sig = |f: &Fields| f.iter().map(|f| f.to_token_stream().to_string()).map(|s| s.trim_start_matches("pub ").to_string()).collect::<Vec<_>>();
    let shape = plain("tensor::helper", "TensorShape") && plain("tensor::helper", "TensorStride");
    let tv = get("tensor");
    let (mut tplain, mut tval) = (false, false);
    for i in &tv { if let Item::Struct(s) = i { if s.ident == "Tensor" && attrs_has(&s.attrs, "Serialize") && attrs_has(&s.attrs, "Deserialize") && no_attr(&s.fields) && !manual(&tv, "Tensor") {
        let at = serde_attrs(&s.attrs);
        if at.is_empty() { tplain = true; }
        else if at.len() == 1 { if let Some(from) = at[0].strip_prefix("#[serde(try_from=\"").and_then(|x| x.strip_suffix("\")]")) {
            let same = tv.iter().any(|j| matches!(j, Item::Struct(u) if u.ident == from && attrs_has(&u.attrs, "Deserialize") && serde_attrs(&u.attrs).is_empty() && no_attr(&u.fields) && sig(&u.fields) == sig(&s.fields)));
            tplain = same; tval = same;
        } }
    } } }
    let mut m = BTreeMap::new();
    m.insert("shape_plain".into(), shape);
    m.insert("tensor_plain".into(), tplain && shape);
    m.insert("tensor_validated".into(), tval && shape);
    m.insert("network_plain".into(), plain("network", "SerializedNetwork") && plain("layer", "SerializedLayer") && plain("layer::convolutional", "ConvolutionalSerialKeys") && plain("layer::fully_connected", "FullyConnectedSerialKeys") && plain("layer::max_pool", "MaxPoolSerialKeys") && plain("layer::softmax", "SoftMaxSerialKeys"));
    m
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, cdir, out, meta) = (&a[1], &a[2], &a[3], &a[4]);
    let mut mode = "full".to_string(); let mut only = None; let mut stub = BTreeSet::new(); let mut alias = BTreeMap::new(); let mut comm = false; let mut skip = BTreeSet::new();
    let mut i = 5;
    let mut alts: BTreeMap<String, usize> = BTreeMap::new();
    let set = |s: &str| -> BTreeSet<String> { let t = if let Some(f) = s.strip_prefix('@') { std::fs::read_to_string(f).unwrap() } else { s.into() }; t.split(|c: char| c == ',' || c == '\n').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect() };
    while i < a.len() { match a[i].as_str() { "--comm" => { comm = true; i -= 1; } "--mode" => { mode = a[i + 1].clone(); } "--only" => only = Some(set(&a[i + 1])), "--stub" => stub = set(&a[i + 1]), "--skip" => skip = set(&a[i + 1]), "--alts" => for p in set(&a[i + 1]) { if let Some((x, y)) = p.split_once('=') { alts.insert(x.to_string(), y.parse().unwrap()); } }, "--alias" => for p in set(&a[i + 1]) { if let Some((x, y)) = p.split_once('=') { alias.insert(x.to_string(), y.to_string()); } }, x => panic!("unknown option {}", x) } i += 2; }
    let mut root = load(&FsPath::new(src).join("lib.rs"), vec![], None);
    let (mut types, mut traits) = (BTreeSet::new(), BTreeSet::new());
    collect(&root, &mut types, &mut traits);
    let con = parse_dir(cdir);
    let mut notes0: Notes = BTreeMap::new();
    rename_fields(&mut root, &con, &mut notes0);
    let mut hs = Helpers { contract_names: con.fns.keys().map(|k| k.rsplit(|c| c == '.' || c == ':').next().unwrap().to_string()).collect(), ..Default::default() };
    let mut sigs = pre::Sigs::new();
    fn all_sigs(m: &Module, out: &mut pre::Sigs) {
        let mut add = |s: &Signature| { let k = pre::ret_kind(&s.output); out.entry(s.ident.to_string()).and_modify(|x| if *x != k { *x = None }).or_insert(k); };
        for i in &m.items { match i { Item::Fn(f) => add(&f.sig), Item::Impl(x) => x.items.iter().for_each(|y| if let ImplItem::Fn(f) = y { add(&f.sig) }), Item::Trait(x) => x.items.iter().for_each(|y| if let TraitItem::Fn(f) = y { add(&f.sig) }), _ => {} } }
        for s in &m.subs { all_sigs(s, out); }
    }
    all_sigs(&root, &mut sigs);
    helpers(&root, &con, &alias, &sigs, &traits, &mut hs);
    let mut cx = Cx { con, comm, helpers: hs, inlined: BTreeSet::new(), sigs, drop: BTreeSet::new(), only, stub, probe: mode == "probe", notes: notes0.clone(), fns: vec![], local_types: types, local_traits: traits, used: BTreeSet::new(), all_fns: BTreeSet::new(), alias, alts };
    // first pass: which helpers are inlined at every call and need not be written out
    { let mut o = Out { text: String::new(), line: 0 };
      emit_module(&mut cx, &mut o, &root);
      // may this callee be that helper?
      let is = |c: &str, h: &str| -> bool {
          let hs: Vec<&str> = h.split(|c| c == '.' || c == ':').filter(|x| !x.is_empty()).collect();
          if let Some(m) = c.strip_prefix('.') { return h.contains('.') && hs.last() == Some(&m); }
          let cs: Vec<&str> = c.split("::").collect();
          if cs.last() != hs.last() { return false; }
          if cs.len() < 2 || ["self", "super", "crate", "Self"].contains(&cs[cs.len() - 2]) { return true; }
          hs.len() < 2 || cs[cs.len() - 2] == hs[hs.len() - 2]
      };
      let mut drop: BTreeSet<String> = cx.inlined.clone();
      loop {
          let called: BTreeSet<String> = cx.fns.iter().filter(|f| !drop.contains(f["path"].as_str().unwrap())).flat_map(|f| f["callees"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect::<Vec<_>>()).collect();
          let keep: Vec<String> = drop.iter().filter(|p| called.iter().any(|c| is(c, p))).cloned().collect();
          if keep.is_empty() { break; }
          for k in keep { drop.remove(&k); }
      }
      cx.drop = drop; cx.fns.clear(); cx.notes = notes0; cx.used.clear(); cx.all_fns.clear(); cx.inlined.clear(); }
    let mut o = Out { text: String::new(), line: 0 };
    o.ln("// generated from the current source on every run; do not edit");
    o.ln("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nverus! {");
    let facts = serde_facts(&root);
    o.ln(&format!("pub mod serde_facts {{ use vstd::prelude::*;\n{}}}", facts.iter().map(|(k, v)| format!("pub open spec fn {}() -> bool {{ {} }}\n", k, v)).collect::<String>()));
    let mut fs: Vec<_> = std::fs::read_dir(cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vrs").unwrap_or(false)).collect();
    fs.sort();
    fs.retain(|f| !skip.contains(&*f.file_name().unwrap().to_string_lossy()));
    let mut pre = vec![];
    for f in fs { let s = o.line + 1; o.ln(&std::fs::read_to_string(&f).unwrap()); pre.push(json!({"file": f.file_name().unwrap().to_string_lossy(), "start": s, "end": o.line})); }
    o.ln("broadcast use {crate::fax::fl, crate::stubs::keys::key_axioms, vstd::std_specs::hash::group_hash_axioms, crate::sspec::serial};");
    emit_module(&mut cx, &mut o, &root);
    o.ln("} // verus!\nfn main() {}");
    std::fs::write(out, &o.text).unwrap();
    let missing: Vec<&String> = cx.con.fns.keys().filter(|k| !cx.used.contains(*k)).collect();
    let sigs: BTreeMap<&String, usize> = cx.con.fns.iter().map(|(k, c)| (k, c.params.len())).collect();
    let m = json!({"functions": cx.fns, "prelude": pre, "missing": missing, "normalisations": cx.notes, "contract_arity": sigs, "lines": o.line, "inlined": cx.inlined, "serde_facts": facts});
    std::fs::write(meta, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    let _ = &cx.local_types;
}
