//! Contract files: line oriented, sections introduced by `//// `.
//!
//!   //// fn <path>(p1, p2, ..) -> r          start of a function contract (canonical names by position)
//!   <requires / ensures text>                 inserted between signature and body
//!   //// proof                                proof text at the start of the body
//!   //// exit                                 proof text before the final statement of the body
//!   //// every                               proof text before the end and every return that is not an Err
//!   //// loop <path> [var]                    loop at this place in the loop tree; its variable is named var
//!   <invariant text>
//!   //// begin|end|before|after <path>        proof text at that place of the loop
//!   //// entry <path>                        ghost declarations in front of the loop
//!   //// ghost <path>                        ghost declarations at the start of the loop body
//!   //// local <name> float|int <path>        the local assigned inside loop <path> is called <name>
//!   //// alt                                 the same contract for another way of writing the loops
//!   //// permute <path> <path> ..             alternatives with these nested loops in every other order; invariants use `before`
//!   //// attr                                 verus attributes for the function
//!   //// struct <path> a: T; b: U            the field names the contracts use
//!   //// trait <path> / //// impl <path>      extra text inside a trait or an impl
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct LoopC { pub var: Option<String>, pub inv: String, pub begin: String, pub end: String, pub before: String, pub after: String, pub ghost: String, pub entry: String }
#[derive(Debug, Clone, Default)]
pub struct Contract {
    pub path: String, pub params: Vec<String>, pub ret: Option<String>,
    pub spec: String, pub proof: String, pub exit: String, pub every: String, pub attr: String,
    pub loops: BTreeMap<Vec<usize>, LoopC>,
    pub locals: Vec<(String, String, Vec<usize>)>,
    pub file: String, pub line: usize,
    pub alts: Vec<Contract>,
    pub permute: Vec<Vec<usize>>,
}
#[derive(Debug, Default)]
pub struct Contracts { pub fns: BTreeMap<String, Contract>, pub inner: BTreeMap<String, String>, pub structs: BTreeMap<String, Vec<(String, String)>> }

/// the contract or alternative being read
fn tgt(c: &mut Option<Contract>) -> &mut Contract { let c = c.as_mut().unwrap(); if c.alts.is_empty() { c } else { c.alts.last_mut().unwrap() } }
fn lp(s: &str) -> Vec<usize> { s.split('.').map(|x| x.parse().expect("loop path")).collect() }

pub fn parse_dir(dir: &str) -> Contracts {
    let mut out = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).expect("contracts dir").map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut cur: Option<Contract> = None;
        let mut sec: (String, Vec<usize>, String) = ("none".into(), vec![], String::new());
        for (ln, line) in text.lines().enumerate() {
            if let Some(rest) = line.strip_prefix("//// ") {
                let rest = rest.trim();
                let (kw, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                let arg = arg.trim();
                match kw {
                    "fn" => {
                        if let Some(c) = cur.take() { out.fns.insert(c.path.clone(), c); }
                        let (path, r) = arg.split_once('(').expect("fn contract: (");
                        let (ps, tail) = r.split_once(')').expect("fn contract: )");
                        let ret = tail.trim().strip_prefix("->").map(|x| x.trim().to_string());
                        cur = Some(Contract { path: path.trim().into(), params: ps.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(), ret, file: f.file_name().unwrap().to_string_lossy().into(), line: ln + 1, ..Default::default() });
                        sec = ("spec".into(), vec![], String::new());
                    }
                    "permute" => { cur.as_mut().unwrap().permute = arg.split_whitespace().map(lp).collect(); sec = ("none".into(), vec![], String::new()); }
                    "alt" => {
                        let c = cur.as_mut().unwrap();
                        let a = Contract { path: c.path.clone(), params: c.params.clone(), ret: c.ret.clone(), spec: c.spec.clone(), attr: c.attr.clone(), file: c.file.clone(), line: ln + 1, ..Default::default() };
                        c.alts.push(a);
                        sec = ("none".into(), vec![], String::new());
                    }
                    "proof" | "exit" | "every" | "attr" => sec = (kw.into(), vec![], String::new()),
                    "loop" => {
                        let mut it = arg.split_whitespace();
                        let p = lp(it.next().unwrap());
                        let v = it.next().map(|x| x.to_string());
                        tgt(&mut cur).loops.entry(p.clone()).or_default().var = v;
                        sec = ("loop".into(), p, String::new());
                    }
                    "begin" | "end" | "before" | "after" | "ghost" | "entry" => { let p = lp(arg); tgt(&mut cur).loops.entry(p.clone()).or_default(); sec = (kw.into(), p, String::new()); }
                    "local" => {
                        let v: Vec<&str> = arg.split_whitespace().collect();
                        tgt(&mut cur).locals.push((v[0].into(), v[1].into(), lp(v[2])));
                        sec = ("none".into(), vec![], String::new());
                    }
                    "trait" | "impl" => {
                        if let Some(c) = cur.take() { out.fns.insert(c.path.clone(), c); }
                        sec = ("inner".into(), vec![], arg.to_string());
                    }
                    "struct" => {
                        if let Some(c) = cur.take() { out.fns.insert(c.path.clone(), c); }
                        let (p, fs) = arg.split_once(' ').unwrap();
                        out.structs.insert(p.into(), fs.split(';').map(|x| { let (a, b) = x.trim().split_once(':').expect("field: type"); (a.trim().to_string(), b.replace(' ', "")) }).collect());
                        sec = ("none".into(), vec![], String::new());
                    }
                    "note" => sec = ("none".into(), vec![], String::new()),
                    _ => panic!("{}:{}: unknown section {}", f.display(), ln + 1, kw),
                }
                continue;
            }
            let push = |s: &mut String| { s.push_str(line); s.push('\n'); };
            match sec.0.as_str() {
                "none" => {}
                "inner" => push(out.inner.entry(sec.2.clone()).or_default()),
                k => {
                    let c = tgt(&mut cur);
                    match k {
                        "spec" => push(&mut c.spec), "proof" => push(&mut c.proof), "exit" => push(&mut c.exit), "every" => push(&mut c.every), "attr" => push(&mut c.attr),
                        "loop" => push(&mut c.loops.get_mut(&sec.1).unwrap().inv),
                        "begin" => push(&mut c.loops.get_mut(&sec.1).unwrap().begin),
                        "end" => push(&mut c.loops.get_mut(&sec.1).unwrap().end),
                        "before" => push(&mut c.loops.get_mut(&sec.1).unwrap().before),
                        "ghost" => push(&mut c.loops.get_mut(&sec.1).unwrap().ghost),
                        "entry" => push(&mut c.loops.get_mut(&sec.1).unwrap().entry),
                        "after" => push(&mut c.loops.get_mut(&sec.1).unwrap().after),
                        _ => unreachable!(),
                    }
                }
            }
        }
        if let Some(c) = cur.take() { out.fns.insert(c.path.clone(), c); }
    }
    for c in out.fns.values_mut() { if !c.permute.is_empty() { let a = permuted(c); c.alts.extend(a); } }
    out
}
/// `before(a, b, c, i, j, k)`: item (a, b, c) comes before (i, j, k), the last number counts most
fn permuted(c: &Contract) -> Vec<Contract> {
    let ps = &c.permute;
    let text = &c.loops[ps.last().unwrap()].inv;
    let args = |t: &str| -> Option<(usize, usize, Vec<String>)> { let a = t.find("before(")?; let b = a + t[a..].find(')')?; Some((a, b + 1, t[a + 7..b].split(',').map(|x| x.trim().to_string()).collect())) };
    let (_, _, v) = args(text).expect("permute: no before(..)");
    let vars: Vec<String> = ps.iter().map(|p| c.loops[p].var.clone().expect("permute: loop variable")).collect();
    // the position among the six arguments that each loop variable has
    let pos: Vec<usize> = vars.iter().map(|x| v[3..].iter().position(|y| y == &format!("{} as int", x)).expect("permute: variable")).collect();
    let n = ps.len();
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n { orders = orders.into_iter().flat_map(|o| (0..n).filter(|x| !o.contains(x)).map(|x| { let mut q = o.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
    let mut out = vec![];
    for o in orders {
        if o.iter().enumerate().all(|(a, b)| a == *b) { continue; }
        let mut d = Contract { alts: vec![], permute: vec![], ..c.clone() };
        for (level, p) in ps.iter().enumerate() {
            let mut inv = String::new();
            let mut rest = text.as_str();
            while let Some((a, b, v)) = args(rest) {
                inv.push_str(&rest[..a]);
                let item: Vec<String> = o.iter().map(|x| v[pos[*x]].clone()).collect();
                let now: Vec<String> = o.iter().enumerate().map(|(l, x)| if l <= level { v[3 + pos[*x]].clone() } else { "0".into() }).collect();
                let pad = |mut z: Vec<String>| { while z.len() < 3 { z.push("0".into()); } z.join(", ") };
                inv.push_str(&format!("lexi({}, {})", pad(item), pad(now)));
                rest = &rest[b..];
            }
            inv.push_str(rest);
            let l = d.loops.get_mut(p).unwrap();
            l.inv = inv; l.var = Some(vars[o[level]].clone());
        }
        // what a loop's body starts with may speak of any of the variables: say it where all of them are known
        let last = ps.last().unwrap();
        let mut b = String::new();
        for p in ps { let l = d.loops.get_mut(p).unwrap(); b.push_str(&std::mem::take(&mut l.begin)); }
        d.loops.get_mut(last).unwrap().begin = b;
        out.push(d);
    }
    out
}
