//! C21 - C24, C26, C27: networks against a reference model built from twin layers, and files.
use crate::layers::*;
use crate::util::*;
use crate::{ck, Cx};
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::{Cell, RefCell};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Mutex;

static DIR: Mutex<Option<PathBuf>> = Mutex::new(None);
/// a file in the scratch directory of this process
fn file(name: &str) -> String {
    let mut d = DIR.lock().unwrap();
    if d.is_none() { let p = std::env::temp_dir().join(format!("rn_harness_{}", std::process::id())); std::fs::create_dir_all(&p).unwrap(); *d = Some(p); }
    d.as_ref().unwrap().join(name).to_str().unwrap().to_string()
}
pub fn cleanup() { if let Ok(mut d) = DIR.lock() { if let Some(p) = d.take() { let _ = std::fs::remove_dir_all(&p); } } }

// ------------------------------------------------------------------ a layer that records its calls
enum Ev { Fwd { id: usize, x: R }, Bwd { id: usize, x: R, y: R, g: R } }
struct Spy { id: usize, a: Rc<RefCell<Any>>, log: Rc<RefCell<Vec<Ev>>>, fail: Rc<Cell<usize>> }
impl Layer for Spy {
    fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> { self.log.borrow_mut().push(Ev::Fwd { id: self.id, x: read(x) }); self.a.borrow_mut().l().forward(x, y) }
    fn backward(&mut self, x: &Tensor, y: &Tensor, g: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
        self.log.borrow_mut().push(Ev::Bwd { id: self.id, x: read(x), y: read(y), g: read(g) });
        if self.fail.get() == self.id { return Err("refused by the layer"); }
        self.a.borrow_mut().l().backward(x, y, g, o)
    }
    fn clear_gradients(&mut self) { self.a.borrow_mut().l().clear_gradients() }
    fn switch_to_training(&mut self) { self.a.borrow_mut().l().switch_to_training() }
    fn switch_to_inference(&mut self) { self.a.borrow_mut().l().switch_to_inference() }
    fn get_run_mode(&self) -> NetworkRunState { self.a.borrow().r().get_run_mode() }
    fn get_input_shape(&self) -> TensorShape { self.a.borrow().r().get_input_shape() }
    fn get_output_shape(&self) -> TensorShape { self.a.borrow().r().get_output_shape() }
    fn get_name(&self) -> String { self.a.borrow().r().get_name() }
    fn get_serialized(&self) -> SerializedLayer { self.a.borrow().r().get_serialized() }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> { self.a.borrow_mut().l().load_from_serialized(s) }
}

// ------------------------------------------------------------------ chains of configurations
fn divisors(n: u32, r: &mut Rng) -> u32 { if n == 0 { return r.range(1, 3); } let c: Vec<u32> = (1..=n.min(6)).filter(|x| n % x == 0).collect(); *r.pick(&c) }
/// a layer configuration that takes the given shape
fn next_cfg(r: &mut Rng, l: &Lits, d: D, kind: usize, special: bool) -> Option<Cfg> {
    let v = |r: &mut Rng, d: D, m: i32| if special { specials(r, l, d) } else { ints(r, d, m) };
    match kind {
        0 => { if d[1] != 1 { return None; } let o = dim1(r, l, 16); if o as u64 * n3(d) > 6000 { return None; } Some(Cfg::Fc { w: v(r, [o, d[0], d[2]], 2), b: v(r, [o, 1, d[2]], 4) }) }
        1 | 2 => {
            if d[0] == 0 || d[1] == 0 { return None; }
            let w = [r.range(1, d[0].min(4)), if d[1] > 1 && r.chance(3) { d[1].min(6) } else { r.range(1, d[1].min(4)) }, d[2]];
            let (p, q) = (d[0] - w[0], d[1] - w[1]);
            let g = { let (mut a, mut b) = (p, q); while b != 0 { let t = a % b; a = b; b = t; } a };
            let st = divisors(g, r);
            if kind == 2 { return Some(Cfg::Pool { im: d, w: [w[0], w[1], r.range(0, 3)], st }); }
            let n = r.range(1, 3);
            Some(Cfg::Conv { k: (0..n).map(|_| v(r, w, 2)).collect(), b: (0..n).map(|_| v(r, [1, 1, 1], 4)).collect(), im: d, st })
        }
        _ => Some(Cfg::Soft { d }),
    }
}
fn first_cfg(r: &mut Rng, l: &Lits, special: bool) -> Cfg {
    loop {
        let k = r.below(4) as usize;
        if k == 1 || k == 2 || r.chance(3) { let d = [r.range(1, 7), r.range(1, 7), r.range(1, 2)]; if let Some(c) = next_cfg(r, l, d, k, special) { return c; } }
        let c = gen_cfg(r, l, k, special);
        if n3(c.ish()) < 600 && n3(c.osh()) < 600 { return c; }
    }
}
fn chain(r: &mut Rng, l: &Lits, n: usize, special: bool) -> Vec<Cfg> {
    let mut v = vec![first_cfg(r, l, special)];
    while v.len() < n { let k = r.below(4) as usize; if k == 3 && !r.chance(3) { continue; } if let Some(c) = next_cfg(r, l, v.last().unwrap().osh(), k, special) { if n3(c.osh()) < 600 { v.push(c); } } }
    v
}
fn filled(c: &Cfg, n: &String) -> Result<Any, String> { let mut a = Any::empty(c.kind()); a.fill(c, n)?; Ok(a) }

// ------------------------------------------------------------------ histories
struct Slot { c: Cfg, name: String, twin: Any, inner: Option<Rc<RefCell<Any>>> }
struct Model { mode: NetworkRunState, v: Vec<Slot>, st: Vec<R>, gr: Option<Vec<R>>, inferred: bool, flog: Rc<RefCell<Vec<Ev>>>, fail: Rc<Cell<usize>>, ids: usize }
fn same(a: &R, b: &R) -> bool { a.d == b.d && a.v.iter().zip(&b.v).all(|(x, y)| eqb(*x, *y)) }
fn states(net: &Network) -> Vec<R> { let mut v = vec![]; while let Ok(t) = net.get_intermediate_state(v.len()) { v.push(read(t)); if v.len() > 1000 { break; } } v }
#[cfg(verif_hooks)]
fn grads(net: &Network) -> Option<Vec<R>> { Some(net.verif_buffers().iter().map(read).collect()) }
#[cfg(not(verif_hooks))]
fn grads(_: &Network) -> Option<Vec<R>> { None }
impl Model {
    fn bounds(&self) -> Vec<D> { let mut b = vec![]; if let Some(f) = self.v.first() { b.push(f.c.ish()); } for s in &self.v { b.push(s.c.osh()); } b }
    /// what every operation has to keep (p: the property being checked)
    fn check(&self, p: u8, w: &str, net: &Network, deep: bool) -> Res {
        let b = self.bounds();
        let ls = net.get_layers();
        if p == 21 || p == 24 {
            ck!(ls.len() == self.v.len(), "{}: {} layers, expected {}", w, ls.len(), self.v.len());
            for (n, (x, s)) in ls.iter().zip(&self.v).enumerate() {
                ck!(x.get_name() == s.name, "{}: layer {} is named {:?}, expected {:?}", w, n, x.get_name(), s.name);
                ck!(dd(x.get_input_shape()) == s.c.ish() && dd(x.get_output_shape()) == s.c.osh(), "{}: layer {} has shapes {:?} {:?}, expected {:?} {:?}", w, n, x.get_input_shape(), x.get_output_shape(), s.c.ish(), s.c.osh());
                ck!(x.get_run_mode() == self.mode, "{}: layer {} is in {:?}, expected {:?}", w, n, x.get_run_mode(), self.mode);
                if deep { s.c.check_serial(&s.name, &x.get_serialized()).map_err(|e| format!("{}: layer {}: {}", w, n, e))?; }
            }
            if let (Some(f), Some(t)) = (b.first(), b.last()) {
                ck!(dd(net.get_input_shape()) == *f, "{}: input shape is {:?}, expected {:?}", w, net.get_input_shape(), f);
                ck!(dd(net.get_output_shape()) == *t, "{}: output shape is {:?}, expected {:?}", w, net.get_output_shape(), t);
            }
        }
        if p == 24 || p == 21 { ck!(net.get_run_state() == self.mode, "{}: the network is in {:?}, expected {:?}", w, net.get_run_state(), self.mode); }
        let st = states(net);
        ck!(st.len() == b.len(), "{}: {} intermediate states, expected {}", w, st.len(), b.len());
        for (n, (x, d)) in st.iter().zip(&b).enumerate() { ck!(x.d == *d, "{}: state {} has shape {:?}, expected {:?}", w, n, x.d, d); }
        for (n, (x, y)) in st.iter().zip(&self.st).enumerate() { ck!(same(x, y), "{}: state {} is {:?}, expected {:?}", w, n, x, y); }
        match net.get_output() { Ok(o) => { ck!(!b.is_empty(), "{}: an empty network has an output", w); exact(&format!("{}: output", w), o, self.st.last().unwrap())?; } Err(e) => ck!(b.is_empty(), "{}: reading the output reports {:?}", w, e) }
        for n in [b.len(), b.len() + 1, usize::MAX] { ck!(net.get_intermediate_state(n).is_err(), "{}: state {} of {} exists", w, n, b.len()); }
        if let Some(g) = grads(net) {
            if self.mode == NetworkRunState::Inference { ck!(g.is_empty(), "{}: {} boundary gradients in inference", w, g.len()); }
            else {
                ck!(g.len() == b.len(), "{}: {} boundary gradients, expected {}", w, g.len(), b.len());
                for (n, (x, d)) in g.iter().zip(&b).enumerate() { ck!(x.d == *d, "{}: boundary gradient {} has shape {:?}, expected {:?}", w, n, x.d, d); }
                if let Some(e) = &self.gr { for (n, (x, y)) in g.iter().zip(e).enumerate() { ck!(x.d == y.d && x.v.iter().zip(&y.v).all(|(s, t)| eqf(*s, *t)), "{}: boundary gradient {} is {:?}, expected {:?}", w, n, x, y); } }
            }
        }
        Ok(())
    }
    fn add(&mut self, r: &mut Rng, net: &mut Network, c: &Cfg, nm: &String, pre: NetworkRunState) -> Result<(), &'static str> {
        let mut a = filled(c, nm).map_err(|_| "the layer could not be filled")?;
        switch(a.l(), pre);
        let mut twin = filled(c, nm).map_err(|_| "the layer could not be filled")?;
        switch(twin.l(), self.mode);
        let mut inner = None;
        let res = if r.chance(2) {
            let rc = Rc::new(RefCell::new(a));
            inner = Some(rc.clone());
            net.add_layer(Spy { id: self.ids, a: rc, log: self.flog.clone(), fail: self.fail.clone() })
        } else { match a { Any::Fc(x) => net.add_layer(x), Any::Conv(x) => net.add_layer(x), Any::Pool(x) => net.add_layer(x), Any::Soft(x) => net.add_layer(x) } };
        if res.is_ok() { self.v.push(Slot { c: c.clone(), name: nm.clone(), twin, inner }); }
        self.ids += 1;
        res
    }
    fn ids(&self) -> Vec<usize> { self.v.iter().enumerate().filter(|(_, s)| s.inner.is_some()).map(|(n, _)| n).collect() }
}
/// one random history; every operation is checked as far as property `p` speaks about it
fn history(p: u8, r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let mode0 = mode(r);
    let mut net = Network::new(mode0);
    let mut m = Model { mode: mode0, v: vec![], st: vec![], gr: None, inferred: false, flog: Rc::new(RefCell::new(vec![])), fail: Rc::new(Cell::new(usize::MAX)), ids: 0 };
    *s = format!("network in {:?}:", mode0);
    m.check(p, "new network", &net, false)?;
    let target = match r.below(12) { 0 => 0, 1 => r.range(6, 10), _ => r.range(1, 4) } as usize;
    let mut interesting = false;
    let mut id_of: Vec<usize> = vec![]; // spy id of each layer
    for step in 0..(target + r.range(3, 12) as usize) {
        let w = format!("step {}", step);
        let grow = m.v.len() < target && (step < target || r.chance(2));
        let op = if grow && !r.chance(5) { 0 } else { match p { 21 => *r.pick(&[0, 0, 1, 1, 1, 2, 3, 3, 5]), 24 => *r.pick(&[0, 1, 2, 2, 2, 3, 3, 5, 2]), 22 => *r.pick(&[2, 3, 3, 3, 3, 4, 4, 5, 0]), _ => *r.pick(&[2, 3, 3, 5, 5, 5, 5, 6, 7, 4, 0, 3]) } };
        match op {
            0 | 1 => {
                let c = if m.v.is_empty() { first_cfg(r, l, false) } else if op == 1 || r.chance(8) {
                    // a layer with some input shape, often nearly the right one
                    let d = m.v.last().unwrap().c.osh();
                    let e = if r.chance(2) { [d[1], d[0], d[2]] } else { let mut e = d; let q = r.below(3) as usize; e[q] = if r.chance(2) { e[q] + 1 } else { e[q].saturating_sub(1) }; e };
                    let e = if r.chance(6) { [n3(d) as u32, 1, 1] } else { e };
                    let k = r.below(4) as usize;
                    match next_cfg(r, l, e, k, false) { Some(c) => c, None => Cfg::Soft { d: e } }
                } else { let d = m.v.last().unwrap().c.osh(); let k = r.below(4) as usize; match next_cfg(r, l, d, k, false) { Some(c) => c, None => Cfg::Soft { d } } };
                if n3(c.osh()) > 2000 || n3(c.ish()) > 2000 { continue; }
                let nm = if r.chance(2) { format!("layer {}", m.v.len()) } else { name(r) };
                let pre = mode(r);
                s.push_str(&format!(" add {:?} named {:?} (was in {:?});", c, nm, pre));
                let want = m.v.is_empty() || m.v.last().unwrap().c.osh() == c.ish();
                let before = (net.get_layers().len(), states(&net), grads(&net), net.get_input_shape(), net.get_output_shape());
                let id = m.ids;
                let res = m.add(r, &mut net, &c, &nm, pre);
                ck!(res.is_ok() == want, "{}: adding the layer reports {:?}", w, res);
                if want { id_of.push(id); m.st = states(&net); m.gr = grads(&net); m.inferred = false; interesting = true; }
                else {
                    ck!(net.get_layers().len() == before.0, "{}: a rejected layer changes the number of layers", w);
                    ck!(dd(net.get_input_shape()) == dd(before.3) && dd(net.get_output_shape()) == dd(before.4), "{}: a rejected layer changes the shapes to {:?} {:?}", w, net.get_input_shape(), net.get_output_shape());
                    ck!(states(&net).len() == before.1.len() && grads(&net).map(|g| g.len()) == before.2.as_ref().map(|g| g.len()), "{}: a rejected layer changes the number of states or gradients", w);
                }
                if want && p == 21 && m.mode == NetworkRunState::Training { if let Some(i) = &m.v.last().unwrap().inner { zeroed(&w, &i.borrow(), &c)?; } }
            }
            2 => {
                let t = mode(r);
                s.push_str(if t == NetworkRunState::Training { " training;" } else { " inference;" });
                match t { NetworkRunState::Training => net.switch_to_training(), NetworkRunState::Inference => net.switch_to_inference() }
                m.mode = t;
                m.gr = if t == NetworkRunState::Training { Some(m.bounds().iter().map(|d| R::zero(*d)).collect()) } else { Some(vec![]) };
                for q in m.v.iter_mut() { switch(q.twin.l(), t); }
                if p == 24 && t == NetworkRunState::Training { for q in &m.v { if let Some(i) = &q.inner { zeroed(&w, &i.borrow(), &q.c)?; } } }
                m.inferred = false;
                interesting = true;
            }
            3 => {
                let d = m.bounds().first().cloned().unwrap_or([0, 0, 0]);
                let x = match r.below(3) { 0 => reals(r, d, 3.0), 1 if !m.v.is_empty() => gen_input(r, l, &m.v[0].c), _ => ints(r, d, 4) };
                s.push_str(&format!(" infer {:?};", x));
                m.flog.borrow_mut().clear();
                let t = x.t();
                let e = net.infer(&t);
                exact(&format!("{}: input", w), &t, &x)?;
                if m.v.is_empty() { ck!(e.is_err(), "{}: a network without layers infers", w); continue; }
                ck!(e.is_ok(), "{}: inference reports {:?}", w, e);
                m.st = vec![x];
                for n in 0..m.v.len() {
                    let q = &mut m.v[n];
                    let mut o = R::zero(q.c.osh()).t();
                    q.twin.l().forward(&m.st[n].t(), &mut o)?;
                    m.st.push(read(&o));
                }
                if p == 22 || p == 23 {
                    for ev in m.flog.borrow().iter() { match ev { Ev::Fwd { id, x } => { let n = id_of.iter().position(|q| q == id).unwrap(); ck!(same(x, &m.st[n]), "{}: layer {} is given {:?}, expected {:?}", w, n, x, m.st[n]); } _ => return Err(format!("{}: inference runs a backward pass", w)) } }
                }
                m.inferred = true;
                interesting = true;
            }
            4 => {
                let d = m.bounds().first().cloned().unwrap_or([0, 0, 0]);
                let mut e = d;
                match r.below(4) { 0 => e = [d[1], d[0], d[2]], 1 => e = [n3(d) as u32, 1, 1], _ => { let q = r.below(3) as usize; e[q] = if r.chance(2) { e[q] + 1 } else { e[q].saturating_sub(1) }; } }
                if e == d && !m.v.is_empty() { continue; }
                s.push_str(&format!(" infer with shape {:?};", e));
                m.flog.borrow_mut().clear();
                let res = net.infer(&ints(r, e, 4).t());
                ck!(res.is_err(), "{}: inference with input shape {:?} succeeds, the network takes {:?}", w, e, d);
                ck!(m.flog.borrow().is_empty(), "{}: layers run although the input is rejected", w);
            }
            5 | 6 => {
                let d = m.bounds().last().cloned().unwrap_or([0, 0, 0]);
                let g = ints(r, d, 3);
                let fail_at = if op == 6 && !m.v.is_empty() { r.below(m.v.len() as u64) as usize } else { usize::MAX };
                if m.mode == NetworkRunState::Training && !m.v.is_empty() && !m.inferred { continue; } // only right after inference
                s.push_str(&format!(" backward {:?}", g));
                m.flog.borrow_mut().clear();
                m.fail.set(if fail_at < usize::MAX { id_of[fail_at] } else { usize::MAX });
                if fail_at < usize::MAX { s.push_str(&format!(" (layer {} refuses)", fail_at)); }
                s.push(';');
                let t = g.t();
                let res = net.backward(&t);
                exact(&format!("{}: loss gradient", w), &t, &g)?;
                m.fail.set(usize::MAX);
                if m.mode == NetworkRunState::Inference || m.v.is_empty() {
                    ck!(res.is_err(), "{}: backward succeeds in {:?} with {} layers", w, m.mode, m.v.len());
                    ck!(m.flog.borrow().is_empty(), "{}: layers run although the backward pass is refused", w);
                } else {
                    // the same pass on the twins
                    let nl = m.v.len();
                    let mut e: Vec<R> = m.bounds().iter().map(|d| R::zero(*d)).collect();
                    e[nl] = g;
                    let mut ok = true;
                    let mut ran = vec![];
                    for n in (0..nl).rev() {
                        ran.push(n);
                        if m.v[n].inner.is_some() && n == fail_at { ok = false; break; }
                        let mut o = R::zero(e[n].d).t();
                        let q = &mut m.v[n];
                        if q.twin.l().backward(&m.st[n].t(), &m.st[n + 1].t(), &e[n + 1].t(), &mut o).is_err() { ok = false; break; }
                        e[n] = read(&o);
                    }
                    ck!(res.is_ok() == ok, "{}: backward reports {:?}", w, res);
                    let log = m.flog.borrow();
                    let mut seen = vec![];
                    for ev in log.iter() { match ev {
                        Ev::Bwd { id, x, y, g } => {
                            let n = id_of.iter().position(|q| q == id).unwrap();
                            seen.push(n);
                            ck!(same(x, &m.st[n]) && same(y, &m.st[n + 1]), "{}: the backward pass of layer {} gets states {:?} and {:?}, expected {:?} and {:?}", w, n, x, y, m.st[n], m.st[n + 1]);
                            ck!(x.d == m.st[n].d && g.d == e[n + 1].d && g.v.iter().zip(&e[n + 1].v).all(|(a, b)| eqf(*a, *b)), "{}: the backward pass of layer {} gets gradient {:?}, expected {:?}", w, n, g, e[n + 1]);
                        }
                        Ev::Fwd { .. } => return Err(format!("{}: the backward pass runs a forward pass", w)),
                    } }
                    let spied = m.ids();
                    let want: Vec<usize> = ran.iter().cloned().filter(|n| spied.contains(n)).collect();
                    ck!(seen == want, "{}: backward passes of layers {:?}, expected {:?}", w, seen, want);
                    drop(log);
                    m.gr = if ok { Some(e) } else { None };
                    m.inferred = false;
                    if p == 23 { for (n, q) in m.v.iter().enumerate() { if let Some(i) = &q.inner { same_gradients(&format!("{}: layer {}", w, n), &i.borrow(), &q.twin)?; } } }
                    interesting = true;
                }
            }
            _ => {
                let d = m.bounds().last().cloned().unwrap_or([0, 0, 0]);
                let mut e = d;
                match r.below(4) { 0 => e = [d[1], d[0], d[2]], 1 => e = m.bounds().first().cloned().unwrap_or(d), _ => { let q = r.below(3) as usize; e[q] = if r.chance(2) { e[q] + 1 } else { e[q].saturating_sub(1) }; } }
                if e == d { continue; }
                s.push_str(&format!(" backward with shape {:?};", e));
                m.flog.borrow_mut().clear();
                let res = net.backward(&ints(r, e, 4).t());
                ck!(res.is_err(), "{}: backward with gradient shape {:?} succeeds, the output shape is {:?}", w, e, d);
                ck!(m.flog.borrow().is_empty(), "{}: layers run although the gradient is rejected", w);
            }
        }
        m.check(p, &w, &net, op == 2 || step % 4 == 0)?;
    }
    m.check(p, "at the end", &net, true)?;
    Ok(interesting)
}
#[cfg(verif_hooks)]
fn buffers(a: &Any) -> Vec<R> { match a { Any::Fc(x) => { let (p, q, _) = x.verif_buffers(); vec![read(p), read(q)] } Any::Conv(x) => { let (p, q, _) = x.verif_buffers(); p.iter().chain(q.iter()).map(read).collect() } _ => vec![] } }
#[cfg(not(verif_hooks))]
fn buffers(_: &Any) -> Vec<R> { vec![] }
fn zeroed(w: &str, a: &Any, c: &Cfg) -> Res {
    #[cfg(verif_hooks)]
    {
        let want: Vec<D> = match c { Cfg::Fc { w, b } => vec![w.d, b.d], Cfg::Conv { k, b, .. } => k.iter().chain(b.iter()).map(|x| x.d).collect(), _ => vec![] };
        let got = buffers(a);
        ck!(got.len() == want.len() && got.iter().zip(&want).all(|(x, d)| x.d == *d && x.v.iter().all(|v| *v == 0.0)), "{}: gradient buffers {:?} of layer {:?} are not zeroed", w, got, c);
    }
    let _ = (w, a, c);
    Ok(())
}
fn same_gradients(w: &str, a: &Any, b: &Any) -> Res {
    let (x, y) = (buffers(a), buffers(b));
    ck!(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.d == q.d && p.v.iter().zip(&q.v).all(|(s, t)| eqf(*s, *t))), "{}: parameter gradients {:?}, expected {:?}", w, x, y);
    Ok(())
}
fn nethist(cx: &mut Cx, p: u8) {
    long(cx, p);
    for q in 0..300u64 { cx.case(|s| history(p, &mut Rng::new(q * 31 + p as u64), &Lits::default(), s)); }
    cx.random(1.0, |r, l, s| history(p, r, l, s));
}
/// more passes, refusals, switches and layers than 8 and 16 bit counters hold
fn long(cx: &mut Cx, p: u8) {
    let one = |w: f32, b: f32| Cfg::Fc { w: R { d: [1, 1, 1], v: vec![w] }, b: R { d: [1, 1, 1], v: vec![b] } };
    let add = |net: &mut Network, c: &Cfg, n: &str| -> Result<(), String> { let a = filled(c, &n.to_string())?; match a { Any::Fc(x) => net.add_layer(x), Any::Pool(x) => net.add_layer(x), Any::Conv(x) => net.add_layer(x), Any::Soft(x) => net.add_layer(x) }.map_err(|e| e.to_string()) };
    for q in 0..2u64 { cx.case(|s| {
        let mut r = Rng::new(q + 5);
        let mut net = Network::new(NetworkRunState::Training);
        add(&mut net, &one(2.0, 1.0), "a")?; add(&mut net, &Cfg::Pool { im: [1, 1, 1], w: [1, 1, 1], st: 1 }, "b")?;
        let mut md = NetworkRunState::Training;
        let mut bg = 0.0f32; // bias gradient of the first layer is private to the network; its effect is seen at the boundary
        for step in 0..if q == 0 { 70_000 } else { 5_000 } {
            *s = format!("network of a 1x1 fully connected and a pooling layer, {} passes{}", step + 1, if q == 0 { "" } else { " with switches and refusals in between" });
            if q == 1 || p == 24 && step % 3 == 0 { match r.below(4) {
                0 | 1 => { let t = mode(&mut r); set(&mut net, t); md = t; }
                2 => { ck!(net.infer(&R::zero([2, 1, 1]).t()).is_err() && net.backward(&R::zero([2, 1, 1]).t()).is_err(), "a pass with another shape succeeds"); }
                _ => { ck!(add(&mut net, &Cfg::Soft { d: [2, 1, 1] }, "c").is_err(), "a layer that does not fit is accepted"); ck!(net.get_layers().len() == 2, "{} layers", net.get_layers().len()); }
            } }
            ck!(net.get_run_state() == md && net.get_layers().iter().all(|l| l.get_run_mode() == md), "modes {:?} {:?}, expected {:?}", net.get_run_state(), net.get_layers().iter().map(|l| l.get_run_mode()).collect::<Vec<_>>(), md);
            let x = r.below(9) as f32 - 3.0;
            let t = R { d: [1, 1, 1], v: vec![x] }.t();
            let e = net.infer(&t); ck!(e.is_ok(), "inference reports {:?}", e);
            let y = (2.0 * x + 1.0).max(0.0);
            let st = states(&net);
            ck!(st.len() == 3 && st[0].v == [x] && st[1].v == [y] && st[2].v == [y], "states {:?} for input {}", st, x);
            ck!(net.get_output().map(|o| read(o).v == [y]).unwrap_or(false), "output {:?} for input {}", net.get_output(), x);
            let g = r.below(9) as f32 - 4.0;
            let e = net.backward(&R { d: [1, 1, 1], v: vec![g] }.t());
            ck!(e.is_ok() == (md == NetworkRunState::Training), "the backward pass in {:?} reports {:?}", md, e);
            if let (true, Some(b)) = (e.is_ok(), grads(&net)) { let w = if y > 0.0 { g } else { 0.0 }; bg += w; ck!(b.len() == 3 && b[2].v == [g] && b[1].v == [g] && b[0].v == [2.0 * w], "gradients {:?} for incoming gradient {} and output {}", b, g, y); }
        }
        Ok(bg != 0.5)
    }); }
    if p == 21 || p == 24 { cx.case(|s| {
        let mut net = Network::new(NetworkRunState::Training);
        for n in 0..3000usize {
            *s = format!("{} fully connected layers of the same name, refusals in between", n + 1);
            ck!(add(&mut net, &one(1.0, 0.0), "same").is_ok(), "a matching layer is refused");
            if n % 3 == 0 { ck!(add(&mut net, &Cfg::Soft { d: [1, 2, 1] }, "same").is_err(), "a layer that does not fit is accepted"); }
            ck!(net.get_layers().len() == n + 1, "{} layers", net.get_layers().len());
            if n % 500 == 499 { for t in [NetworkRunState::Inference, NetworkRunState::Training] { set(&mut net, t); ck!(net.get_layers().iter().all(|l| l.get_run_mode() == t), "a layer is not switched"); let e = net.infer(&R { d: [1, 1, 1], v: vec![n as f32] }.t()); ck!(e.is_ok() && net.get_output().map(|o| read(o).v == [n as f32]).unwrap_or(false), "inference reports {:?} output {:?}", e, net.get_output()); } }
        }
        Ok(true)
    }); }
}
pub fn c21(cx: &mut Cx) { nethist(cx, 21) }
pub fn c22(cx: &mut Cx) { nethist(cx, 22) }
pub fn c23(cx: &mut Cx) { nethist(cx, 23) }
pub fn c24(cx: &mut Cx) { nethist(cx, 24) }

// ------------------------------------------------------------------ C26: files
fn build(r: &mut Rng, net: &mut Network, v: &[(Cfg, String)]) -> Res {
    for (c, n) in v {
        let mut a = filled(c, n)?;
        switch(a.l(), mode(r));
        match a { Any::Fc(x) => net.add_layer(x), Any::Conv(x) => net.add_layer(x), Any::Pool(x) => net.add_layer(x), Any::Soft(x) => net.add_layer(x) }?;
    }
    Ok(())
}
fn check_net(w: &str, net: &Network, v: &[(Cfg, String)], mode: NetworkRunState) -> Res {
    let ls = net.get_layers();
    ck!(ls.len() == v.len(), "{}: {} layers, expected {}", w, ls.len(), v.len());
    for (n, (x, (c, nm))) in ls.iter().zip(v).enumerate() {
        ck!(x.get_name() == *nm, "{}: layer {} is named {:?}, expected {:?}", w, n, x.get_name(), nm);
        ck!(dd(x.get_input_shape()) == c.ish() && dd(x.get_output_shape()) == c.osh(), "{}: layer {} has shapes {:?} {:?}, expected {:?} {:?}", w, n, x.get_input_shape(), x.get_output_shape(), c.ish(), c.osh());
        ck!(x.get_run_mode() == mode, "{}: layer {} is in {:?}, expected {:?}", w, n, x.get_run_mode(), mode);
        c.check_serial(nm, &x.get_serialized()).map_err(|e| format!("{}: layer {}: {}", w, n, e))?;
    }
    ck!(net.get_run_state() == mode, "{}: the network is in {:?}, expected {:?}", w, net.get_run_state(), mode);
    if let (Some(f), Some(t)) = (v.first(), v.last()) { ck!(dd(net.get_input_shape()) == f.0.ish() && dd(net.get_output_shape()) == t.0.osh(), "{}: shapes {:?} {:?}, expected {:?} {:?}", w, net.get_input_shape(), net.get_output_shape(), f.0.ish(), t.0.osh()); }
    let b: Vec<D> = v.first().map(|f| f.0.ish()).into_iter().chain(v.iter().map(|x| x.0.osh())).collect();
    let st = states(net);
    ck!(st.len() == b.len() && st.iter().zip(&b).all(|(x, d)| x.d == *d), "{}: state shapes {:?}, expected {:?}", w, st.iter().map(|x| x.d).collect::<Vec<_>>(), b);
    if let Some(g) = grads(net) { let n = if mode == NetworkRunState::Training { b.len() } else { 0 }; ck!(g.len() == n && g.iter().zip(&b).all(|(x, d)| x.d == *d), "{}: {} boundary gradients, expected {}", w, g.len(), n); }
    Ok(())
}
fn set(net: &mut Network, m: NetworkRunState) { match m { NetworkRunState::Training => net.switch_to_training(), NetworkRunState::Inference => net.switch_to_inference() } }
fn named(r: &mut Rng, v: Vec<Cfg>) -> Vec<(Cfg, String)> { v.into_iter().map(|c| { let n = name(r); (c, n) }).collect() }
fn net_file(r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let special = r.chance(2);
    let n = match r.below(8) { 0 => 0, 1 => r.range(5, 8), _ => r.range(1, 4) } as usize;
    let v = if n == 0 { vec![] } else { chain(r, l, n, special) };
    let v = named(r, v);
    net_round(r, l, s, v)
}
/// networks and names past the sizes narrower number types and fixed buffers can hold
fn big_nets(r: &mut Rng) -> Vec<Vec<(Cfg, String)>> {
    let nm = |n: usize| "ab".repeat(n);
    let mut v = vec![
        vec![(Cfg::Fc { w: reals(r, [300, 301, 1], 1.0), b: reals(r, [300, 1, 1], 1.0) }, nm(4)), (Cfg::Soft { d: [300, 1, 1] }, nm(40))],
        vec![(Cfg::Fc { w: reals(r, [1, 70001, 1], 1.0), b: reals(r, [1, 1, 1], 1.0) }, nm(40000))],
        vec![(Cfg::Fc { w: reals(r, [70001, 1, 1], 1.0), b: reals(r, [70001, 1, 1], 1.0) }, nm(1)), (Cfg::Pool { im: [70001, 1, 1], w: [1, 1, 1], st: 70000 }, nm(3))],
        vec![(Cfg::Conv { k: (0..300).map(|_| reals(r, [16, 17, 1], 1.0)).collect(), b: (0..300).map(|_| reals(r, [1, 1, 1], 1.0)).collect(), im: [16, 19, 1], st: 1 }, nm(9))],
        vec![(Cfg::Fc { w: reals(r, [1200, 1000, 1], 1.0), b: reals(r, [1200, 1, 1], 1.0) }, nm(3))],
    ];
    for st in [255, 256, 300, 65536] { v.push(vec![(Cfg::Pool { im: [st + 1, 2, 1], w: [1, 2, 1], st }, nm(1)), (Cfg::Conv { k: vec![reals(r, [2, 1, 1], 1.0)], b: vec![reals(r, [1, 1, 1], 1.0)], im: [2, 1, 1], st }, nm(2))]); }
    v.push((0..300).map(|n| (Cfg::Fc { w: reals(r, [1, 1, 1], 1.0), b: reals(r, [1, 1, 1], 1.0) }, format!("layer {}", n % 7))).collect());
    v
}
fn net_round(r: &mut Rng, l: &Lits, s: &mut String, v: Vec<(Cfg, String)>) -> Result<bool, String> {
    let (m0, m1) = (mode(r), mode(r));
    let mut net = Network::new(mode(r));
    build(r, &mut net, &v)?;
    set(&mut net, m0);
    let f = file(*r.pick(&["a.net", "network", "n 2.bin"]));
    *s = format!("network {:?} in {:?} saved", v, m0);
    let x = v.first().map(|q| gen_input(r, l, &q.0));
    if let Some(x) = &x { if r.chance(2) { net.infer(&x.t())?; } }
    let st = states(&net);
    s.push_str(&occupied(r, &f, || net.save_to_file(&f).is_ok()));
    let e = net.save_to_file(&f);
    ck!(e.is_ok(), "saving reports {:?}", e.map_err(|x| x.to_string()));
    check_net("saved network", &net, &v, m0)?;
    ck!(states(&net).iter().zip(&st).all(|(x, y)| same(x, y)), "saving changes a state");
    // receiver: empty, or with layers before
    let mut out = Network::new(mode(r));
    let pre = if r.chance(3) { let k = r.range(1, 2) as usize; if r.chance(2) && !v.is_empty() {
        // chains to the stored network: ends in its input shape
        let d = v[0].0.ish(); named(r, vec![Cfg::Soft { d }; k]) } else { let c = chain(r, l, k, false); named(r, c) } } else { vec![] };
    build(r, &mut out, &pre)?;
    set(&mut out, m1);
    s.push_str(&format!(", loaded in {:?} after {:?}", m1, pre));
    let want = pre.is_empty() || v.is_empty() || pre.last().unwrap().0.osh() == v[0].0.ish();
    let e = out.load_from_file(&f).map_err(|x| x.to_string());
    ck!(e.is_ok() == want, "loading reports {:?}", e);
    if !want { check_net("after a refused file", &out, &pre, m1)?; return Ok(true); }
    let all: Vec<(Cfg, String)> = pre.iter().cloned().chain(v.iter().cloned()).collect();
    check_net("loaded network", &out, &all, m1)?;
    if let (Some(x), true) = (&x, pre.is_empty()) {
        for _ in 0..2 {
            let x = if r.chance(2) { x.clone() } else { gen_input(r, l, &v[0].0) };
            s.push_str(&format!(" infer {:?}", x));
            let (a, b) = (net.infer(&x.t()), out.infer(&x.t()));
            ck!(a.is_ok() && b.is_ok(), "inference reports {:?} and {:?}", a, b);
            let (p, q) = (states(&net), states(&out));
            for (n, (a, b)) in p.iter().zip(&q).enumerate() { ck!(same(a, b), "state {} of the loaded network is {:?}, of the saved one {:?}", n, b, a); }
        }
    }
    // loading the same file again appends the layers once more if they chain
    if r.chance(4) && !v.is_empty() {
        let e = out.load_from_file(&f).map_err(|x| x.to_string());
        let w = all.last().unwrap().0.osh() == v[0].0.ish();
        ck!(e.is_ok() == w, "loading again reports {:?}", e);
        let twice: Vec<(Cfg, String)> = if w { all.iter().cloned().chain(v.iter().cloned()).collect() } else { all };
        check_net("network loaded twice", &out, &twice, m1)?;
    }
    Ok(!v.is_empty())
}
/// puts something else into the file that is saved to next
fn occupied(r: &mut Rng, f: &String, save: impl FnOnce() -> bool) -> String {
    let k = r.below(6);
    let _ = std::fs::remove_file(f);
    if k == 0 { return " to a new file".into(); }
    let n = if save() { std::fs::metadata(f).map(|m| m.len()).unwrap_or(0) as usize } else { 0 };
    if k == 1 { return " again over its own file".into(); }
    let mut b = std::fs::read(f).unwrap_or_default();
    let m = match k { 2 => { for x in b.iter_mut() { *x = !*x; } n } 3 => { if n > 0 { let p = r.below(n as u64) as usize; b[p] ^= 1 << r.below(8); } n } 4 => n + r.range(1, 3000) as usize, _ => n / 2 };
    b.resize(m, 0xa5);
    std::fs::write(f, &b).unwrap();
    format!(" over a file of {} bytes (the saved data has {})", m, n)
}
fn tensor_file(r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let d = shape(r, l, 6000);
    let x = specials(r, l, d);
    *s = format!("tensor {:?} saved and read back", x);
    let t = x.t();
    let f = file(*r.pick(&["t.tsr", "tensor"]));
    s.push_str(&occupied(r, &f, || t.save_to_file(&f).is_ok()));
    let e = t.save_to_file(&f).map_err(|e| e.to_string());
    ck!(e.is_ok(), "saving reports {:?}", e);
    exact("saved tensor", &t, &x)?;
    let b = Tensor::from_file(&f).map_err(|e| e.to_string());
    ck!(b.is_ok(), "reading reports {:?}", b);
    exact("read tensor", &b.unwrap(), &x)?;
    Ok(n3(d) > 0)
}
pub fn c26(cx: &mut Cx) {
    cx.case(|s| {
        *s = "missing files and directories".into();
        let mut net = Network::new(NetworkRunState::Training);
        ck!(net.load_from_file(&file("missing")).is_err() && Tensor::from_file(&file("missing")).is_err(), "a missing file is read");
        ck!(net.save_to_file(&file("no/dir")).is_err() && R::zero([1, 1, 1]).t().save_to_file(&file("no/dir")).is_err(), "saving into a missing directory succeeds");
        check_net("after a missing file", &net, &[], NetworkRunState::Training)?;
        Ok(true)
    });
    for d in small_dims(4) { cx.case(|s| { let mut r = Rng::new(n3(d)); let x = specials(&mut r, &Lits::default(), d); *s = format!("tensor {:?}", x); let f = file("t"); x.t().save_to_file(&f).map_err(|e| e.to_string())?; exact("read tensor", &Tensor::from_file(&f).map_err(|e| e.to_string())?, &x)?; Ok(n3(d) > 0) }); }
    for d in LARGE { cx.case(|s| { let mut r = Rng::new(n3(d)); let x = specials(&mut r, &Lits::default(), d); *s = format!("tensor {:?}", x); let f = file("t"); x.t().save_to_file(&f).map_err(|e| e.to_string())?; exact("read tensor", &Tensor::from_file(&f).map_err(|e| e.to_string())?, &x)?; Ok(true) }); }
    for q in 0..40 { cx.case(|s| { let mut r = Rng::new(q as u64); let mut v = big_nets(&mut r); let n = q % v.len(); let v = v.swap_remove(n); net_round(&mut r, &Lits::default(), s, v) }); }
    for q in 0..150u64 { cx.case(|s| net_file(&mut Rng::new(q + 9), &Lits::default(), s)); }
    cx.random(0.3, tensor_file);
    cx.random(1.0, net_file);
}

// ------------------------------------------------------------------ C27: corrupt files
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..(if r.chance(4) { 2 } else { 1 }) { match r.below(7) {
        0 => { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
        1 => { b.pop(); }
        2 | 3 => if !b.is_empty() { let n = r.below(b.len() as u64) as usize; b[n] ^= 1 << r.below(8); },
        4 => if b.len() >= 4 { let n = r.below(b.len() as u64 / 4) as usize * 4; let x = match r.below(6) { 0 => 0, 1 => u32::MAX, 2 => 65536, 3 => 1 << 31, 4 => r.next() as u32, _ => r.range(0, 6) }; b[n..n + 4].copy_from_slice(&x.to_le_bytes()); },
        5 => { let n = r.range(1, 9); for _ in 0..n { b.push(r.next() as u8); } }
        _ => if b.len() >= 4 { let n = r.below((b.len() as u64 / 4).min(12)) as usize * 4; let x = u32::from_le_bytes(b[n..n + 4].try_into().unwrap()); let y = if r.chance(2) { x.wrapping_add(1) } else { x.wrapping_sub(1) }; b[n..n + 4].copy_from_slice(&y.to_le_bytes()); },
    } }
}
fn show(b: &[u8]) -> String { format!("{} bytes {:?}", b.len(), &b[..b.len().min(120)]) }
fn tensor_bytes(r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let d = shape(r, l, 300);
    let x = ints(r, d, 9);
    let mut b = bincode::serialize(&x.t()).map_err(|e| e.to_string())?;
    if r.chance(6) {
        // a well-formed file with chosen parts
        let f = |r: &mut Rng| match r.below(7) { 0 => 0, 1 => 65536, 2 => u32::MAX, _ => r.range(0, 3) };
        let d = [f(r), f(r), f(r)];
        let st = if r.chance(2) { [1, d[0], d[0].wrapping_mul(d[1])] } else { [f(r), f(r), f(r)] };
        let n = if r.chance(2) { d[0].wrapping_mul(d[1]).wrapping_mul(d[2]) } else { r.range(0, 12) }.min(2000);
        b = bincode::serialize(&(st, d, vec![1.0f32; n as usize])).unwrap();
    } else if !r.chance(10) { damage(r, &mut b); }
    *s = format!("tensor file with {}", show(&b));
    let f = file("c.tsr");
    std::fs::write(&f, &b).map_err(|e| e.to_string())?;
    let want = bincode::deserialize(&b).ok().and_then(tensor_of);
    let res = Tensor::from_file(&f).map_err(|e| e.to_string());
    match want { None => ck!(res.is_err(), "inconsistent data is read as {:?}", res.map(|t| t.get_shape())), Some(x) => { ck!(res.is_ok(), "consistent data is refused: {:?}", res); let t = res.unwrap(); exact("read tensor", &t, &x)?; let mut z = t.clone(); Tensor::add(&t, &t, &mut z); expect("sum of the read tensor", &z, &addr(&x, &x))?; } }
    Ok(true)
}
/// network file contents with the stored entries in a fixed order
fn net_content(ls: &[SerializedLayer]) -> Vec<u8> {
    let mut out = (ls.len() as u64).to_le_bytes().to_vec();
    for x in ls {
        let b = bincode::serialize(x).unwrap();
        let n = u64::from_le_bytes(b[4..12].try_into().unwrap());
        let (mut e, mut p) = (vec![], 12);
        for _ in 0..n { let l = u64::from_le_bytes(b[p + 4..p + 12].try_into().unwrap()) as usize; e.push(b[p..p + 12 + l].to_vec()); p += 12 + l; }
        e.sort();
        out.extend(&b[..12]);
        for q in e { out.extend(q); }
    }
    out
}
fn net_bytes(r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let n = r.range(1, 3) as usize;
    let mut ls: Vec<SerializedLayer> = vec![];
    if r.chance(2) {
        let c = chain(r, l, n, false);
        for c in named(r, c) { ls.push(filled(&c.0, &c.1)?.r().get_serialized()); }
        if r.chance(3) { let q = r.below(ls.len() as u64) as usize; if r.chance(2) { ls.remove(q); } else { let z = ls.remove(q); ls.insert(0, z); } }
    } else { for _ in 0..n { if r.chance(3) { let (k, e) = corrupt(r, l, &mut String::new(), r.clone().below(4) as usize); ls.push(from_entries(k, &e)); } else { let c = first_cfg(r, l, false); ls.push(filled(&c, &name(r))?.r().get_serialized()); } } }
    let mut b = net_content(&ls);
    if r.chance(2) { damage(r, &mut b); }
    if r.chance(30) { b = (0..r.range(0, 60)).map(|_| r.below(4) as u8).collect(); }
    *s = format!("network file with {}", show(&b));
    let f = file("c.net");
    std::fs::write(&f, &b).map_err(|e| e.to_string())?;
    let m = mode(r);
    let mut net = Network::new(m);
    // expected: the longest consistent prefix decides
    let d: Option<Vec<SerializedLayer>> = bincode::deserialize(&b).ok();
    let mut good: Vec<(Cfg, String)> = vec![];
    let mut all = d.is_some();
    for x in d.iter().flatten() {
        let (k, e) = to_entries(x);
        match decode(k, &e) { Some(c) if huge(&c.0) => return Ok(false), /* too large to allocate again and again */ Some(c) if good.last().map(|p| p.0.osh() == c.0.ish()).unwrap_or(true) => good.push(c), _ => { all = false; break; } }
    }
    let res = net.load_from_file(&f).map_err(|e| e.to_string());
    ck!(res.is_ok() == all, "loading reports {:?}", res);
    if all { check_net("loaded network", &net, &good, m)?; }
    else { let n = net.get_layers().len(); ck!(n <= good.len(), "{} layers after a failed load", n); check_net("network after a failed load", &net, &good[..n], m)?; }
    // whatever was loaded works
    if !net.get_layers().is_empty() {
        let x = ints(r, dd(net.get_input_shape()), 3);
        let e = net.infer(&x.t());
        ck!(e.is_ok(), "inference after loading reports {:?}", e);
        if r.chance(2) { net.switch_to_training(); net.infer(&x.t())?; let g = ints(r, dd(net.get_output_shape()), 3); let _ = net.backward(&g.t()); net.switch_to_inference(); ck!(net.infer(&x.t()).is_ok(), "inference fails after a backward pass"); }
    }
    Ok(true)
}
pub fn c27(cx: &mut Cx) {
    // every truncation of one small file of each kind, and every single-bit change of a tensor file
    let x = R { d: [2, 1, 2], v: vec![1.0, -2.0, 3.5, 0.0] };
    let b = bincode::serialize(&x.t()).unwrap();
    for n in 0..b.len() { cx.case(|s| { *s = format!("tensor file cut to {} of {} bytes", n, b.len()); let f = file("t"); std::fs::write(&f, &b[..n]).unwrap(); ck!(Tensor::from_file(&f).is_err(), "a truncated tensor is read"); Ok(true) }); }
    for n in 0..b.len() * 8 { cx.case(|s| { let mut c = b.clone(); c[n / 8] ^= 1 << (n % 8); *s = format!("tensor file with bit {} flipped", n); let f = file("t"); std::fs::write(&f, &c).unwrap(); let want = bincode::deserialize(&c).ok().and_then(tensor_of); let g = Tensor::from_file(&f).map_err(|e| e.to_string()); match want { None => ck!(g.is_err(), "inconsistent data is read as {:?}", g.map(|t| t.get_shape())), Some(x) => { ck!(g.is_ok(), "consistent data is refused: {:?}", g); exact("read tensor", &g.unwrap(), &x)?; } } Ok(true) }); }
    for k in 0..4 { cx.case(|s| {
        let mut r = Rng::new(5 + k as u64);
        let c = gen_cfg(&mut r, &Lits::default(), k, false);
        *s = format!("every truncation of a network file with {:?}", c);
        let b = net_content(&[filled(&c, &"n".to_string())?.r().get_serialized()]);
        let f = file("t");
        for n in 0..b.len().min(600) { std::fs::write(&f, &b[..n]).unwrap(); let mut net = Network::new(NetworkRunState::Inference); ck!(net.load_from_file(&f).is_err(), "a network file cut to {} of {} bytes is loaded", n, b.len()); check_net("after the failed load", &net, &[], NetworkRunState::Inference)?; }
        Ok(true)
    }); }
    for q in 0..400u64 { cx.case(|s| stored_layer(&mut Rng::new(q + 3), &Lits::default(), s)); cx.case(|s| net_bytes(&mut Rng::new(q + 3), &Lits::default(), s)); cx.case(|s| tensor_bytes(&mut Rng::new(q + 3), &Lits::default(), s)); }
    cx.random(0.25, tensor_bytes);
    cx.random(0.5, stored_layer);
    cx.random(1.0, net_bytes);
}
