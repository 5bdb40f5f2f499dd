//! C01 - C14: tensors and tensor operations.
use crate::util::*;
use crate::{ck, Cx};
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::operations::convolution as cv;
use rusty_network::tensor::Tensor;

fn far(r: &mut Rng, m: u32) -> u32 { match r.below(6) { 0 => u32::MAX, 1 => u32::MAX - 1, 2 => m.wrapping_add(1), 3 => 1 << 31, 4 => m, _ => r.next() as u32 } }

pub fn c01(cx: &mut Cx) {
    for d in small_dims(4) {
        cx.case(|s| {
            *s = format!("tensor {:?}: address, write and read every position", d);
            let mut t = Tensor::new(sh(d));
            let n = n3(d) as usize;
            let mut seen = vec![false; n];
            for k in 0..d[2] { for j in 0..d[1] { for i in 0..d[0] {
                let x = t.get_data_index(&ti(i, j, k)) as usize;
                ck!(x < n, "position ({},{},{}) has data index {} of {}", i, j, k, x, n);
                ck!(!seen[x], "data index {} is used twice, second time by ({},{},{})", x, i, j, k);
                ck!(x == i as usize + (d[0] * j) as usize + (d[0] * d[1] * k) as usize, "position ({},{},{}) has data index {}", i, j, k, x);
                seen[x] = true;
            } } }
            let mut m = R::zero(d);
            let mut c = 1.0;
            for i in 0..d[0] { for j in 0..d[1] { for k in 0..d[2] { t.set_item(&ti(i, j, k), c); m.set(i, j, k, c); c += 1.0; expect("after writing one item", &t, &m)?; } } }
            for k in 0..=d[2] + 1 { for j in 0..=d[1] + 1 { for i in 0..=d[0] + 1 {
                if i < d[0] && j < d[1] && k < d[2] { continue; }
                ck!(t.get_item(&ti(i, j, k)) == 0.0, "reading ({},{},{}) out of range gives {}", i, j, k, t.get_item(&ti(i, j, k)));
                t.set_item(&ti(i, j, k), -7.0);
                expect("after an out-of-range write", &t, &m)?;
            } } }
            Ok(n > 0)
        });
    }
    cx.case(|s| {
        *s = "index helpers".into();
        let a = TensorIndex::index_1d(7); ck!((a.i, a.j, a.k) == (7, 0, 0), "index_1d");
        let a = TensorIndex::index_2d(7, 9); ck!((a.i, a.j, a.k) == (7, 9, 0), "index_2d");
        let a = TensorIndex::zero(); ck!((a.i, a.j, a.k) == (0, 0, 0), "zero");
        Ok(true)
    });
    cx.random(0.3, |r, l, s| {
        // addressing of shapes of any size, without storage
        let (mut a, mut b) = (1 + (r.next() as u32 >> r.below(32)), 1 + (r.next() as u32 >> r.below(32)).min(u32::MAX - 1));
        if r.chance(3) { a = dim1(r, l, 5000); b = dim1(r, l, 5000); }
        if a as u64 * b as u64 > u32::MAX as u64 { a = 1 + a % 65535; b = 1 + b % 65535; }
        let cmax = u32::MAX as u64 / (a as u64 * b as u64);
        let c = 1 + r.below(cmax) as u32;
        let d = [a, b, c];
        let st = TensorStride::new_from_shape(&sh(d));
        *s = format!("addressing in shape {:?}", d);
        let p = |r: &mut Rng, m: u32| match r.below(3) { 0 => m - 1, 1 => 0, _ => r.below(m as u64) as u32 };
        for _ in 0..4 {
            let (i, j, k) = (p(r, a), p(r, b), p(r, c));
            let x = &st * &ti(i, j, k);
            let w = i as u64 + a as u64 * j as u64 + a as u64 * b as u64 * k as u64;
            ck!(x as u64 == w, "({},{},{}) has data index {}, expected {}", i, j, k, x, w);
            ck!(sh(d).fits_index(&ti(i, j, k)), "({},{},{}) is reported out of range", i, j, k);
        }
        for _ in 0..4 {
            let q = [far(r, a), far(r, b), far(r, c)];
            let inside = q[0] < a && q[1] < b && q[2] < c;
            ck!(sh(d).fits_index(&ti(q[0], q[1], q[2])) == inside, "fits_index of {:?} is {}", q, !inside);
        }
        Ok(true)
    });
    cx.random(1.0, |r, l, s| {
        let d = shape(r, l, 3000);
        *s = format!("write/read history on {:?}", d);
        let mut t = Tensor::new(sh(d));
        let mut m = R::zero(d);
        let steps = r.range(1, 30);
        for n in 0..steps {
            let inside = n3(d) > 0 && !r.chance(3);
            let p = if inside { [r.below(d[0] as u64) as u32, r.below(d[1] as u64) as u32, r.below(d[2] as u64) as u32] } else { let mut p = [r.range(0, d[0]), r.range(0, d[1]), r.range(0, d[2])]; let x = r.below(3) as usize; p[x] = far(r, d[x]).max(d[x]); p };
            let v = special(r, l);
            s.push_str(&format!(" set{:?}={:?}", p, v));
            t.set_item(&ti(p[0], p[1], p[2]), v);
            if p[0] < d[0] && p[1] < d[1] && p[2] < d[2] { m.set(p[0], p[1], p[2], v); ck!(eqb(t.get_item(&ti(p[0], p[1], p[2])), v), "item {:?} reads {:?} after writing {:?}", p, t.get_item(&ti(p[0], p[1], p[2])), v); }
            else { let g = t.get_item(&ti(p[0], p[1], p[2])); ck!(g == 0.0, "reading {:?} out of range gives {:?}", p, g); }
            if n + 1 == steps || n3(d) < 60 { exact(&format!("after write {}", n), &t, &m)?; }
        }
        Ok(n3(d) > 1)
    });
}

/// what is stored for a tensor (derived serialization: strides, shape, items)
fn stored(t: &Tensor) -> Result<(D, D, Vec<f32>), String> { bincode::deserialize::<(D, D, Vec<f32>)>(&bincode::serialize(t).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
fn whole(what: &str, t: &Tensor, d: D) -> Res {
    ck!(dd(t.get_shape()) == d, "{}: shape {:?}, expected {:?}", what, dd(t.get_shape()), d);
    ck!(t.total_items() as u64 == n3(d), "{}: {} items, expected {}", what, t.total_items(), n3(d));
    let (_, _, v) = stored(t)?;
    ck!(v.len() as u64 == n3(d), "{}: {} items stored, expected {}", what, v.len(), n3(d));
    Ok(())
}
fn c02_one(r: &mut Rng, l: &Lits, d: D) -> Result<bool, String> {
    let n = n3(d) as usize;
    let mut t = Tensor::new(sh(d));
    whole("new tensor", &t, d)?;
    expect("new tensor", &t, &R::zero(d))?;
    let v = special(r, l);
    t.fill_with_value(v);
    whole("filled with value", &t, d)?;
    exact(&format!("filled with {:?}", v), &t, &R { d, v: vec![v; n] })?;
    let x = specials(r, l, d);
    ck!(t.fill_with_vec(x.v.clone()).is_ok(), "filling with a list of the right length fails");
    whole("filled with list", &t, d)?;
    exact("filled with list", &t, &x)?;
    for len in [0, 1, n.saturating_sub(1), n + 1, 2 * n, n + 7] {
        if len == n { continue; }
        ck!(t.fill_with_vec(vec![3.5; len]).is_err(), "filling {} items with a list of {} succeeds", n, len);
        whole("after a rejected list", &t, d)?;
        exact("after a rejected list", &t, &x)?;
    }
    let c = t.clone();
    whole("clone", &c, d)?;
    exact("clone", &c, &x)?;
    let (mut a, mut b) = (match r.below(5) { 0 => 0.0, 1 => -1e30, 2 => 5.0, _ => (r.unit() - 0.5) * 1000.0 }, (r.unit() - 0.5) * 1000.0);
    if r.chance(4) { b = a; }
    if r.chance(5) { a = r.unit(); b = a + r.unit() * 1e-6; }
    let (a, b) = (f32::min(a, b), f32::max(a, b));
    t.fill_with_uniform(a, b);
    whole("uniform fill", &t, d)?;
    for x in read(&t).v { ck!(x >= a && x <= b, "uniform fill between {:?} and {:?} produced {:?}", a, b, x); }
    t.fill_with_gaussian((r.unit() - 0.5) * 10.0, r.unit() * 3.0);
    whole("gaussian fill", &t, d)?;
    Ok(n > 0)
}
pub fn c02(cx: &mut Cx) {
    cx.case(|s| { *s = "empty tensor".into(); let t = Tensor::empty(); whole("empty tensor", &t, [1, 1, 1])?; expect("empty tensor", &t, &R::zero([1, 1, 1]))?; Ok(true) });
    for d in small_dims(3) { cx.case(|s| { *s = format!("create and fill {:?}", d); c02_one(&mut Rng::new(n3(d)), &Lits::default(), d) }); }
    let e: &[u32] = &[0, 1, 2, 3, 7, 255, 256, 65535, 65536, 65537, 1 << 31, u32::MAX - 1, u32::MAX];
    for a in e { for b in e { for c in e {
        let (a, b, c) = (*a, *b, *c);
        cx.case(|s| {
            *s = format!("shape helpers on ({},{},{})", a, b, c);
            let x = TensorShape::new(a, b, c);
            ck!(dd(x) == [a.max(1), b.max(1), c.max(1)], "new gives {:?}", dd(x));
            let x = TensorShape::new_1d(a); ck!(dd(x) == [a, 1, 1], "new_1d gives {:?}", dd(x));
            let x = TensorShape::new_2d(a, b); ck!(dd(x) == [a, b, 1], "new_2d gives {:?}", dd(x));
            let x = sh([a, b, c]);
            ck!(dd(x.transpose_ij()) == [b, a, c], "transpose_ij gives {:?}", dd(x.transpose_ij()));
            ck!(x.get() == (a, b, c), "get gives {:?}", x.get());
            if a as u128 * b as u128 <= u32::MAX as u128 && a as u128 * b as u128 * c as u128 <= u32::MAX as u128 { ck!(x.total_size() as u64 == n3([a, b, c]), "total_size gives {}", x.total_size()); }
            Ok(true)
        });
    } } }
    for d in LARGE { cx.case(|s| { *s = format!("create and fill {:?}", d); c02_one(&mut Rng::new(n3(d)), &Lits::default(), d) }); }
    cx.random(1.0, |r, l, s| { let d = shape(r, l, 20000); *s = format!("create and fill {:?} ({:x})", d, r.next() as u16); c02_one(r, l, d) });
}

fn c03_one(s: &mut String, a: &R, b: &R, c: &R, k: f32) -> Result<bool, String> {
    *s = format!("a={:?} b={:?} result={:?} scalar={:?}", a, b, c, k);
    let same2 = a.d == b.d;
    let same3 = same2 && a.d == c.d;
    let (ta, tb) = (a.t(), b.t());
    let pick = |ok: bool, x: R, y: &R| if ok { x } else { y.clone() };
    let mut o = c.t();
    Tensor::add(&ta, &tb, &mut o);
    exact("add", &o, &pick(same3, addr(a, b), c))?;
    let mut o = c.t();
    Tensor::multiply_elementwise(&ta, &tb, &mut o);
    exact("multiply_elementwise", &o, &pick(same3, mulr(a, b), c))?;
    let sc = R { d: a.d, v: a.v.iter().map(|x| x * k).collect() };
    let mut o = c.t();
    Tensor::scale(&ta, k, &mut o);
    exact("scale", &o, &pick(a.d == c.d, sc.clone(), c))?;
    exact("first operand", &ta, a)?;
    exact("second operand", &tb, b)?;
    let mut o = a.t();
    Tensor::add_to_self(&mut o, &tb);
    exact("add_to_self", &o, &pick(same2, addr(a, b), a))?;
    let mut o = a.t();
    Tensor::multiply_elementwise_self(&mut o, &tb);
    exact("multiply_elementwise_self", &o, &pick(same2, mulr(a, b), a))?;
    let mut o = a.t();
    Tensor::scale_self(&mut o, k);
    exact("scale_self", &o, &sc)?;
    exact("other operand", &tb, b)?;
    Ok(same3 && a.v.len() > 1)
}
pub fn c03(cx: &mut Cx) {
    let ds = [[0, 1, 1], [1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 3, 1], [3, 2, 1], [6, 1, 1], [1, 1, 6], [2, 3, 2], [3, 2, 2], [2, 2, 3], [12, 1, 1]];
    let mut r = Rng::new(3);
    for a in ds { for b in ds { for c in ds { let (x, y, z) = (ints(&mut r, a, 9), ints(&mut r, b, 9), ints(&mut r, c, 9)); let k = r.below(7) as f32 - 3.0; cx.case(|s| c03_one(s, &x, &y, &z, k)); } } }
    let n = SPECIAL.len() as u32;
    cx.case(|s| { let a = R::gen([n, n, 1], |i, _, _| SPECIAL[i as usize]); let b = R::gen([n, n, 1], |_, j, _| SPECIAL[j as usize]); c03_one(s, &a, &b, &R::zero([n, n, 1]), f32::NAN) });
    for k in SPECIAL { cx.case(|s| { let a = R { d: [n, 1, 1], v: SPECIAL.to_vec() }; c03_one(s, &a, &a, &R::zero([n, 1, 1]), *k) }); }
    cx.random(1.0, |r, l, s| {
        let d = shape(r, l, 10000);
        let mut e = d; let mut f = d;
        if r.chance(5) { let x = r.below(3) as usize; e[x] = dim(r, l, 20); }
        if r.chance(5) { let x = r.below(3) as usize; f[x] = dim(r, l, 20); }
        if r.chance(8) { e = [d[1], d[0], d[2]]; }
        if n3(e) > 20000 || n3(f) > 20000 { e = d; f = d; }
        let (a, b, c) = (specials(r, l, d), specials(r, l, e), specials(r, l, f));
        c03_one(s, &a, &b, &c, special(r, l))
    });
    for d in LARGE { cx.case(|s| { let mut r = Rng::new(n3(d)); let l = Lits::default(); let (a, b, c) = (specials(&mut r, &l, d), specials(&mut r, &l, d), ints(&mut r, d, 9)); c03_one(s, &a, &b, &c, 3.0) }); }
}

fn c04_one(s: &mut String, a: &R, b: &R, c: &R) -> Result<bool, String> {
    *s = format!("a={:?} b={:?} result={:?}", a, b, c);
    let (ta, tb) = (a.t(), b.t());
    let ok = |x: D, y: D| x[2] == y[2] && x[2] == c.d[2] && x[1] == y[0] && c.d[0] == x[0] && c.d[1] == y[1];
    let t2 = |x: D| [x[1], x[0], x[2]];
    let mut o = c.t();
    Tensor::matrix_multiply(&ta, &tb, &mut o);
    expect("matrix_multiply", &o, &if ok(a.d, b.d) { mm(a, b) } else { c.clone() })?;
    let mut o = c.t();
    let e = Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut o);
    let g = ok(t2(a.d), b.d);
    ck!(e.is_ok() == g, "matrix_multiply_transpose_first reports {:?}", e);
    expect("matrix_multiply_transpose_first", &o, &if g { mm(&tr(a), b) } else { c.clone() })?;
    let mut o = c.t();
    let e = Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut o);
    let h = ok(a.d, t2(b.d));
    ck!(e.is_ok() == h, "matrix_multiply_transpose_second reports {:?}", e);
    expect("matrix_multiply_transpose_second", &o, &if h { mm(a, &tr(b)) } else { c.clone() })?;
    let mut o = c.t();
    let e = Tensor::transpose_ij(&ta, &mut o);
    let q = c.d == t2(a.d);
    ck!(e.is_ok() == q, "transpose_ij reports {:?}", e);
    exact("transpose_ij", &o, &if q { tr(a) } else { c.clone() })?;
    exact("first operand", &ta, a)?;
    exact("second operand", &tb, b)?;
    Ok((ok(a.d, b.d) || g || h || q) && c.v.len() > 1)
}
pub fn c04(cx: &mut Cx) {
    let mut r = Rng::new(4);
    let m = 3;
    for dk in 1..=2 { for x in 1..=m { for y in 1..=m { for z in 1..=m { for form in 0..4 { for off in 0..10 {
        let (mut a, mut b, mut c) = match form { 0 => ([x, y, dk], [y, z, dk], [x, z, dk]), 1 => ([y, x, dk], [y, z, dk], [x, z, dk]), 2 => ([x, y, dk], [z, y, dk], [x, z, dk]), _ => ([x, y, dk], [z, z, dk], [y, x, dk]) };
        if off > 0 { let t = (off - 1) / 3; let p = ((off - 1) % 3) as usize; let q = if t == 0 { &mut a } else if t == 1 { &mut b } else { &mut c }; q[p] = q[p] % 3 + 1; }
        let (ra, rb, rc) = (ints(&mut r, a, 4), ints(&mut r, b, 4), ints(&mut r, c, 4));
        cx.case(|s| c04_one(s, &ra, &rb, &rc));
    } } } } } }
    for (a, b, c) in [([1, 70001, 1], [70001, 1, 1], [1, 1, 1]), ([70001, 1, 1], [1, 2, 1], [70001, 2, 1]), ([2, 3, 70001], [3, 2, 70001], [2, 2, 70001]), ([260, 5, 1], [5, 261, 1], [260, 261, 1]), ([70001, 2, 1], [70001, 1, 1], [2, 1, 1]), ([70001, 2, 1], [1, 1, 1], [2, 70001, 1]), ([300, 301, 1], [1, 1, 1], [301, 300, 1]), ([2, 70001, 1], [1, 70001, 1], [2, 1, 1])] {
        cx.case(|s| { let mut r = Rng::new(n3(a)); let v = (ints(&mut r, a, 4), ints(&mut r, b, 4), ints(&mut r, c, 4)); c04_one(s, &v.0, &v.1, &v.2) });
    }
    cx.random(1.0, |r, l, s| {
        let (x, y, z, dk) = loop { let m = if r.chance(6) { 1200 } else { 40 }; let q = (dim(r, l, m), dim(r, l, m), dim(r, l, m), dim(r, l, 12)); if q.0 as u64 * q.1 as u64 * q.2 as u64 * q.3 as u64 <= 60_000 && q.0 as u64 * q.1 as u64 * (q.3 as u64) <= 20000 && q.1 as u64 * q.2 as u64 * (q.3 as u64) <= 20000 && q.0 as u64 * q.2 as u64 * (q.3 as u64) <= 20000 { break q; } };
        let (mut a, mut b, mut c) = match r.below(4) { 0 => ([x, y, dk], [y, z, dk], [x, z, dk]), 1 => ([y, x, dk], [y, z, dk], [x, z, dk]), 2 => ([x, y, dk], [z, y, dk], [x, z, dk]), _ => ([x, y, dk], [z, y, dk], [y, x, dk]) };
        if r.chance(6) { let p = r.below(3) as usize; let v = dim(r, l, 5); match r.below(3) { 0 => a[p] = v, 1 => b[p] = v, _ => c[p] = v } }
        if n3(a) > 60000 || n3(b) > 60000 || n3(c) > 60000 { return Ok(false); }
        let (a, b, c) = (nums(r, l, a, 4), nums(r, l, b, 4), nums(r, l, c, 9));
        c04_one(s, &a, &b, &c)
    });
}

fn c05_one(s: &mut String, w: &R, x: &R, b: &R, c: &R, real: bool) -> Result<bool, String> {
    *s = format!("weights={:?} input={:?} bias={:?} result={:?}", w, x, b, c);
    let (tw, tx, tb) = (w.t(), x.t(), b.t());
    let mut o = c.t();
    Tensor::matrix_multiply_add_relu(&tx, &tw, &tb, &mut o);
    let ok = w.d[2] == x.d[2] && w.d[2] == c.d[2] && w.d[1] == x.d[0] && c.d[0] == w.d[0] && c.d[1] == x.d[1] && b.d == c.d;
    if !(ok && real) { expect("fused result", &o, &if ok { relu(&addr(&mm(w, x), b)) } else { c.clone() })?; }
    exact("weights", &tw, w)?; exact("input", &tx, x)?; exact("bias", &tb, b)?;
    if ok {
        let mut p = c.t();
        Tensor::matrix_multiply(&tw, &tx, &mut p);
        Tensor::add_to_self(&mut p, &tb);
        let mut m = Tensor::new(sh(c.d));
        ck!(Tensor::relu_self_and_store_mask(&mut p, &mut m).is_ok(), "separate rectification fails");
        expect("fused result compared to separate operations", &o, &read(&p))?;
    }
    Ok(ok && c.v.len() > 1)
}
pub fn c05(cx: &mut Cx) {
    let mut r = Rng::new(5);
    for dk in 1..=2 { for x in 1..=3 { for y in 1..=3 { for z in 1..=3 { for off in 0..13 {
        let mut d = [[x, y, dk], [y, z, dk], [x, z, dk], [x, z, dk]];
        if off > 0 { let q = &mut d[(off - 1) / 3][(off - 1) % 3]; *q = *q % 3 + 1; }
        let v: Vec<R> = d.iter().map(|d| ints(&mut r, *d, 4)).collect();
        cx.case(|s| c05_one(s, &v[0], &v[1], &v[2], &v[3], false));
    } } } } }
    cx.random(1.0, |r, l, s| {
        let (x, y, z, dk) = loop { let m = if r.chance(6) { 1200 } else { 40 }; let q = (dim(r, l, m), dim(r, l, m), dim(r, l, m), dim(r, l, 12)); if q.0 as u64 * q.1 as u64 * q.2 as u64 * q.3 as u64 <= 60_000 && q.0 as u64 * q.1 as u64 * (q.3 as u64) <= 20000 && q.1 as u64 * q.2 as u64 * (q.3 as u64) <= 20000 && q.0 as u64 * q.2 as u64 * (q.3 as u64) <= 20000 { break q; } };
        let mut d = [[x, y, dk], [y, z, dk], [x, z, dk], [x, z, dk]];
        if r.chance(6) { d[r.below(4) as usize][r.below(3) as usize] = dim(r, l, 5); }
        if r.chance(12) { d[2] = [d[2][1], d[2][0], d[2][2]]; }
        if d.iter().any(|d| n3(*d) > 60000) { return Ok(false); }
        let real = r.chance(5);
        let coarse = r.chance(2);
        let v: Vec<R> = d.iter().map(|d| if real { if coarse { rough(r, *d) } else { reals(r, *d, 2.0) } } else { nums(r, l, *d, 4) }).collect();
        c05_one(s, &v[0], &v[1], &v[2], &v[3], real)
    });
    for n in [[1, 70001, 1, 1], [70001, 2, 1, 1], [2, 2, 2, 40001], [260, 4, 261, 1]] { cx.case(|s| { let mut r = Rng::new(5); let d = [[n[0], n[1], n[3]], [n[1], n[2], n[3]], [n[0], n[2], n[3]], [n[0], n[2], n[3]]]; let v: Vec<R> = d.iter().map(|d| ints(&mut r, *d, 4)).collect(); c05_one(s, &v[0], &v[1], &v[2], &v[3], false) }); }
}

fn c06_one(s: &mut String, x: &R, m: &R) -> Result<bool, String> {
    *s = format!("input={:?} mask={:?}", x, m);
    let (mut a, mut b) = (x.t(), m.t());
    let e = Tensor::relu_self_and_store_mask(&mut a, &mut b);
    let ok = x.d == m.d;
    ck!(e.is_ok() == ok, "reports {:?}", e);
    if ok {
        let want = R { d: x.d, v: x.v.iter().map(|v| if *v > 0.0 { *v } else { 0.0 }).collect() };
        cmp("rectified item", &a, &want, |g, w| if w > 0.0 { g.to_bits() == w.to_bits() } else { g == 0.0 })?;
        expect("mask", &b, &R { d: x.d, v: x.v.iter().map(|v| if *v > 0.0 { 1.0 } else { 0.0 }).collect() })?;
    } else { exact("input after an error", &a, x)?; exact("mask after an error", &b, m)?; }
    Ok(ok && x.v.len() > 1)
}
pub fn c06(cx: &mut Cx) {
    for d in LARGE { cx.case(|s| { let mut r = Rng::new(n3(d)); let (x, m) = (specials(&mut r, &Lits::default(), d), ints(&mut r, d, 3)); c06_one(s, &x, &m) }); }
    for v in SPECIAL { for w in SPECIAL { cx.case(|s| c06_one(s, &R { d: [1, 2, 1], v: vec![*v, 1.0] }, &R { d: [1, 2, 1], v: vec![*w, *v] })); } }
    for a in small_dims(2) { for b in small_dims(2) { let mut r = Rng::new(6); let (x, y) = (ints(&mut r, a, 3), ints(&mut r, b, 3)); cx.case(|s| c06_one(s, &x, &y)); } }
    cx.random(1.0, |r, l, s| {
        let d = shape(r, l, 10000); let mut e = d;
        if r.chance(5) { e[r.below(3) as usize] = dim(r, l, 20); } else if r.chance(10) { e = [d[1], d[0], d[2]]; }
        if n3(e) > 50000 { e = d; }
        let (x, m) = (specials(r, l, d), specials(r, l, e));
        c06_one(s, &x, &m)
    });
}

thread_local! { static AT: std::cell::Cell<[u32; 12]> = const { std::cell::Cell::new([0; 12]) }; }
fn c07_one(im: D, w: D, st: u32, rng: &mut Rng) -> Res {
    let ok = window_ok(im, w, st);
    let g = Tensor::does_kernel_stride_fit_image(&sh(im), &sh(w), st);
    ck!(g == ok, "image {:?} window {:?} stride {}: does_kernel_stride_fit_image is {}", im, w, st, g);
    let cnt = if st > 0 && w[0] <= im[0] && w[1] <= im[1] { window_count(im, w, st) } else { (1, 1) };
    if ok && cnt.0 <= u32::MAX as u64 && cnt.1 <= u32::MAX as u64 {
        let f = Tensor::get_convolution_dim_fit(&sh(im), &sh(w), st);
        ck!((f.0 as u64, f.1 as u64) == cnt, "image {:?} window {:?} stride {}: get_convolution_dim_fit is {:?}", im, w, st, f);
    }
    let base = [cnt.0 as u32, cnt.1 as u32, im[2]];
    let mut rs = vec![base];
    let mut b = base; b[rng.below(3) as usize] = b[rng.below(3) as usize].wrapping_add(*rng.pick(&[1, 2, u32::MAX])); rs.push(b);
    rs.push([base[1], base[0], base[2]]);
    for res in rs {
        let ok = pool_ok(im, w, st, res);
        let g = Tensor::check_max_pooling_dimensions(&sh(im), &sh(w), st, &sh(res));
        ck!(g == ok, "image {:?} window {:?} stride {} result {:?}: check_max_pooling_dimensions is {}", im, w, st, res, g);
        let mut r2 = res; r2[2] = *rng.pick(&[0, 1, 2, 5, u32::MAX]);
        let mut k2 = w; if rng.chance(2) { k2[2] = im[2]; }
        for ch in [0, 1, r2[2].wrapping_sub(1), r2[2], u32::MAX] {
            let ok = conv_ok(im, k2, st, r2, ch);
            let g = cv::check_convolution_dimensions(&sh(im), &sh(k2), st, &sh(r2), ch).is_ok();
            ck!(g == ok, "image {:?} kernel {:?} stride {} result {:?} channel {}: check_convolution_dimensions accepts: {}", im, k2, st, r2, ch, g);
        }
    }
    Ok(())
}
fn c07_note(s: &mut String, im: D, w: D, st: u32) { *s = format!("image {:?} window {:?} stride {}", im, w, st); }
pub fn c07(cx: &mut Cx) {
    let small: Vec<u32> = (0..=6).collect();
    for a in 0..=6u32 { for b in 0..=6u32 { cx.case(|s| {
        let mut r = Rng::new(7);
        for wa in &small { for wb in &small { for st in &small { let k = (a + b) % 3; let im = [a, b, k]; let w = [*wa, *wb, (wa + st) % 3]; c07_note(s, im, w, *st); c07_one(im, w, *st, &mut r)?; } } }
        Ok(true)
    }); } }
    let e: &[u32] = &[0, 1, 2, 3, 65535, 65536, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    for a in e { for b in e { cx.case(|s| {
        let mut r = Rng::new(7);
        for wa in e { for wb in e { for st in e { let im = [*a, *b, 1]; let w = [*wa, *wb, 1]; c07_note(s, im, w, *st); c07_one(im, w, *st, &mut r)?; } } }
        Ok(true)
    }); } }
    cx.random(1.0, |r, l, s| {
        let any = |r: &mut Rng| match r.below(4) { 0 => r.range(0, 9), 1 => r.next() as u32 >> r.below(32), 2 => u32::MAX - r.range(0, 3), _ => big(r, l, u32::MAX) };
        let st = any(r);
        let w = [any(r), any(r), any(r)];
        let mut im = [any(r), any(r), any(r)];
        for x in 0..2 { if r.chance(2) { let n = if r.chance(2) { r.range(0, 5) } else { any(r) }; im[x] = (w[x] as u64 + n as u64 * st as u64).min(u32::MAX as u64) as u32; } }
        if r.chance(2) { im[2] = w[2]; }
        if r.chance(8) { let x = r.below(2) as usize; im[x] = im[x].wrapping_add(1); }
        c07_note(s, im, w, st);
        c07_one(im, w, st, r)?;
        Ok(window_ok(im, w, st))
    });
}

fn c08_one(s: &mut String, im: &R, ker: &R, b: &R, st: u32, res: &R, ch: u32) -> Result<bool, String> {
    *s = format!("image={:?} kernel={:?} bias={:?} stride={} result={:?} channel={}", im, ker, b, st, res, ch);
    let ok = conv_ok(im.d, ker.d, st, res.d, ch) && b.d[0] <= 1 && b.d[1] <= 1 && b.d[2] <= 1;
    let bias = if b.v.is_empty() { 0.0 } else { b.v[0] };
    let (ti_, tk, tb) = (im.t(), ker.t(), b.t());
    for rect in [false, true] {
        let mut o = res.t();
        let e = if rect { cv::convolution_bias_relu(&ti_, &tk, &tb, st, &mut o, ch) } else { cv::convolution_bias(&ti_, &tk, &tb, st, &mut o, ch) };
        let name = if rect { "convolution_bias_relu" } else { "convolution_bias" };
        ck!(e.is_ok() == ok, "{} reports {:?}", name, e);
        let mut w = res.clone();
        if ok { for j in 0..res.d[1] { for i in 0..res.d[0] { let x = conv(im, ker, st, i, j) + bias; w.set(i, j, ch, if rect { pos(x) } else { x }); } } }
        expect(name, &o, &w)?;
    }
    exact("image", &ti_, im)?; exact("kernel", &tk, ker)?; exact("bias", &tb, b)?;
    Ok(ok && res.v.len() > 1)
}
/// image, kernel, stride, result dimensions that fit, kept below a total amount of work
pub fn conv_dims(r: &mut Rng, l: &Lits, work: u64) -> (D, D, u32, D) {
    loop {
        let st = match r.below(12) { 0 => r.range(4, 7), 1 => big(r, l, 40).max(1), _ => r.range(1, 3) };
        let m = if r.chance(8) { 40 } else { 8 };
        let k = [dim1(r, l, m), dim1(r, l, m), if r.chance(20) { 0 } else { dim1(r, l, m) }];
        let n = [dim1(r, l, m), dim1(r, l, m), if r.chance(25) { 0 } else { dim1(r, l, m) }];
        let im = [k[0] as u64 + (n[0] - 1) as u64 * st as u64, k[1] as u64 + (n[1] - 1) as u64 * st as u64, k[2] as u64];
        if im[0] * im[1] * im[2].max(1) <= work && n3(k).max(1) * n3(n).max(1) <= work && im[0] * im[1] <= work { return ([im[0] as u32, im[1] as u32, k[2]], k, st, n); }
    }
}
fn spoil(r: &mut Rng, l: &Lits, ds: &mut [&mut D], st: &mut u32) -> bool {
    if !r.chance(7) { return false; }
    let x = r.below(ds.len() as u64 + 1) as usize;
    if x == ds.len() { *st = r.range(0, 4); } else { let p = r.below(3) as usize; ds[x][p] = if r.chance(3) { dim(r, l, 9) } else if r.chance(2) { ds[x][p] + 1 } else { ds[x][p].saturating_sub(1) }; }
    true
}
/// image, window, stride, output
pub const WIDE: [(D, D, u32, D); 6] = [([300, 301, 1], [2, 2, 1], 1, [299, 300, 2]), ([70002, 1, 1], [2, 1, 1], 1, [70001, 1, 1]), ([1, 70002, 1], [1, 2, 1], 2, [1, 35001, 1]), ([301, 301, 2], [3, 3, 2], 2, [150, 150, 1]), ([70001, 2, 1], [70000, 1, 1], 1, [2, 2, 1]), ([600, 400, 1], [200, 200, 1], 200, [3, 2, 1])];
pub fn c08(cx: &mut Cx) {
    let mut r = Rng::new(8);
    for (im, k, st, n) in WIDE { let v = (ints(&mut r, im, 3), ints(&mut r, k, 3), ints(&mut r, [1, 1, 1], 9), ints(&mut r, n, 9)); cx.case(|s| c08_one(s, &v.0, &v.1, &v.2, st, &v.3, n[2] - 1)); }
    for kd in 1..=2u32 { for st in 1..=3u32 { for ka in 1..=3u32 { for kb in 1..=2u32 { for na in 1..=3u32 { for nb in 1..=2u32 { for nk in 1..=2u32 { for ch in 0..=nk {
        let im = [ka + (na - 1) * st, kb + (nb - 1) * st, kd];
        let v = (ints(&mut r, im, 4), ints(&mut r, [ka, kb, kd], 4), ints(&mut r, [1, 1, 1], 9), ints(&mut r, [na, nb, nk], 9));
        cx.case(|s| c08_one(s, &v.0, &v.1, &v.2, st, &v.3, ch));
    } } } } } } } }
    for b in small_dims(2) { let v = (ints(&mut r, [3, 3, 1], 4), ints(&mut r, [2, 2, 1], 4), ints(&mut r, b, 4), ints(&mut r, [2, 2, 1], 4)); cx.case(|s| c08_one(s, &v.0, &v.1, &v.2, 1, &v.3, 0)); }
    for st in 0..=3 { for im in small_dims(2) { for k in small_dims(2) { let v = (ints(&mut r, im, 4), ints(&mut r, k, 4), ints(&mut r, [1, 1, 1], 4), ints(&mut r, [1, 1, 1], 4)); cx.case(|s| c08_one(s, &v.0, &v.1, &v.2, st, &v.3, 0)); } } }
    cx.random(1.0, |r, l, s| {
        let (mut im, mut k, mut st, mut n) = conv_dims(r, l, 6000);
        spoil(r, l, &mut [&mut im, &mut k, &mut n], &mut st);
        if n3(im) > 30000 || n3(n) > 30000 { return Ok(false); }
        let b = if r.chance(9) { [dim(r, l, 3).min(3), r.range(0, 2), r.range(0, 2)] } else { [1, 1, 1] };
        let ch = if r.chance(9) { *r.pick(&[n[2], n[2].wrapping_add(1), u32::MAX]) } else { r.below(n[2] as u64) as u32 };
        let v = (nums(r, l, im, 4), nums(r, l, k, 4), nums(r, l, b, 40), nums(r, l, n, 9));
        c08_one(s, &v.0, &v.1, &v.2, st, &v.3, ch)
    });
}

fn c09_one(s: &mut String, im: &R, w: D, st: u32, res: &R, len: usize) -> Result<bool, String> {
    *s = format!("image={:?} window={:?} stride={} result={:?} origins={}", im, w, st, res, len);
    let ok = pool_ok(im.d, w, st, res.d);
    let t = im.t();
    let mut o = res.t();
    Tensor::max_pool(&t, &sh(w), st, &mut o);
    let want = if ok { R::gen(res.d, |i, j, k| pool(im, w, st, i, j, k).0) } else { res.clone() };
    expect("max_pool", &o, &want)?;
    let old: Vec<u32> = (0..len as u32).map(|x| x.wrapping_mul(77).wrapping_add(12345)).collect();
    let mut org = old.clone();
    let mut o = res.t();
    let e = Tensor::max_pool_track_origin(&t, &sh(w), st, &mut o, &mut org);
    let ok2 = ok && len == res.v.len();
    ck!(e.is_ok() == ok2, "max_pool_track_origin reports {:?}", e);
    if !ok2 { exact("result after an error", &o, res)?; ck!(org == old, "origins changed on error"); }
    else {
        expect("max_pool_track_origin", &o, &want)?;
        ck!(org.len() == len, "origin list has {} entries", org.len());
        for k in 0..res.d[2] { for j in 0..res.d[1] { for i in 0..res.d[0] {
            let g = org[res.ix(i, j, k)] as usize;
            match pool(im, w, st, i, j, k).1 {
                Some(x) => ck!(g == x, "origin of output ({},{},{}) is {}, expected {}", i, j, k, g, x),
                None => { let mut inside = false; for b in 0..w[1] { for a in 0..w[0] { if g == im.ix(i * st + a, j * st + b, k) { inside = true; } } } ck!(inside, "origin {} of output ({},{},{}) is outside its window", g, i, j, k); }
            }
        } } }
    }
    exact("image", &t, im)?;
    Ok(ok2 && res.v.len() > 1)
}
pub fn c09(cx: &mut Cx) {
    let mut r = Rng::new(9);
    for (mut im, k, st, mut n) in WIDE { n[2] = 2; im[2] = 2; let v = (reals(&mut r, im, 1000.0), ints(&mut r, n, 9)); cx.case(|s| c09_one(s, &v.0, [k[0], k[1], 1], st, &v.1, v.1.v.len())); }
    for kd in 1..=2u32 { for st in 1..=3u32 { for ka in 1..=3u32 { for kb in 1..=2u32 { for na in 1..=3u32 { for nb in 1..=3u32 { for t in 0..4 {
        let im = [ka + (na - 1) * st, kb + (nb - 1) * st, kd];
        let mut v = ints(&mut r, im, if t == 0 { 1 } else { 9 });
        if t == 2 { for x in v.v.iter_mut() { *x -= 20.0; } }
        if t == 3 { for x in v.v.iter_mut() { if r.chance(2) { *x = *r.pick(&[f32::NAN, f32::NEG_INFINITY, f32::INFINITY, -0.0, f32::MIN]); } } }
        let o = ints(&mut r, [na, nb, kd], 9);
        cx.case(|s| c09_one(s, &v, [ka, kb, 1], st, &o, o.v.len()));
    } } } } } } }
    for st in 0..=2 { for im in small_dims(2) { for k in small_dims(2) { let v = (ints(&mut r, im, 4), ints(&mut r, [1, 1, 1], 4)); cx.case(|s| c09_one(s, &v.0, k, st, &v.1, 1)); } } }
    cx.random(1.0, |r, l, s| {
        let (mut im, mut k, mut st, mut n) = conv_dims(r, l, 6000);
        n[2] = im[2]; k[2] = dim(r, l, 5);
        if n3(n) > 20000 { return Ok(false); }
        if spoil(r, l, &mut [&mut im, &mut n], &mut st) && (n3(im) > 30000 || n3(n) > 30000) { return Ok(false); }
        let mut v = match r.below(5) { 0 => specials(r, l, im), 1 => ints(r, im, 1), 2 => reals(r, im, 1000.0), _ => nums(r, l, im, 9) };
        match r.below(5) { 0 => for x in v.v.iter_mut() { *x = -x.abs() - 1.0; }, 1 => for x in v.v.iter_mut() { if r.chance(3) { *x = *r.pick(&[f32::NAN, f32::NEG_INFINITY]); } }, _ => {} }
        if r.chance(15) { for x in v.v.iter_mut() { *x = *r.pick(&[f32::NAN, f32::NEG_INFINITY]); } }
        let o = ints(r, n, 9);
        let len = if r.chance(8) { *r.pick(&[0, 1, o.v.len() + 1, o.v.len() / 2, o.v.len() * 2]) } else { o.v.len() };
        c09_one(s, &v, k, st, &o, len)
    });
}

fn c10_one(s: &mut String, a: &R, b: &R, list: &Vec<u32>) -> Result<bool, String> {
    *s = format!("source={:?} target={:?} list={:?}{}", a, b, &list[..list.len().min(24)], if list.len() > 24 { format!("..({} entries)", list.len()) } else { String::new() });
    let ok = list.len() <= a.v.len() && list.iter().all(|x| (*x as usize) < b.v.len());
    let (ta, mut tb) = (a.t(), b.t());
    let l2 = list.clone();
    let e = Tensor::add_from_index_list(&ta, &mut tb, &l2);
    ck!(e.is_ok() == ok, "reports {:?}", e);
    ck!(&l2 == list, "index list changed");
    if ok { let mut w = b.clone(); for (n, x) in list.iter().enumerate() { w.v[*x as usize] += a.v[n]; } expect("target", &tb, &w)?; }
    else {
        // positions that are never named keep their items
        for n in 0..b.v.len() { if !list.contains(&(n as u32)) { let d = b.d; let (i, j, k) = (n as u32 % d[0], n as u32 / d[0] % d[1], n as u32 / d[0] / d[1]); let g = tb.get_item(&ti(i, j, k)); ck!(eqb(g, b.v[n]), "unnamed target item {} changed from {:?} to {:?}", n, b.v[n], g); } }
        ck!(tb.get_shape() == sh(b.d), "target shape changed");
    }
    exact("source", &ta, a)?;
    Ok(ok && list.len() > 1)
}
pub fn c10(cx: &mut Cx) {
    let mut r = Rng::new(10);
    for d in LARGE { cx.case(|s| { let mut r = Rng::new(n3(d)); let (a, b) = (ints(&mut r, d, 9), ints(&mut r, [d[1], d[0], d[2]], 9)); let m = n3(d); let list: Vec<u32> = (0..m - 5).map(|_| r.below(m) as u32).collect(); c10_one(s, &a, &b, &list) }); }
    // every list of up to 3 entries (one of them out of range) for small sources and targets
    for an in 0..=3u32 { for bn in 1..=3u32 { for len in 0..=4u32 { for code in 0..(bn + 1).pow(len) {
        let mut c = code; let mut list = vec![]; for _ in 0..len { list.push(c % (bn + 1)); c /= bn + 1; }
        let (a, b) = (ints(&mut r, [an, 1, 1], 9), ints(&mut r, [1, bn, 1], 9));
        cx.case(|s| c10_one(s, &a, &b, &list));
    } } } }
    cx.random(1.0, |r, l, s| {
        let (da, db) = (shape(r, l, 3000), shape(r, l, 3000));
        let (a, b) = (nums(r, l, da, 9), nums(r, l, db, 9));
        let n = if r.chance(8) { a.v.len() + r.range(1, 3) as usize } else if r.chance(3) { r.below(a.v.len() as u64 + 1) as usize } else { a.v.len() };
        let few = r.chance(3);
        let mut list: Vec<u32> = (0..n).map(|_| { let m = b.v.len() as u64; r.below(if few { m.min(3) } else { m }) as u32 }).collect();
        if !list.is_empty() && r.chance(6) { let x = r.below(list.len() as u64) as usize; list[x] = *r.pick(&[b.v.len() as u32, b.v.len() as u32 + 1, u32::MAX]); }
        c10_one(s, &a, &b, &list)
    });
}

fn c11_one(s: &mut String, g: &R, kers: &[R], st: u32, out: &R) -> Result<bool, String> {
    *s = format!("incoming={:?} kernels={:?} stride={} outgoing={:?}", g, kers, st, out);
    let ok = kers.len() == g.d[2] as usize && kers.iter().enumerate().all(|(n, k)| conv_ok(out.d, k.d, st, g.d, n as u32));
    let tg = g.t();
    let tk: Vec<Tensor> = kers.iter().map(|k| k.t()).collect();
    let mut o = out.t();
    let e = cv::convolution_backprop_outgoing_gradient(&tg, &tk, st, &mut o);
    ck!(e.is_ok() == ok, "reports {:?}", e);
    expect("outgoing gradient", &o, &if ok { conv_back_out(g, kers, st, out.d) } else { out.clone() })?;
    exact("incoming gradient", &tg, g)?;
    ck!(tk.len() == kers.len(), "kernel list changed");
    for (a, b) in tk.iter().zip(kers) { exact("kernel", a, b)?; }
    Ok(ok && out.v.len() > 1 && !kers.is_empty())
}
pub fn c11(cx: &mut Cx) {
    let mut r = Rng::new(11);
    for (im, k, st, n) in WIDE { if n3(k) * n3(n) > 3_000_000 { continue; } let (g, o) = (ints(&mut r, n, 3), ints(&mut r, im, 9)); let ks: Vec<R> = (0..n[2]).map(|_| ints(&mut r, k, 3)).collect(); cx.case(|s| c11_one(s, &g, &ks, st, &o)); }
    for kd in 1..=2u32 { for st in 1..=3u32 { for ka in 1..=3u32 { for kb in 1..=2u32 { for na in 1..=3u32 { for nb in 1..=2u32 { for nk in 0..=2u32 { for more in [0, 1] {
        let im = [ka + (na - 1) * st, kb + (nb - 1) * st, kd];
        let g = ints(&mut r, [na, nb, nk], 4);
        let ks: Vec<R> = (0..nk + more).map(|_| ints(&mut r, [ka, kb, kd], 4)).collect();
        let o = ints(&mut r, im, 9);
        cx.case(|s| c11_one(s, &g, &ks, st, &o));
    } } } } } } } }
    cx.random(1.0, |r, l, s| {
        let (mut im, k, mut st, mut n) = conv_dims(r, l, 3000);
        spoil(r, l, &mut [&mut im, &mut n], &mut st);
        if n3(im) > 30000 || n3(n) > 30000 || n[2] > 64 { return Ok(false); }
        let cnt = if r.chance(12) { r.range(0, 4) } else { n[2] };
        let mut ks: Vec<R> = (0..cnt).map(|_| nums(r, l, k, 4)).collect();
        if !ks.is_empty() && r.chance(12) { let x = r.below(ks.len() as u64) as usize; let mut d = k; d[r.below(3) as usize] = r.range(0, 3); ks[x] = ints(r, d, 4); }
        let g = nums(r, l, n, 4);
        let o = nums(r, l, im, 9);
        c11_one(s, &g, &ks, st, &o)
    });
}
fn c12_one(s: &mut String, g: &R, im: &R, st: u32, ch: u32, out: &R) -> Result<bool, String> {
    *s = format!("incoming={:?} image={:?} stride={} channel={} kernel gradient={:?}", g, im, st, ch, out);
    let ok = conv_ok(im.d, out.d, st, g.d, ch);
    let (tg, tim) = (g.t(), im.t());
    let mut o = out.t();
    let e = cv::convolution_backprop_kernel(&tg, &tim, st, ch, &mut o);
    ck!(e.is_ok() == ok, "reports {:?}", e);
    expect("kernel gradient", &o, &if ok { conv_back_ker(g, im, st, ch, out.d) } else { out.clone() })?;
    exact("incoming gradient", &tg, g)?;
    exact("image", &tim, im)?;
    Ok(ok && out.v.len() > 1)
}
pub fn c12(cx: &mut Cx) {
    let mut r = Rng::new(12);
    for (im, k, st, n) in WIDE { let v = (ints(&mut r, n, 3), ints(&mut r, im, 3), ints(&mut r, k, 9)); cx.case(|s| c12_one(s, &v.0, &v.1, st, n[2] - 1, &v.2)); }
    for kd in 1..=2u32 { for st in 1..=3u32 { for ka in 1..=3u32 { for kb in 1..=2u32 { for na in 1..=3u32 { for nb in 1..=2u32 { for nk in 1..=3u32 { for ch in 0..=nk {
        let im = [ka + (na - 1) * st, kb + (nb - 1) * st, kd];
        let v = (ints(&mut r, [na, nb, nk], 4), ints(&mut r, im, 4), ints(&mut r, [ka, kb, kd], 9));
        cx.case(|s| c12_one(s, &v.0, &v.1, st, ch, &v.2));
    } } } } } } } }
    cx.random(1.0, |r, l, s| {
        let (mut im, mut k, mut st, mut n) = conv_dims(r, l, 6000);
        spoil(r, l, &mut [&mut im, &mut k, &mut n], &mut st);
        if n3(im) > 30000 || n3(n) > 30000 || n3(k) > 30000 { return Ok(false); }
        let ch = if r.chance(9) { *r.pick(&[n[2], u32::MAX]) } else { r.below(n[2] as u64) as u32 };
        let v = (nums(r, l, n, 4), nums(r, l, im, 4), nums(r, l, k, 9));
        c12_one(s, &v.0, &v.1, st, ch, &v.2)
    });
}

fn finite(r: &mut Rng, l: &Lits, d: D) -> R {
    let kind = r.below(7);
    let base = match r.below(4) { 0 => 1e30, 1 => -1e30, 2 => 3e38, _ => 0.0 };
    R::gen(d, |_, _, _| { let x = match kind { 0 => special(r, l), 1 => (r.unit() - 0.5) * 200.0, 2 => r.below(5) as f32, 3 => (r.unit() - 0.5) * 3e38, 4 => base, 5 => -(r.unit() * 100.0) - 80.0, _ => (r.unit() - 0.5) * 10.0 }; if x.is_finite() { x } else { 1.5 } })
}
fn c13_one(s: &mut String, x: &R, o: &R) -> Result<bool, String> {
    *s = format!("input={:?} output={:?}", x, o);
    let t = x.t(); let mut y = o.t();
    Tensor::softmax(&t, &mut y);
    exact("input", &t, x)?;
    if x.d != o.d { exact("output of another shape", &y, o)?; return Ok(false); }
    check_softmax("softmax", &read(&y), x)?;
    Ok(x.v.len() > 1)
}
pub fn c13(cx: &mut Cx) {
    for d in LARGE { if n3(d) > 300_000 { continue; } cx.case(|s| { let mut r = Rng::new(n3(d)); let x = reals(&mut r, d, 3.0); c13_one(s, &x, &R::zero(d)) }); }
    for a in SPECIAL { for b in SPECIAL { if a.is_finite() && b.is_finite() { for d in [[2, 1, 1], [1, 2, 1], [1, 1, 2]] { cx.case(|s| c13_one(s, &R { d, v: vec![*a, *b] }, &R { d, v: vec![5.0, f32::NAN] })); } } } }
    let mut r = Rng::new(13);
    for a in small_dims(2) { for b in small_dims(2) { let (x, y) = (ints(&mut r, a, 5), ints(&mut r, b, 5)); cx.case(|s| c13_one(s, &x, &y)); } }
    cx.random(1.0, |r, l, s| {
        let d = shape(r, l, 2000); let mut e = d;
        if r.chance(10) { e[r.below(3) as usize] = r.range(0, 4); }
        if n3(e) > 20000 { e = d; }
        let x = finite(r, l, d); let y = specials(r, l, e);
        c13_one(s, &x, &y)
    });
}

fn c14_one(s: &mut String, a: &R, b: &R) -> Result<bool, String> {
    *s = format!("a={:?} b={:?}", a, b);
    let (x, y) = (a.t(), b.t());
    let want = a.d == b.d && a.v.iter().zip(&b.v).all(|(p, q)| p == q);
    ck!((x == y) == want, "a == b is {}", x == y);
    ck!((y == x) == want, "b == a is {}", y == x);
    ck!((x != y) == !want, "a != b is {}", x != y);
    ck!((x == x.clone()) == a.v.iter().all(|v| !v.is_nan()), "a == clone of a is {}", x == x.clone());
    Ok(a.v.len() > 1)
}
fn norm_one(s: &mut String, a: &R) -> Result<bool, String> {
    *s = format!("norm of {:?}", a);
    let g = a.t().get_norm();
    let sq: f64 = a.v.iter().map(|x| *x as f64 * *x as f64).sum();
    if a.v.iter().any(|x| x.is_nan()) { ck!(g.is_nan(), "norm is {:?}", g); return Ok(true); }
    if a.v.iter().any(|x| x.is_infinite()) { ck!(g == f32::INFINITY, "norm is {:?}", g); return Ok(true); }
    let tiny = a.v.iter().any(|x| *x != 0.0 && x.abs() < 1e-15);
    if sq > 1e38 || tiny { return Ok(false); }
    let w = sq.sqrt();
    let n = a.v.len() as f64;
    ck!((g as f64 - w).abs() <= w * (n + 4.0) * 1.2e-7, "norm is {:?}, expected {:?}", g, w);
    Ok(a.v.len() > 1)
}
pub fn c14(cx: &mut Cx) {
    for d in LARGE { cx.case(|s| { let mut r = Rng::new(n3(d)); let x = ints(&mut r, d, 9); c14_one(s, &x, &x)?; for n in [0, 1, x.v.len() / 2, 65535, 65536, x.v.len() - 1] { let mut y = x.clone(); y.v[n] += 1.0; c14_one(s, &x, &y)?; }
        let mut c = R::zero(d); *c.v.last_mut().unwrap() = 3.0; norm_one(s, &c)?; ck!(c.t().get_norm() == 3.0, "norm is {:?}, expected 3", c.t().get_norm()); Ok(true) }); }
    for a in SPECIAL { for b in SPECIAL { for p in 0..2 {
        let x = R { d: [2, 1, 1], v: if p == 0 { vec![*a, 1.0] } else { vec![1.0, *a] } }; let y = R { d: [2, 1, 1], v: if p == 0 { vec![*b, 1.0] } else { vec![1.0, *b] } };
        cx.case(|s| c14_one(s, &x, &y));
        cx.case(|s| norm_one(s, &x));
    } } }
    for a in small_dims(3) { for b in small_dims(3) { cx.case(|s| c14_one(s, &R { d: a, v: vec![2.0; n3(a) as usize] }, &R { d: b, v: vec![2.0; n3(b) as usize] })); } }
    for d in small_dims(3) { for n in 0..n3(d) as usize {
        let a = R::gen(d, |i, j, k| (i + 3 * j + 9 * k) as f32); let mut b = a.clone(); b.v[n] += 1.0;
        cx.case(|s| c14_one(s, &a, &b));
        let mut c = R::zero(d); c.v[n] = 3.0;
        cx.case(|s| { norm_one(s, &c)?; let g = c.t().get_norm(); ck!(g == 3.0, "norm is {:?}, expected 3", g); Ok(true) });
    } }
    cx.random(1.0, |r, l, s| {
        let d = shape(r, l, 6000); let mut e = d;
        if r.chance(6) { e = [d[1], d[0], d[2]]; } else if r.chance(6) { e = [d[2], d[1], d[0]]; }
        let a = if r.chance(2) { specials(r, l, d) } else { ints(r, d, 2) };
        let mut b = R { d: e, v: a.v.clone() };
        if !b.v.is_empty() && !r.chance(3) { let n = r.below(b.v.len() as u64) as usize; b.v[n] = special(r, l); }
        c14_one(s, &a, &b)?;
        let c = match r.below(3) { 0 => specials(r, l, d), 1 => ints(r, d, 30), _ => reals(r, d, 100.0) };
        norm_one(s, &c)
    });
}
