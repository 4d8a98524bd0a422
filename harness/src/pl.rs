//! C10 to C13: abs-normal forms and generalized Jacobians.
use crate::prog::*;
use crate::sweep::{dv, function, same, set};
use crate::sx;
use advantage::drivers::*;
use advantage::*;
use nalgebra::{DMatrix, DVector};
use num::Float;

/// z_i = c_i + Z_i x + sum_{j<i} L_ij |z_j|,  y_i = d_i + J_i x + Y_i |z|
#[derive(Clone)]
pub struct Pl {
    n: usize,
    s: usize,
    m: usize,
    c: Vec<f64>,
    z: Vec<Vec<f64>>,
    l: Vec<Vec<f64>>,
    d: Vec<f64>,
    j: Vec<Vec<f64>>,
    y: Vec<Vec<f64>>,
}
fn mat(t: &str, r: usize, c: usize) -> Vec<Vec<f64>> {
    (0..r).map(|_| (0..c).map(|_| sx::fin(t)).collect()).collect()
}
impl Pl {
    /// any coefficients at all
    fn sym(n: usize, s: usize, m: usize) -> Pl {
        let mut p = Pl { n, s, m, c: vec![], z: vec![], l: vec![], d: vec![], j: vec![], y: vec![] };
        p.z = mat("Z", s, n);
        p.l = (0..s).map(|i| (0..i).map(|_| sx::fin("L")).collect()).collect();
        p.j = mat("J", m, n);
        p.y = mat("Y", m, s);
        p.c = (0..s).map(|_| sx::fin("c")).collect();
        p.d = (0..m).map(|_| sx::fin("d")).collect();
        p
    }
    /// small integer coefficients
    fn fixed(n: usize, s: usize, m: usize, salt: usize) -> Pl {
        let mut k = salt * 7 + 3;
        let mut next = |zero: bool| {
            k = (k * 1103515245 + 12345) % 2147483648;
            let v = (k >> 16) % 7;
            let v = v as f64 - 3.0;
            if v == 0.0 && !zero { 2.0 } else { v }
        };
        let mut p = Pl { n, s, m, c: vec![], z: vec![], l: vec![], d: vec![], j: vec![], y: vec![] };
        for i in 0..s {
            p.c.push(next(true));
            p.z.push((0..n).map(|_| next(false)).collect());
            p.l.push((0..i).map(|_| next(true)).collect());
        }
        for _ in 0..m {
            p.d.push(next(true));
            p.j.push((0..n).map(|_| next(true)).collect());
            p.y.push((0..s).map(|_| next(false)).collect());
        }
        p
    }
    fn eval<F: Float>(&self, x: &[F]) -> (Vec<F>, Vec<F>) {
        let f = |v: f64| F::from(v).unwrap();
        let mut z = vec![];
        let mut a: Vec<F> = vec![];
        for i in 0..self.s {
            let mut t = f(self.c[i]);
            for k in 0..self.n { t = t + f(self.z[i][k]) * x[k]; }
            for k in 0..i { t = t + f(self.l[i][k]) * a[k]; }
            z.push(t);
            a.push(t.abs());
        }
        let mut y = vec![];
        for i in 0..self.m {
            let mut t = f(self.d[i]);
            for k in 0..self.n { t = t + f(self.j[i][k]) * x[k]; }
            for k in 0..self.s { t = t + f(self.y[i][k]) * a[k]; }
            y.push(t);
        }
        (z, y)
    }
    fn function(&self) -> impl Function {
        let p = self.clone();
        SimpleFunction::new(self.n, self.m, move |x: DVector<ADouble>| DVector::from_vec(p.eval(x.as_slice()).1))
    }
    /// the linear piece of signs sigma: values of the switches and results at
    /// x + v
    fn piece(&self, sigma: &[f64], x: &[f64]) -> Vec<f64> {
        let mut a = vec![];
        for i in 0..self.s {
            let mut t = self.c[i];
            for k in 0..self.n { t = t + self.z[i][k] * x[k]; }
            for k in 0..i { t = t + self.l[i][k] * a[k]; }
            a.push(t * sigma[i]);
        }
        (0..self.m)
            .map(|i| {
                let mut t = self.d[i];
                for k in 0..self.n { t = t + self.j[i][k] * x[k]; }
                for k in 0..self.s { t = t + self.y[i][k] * a[k]; }
                t
            })
            .collect()
    }
}
fn shape(t: &str, hi: usize) -> usize {
    sx::choose(t, hi)
}
/// inputs, switches and results: all up to hi, or as given
fn shapes(d: i64) -> (usize, usize, usize) {
    let hi = sx::param("hi", d) as usize;
    let g = |t: &str, lo: usize| match sx::param(t, -1) {
        -1 => lo + shape(t, hi + 1 - lo),
        k => k as usize,
    };
    let r = (g("n", 1), g("s", 0), g("m", 1));
    sx::shard((r.0 * 100 + r.1 * 10 + r.2) as u64);
    r
}
fn vars(t: &str, n: usize) -> Vec<f64> {
    (0..n).map(|_| sx::fin(t)).collect()
}
fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
fn at(m: &DMatrix<f64>, i: usize, j: usize, want: f64, l: &str) {
    sx::real(m[(i, j)], want, l);
}

/// dz by forward substitution, results of the model
fn solve(f: &AbsNormalForm, dx: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (n, s, m) = (dx.len(), f.a.nrows(), f.b.nrows());
    let mut dz: Vec<f64> = vec![];
    for i in 0..s {
        let mut t = f.a[i];
        for k in 0..n { t = t + f.zmat[(i, k)] * dx[k]; }
        for k in 0..i { t = t + f.lmat[(i, k)] * dz[k].abs(); }
        dz.push(t);
    }
    let dy = (0..m)
        .map(|i| {
            let mut t = f.b[i];
            for k in 0..n { t = t + f.jmat[(i, k)] * dx[k]; }
            for k in 0..s { t = t + f.ymat[(i, k)] * dz[k].abs(); }
            t
        })
        .collect();
    (dz, dy)
}
fn form_dimensions(f: &AbsNormalForm, n: usize, s: usize, m: usize) {
    sx::check(f.a.nrows() == s && f.b.nrows() == m, "C10.dimensions");
    sx::check(f.zmat.nrows() == s && f.zmat.ncols() == n, "C10.dimensions");
    sx::check(f.lmat.nrows() == s && f.lmat.ncols() == s, "C10.dimensions");
    sx::check(f.jmat.nrows() == m && f.jmat.ncols() == n, "C10.dimensions");
    sx::check(f.ymat.nrows() == m && f.ymat.ncols() == s, "C10.dimensions");
    for i in 0..s {
        for k in i..s {
            sx::real(f.lmat[(i, k)], 0.0, "C10.strictly-lower-triangular");
        }
    }
}

/// derivative of every switch argument and result with respect to inputs and
/// switch results taken as independent, by the rules of calculus
fn dense(p: &[Step], x: &[f64], outs: &[usize]) -> (usize, [Vec<Vec<f64>>; 4]) {
    let n = x.len();
    let s = p.iter().filter(|s| s.op == OpCode::Abs).count();
    let mut v = x.to_vec();
    for q in p {
        let r = apply(q.op, arg(q.a, &v), arg(q.b, &v));
        v.push(r);
    }
    let column = |e: usize| {
        let mut d: Vec<f64> = (0..n).map(|i| if i == e { 1.0 } else { 0.0 }).collect();
        let mut k = 0;
        let mut args = vec![];
        for q in p {
            let g = |a: Arg| if let Arg::Var(i) = a { d[i] } else { 0.0 };
            if q.op == OpCode::Abs {
                args.push(g(q.a));
                d.push(if n + k == e { 1.0 } else { 0.0 });
                k += 1;
            } else {
                let t = tangent(q.op, arg(q.a, &v), arg(q.b, &v), g(q.a), g(q.b));
                d.push(t);
            }
        }
        let ys: Vec<f64> = outs.iter().map(|o| d[*o]).collect();
        (args, ys)
    };
    let cols: Vec<(Vec<f64>, Vec<f64>)> = (0..n + s).map(column).collect();
    let m = outs.len();
    let z = (0..s).map(|i| (0..n).map(|k| cols[k].0[i]).collect()).collect();
    let l = (0..s).map(|i| (0..s).map(|k| cols[n + k].0[i]).collect()).collect();
    let j = (0..m).map(|i| (0..n).map(|k| cols[k].1[i]).collect()).collect();
    let y = (0..m).map(|i| (0..s).map(|k| cols[n + k].1[i]).collect()).collect();
    (s, [z, l, j, y])
}
/// programs with at least one abs
fn switching(k: usize, n: usize) -> (Vec<Step>, Vec<usize>) {
    let p = pick(set(sx::param("set", 2)), k, n, sx::param("plain", 0) != 0);
    if !p.iter().any(|s| s.op == OpCode::Abs) {
        sx::stop();
    }
    // an intermediate or input and the last, or the last alone
    let last = n + k - 1;
    let outs = match sx::choose("outputs", 3) {
        0 => vec![last, n],
        1 => vec![last],
        _ => vec![n - 1, last, last],
    };
    (p, outs)
}
macro_rules! all_products {
    ($m:expr, $want:expr, $r:expr, $c:expr) => {{
        let (m, want, r, c) = ($m, $want, $r, $c);
        sx::check(m.nrows() == r && m.ncols() == c, "C11.dimensions");
        let k = sx::param("cols", -1);
        let k = if k < 0 { sx::choose("columns", 3) } else { k as usize };
        // small factors too
        let e = [1.0, 2f64.powi(-90)][sx::choose("small", 2)];
        let rhs = DMatrix::from_fn(c, k, |_, _| sx::fin("rhs") * e);
        let lhs = DMatrix::from_fn(k, r, |_, _| sx::fin("lhs") * e);
        let right = m.mul_right(&rhs);
        let left = m.mul_left(&lhs);
        sx::check(right.nrows() == r && right.ncols() == k, "C11.right-dimensions");
        sx::check(left.nrows() == k && left.ncols() == c, "C11.left-dimensions");
        for i in 0..r {
            for j in 0..k {
                let mut t = 0.0;
                for q in 0..c { t = t + want[i][q] * rhs[(q, j)]; }
                sx::real(right[(i, j)] / e, t / e, "C11.product-from-the-right");
            }
        }
        for i in 0..k {
            for j in 0..c {
                let mut t = 0.0;
                for q in 0..r { t = t + lhs[(i, q)] * want[q][j]; }
                sx::real(left[(i, j)] / e, t / e, "C11.product-from-the-left");
            }
        }
        // vectors and views as factors
        if k == 2 {
            let v = m.mul_right(&rhs.column(1));
            sx::check(v.nrows() == r && v.ncols() == 1, "C11.right-dimensions");
            for i in 0..r { sx::bits(v[(i, 0)], right[(i, 1)], "C11.vector-factor"); }
            let v = m.mul_left(&lhs.row(1));
            sx::check(v.nrows() == 1 && v.ncols() == c, "C11.left-dimensions");
            for j in 0..c { sx::bits(v[(0, j)], left[(1, j)], "C11.vector-factor"); }
        }
        for i in 0..r {
            let v = m.row(i);
            sx::check(v.nrows() == 1 && v.ncols() == c, "C11.row-dimensions");
            for j in 0..c { at(&v, 0, j, want[i][j], "C11.row"); }
        }
        for j in 0..c {
            let v = m.column(j);
            sx::check(v.nrows() == r && v.ncols() == 1, "C11.column-dimensions");
            for i in 0..r { at(&v, i, 0, want[i][j], "C11.column"); }
        }
    }};
}
fn products(t: &AbsNormalTape, want: &[Vec<Vec<f64>>; 4]) {
    let (n, s, m) = (t.n(), t.s(), t.m());
    match sx::choose("matrix", 4) {
        0 => all_products!(AbsNormalZ::new(t), &want[0], s, n),
        1 => all_products!(AbsNormalL::new(t), &want[1], s, s),
        2 => all_products!(AbsNormalJ::new(t), &want[2], m, n),
        _ => all_products!(AbsNormalY::new(t), &want[3], m, s),
    }
}

/// signs and number of ties at x + dx, by definition
fn signs(z: &[f64], bits: &[u8]) -> (Vec<f64>, usize) {
    let mut sigma = vec![];
    let mut ties = 0;
    for v in z {
        if sx::fork(*v < 0.0) {
            sigma.push(-1.0);
        } else if sx::fork(*v > 0.0) {
            sigma.push(1.0);
        } else {
            let b = ties / 8 < bits.len() && bits[ties / 8] >> (ties % 8) & 1 == 1;
            sigma.push(if sx::fork(b) { 1.0 } else { -1.0 });
            ties += 1;
        }
    }
    (sigma, ties)
}
fn family() -> Pl {
    let (n, s, m) = shapes(2);
    let k = sx::param("salt", 0);
    if k == 0 { Pl::sym(n, s, m) } else { Pl::fixed(n, s, m, k as usize + n * 100 + s * 10 + m) }
}
/// hom v + inhom is the piece's increment for every v
fn piecewise(g: &GeneralizedJacobian, p: &Pl, sigma: &[f64], x: &[f64]) {
    let (n, m) = (p.n, p.m);
    sx::check(g.homogenous.nrows() == m && g.homogenous.ncols() == n && g.inhomogenous.nrows() == m, "C12.dimensions");
    let v = vars("v", n);
    let there = p.piece(sigma, &add(x, &v));
    let (_, here) = p.eval(x);
    for i in 0..m {
        let mut t = g.inhomogenous[i];
        for k in 0..n { t = t + g.homogenous[(i, k)] * v[k]; }
        sx::real(t, there[i] - here[i], "C12.affine-piece");
    }
}

/// widths between the links of a chain
const WIDTHS: [[usize; 8]; 2] = [[2; 8], [2, 3, 1, 2, 4, 1, 3, 2]];
fn composed(ps: &[Pl]) -> impl Function {
    let ps = ps.to_vec();
    let (n, m) = (ps[0].n, ps[ps.len() - 1].m);
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| {
        let mut v: Vec<ADouble> = x.iter().cloned().collect();
        for p in &ps { v = p.eval(&v).1; }
        DVector::from_vec(v)
    })
}
/// the chain of the links, flat or nested
fn chain(ps: &[Pl], nested: usize) -> FunctionChain {
    match nested {
        // ((a b) c ...)
        1 if ps.len() > 2 => {
            let mut inner = FunctionChain::new(ps[0].function());
            inner.append(ps[1].function());
            let mut c = FunctionChain::new(inner);
            for p in &ps[2..] { c.append(p.function()); }
            c
        }
        // (a (b c ...))
        2 if ps.len() > 2 => {
            let mut inner = FunctionChain::new(ps[1].function());
            for p in &ps[2..] { inner.append(p.function()); }
            let mut c = FunctionChain::new(ps[0].function());
            c.append_boxed(Box::new(inner));
            c
        }
        _ => {
            let mut c = FunctionChain::from_boxed(Box::new(ps[0].function()));
            for p in &ps[1..] { c.append(p.function()); }
            c
        }
    }
}
fn equal(a: &GeneralizedJacobian, b: &GeneralizedJacobian, l: &str) {
    sx::check(a.homogenous.shape() == b.homogenous.shape() && a.inhomogenous.nrows() == b.inhomogenous.nrows(), l);
    for i in 0..a.homogenous.nrows() {
        for j in 0..a.homogenous.ncols() { sx::real(a.homogenous[(i, j)], b.homogenous[(i, j)], l); }
        sx::real(a.inhomogenous[i], b.inhomogenous[i], l);
    }
}
fn links(k: usize) -> Vec<Pl> {
    let s = sx::param("s", 1) as usize;
    let w = WIDTHS[sx::param("widths", 0) as usize];
    // in long chains only every so many have switches
    let every = sx::param("every", 1) as usize;
    (0..k).map(|i| Pl::fixed(w[i % 7], if i == 1 { 1 } else if i % every == 0 || every > 1 && i + 2 == k { s } else { 0 }, w[i % 7 + 1], 31 + i * 17 + sx::param("salt", 0) as usize)).collect()
}

crate::entries! {
    // the form of z = c + Zx + L|z|, y = d + Jx + Y|z| is that form
    fn c10_family() {
        let (n, s, m) = shapes(3);
        let mut p = Pl::sym(n, s, m);
        // near zero too
        let e = [1.0, 2f64.powi(-90)][sx::choose("small", 2)];
        for c in p.c.iter_mut().chain(p.d.iter_mut()) { *c *= e; }
        let x: Vec<f64> = vars("x", n).iter().map(|x| x * e).collect();
        let f = abs_normal(&p.function(), &dv(&x));
        form_dimensions(&f, n, s, m);
        sx::reach("family");
        for i in 0..s {
            for k in 0..n { at(&f.zmat, i, k, p.z[i][k], "C10.Z"); }
            for k in 0..i { at(&f.lmat, i, k, p.l[i][k], "C10.L"); }
        }
        for i in 0..m {
            for k in 0..n { at(&f.jmat, i, k, p.j[i][k], "C10.J"); }
            for k in 0..s { at(&f.ymat, i, k, p.y[i][k], "C10.Y"); }
        }
        let (z, _) = p.eval(&x);
        for i in 0..s {
            let mut t = p.c[i];
            for k in 0..n { t = t + p.z[i][k] * x[k]; }
            sx::real(f.a[i] / e, t / e, "C10.a");
        }
        for i in 0..m {
            let mut t = 0.0;
            for k in 0..s { t = t - p.y[i][k] * z[k].abs(); }
            sx::real(f.b[i] / e, t / e, "C10.b");
        }
        let a = AbsNormalTape::new(p.function().tape(&dv(&x)));
        sx::check(a.n() == n && a.m() == m && a.s() == s, "C10.tape-dimensions");
        let (x1, y1, z1) = (a.x(), a.y(), a.z());
        same(&x1, &dv(&x), "C10.tape-x");
        let (z, y) = p.eval(&x);
        sx::check(z1.nrows() == s && y1.nrows() == m, "C10.tape-dimensions");
        for i in 0..s { sx::real(z1[i] / e, z[i] / e, "C10.tape-z"); }
        for i in 0..m { sx::real(y1[i] / e, y[i] / e, "C10.tape-y"); }
    }
    // any program: the model evaluated in any direction
    fn c10_program() {
        let n = 2;
        let k = sx::param("k", 3) as usize;
        let (p, outs) = switching(k, n);
        let (x, dx) = (vars("x", n), vars("dx", n));
        domain(&p, &x);
        let f = abs_normal(&function(p.clone(), n, outs.clone(), None), &dv(&x));
        let s = p.iter().filter(|s| s.op == OpCode::Abs).count();
        form_dimensions(&f, n, s, outs.len());
        sx::reach("program");
        let (dz, dy) = solve(&f, &dx);
        let t = tangents(&p, &x, &dx);
        let v = eval(&p, &x);
        let mut i = 0;
        for (q, _) in p.iter().zip(0..) {
            if q.op == OpCode::Abs {
                let a = match q.a { Arg::Var(a) => a, _ => unreachable!() };
                sx::real(dz[i], v[a] + t[a], "C10.switching-equations");
                i += 1;
            }
        }
        for (i, o) in outs.iter().enumerate() { sx::real(dy[i], t[*o], "C10.increment"); }
        // piecewise linear ones: the function itself
        if sx::param("set", 2) == 2 {
            let w = eval(&p, &add(&x, &dx));
            for (i, o) in outs.iter().enumerate() { sx::real(dy[i], w[*o] - v[*o], "C10.exact-increment"); }
        }
    }

    fn c11_family() {
        let (n, s, m) = shapes(2);
        let p = Pl::sym(n, s, m);
        let x = vars("x", n);
        let t = AbsNormalTape::new(p.function().tape(&dv(&x)));
        let l: Vec<Vec<f64>> = (0..s).map(|i| (0..s).map(|k| if k < i { p.l[i][k] } else { 0.0 }).collect()).collect();
        sx::reach("family");
        products(&t, &[p.z.clone(), l, p.j.clone(), p.y.clone()]);
    }
    fn c11_program() {
        let n = 2;
        let k = sx::param("k", 3) as usize;
        let (p, outs) = switching(k, n);
        let x = vars("x", n);
        domain(&p, &x);
        let (_, want) = dense(&p, &x, &outs);
        let t = AbsNormalTape::new(function(p.clone(), n, outs.clone(), None).tape(&dv(&x)));
        sx::reach("program");
        products(&t, &want);
    }
    // factors of the wrong size are refused
    fn c11_mismatch() {
        let p = Pl::fixed(2, 3, 1, 1);
        let t = AbsNormalTape::new(p.function().tape(&dv(&[1.0, 2.0])));
        let z = AbsNormalZ::new(&t);
        sx::reach("mismatch");
        let k = [1, 3][sx::choose("rows", 2)];
        sx::expect_panic("C11.wrong-size-refused");
        if sx::choose("side", 2) == 0 {
            let _ = z.mul_right(&DMatrix::zeros(k, 2));
        } else {
            let _ = z.mul_left(&DMatrix::zeros(2, k + 1));
        }
    }

    fn c12_family() {
        let p = family();
        let (x, dx) = (vars("x", p.n), vars("dx", p.n));
        let nb = sx::choose("bytes", if p.s == 0 { 1 } else { 2 });
        let bits: Vec<u8> = (0..nb).map(|_| sx::int("byte", 0, 255) as u8).collect();
        let g = generalized_jacobian(&p.function(), &dv(&x), &dv(&dx), &bits, None);
        let (z, y1) = p.eval(&add(&x, &dx));
        let (sigma, ties) = signs(&z, &bits);
        sx::reach("family");
        sx::check(g.multiplicity == ties, "C12.multiplicity");
        piecewise(&g, &p, &sigma, &x);
        // in particular at dx
        let (_, y0) = p.eval(&x);
        for i in 0..p.m {
            let mut t = g.inhomogenous[i];
            for k in 0..p.n { t = t + g.homogenous[(i, k)] * dx[k]; }
            sx::real(t, y1[i] - y0[i], "C12.increment");
        }
    }
    // switches of switches: z_(i+1) = c_i - |z_i|, whose signs depend on the
    // exact values of all before
// more switches than fit into a word
    fn c12_many() {
        let s = sx::param("s", 70) as usize;
        let f = SimpleFunction::new(1, 1, move |v: DVector<ADouble>| {
            let mut r = v[0];
            for i in 0..s { r = r + (v[0] * 3.0).abs() * (i + 1) as f64; }
            DVector::from_vec(vec![r])
        });
        let (x, dx) = (sx::fin("x"), sx::fin("dx"));
        sx::assume(x + dx == 0.0);
        // which bit is set, none at last
        let pos = [0, 7, 8, 31, 32, 63, 64, s - 1, s][sx::choose("bit", 9)];
        let bytes = [(s + 7) / 8, s / 8 - 1][sx::choose("bytes", 2)];
        let mut bits = vec![0u8; bytes];
        if pos < s && pos / 8 < bytes { bits[pos / 8] = 1 << (pos % 8); }
        let g = generalized_jacobian(&f, &dv(&[x]), &dv(&[dx]), &bits, None);
        sx::check(g.multiplicity == s, "C12.multiplicity");
        let mut want = 1.0;
        for i in 0..s { want += (if i == pos && pos / 8 < bytes { 3.0 } else { -3.0 }) * (i + 1) as f64; }
        sx::real(g.homogenous[(0, 0)], want, "C12.sign-bit-order");
        sx::reach("many");
    }
    fn c12_zero_signs() {
        // switches that are zero, of either sign
        let zero = |n: &str| [0.0, -0.0][sx::choose(n, 2)];
        let (x, y, dx, dy) = (zero("x"), zero("y"), zero("dx"), 0.0);
        let k = sx::choose("function", 5);
        let f = SimpleFunction::new(2, 1, move |v: DVector<ADouble>| {
            let (x, y) = (v[0], v[1]);
            let r = match k {
                0 => x.abs() + y.abs(),
                1 => (x * -1.0).abs() + (-y).abs(),
                2 => (x - y).abs() + (y - x).abs(),
                3 => (x.abs() - y).abs(),
                _ => (x * -2.0 + y).abs() + (x + 1.0).abs(),
            };
            DVector::from_vec(vec![r])
        });
        let byte = sx::int("byte", 0, 255) as u8;
        let g = generalized_jacobian(&f, &dv(&[x, y]), &dv(&[dx, dy]), &[byte], None);
        sx::reach("zero-signs");
        sx::check(g.multiplicity == if k == 4 { 1 } else { 2 }, "C12.multiplicity");
        // the piece's slopes
        let s = |i: u32| if sx::fork(byte >> i & 1 == 1) { 1.0 } else { -1.0 };
        let (a, b) = (s(0), s(1));
        let (p, q) = match k {
            0 => (a, b),
            1 => (-a, -b),
            2 => (a - b, b - a),
            3 => (b * a, -b),
            _ => (-2.0 * a + 1.0, a),
        };
        sx::check(g.homogenous[(0, 0)] == p && g.homogenous[(0, 1)] == q, "C12.bits-choose-signs");
    }
        fn c12_deep() {
        let (n, s, m) = (sx::param("n", 1) as usize, sx::param("s", 5) as usize, sx::param("m", 1) as usize);
        let mut p = Pl::fixed(n, s, m, 11 + sx::param("salt", 0) as usize);
        let mut c = 2f64.powi(s as i32 - 2);
        for i in 0..s {
            for k in 0..n { p.z[i][k] = if i == 0 { [1.0, -2.0, 3.0][k % 3] } else { 0.0 }; }
            for k in 0..i { p.l[i][k] = if k + 1 == i { -1.0 } else { 0.0 }; }
            p.c[i] = if i == 0 { 0.0 } else { c };
            if i > 0 { c *= 0.5; }
            if sx::param("sym", 0) != 0 { p.c[i] = sx::fin("c"); }
        }
        let (x, dx) = (vars("x", n), vars("dx", n));
        let bits = [sx::int("byte", 0, 255) as u8];
        let g = generalized_jacobian(&p.function(), &dv(&x), &dv(&dx), &bits, None);
        let (z, _) = p.eval(&add(&x, &dx));
        let (sigma, ties) = signs(&z, &bits);
        sx::reach("deep");
        sx::check(g.multiplicity == ties, "C12.multiplicity");
        piecewise(&g, &p, &sigma, &x);
    }
    // with smooth operations around the switches: increment of the model
    fn c12_program() {
        let n = 2;
        let k = sx::param("k", 2) as usize;
        let (p, outs) = switching(k, n);
        let (x, dx) = (vars("x", n), vars("dx", n));
        domain(&p, &x);
        let bits = [sx::int("byte", 0, 255) as u8];
        let f = function(p.clone(), n, outs.clone(), None);
        let g = generalized_jacobian_tape(f.tape(&dv(&x)), &dv(&dx), &bits, None);
        sx::reach("program");
        let t = tangents(&p, &x, &dx);
        sx::check(g.homogenous.nrows() == outs.len() && g.homogenous.ncols() == n, "C12.dimensions");
        for (i, o) in outs.iter().enumerate() {
            let mut r = g.inhomogenous[i];
            for k in 0..n { r = r + g.homogenous[(i, k)] * dx[k]; }
            sx::real(r, t[*o], "C12.increment");
        }
    }
    // many ties: sign bits in order, least significant first
    fn c12_bits() {
        let s = sx::param("s", 10) as usize;
        let bytes = sx::choose("bytes", 4);
        // which bit is set
        let pos = sx::choose("bit", s + 2);
        // which switches are not tied
        let live = [0usize, 1, 0b101, 0b10_0000_0010][sx::choose("untied", 4)];
        let mut p = Pl::fixed(1, s, 1, 5);
        let (x, dx) = (sx::fin("x"), sx::fin("dx"));
        for i in 0..s {
            p.z[i][0] = if live >> i & 1 == 1 { 1.0 } else { 0.0 };
            p.c[i] = 0.0;
            for k in 0..i { p.l[i][k] = 0.0; }
            p.y[0][i] = (1u64 << i) as f64;
        }
        // a tied switch still depends on x through its partner
        for i in 0..s { if live >> i & 1 == 0 { p.z[i][0] = 3.0; p.c[i] = 0.0; } else { p.z[i][0] = 0.0; p.c[i] = 1.0; } }
        sx::assume(x == 0.0 && dx == 0.0);
        let mut bits = vec![0u8; bytes];
        if pos / 8 < bytes { bits[pos / 8] = 1 << (pos % 8); }
        let g = generalized_jacobian(&p.function(), &dv(&[x]), &dv(&[dx]), &bits, None);
        let mut ties = 0;
        let mut want = p.j[0][0];
        for i in 0..s {
            if live >> i & 1 == 1 { continue; }
            let up = ties == pos && pos / 8 < bytes;
            want += (if up { 3.0 } else { -3.0 }) * p.y[0][i];
            ties += 1;
        }
        sx::check(g.multiplicity == ties, "C12.multiplicity");
        sx::real(g.homogenous[(0, 0)], want, "C12.sign-bit-order");
        sx::reach("bits");
    }

    // a successor's Jacobian composes by the chain rule
    fn c13_next() {
        let p = family();
        let r = match sx::param("rows", 0) { 0 => 1 + shape("rows", 2), k => k as usize };
        let kind = match sx::param("fixed", 0) { 0 => 3, _ => sx::choose("successor", 3) };
        let (x, dx) = (vars("x", p.n), vars("dx", p.n));
        let next = GeneralizedJacobian {
            homogenous: DMatrix::from_fn(r, p.m, |i, j| match kind {
                0 => (3 * i + 2 * j) as f64 - 2.0,
                1 => 0.0,
                2 => if (i + j) % 3 == 1 { -1.0 } else { 0.0 },
                _ => sx::fin("G"),
            }),
            inhomogenous: DVector::from_fn(r, |_, _| sx::fin("g")),
            multiplicity: sx::choose("ties", 2) * 3,
        };
        let bits = [sx::int("byte", 0, 255) as u8];
        let g = generalized_jacobian(&p.function(), &dv(&x), &dv(&dx), &bits, None);
        let c = generalized_jacobian(&p.function(), &dv(&x), &dv(&dx), &bits, Some(next.clone()));
        sx::reach("next");
        sx::check(c.multiplicity == g.multiplicity + next.multiplicity, "C13.multiplicity");
        sx::check(c.homogenous.nrows() == r && c.homogenous.ncols() == p.n && c.inhomogenous.nrows() == r, "C13.dimensions");
        for i in 0..r {
            for j in 0..p.n {
                let mut t = 0.0;
                for k in 0..p.m { t = t + next.homogenous[(i, k)] * g.homogenous[(k, j)]; }
                at(&c.homogenous, i, j, t, "C13.next-homogenous");
            }
            let mut t = next.inhomogenous[i];
            for k in 0..p.m { t = t + next.homogenous[(i, k)] * g.inhomogenous[k]; }
            sx::real(c.inhomogenous[i], t, "C13.next-inhomogenous");
        }
    }
    // without ties a chain is its composition
    fn c13_chain() {
        let k = match sx::param("k", 0) { 0 => 1 + sx::choose("links", sx::param("links", 3) as usize), k => k as usize };
        let nested = sx::choose("nested", if k > 2 { 3 } else { 1 });
        let cp = sx::choose("checkpoints", 4);
        sx::shard((k * 100 + nested * 10 + cp) as u64);
        let ps = links(k);
        let (x, dx) = (vars("x", 2), vars("dx", 2));
        // no ties
        let mut v = x.clone();
        let mut dvv = dx.clone();
        for p in &ps {
            let (_, y) = p.eval(&v);
            let (z, w) = p.eval(&add(&v, &dvv));
            for t in z { sx::assume(t != 0.0); }
            dvv = (0..y.len()).map(|i| w[i] - y[i]).collect();
            v = y;
        }
        let n = match cp { 0 => None, c => Some(c + 1) };
        let g = generalized_jacobian_chain(&chain(&ps, nested), dv(&x), dv(&dx), n);
        let w = generalized_jacobian(&composed(&ps), &dv(&x), &dv(&dx), &[0], None);
        sx::reach("chain");
        sx::check(g.multiplicity == 0 && w.multiplicity == 0, "C13.no-ties");
        equal(&g, &w, "C13.chain-is-composition");
    }
    // any checkpoints, ties included
    fn c13_checkpoints() {
        let k = match sx::param("k", 0) { 0 => 1 + sx::choose("links", sx::param("links", 3) as usize), k => k as usize };
        let nested = sx::choose("nested", if k > 2 { 3 } else { 1 });
        sx::shard((k * 3 + nested) as u64);
        let ps = links(k);
        let (x, dx) = (vars("x", 2), vars("dx", 2));
        let g = generalized_jacobian_chain(&chain(&ps, nested), dv(&x), dv(&dx), Some(2));
        // one link after the other
        let mut pts = vec![(x.clone(), dx.clone())];
        for p in &ps {
            let (v, d) = pts.last().unwrap().clone();
            let (_, y) = p.eval(&v);
            let (_, w) = p.eval(&add(&v, &d));
            let dy = (0..y.len()).map(|i| w[i] - y[i]).collect();
            pts.push((y, dy));
        }
        let mut ties = 0;
        for (p, (v, d)) in ps.iter().zip(&pts) {
            let (z, _) = p.eval(&add(v, d));
            ties += signs(&z, &[0]).1;
        }
        sx::check(g.multiplicity == ties, "C13.multiplicity-of-chain");
        sx::reach("checkpoints");
        for n in [None, Some(3), Some(4), Some(7)] {
            let h = generalized_jacobian_chain(&chain(&ps, nested), dv(&x), dv(&dx), n);
            sx::check(g.multiplicity == h.multiplicity, "C13.checkpoints-multiplicity");
            equal(&g, &h, "C13.checkpoints-irrelevant");
        }
        for i in 0..ps[k - 1].m {
            let mut t = g.inhomogenous[i];
            for j in 0..2 { t = t + g.homogenous[(i, j)] * dx[j]; }
            sx::real(t, pts[k].1[i], "C13.increment");
        }
    }
}
