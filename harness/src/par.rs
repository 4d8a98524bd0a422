//! C19: the parallel drivers under every work split, order and reduction tree.
use crate::sweep::dv;
use crate::sx;
use advantage::drivers::*;
use advantage::*;
use nalgebra::{DMatrix, DVector};
use num::Float;

/// n inputs, m results, every result depending on every input
fn body<F: Float>(x: &[F], m: usize, pl: bool) -> Vec<F> {
    (0..m)
        .map(|i| {
            let mut t = x[i % x.len()].sin();
            for k in 0..x.len() {
                t = match (i + k) % 4 {
                    0 => t * x[k],
                    1 => t - x[k],
                    2 => t / x[k],
                    _ => t + x[k].exp(),
                };
                if pl && k == i {
                    t = t.abs();
                }
            }
            t
        })
        .collect()
}
fn func(n: usize, m: usize, pl: bool) -> impl Function {
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| DVector::from_vec(body(x.as_slice(), m, pl)))
}
fn vars(t: &str, n: usize) -> Vec<f64> {
    (0..n).map(|_| sx::f64(t)).collect()
}
fn mat(t: &str, r: usize, c: usize) -> DMatrix<f64> {
    DMatrix::from_vec(r, c, vars(t, r * c))
}
fn recorded(x: &[f64], m: usize) -> Box<dyn Tape> {
    let mut ctx = AContext::new();
    let ins = ctx.new_indep_vec(x.len(), 0.0);
    for y in body(&ins, m, false) {
        ctx.set_dep(&y);
    }
    let mut t = ctx.tape();
    t.zero_order(&dv(x));
    Box::new(t)
}
/// sizes of the iteration and of the other dimension
fn size() -> (usize, usize) {
    (sx::param("n", 4) as usize, sx::param("other", 2) as usize)
}

crate::entries! {
    fn c19_jacobian_forward() {
        let (n, m) = size();
        let x = vars("x", n);
        let f = func(n, m, false);
        let jac = jacobian_forward(&f, &dv(&x));
        sx::check(jac.nrows() == m && jac.ncols() == n, "C19.shape");
        for j in 0..n {
            let ins: Vec<ADouble> = (0..n).map(|i| ADouble::new(x[i], if i == j { 1.0 } else { 0.0 })).collect();
            let y = f.eval(DVector::from_vec(ins));
            for i in 0..m {
                sx::bits(jac[(i, j)], y[i].dvalue(), "C19.jacobian-forward");
            }
        }
        sx::reach("jacobian-forward");
    }
    fn c19_jacobian_reverse() {
        let (m, n) = size();
        let x = vars("x", n);
        let t = recorded(&x, m);
        let jac = jacobian_reverse(&*t);
        sx::check(jac.nrows() == m && jac.ncols() == n, "C19.shape");
        for i in 0..m {
            let w: Vec<f64> = (0..m).map(|k| if i == k { 1.0 } else { 0.0 }).collect();
            let xbar = t.first_order_reverse(&dv(&w));
            for j in 0..n {
                sx::bits(jac[(i, j)], xbar[j], "C19.jacobian-reverse");
            }
        }
        sx::reach("jacobian-reverse");
    }
    fn c19_products() {
        let (k, other) = size();
        let n = other;
        let which = sx::choose("matrix", 4);
        let left = sx::choose("side", 2) == 1;
        let f = func(n, 2, true);
        let x = vars("x", n);
        let abs = AbsNormalTape::new(f.tape(&dv(&x)));
        macro_rules! go {
            ($t:ident) => {{
                let a = $t::new(&abs);
                let (r, c) = (a.num_deps(), a.num_indeps());
                if left {
                    let b = mat("B", k, r);
                    let p = a.mul_left(&b);
                    sx::check(p.nrows() == k && p.ncols() == c, "C19.shape");
                    for i in 0..k {
                        let w: Vec<f64> = (0..r).map(|j| b[(i, j)]).collect();
                        let v = a.first_order_reverse(&dv(&w));
                        for j in 0..c {
                            sx::bits(p[(i, j)], v[j], "C19.product-left");
                        }
                    }
                } else {
                    let b = mat("B", c, k);
                    let p = a.mul_right(&b);
                    sx::check(p.nrows() == r && p.ncols() == k, "C19.shape");
                    for j in 0..k {
                        let w: Vec<f64> = (0..c).map(|i| b[(i, j)]).collect();
                        let v = a.first_order_forward(&dv(&w));
                        for i in 0..r {
                            sx::bits(p[(i, j)], v[i], "C19.product-right");
                        }
                    }
                }
            }};
        }
        match which {
            0 => go!(AbsNormalZ),
            1 => go!(AbsNormalL),
            2 => go!(AbsNormalJ),
            _ => go!(AbsNormalY),
        }
        sx::reach("products");
    }
}
