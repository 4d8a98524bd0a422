//! C15: function objects, chains, literals.
use crate::sweep::{dv, same};
use crate::sx;
use advantage::prelude::*;
use advantage::*;

adv_fn! {
    fn scaled(x: [[3]], a: f64, b: f64) -> [[2]] {
        let mut y = DVector::from_element(2, x[0] * a - x[1]);
        y[1] = x[2] / x[1] + b;
        y
    }
}
adv_fn! {
    fn named([[p, q, r, s]], a: f64) -> [[3]] {
        adv_dvec![p - q * a, q / r, s - p]
    }
}
adv_fn! {
    pub fn single([[p]]) -> [[1]] {
        adv_dvec![p.abs() - p * 2.0]
    }
}
adv_fn! {
    /// dimensions from the extra arguments
    fn spread(x: [[n + 1]], n: usize, times: usize) -> [[n * times]] {
        let mut y = DVector::from_element(n * times, x[n]);
        for i in 0..n * times {
            y[i] = x[i % n] - y[i] * (i as f64);
        }
        y
    }
}
adv_fn! {
    fn weighted(x: [[2]], w: Vec<f64>) -> [[w.len()]] {
        DVector::from_vec(w.iter().map(|w| x[0] * *w - x[1]).collect())
    }
}
adv_fn! {
    fn wrong(x: [[2]], k: usize) -> [[2]] {
        DVector::from_element(k, x[0])
    }
}
adv_fn! {
    fn constants(x: [[2]], a: f64) -> [[3]] {
        adv_dvec![Scalar::zero() + a, x[1], x[1]]
    }
}

fn input(n: usize) -> Vec<f64> {
    (0..n).map(|_| sx::f64("x")).collect()
}
fn ad(v: &[f64]) -> DVector<ADouble> {
    DVector::from_iterator(v.len(), v.iter().map(|x| ADouble::from(*x)))
}
fn vals(v: &DVector<ADouble>) -> Vec<f64> {
    v.iter().map(|x| x.value()).collect()
}
fn eq(a: &[f64], b: &[f64], l: &str) {
    sx::check(a.len() == b.len(), "C15.dimensions");
    for (x, y) in a.iter().zip(b) {
        sx::bits(*x, *y, l);
    }
}

/// everything an object offers against the specification
fn agree(f: &dyn Function, n: usize, m: usize, spec: &dyn Fn(&[f64]) -> Vec<f64>) {
    sx::check(f.n() == n && f.m() == m, "C15.declared-dimensions");
    let x = input(n);
    let want = spec(&x);
    sx::check(want.len() == m, "C15.declared-dimensions");
    eq(&vals(&f.eval(ad(&x))), &want, "C15.eval");
    // tangents of plain arguments do not disturb the values
    let x1: DVector<ADouble> = DVector::from_iterator(n, x.iter().map(|x| ADouble::new(*x, 1.0)));
    eq(&vals(&f.eval(x1)), &want, "C15.eval");
    eq(f.eval_float(dv(&x)).as_slice(), &want, "C15.eval-float");
    let t = f.tape(&dv(&x));
    sx::check(t.num_indeps() == n && t.num_deps() == m, "C15.tape-dimensions");
    for (i, v) in t.indeps().iter().enumerate() {
        sx::bits(t.values()[*v], x[i], "C15.tape-inputs");
    }
    for (i, v) in t.deps().iter().enumerate() {
        sx::bits(t.values()[*v], want[i], "C15.tape-results");
    }
    // another point
    let y = input(n);
    let want = spec(&y);
    let mut t = t;
    t.zero_order(&dv(&y));
    for (i, v) in t.deps().iter().enumerate() {
        sx::bits(t.values()[*v], want[i], "C15.tape-elsewhere");
    }
    eq(f.eval_float(dv(&y)).as_slice(), &want, "C15.eval-float");
    eq(&vals(&f.eval(ad(&y))), &want, "C15.eval-again");
}

/// A link with its own number: y_j = x_(j mod n) * c + j, or unknown to AD
struct Link {
    id: u32,
    n: usize,
    m: usize,
    c: f64,
}
impl Link {
    fn spec(&self, x: &[f64]) -> Vec<f64> {
        (0..self.m).map(|j| x[j % self.n] * self.c - (self.id as f64 + j as f64)).collect()
    }
}
impl Function for Link {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        sx::check(x.len() == self.n, "C15.link-input-dimension");
        DVector::from_iterator(self.m, (0..self.m).map(|j| x[j % self.n] * self.c - (self.id as f64 + j as f64)))
    }
}

/// the dimensions a chain passes through before its i-th link
fn dim(i: usize) -> usize {
    [2, 1, 3, 2, 1, 1][i % 6]
}

/// Links from..to as a chain, nested in a way chosen by the engine.
fn build(from: usize, to: usize, c: &[f64], depth: usize, pick: &mut sx::Pick) -> FunctionChain {
    let mut chain: Option<FunctionChain> = None;
    let mut i = from;
    while i < to {
        // one link, or a chain of its own
        let most = if depth == 0 { 0 } else { (to - i).min(sx::param("group", 1000) as usize) };
        let k = pick.choose("group", most + 1);
        let (f, next): (Box<dyn Function>, usize) = if k == 0 {
            (Box::new(Link { id: i as u32 * 16, n: dim(i), m: dim(i + 1), c: c[i] }), i + 1)
        } else {
            (Box::new(build(i, i + k, c, depth - 1, pick)), i + k)
        };
        i = next;
        match &mut chain {
            None => chain = Some(FunctionChain::from_boxed(f)),
            Some(c) => c.append_boxed(f),
        }
    }
    chain.unwrap()
}

crate::entries! {
    fn c15_objects() {
        match sx::choose("object", 7) {
            0 => {
                let (a, b) = (sx::f64("a"), sx::f64("b"));
                let spec = |x: &[f64]| vec![x[0] * a - x[1], x[2] / x[1] + b];
                agree(&adv_fn_obj!(scaled, a, b), 3, 2, &spec);
                let x = input(3);
                eq(scaled(dv(&x), a, b).as_slice(), &spec(&x), "C15.generic-float");
                eq(&vals(&scaled(ad(&x), a, b)), &spec(&x), "C15.generic-adouble");
            }
            1 => {
                let a = sx::f64("a");
                let spec = |x: &[f64]| vec![x[0] - x[1] * a, x[1] / x[2], x[3] - x[0]];
                agree(&adv_fn_obj!(named, a), 4, 3, &spec);
                let x = input(4);
                eq(named(dv(&x), a).as_slice(), &spec(&x), "C15.generic-float");
            }
            2 => {
                let spec = |x: &[f64]| vec![x[0].abs() - x[0] * 2.0];
                agree(&adv_fn_obj!(single), 1, 1, &spec);
                let x = input(1);
                eq(single(dv(&x)).as_slice(), &spec(&x), "C15.generic-float");
            }
            3 => {
                let n = [1, 2, 3, 33][sx::choose("n", 4)];
                let times = 1 + sx::choose("times", 3);
                let spec = |x: &[f64]| (0..n * times).map(|i| x[i % n] - x[n] * (i as f64)).collect::<Vec<f64>>();
                agree(&adv_fn_obj!(spread, n, times), n + 1, n * times, &spec);
                let x = input(n + 1);
                eq(spread(dv(&x), n, times).as_slice(), &spec(&x), "C15.generic-float");
            }
            4 => {
                let w: Vec<f64> = (0..1 + sx::choose("weights", 3)).map(|_| sx::f64("w")).collect();
                let v = w.clone();
                let spec = |x: &[f64]| v.iter().map(|w| x[0] * *w - x[1]).collect::<Vec<f64>>();
                agree(&adv_fn_obj!(weighted, w.clone()), 2, w.len(), &spec);
            }
            5 => {
                let a = sx::f64("a");
                let spec = |x: &[f64]| vec![0.0 + a, x[1], x[1]];
                agree(&adv_fn_obj!(constants, a), 2, 3, &spec);
            }
            _ => {
                // boxed
                let (a, b) = (sx::f64("a"), sx::f64("b"));
                let spec = |x: &[f64]| vec![x[0] * a - x[1], x[2] / x[1] + b];
                let f: Box<dyn Function> = Box::new(adv_fn_obj!(scaled, a, b));
                sx::check(f.chain().is_none(), "C15.simple-function-is-no-chain");
                agree(&*f, 3, 2, &spec);
            }
        }
        sx::reach("objects");
    }

    /// wrong argument and result dimensions are refused by every way in
    fn c15_mismatch() {
        let n = sx::choose("n", 5);
        let k = sx::choose("k", 4);
        let x: Vec<f64> = (0..n).map(|_| sx::f64("x")).collect();
        let way = sx::choose("way", 3);
        let bad = adv_fn_obj!(wrong, k);
        let good = n == 2 && k == 2;
        if !good {
            sx::expect_panic("C15.mismatch-refused");
        }
        match way {
            0 => { bad.eval(ad(&x)); }
            1 => { bad.eval_float(dv(&x)); }
            _ => { wrong(dv(&x), k); }
        }
        if !good {
            // nothing refused
            return;
        }
        sx::reach("accepted");
    }
    fn c15_tape_mismatch() {
        let n = sx::choose("n", 5);
        if n == 4 {
            return;
        }
        let x: Vec<f64> = (0..n).map(|_| sx::f64("x")).collect();
        let f = adv_fn_obj!(named, 2.0);
        sx::expect_panic("C15.mismatch-refused");
        match sx::choose("way", 2) {
            0 => { f.tape(&dv(&x)); }
            _ => { named(ad(&x), 1.0); }
        }
    }

    /// every nesting of up to `links` links
    fn c15_chain() {
        let mut pick = sx::Pick::new();
        let most = sx::param("links", 4) as usize;
        let k = if pick.long() { most } else { 1 + sx::choose("links", most) };
        let c: Vec<f64> = (0..k).map(|_| sx::f64("c")).collect();
        let f = build(0, k, &c, sx::param("depth", 2) as usize, &mut pick);
        sx::check(f.n() == dim(0) && f.m() == dim(k), "C15.chain-dimensions");
        sx::check(f.len() == k && f.iter().count() == k, "C15.chain-length");
        let links: Vec<Link> = (0..k).map(|i| Link { id: i as u32 * 16, n: dim(i), m: dim(i + 1), c: c[i] }).collect();
        let spec = |x: &[f64]| links.iter().fold(x.to_vec(), |x, l| l.spec(&x));
        agree(&f, dim(0), dim(k), &spec);
        // the links, in the order they are applied
        for (i, g) in f.iter().enumerate() {
            sx::check(g.n() == dim(i) && g.m() == dim(i + 1), "C15.link-dimensions");
            sx::check(g.chain().is_none(), "C15.links-are-flat");
            let x = input(dim(i));
            eq(g.eval_float(dv(&x)).as_slice(), &links[i].spec(&x), "C15.link-order");
            eq(f.nth(i).eval_float(dv(&x)).as_slice(), &links[i].spec(&x), "C15.nth-link");
        }
        sx::check(f.chain().is_some(), "C15.chain-is-a-chain");
        sx::reach("chain");
    }
    /// links that do not fit are refused, and only those
    fn c15_chain_mismatch() {
        let (m, n) = (1 + sx::choose("m", 3), 1 + sx::choose("n", 3));
        let nest = sx::choose("nest", 4);
        let a = Link { id: 1, n: 2, m, c: 2.0 };
        let b = Link { id: 2, n, m: 2, c: 3.0 };
        let mut f = if nest & 1 == 0 { FunctionChain::new(a) } else { FunctionChain::new(FunctionChain::new(a)) };
        if m != n {
            sx::expect_panic("C15.misfit-refused");
        }
        if nest & 2 == 0 {
            f.append(b);
        } else {
            f.append_boxed(Box::new(FunctionChain::new(b)));
        }
        if m == n {
            sx::check(f.len() == 2 && f.n() == 2 && f.m() == 2, "C15.chain-dimensions");
            sx::reach("accepted");
        }
    }
    /// a link outside the chain is refused
    fn c15_nth_outside() {
        let c = [sx::f64("c"), sx::f64("c")];
        let f = build(0, 2, &c, 1, &mut sx::Pick::new());
        let i = 2 + sx::choose("i", 3);
        sx::expect_panic("C15.no-such-link");
        f.nth(i);
    }

    fn c15_literals() {
        let (a, b, c) = (sx::f64("a"), sx::f64("b"), sx::f64("c"));
        eq(adv_dvec![a, b, c].as_slice(), &[a, b, c], "C15.vector-literal");
        eq(adv_dvec![a, b,].as_slice(), &[a, b], "C15.vector-literal");
        eq(adv_dvec![c].as_slice(), &[c], "C15.vector-literal");
        let n = sx::choose("n", 5);
        eq(adv_dvec![a - b; n].as_slice(), &vec![a - b; n], "C15.vector-literal");
        same(&adv_dvec![b, a], &DVector::from_vec(vec![b, a]), "C15.vector-literal");
        let x = [ADouble::from(a), ADouble::from(b)];
        eq(&vals(&adv_dvec![x[1], x[0] - x[1]]), &[b, a - b], "C15.vector-literal");
        sx::reach("literals");
    }
}
