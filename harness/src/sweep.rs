//! C02, C03, C04, C09: sweeps over whole recorded tapes.
use crate::prog::*;
use crate::sx;
use advantage::drivers::*;
use advantage::*;
use nalgebra::DVector;
use num::Float;

pub fn set(i: i64) -> Ops {
    match i {
        0 => Ops::Smooth,
        1 => Ops::Few,
        2 => Ops::Linear,
        4 => Ops::Mixed,
        _ => Ops::All,
    }
}
/// which variables of the pool are results
pub fn outputs(pool: usize, n: usize) -> Vec<usize> {
    let last = pool - 1;
    if sx::param("wide", 0) != 0 {
        // all of them
        return (0..pool).rev().collect();
    }
    match sx::choose("outputs", 3) {
        // repeated, an input, an intermediate, the last one
        0 => vec![last, 0, n.min(last), last],
        1 => vec![last],
        _ => vec![n - 1, last, n / 2, n - 1],
    }
}
fn vars(t: &str, n: usize) -> Vec<f64> {
    (0..n).map(|_| sx::fin(t)).collect()
}
pub fn dv(v: &[f64]) -> DVector<f64> {
    DVector::from_vec(v.to_vec())
}
pub fn same(a: &DVector<f64>, b: &DVector<f64>, l: &str) {
    sx::check(a.nrows() == b.nrows(), l);
    for i in 0..a.nrows() {
        sx::bits(a[i], b[i], l);
    }
}
/// operations not part of the program, between two registrations
pub fn late() -> bool {
    sx::param("late", 0) != 0
}
/// record a program; results are the pool
pub fn record(ctx: &mut AContext, p: &[Step], x: &[f64], dx: &[f64], outs: &[usize]) -> Vec<ADouble> {
    let mut ins: Vec<ADouble> = vec![];
    for i in 0..x.len() {
        if i > 0 && late() {
            let _ = if i == 1 { ins[0].sin() } else { ins[0] - 1.0 };
        }
        let mut a = ADouble::new(x[i], dx[i]);
        ctx.set_indep(&mut a);
        ins.push(a);
    }
    let pool = eval_mixed(p, &ins);
    for o in outs {
        ctx.set_dep(&pool[*o]);
    }
    pool
}
/// a function object computing the program's outputs
pub fn function(p: Vec<Step>, n: usize, outs: Vec<usize>, constant: Option<f64>) -> impl Function {
    let m = outs.len() + constant.is_some() as usize;
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| {
        let ins: Vec<ADouble> = x.iter().cloned().collect();
        let pool = eval_mixed(&p, &ins);
        let mut y: Vec<ADouble> = outs.iter().map(|o| pool[*o]).collect();
        if let Some(c) = constant {
            y.push(ADouble::from(c));
        }
        DVector::from_vec(y)
    })
}

crate::entries! {
    // ybar . (J dx) == (J^T ybar) . dx
    fn c02_tape() {
        let k = sx::param("k", 2) as usize;
        let n = sx::param("n", 2) as usize;
        let p = pick(set(sx::param("set", 0)), k, n, sx::param("plain", 0) != 0);
        let outs = outputs(n + k, n);
        let x = vars("x", n);
        domain(&p, &x);
        let mut ctx = AContext::new();
        record(&mut ctx, &p, &x, &vec![0.0; n], &outs);
        let tape = ctx.tape();
        let (dx, ybar) = (vars("dx", n), vars("ybar", outs.len()));
        let dy = tape.first_order_forward(&dv(&dx));
        let xbar = tape.first_order_reverse(&dv(&ybar));
        sx::check(dy.nrows() == outs.len() && xbar.nrows() == n, "C02.dimensions");
        let mut fwd = 0.0;
        for i in 0..outs.len() { fwd = fwd + ybar[i] * dy[i]; }
        let mut rev = 0.0;
        for i in 0..n { rev = rev + xbar[i] * dx[i]; }
        sx::reach("tape");
        sx::real(rev, fwd, "C02.tape-adjoint");
    }

    fn c03_jacobian() {
        let k = sx::param("k", 1) as usize;
        let n = sx::param("n", 2) as usize;
        let p = pick(set(sx::param("set", 0)), k, n, sx::param("plain", 0) != 0);
        let outs = outputs(n + k, n);
        let cst = sx::choose("constant", 2) == 1;
        let c = if cst { Some(sx::fin("c")) } else { None };
        let x = vars("x", n);
        domain(&p, &x);
        let m = outs.len() + cst as usize;
        let f = function(p.clone(), n, outs.clone(), c);
        let jf = jacobian_forward(&f, &dv(&x));
        let tape = if late() {
            let mut ctx = AContext::new();
            record(&mut ctx, &p, &x, &vec![0.0; n], &outs);
            if let Some(c) = c { ctx.set_dep(&ADouble::from(c)); }
            Box::new(ctx.tape())
        } else {
            f.tape(&dv(&x))
        };
        let jr = jacobian_reverse(&*tape);
        sx::check(jf.nrows() == m && jf.ncols() == n, "C03.forward-dimensions");
        sx::check(jr.nrows() == m && jr.ncols() == n, "C03.reverse-dimensions");
        sx::reach("jacobian");
        for j in 0..n {
            let mut e = vec![0.0; n];
            e[j] = 1.0;
            let t = tangents(&p, &x, &e);
            for i in 0..m {
                let want = if i < outs.len() { t[outs[i]] } else { 0.0 };
                sx::real(jf[(i, j)], want, "C03.forward-entry");
                sx::real(jr[(i, j)], want, "C03.reverse-entry");
            }
        }
    }

    // a tape replays bit for bit
    fn c04_replay() {
        let k = sx::param("k", 2) as usize;
        let n = sx::param("n", 2) as usize;
        let p = pick(set(sx::param("set", 3)), k, n, sx::param("plain", 0) != 0);
        let mut outs: Vec<usize> = (0..n + k).rev().collect();
        outs.push(n + k - 1);
        let x: Vec<f64> = (0..n).map(|_| sx::f64("x0")).collect();
        let mut ctx = AContext::new();
        record(&mut ctx, &p, &x, &vec![0.0; n], &outs);
        let mut tape = ctx.tape();
        let fresh = tape.clone();
        // as recorded
        let pool = eval(&p, &x);
        let want = |pool: &[f64]| DVector::from_vec(outs.iter().map(|o| pool[*o]).collect::<Vec<_>>());
        same(&tape.x(), &dv(&x), "C04.recorded-x");
        same(&tape.y(), &want(&pool), "C04.recorded-y");
        let mut vids = tape.indeps().to_vec();
        let fillers = if late() { n - 1 } else { 0 };
        vids.extend(tape.ops_iter().filter(|o| o.opcode != OpCode::Const).map(|o| o.vid).skip(fillers));
        sx::check(vids.len() == n + k, "C04.recorded-operations");
        for i in 0..n + k { sx::bits(tape.values()[vids[i]], pool[i], "C04.recorded-values"); }
        // at other points, some of them again, and back
        let single = sx::param("single", 0) != 0;
        let moved = if single { [0, n - 1, n / 2, 64 % n][sx::choose("moved", 4)] } else { 0 };
        let mut visits: Vec<Vec<f64>> = vec![];
        for v in 0..sx::param("visits", 2) as usize {
            let again = v % 3 == 2;
            visits.push(if again {
                visits[v - 2].clone()
            } else if single {
                // one coordinate moves
                let mut q = if v == 0 { x.clone() } else { visits[v - 1].clone() };
                let k = if v == 0 { moved } else { (moved * 7 + v * 13) % n };
                q[k] = sx::f64("x1");
                q
            } else {
                (0..n).map(|_| sx::f64("x1")).collect()
            });
        }
        visits.push(x.clone());
        for q in &visits {
            tape.zero_order(&dv(q));
            let pool = eval(&p, q);
            same(&tape.x(), &dv(q), "C04.replayed-x");
            same(&tape.y(), &want(&pool), "C04.replayed-y");
            for i in 0..n + k { sx::bits(tape.values()[vids[i]], pool[i], "C04.replayed-values"); }
        }
        same(&dv(tape.values()), &dv(fresh.values()), "C04.return-to-start");
        sx::reach("replay");
    }
    // derivatives after a replay are those at the replayed point
    fn c04_derivative() {
        let k = sx::param("k", 1) as usize;
        let n = 2;
        let p = pick(set(sx::param("set", 0)), k, n, sx::param("plain", 1) != 0);
        let outs = outputs(n + k, n);
        let (x, x1) = (vars("x0", n), vars("x1", n));
        let mut c1 = AContext::new();
        record(&mut c1, &p, &x, &vec![0.0; n], &outs);
        let mut tape = c1.tape();
        // elsewhere before
        for _ in 0..sx::param("rounds", 0) {
            let q = vars("x", n);
            tape.zero_order(&dv(&q));
            let mut c = AContext::new();
            record(&mut c, &p, &q, &vec![0.0; n], &outs);
            let fresh = c.tape();
            for _ in 0..2 {
                let (d, w) = (dv(&vars("d", n)), dv(&vars("w", outs.len())));
                same(&tape.first_order_reverse(&w), &fresh.first_order_reverse(&w), "C04.reverse-in-round");
                same(&tape.first_order_forward(&d), &fresh.first_order_forward(&d), "C04.forward-in-round");
            }
        }
        tape.zero_order(&dv(&x1));
        let mut c2 = AContext::new();
        record(&mut c2, &p, &x1, &vec![0.0; n], &outs);
        let fresh = c2.tape();
        let dx = dv(&vars("dx", n));
        let ybar = dv(&vars("ybar", outs.len()));
        same(&tape.first_order_forward(&dx), &fresh.first_order_forward(&dx), "C04.forward-at-last-point");
        same(&tape.first_order_reverse(&ybar), &fresh.first_order_reverse(&ybar), "C04.reverse-at-last-point");
        sx::reach("derivative");
    }

    // plain tangents, tangents while recording and the forward sweep
    fn c09_program() {
        let k = sx::param("k", 2) as usize;
        let n = sx::param("n", 2) as usize;
        let p = pick(set(sx::param("set", 3)), k, n, sx::param("plain", 0) != 0);
        let outs: Vec<usize> = (0..n + k).collect();
        let x: Vec<f64> = (0..n).map(|_| sx::f64("x")).collect();
        let dx: Vec<f64> = (0..n).map(|_| sx::f64("dx")).collect();
        let ins: Vec<ADouble> = (0..n).map(|i| ADouble::new(x[i], dx[i])).collect();
        let plain = eval_mixed(&p, &ins);
        let mut ctx = AContext::new();
        let rec = record(&mut ctx, &p, &x, &dx, &outs);
        let dy = ctx.tape().first_order_forward(&dv(&dx));
        sx::check(dy.nrows() == n + k, "C09.dimensions");
        sx::reach("program");
        for i in 0..n + k {
            sx::bits(rec[i].value(), plain[i].value(), "C09.recorded-value");
            sx::bits(rec[i].dvalue(), plain[i].dvalue(), "C09.recorded-tangent");
            sx::bits(dy[i], plain[i].dvalue(), "C09.sweep-tangent");
        }
    }
}
