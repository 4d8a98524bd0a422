//! Straight-line programs chosen by the engine, their evaluation with any
//! float type and their derivative by the rules of calculus.
use crate::sx;
use advantage::*;
use num::Float;

pub const BINARY: [OpCode; 4] = [OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Div];
pub const UNARY: [OpCode; 8] = [
    OpCode::Sin,
    OpCode::Cos,
    OpCode::Tan,
    OpCode::Exp,
    OpCode::Ln,
    OpCode::Asin,
    OpCode::Acos,
    OpCode::Atan,
];

/// the operation through the operators and methods of the float type
pub fn apply<F: Float>(op: OpCode, a: F, b: F) -> F {
    match op {
        OpCode::Add => a + b,
        OpCode::Sub => a - b,
        OpCode::Mul => a * b,
        OpCode::Div => a / b,
        OpCode::Sin => a.sin(),
        OpCode::Cos => a.cos(),
        OpCode::Tan => a.tan(),
        OpCode::Abs => a.abs(),
        OpCode::Exp => a.exp(),
        OpCode::Ln => a.ln(),
        OpCode::Asin => a.asin(),
        OpCode::Acos => a.acos(),
        OpCode::Atan => a.atan(),
        OpCode::Powf => a.powf(b),
        _ => unreachable!(),
    }
}

/// directional derivative by the rules of calculus (abs: its increment)
pub fn tangent<S: Float>(op: OpCode, x: S, y: S, dx: S, dy: S) -> S {
    let one = S::one();
    match op {
        OpCode::Add => dx + dy,
        OpCode::Sub => dx - dy,
        OpCode::Mul => dx * y + x * dy,
        OpCode::Div => (dx * y - x * dy) / (y * y),
        OpCode::Sin => dx * x.cos(),
        OpCode::Cos => S::zero() - dx * x.sin(),
        OpCode::Tan => dx / (x.cos() * x.cos()),
        OpCode::Abs => (x + dx).abs() - x.abs(),
        OpCode::Exp => dx * x.exp(),
        OpCode::Ln => dx / x,
        OpCode::Asin => dx / (one - x * x).sqrt(),
        OpCode::Acos => S::zero() - dx / (one - x * x).sqrt(),
        OpCode::Atan => dx / (one + x * x),
        OpCode::Powf => dx * y * x.powf(y - one) + dy * x.ln() * x.powf(y),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Arg {
    Var(usize),
    Plain(f64),
}
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub op: OpCode,
    pub a: Arg,
    pub b: Arg,
}
impl Step {
    pub fn binary(&self) -> bool {
        matches!(self.op, OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf)
    }
}

/// set of operations a program draws from
#[derive(Clone, Copy, PartialEq)]
pub enum Ops {
    /// all smooth ones
    Smooth,
    /// add, sub, mul, div, sin, powf
    Few,
    /// linear and abs
    Linear,
    /// everything
    All,
    /// defined everywhere, and abs
    Mixed,
}

fn ops(o: Ops) -> Vec<OpCode> {
    let mut v = vec![];
    match o {
        Ops::Smooth => {
            v.extend_from_slice(&BINARY);
            v.extend_from_slice(&UNARY);
            v.push(OpCode::Powf);
        }
        Ops::Few => v.extend_from_slice(&[OpCode::Sub, OpCode::Mul, OpCode::Div, OpCode::Sin, OpCode::Powf]),
        Ops::Linear => v.extend_from_slice(&[OpCode::Add, OpCode::Sub, OpCode::Abs]),
        Ops::Mixed => v.extend_from_slice(&[OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Sin, OpCode::Cos, OpCode::Exp, OpCode::Atan, OpCode::Abs]),
        Ops::All => {
            v.extend_from_slice(&BINARY);
            v.extend_from_slice(&UNARY);
            v.push(OpCode::Powf);
            v.push(OpCode::Abs);
        }
    }
    v
}

/// every program of k operations on n inputs; operands are any earlier
/// variable or a plain number; `key` identifies the program
pub fn pick(o: Ops, k: usize, n: usize, plain: bool) -> Vec<Step> {
    if sx::param("long", 0) != 0 {
        return wiring(o, k, n, plain);
    }
    let set = ops(o);
    let mut out = vec![];
    let mut key = 0u64;
    for i in 0..k {
        let pool = n + i;
        let w = sx::choose("op", set.len());
        key = key * 31 + w as u64;
        let op = set[w];
        let mut s = Step { op, a: Arg::Var(0), b: Arg::Var(0) };
        if s.binary() {
            // var-var pairs, then plain on the right, plain on the left
            let pl = if plain { 2 * pool } else { 0 };
            let c = sx::choose("args", pool * pool + pl);
            key = key * 101 + c as u64;
            if c < pool * pool {
                s.a = Arg::Var(c / pool);
                s.b = Arg::Var(c % pool);
            } else if c < pool * pool + pool {
                s.a = Arg::Var(c - pool * pool);
                s.b = Arg::Plain(sx::fin("plain"));
            } else {
                s.b = Arg::Var(c - pool * pool - pool);
                s.a = Arg::Plain(sx::fin("plain"));
            }
        } else {
            let c = sx::choose("args", pool);
            key = key * 101 + c as u64;
            s.a = Arg::Var(c);
        }
        if i == 1.min(k - 1) {
            sx::shard(key * 8 + i as u64);
        }
        out.push(s);
    }
    out
}

/// one of `long` fixed programs of k operations, any length
fn wiring(o: Ops, k: usize, n: usize, plain: bool) -> Vec<Step> {
    let salt = sx::choose("wiring", sx::param("long", 0) as usize);
    sx::shard(salt as u64);
    let mut r = 1 + (salt as u64) * 7919 + n as u64 * 104729 + sx::param("salt", 0) as u64 * 15485863;
    let mut next = |m: usize| {
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (r >> 33) as usize % m
    };
    let set = ops(o);
    let (mut curved, mut kinks, mut powers) = (0, 0, 0);
    let (curves, folds) = (sx::param("curves", 3) as usize, sx::param("kinks", 3) as usize);
    // all along the program
    let any = o == Ops::All && sx::param("curves", 0) == 0;
    let gate = (k / (3 * curves + 1)).max(4);
    let mut out = vec![];
    for i in 0..k {
        let pool = n + i;
        let op = loop {
            let c = set[next(set.len())];
            let op = if !any && o != Ops::Linear && next(gate) > 0 { [OpCode::Add, OpCode::Sub][next(2)] } else { c };
            match op {
                OpCode::Add | OpCode::Sub => break op,
                OpCode::Abs if kinks == folds => continue,
                OpCode::Abs => { kinks += 1; break op }
                _ if any => break op,
                // everywhere defined ones, few of them
                OpCode::Mul | OpCode::Sin | OpCode::Cos | OpCode::Exp | OpCode::Atan if curved < curves => { curved += 1; break op }
                OpCode::Powf if powers == 2 => continue,
                _ if o == Ops::All && curved < curves => { powers += (op == OpCode::Powf) as usize; curved += 1; break op }
                _ => continue,
            }
        };
        // mostly recent operands, every input at least once, or the first and the last ones
        let mut operand = |late: usize| if i < n && k >= n { i } else if i < n { if i % 2 == 0 { i } else { n - 1 - i } } else if next(3) < late { pool - 1 - next(pool.min(3)) } else { next(pool) };
        let (a, b) = (operand(2), operand(1));
        let mut s = Step { op, a: Arg::Var(a), b: Arg::Var(b) };
        if s.binary() && plain && next(4) == 0 {
            let c = Arg::Plain(sx::fin("plain"));
            if next(2) == 0 { s.a = c } else { s.b = c }
        }
        if !s.binary() { s.b = s.a }
        out.push(s);
    }
    out
}

pub fn arg<F: Float>(a: Arg, pool: &[F]) -> F {
    match a {
        Arg::Var(i) => pool[i],
        Arg::Plain(c) => F::from(c).unwrap(),
    }
}
/// inputs followed by every result
pub fn eval<F: Float>(p: &[Step], inputs: &[F]) -> Vec<F> {
    let mut v = inputs.to_vec();
    for s in p {
        let (a, b) = (arg(s.a, &v), arg(s.b, &v));
        v.push(apply(s.op, a, b));
    }
    v
}
/// as `eval`, plain operands through the mixed operators of ADouble
pub fn eval_mixed(p: &[Step], inputs: &[ADouble]) -> Vec<ADouble> {
    let mut v = inputs.to_vec();
    for s in p {
        let r = match (s.op, s.a, s.b) {
            (OpCode::Add, Arg::Var(i), Arg::Plain(c)) => v[i] + c,
            (OpCode::Sub, Arg::Var(i), Arg::Plain(c)) => v[i] - c,
            (OpCode::Mul, Arg::Var(i), Arg::Plain(c)) => v[i] * c,
            (OpCode::Div, Arg::Var(i), Arg::Plain(c)) => v[i] / c,
            (OpCode::Add, Arg::Plain(c), Arg::Var(i)) => c + v[i],
            (OpCode::Sub, Arg::Plain(c), Arg::Var(i)) => c - v[i],
            (OpCode::Mul, Arg::Plain(c), Arg::Var(i)) => c * v[i],
            (OpCode::Div, Arg::Plain(c), Arg::Var(i)) => c / v[i],
            _ => apply(s.op, arg(s.a, &v), arg(s.b, &v)),
        };
        v.push(r);
    }
    v
}
/// tangents of inputs and results by the rules of calculus
pub fn tangents(p: &[Step], inputs: &[f64], dinputs: &[f64]) -> Vec<f64> {
    let mut v = inputs.to_vec();
    let mut d = dinputs.to_vec();
    for s in p {
        let (a, b) = (arg(s.a, &v), arg(s.b, &v));
        let da = if let Arg::Var(i) = s.a { d[i] } else { 0.0 };
        let db = if let Arg::Var(i) = s.b { d[i] } else { 0.0 };
        let t = if s.op == OpCode::Powf {
            // the base is positive here
            let mut t = 0.0;
            if let Arg::Var(_) = s.a {
                t = da * b * a.powf(b - 1.0);
            }
            if let Arg::Var(_) = s.b {
                t = t + db * a.ln() * a.powf(b);
            }
            t
        } else {
            tangent(s.op, a, b, da, db)
        };
        v.push(apply(s.op, a, b));
        d.push(t);
    }
    d
}
/// stay inside the operations' domains of differentiability
pub fn domain(p: &[Step], inputs: &[f64]) {
    let mut v = inputs.to_vec();
    for s in p {
        let (a, b) = (arg(s.a, &v), arg(s.b, &v));
        match s.op {
            OpCode::Div => sx::assume(b != 0.0),
            OpCode::Ln | OpCode::Powf => sx::assume(a > 0.0),
            OpCode::Tan => sx::assume(a.cos() != 0.0),
            OpCode::Asin | OpCode::Acos => sx::assume(a > -1.0 && a < 1.0),
            _ => {}
        }
        v.push(apply(s.op, a, b));
    }
}
