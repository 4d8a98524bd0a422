//! C01, C02: the elementary operations, one operation at a time.
use crate::prog::{apply, tangent, BINARY, UNARY};
use crate::sx::{self, Sc};
use advantage::*;

pub fn operation(op: OpCode, vid: usize, a: usize, b: usize) -> Operation {
    match op {
        OpCode::Add => Operation::add(vid, a, b),
        OpCode::Sub => Operation::sub(vid, a, b),
        OpCode::Mul => Operation::mul(vid, a, b),
        OpCode::Div => Operation::div(vid, a, b),
        OpCode::Sin => Operation::sin(vid, a),
        OpCode::Cos => Operation::cos(vid, a),
        OpCode::Tan => Operation::tan(vid, a),
        OpCode::Abs => Operation::abs(vid, a),
        OpCode::Exp => Operation::exp(vid, a),
        OpCode::Ln => Operation::ln(vid, a),
        OpCode::Asin => Operation::asin(vid, a),
        OpCode::Acos => Operation::acos(vid, a),
        OpCode::Atan => Operation::atan(vid, a),
        OpCode::Powf => Operation::powf(vid, a, b),
        OpCode::Const => Operation::constant(vid),
        OpCode::Nop => Operation::nop(),
    }
}
fn smooth(k: usize) -> OpCode {
    if k < 4 {
        BINARY[k]
    } else {
        UNARY[k - 4]
    }
}
/// open domain of differentiability
fn inside<S: Sc>(op: OpCode, x: S, y: S) {
    match op {
        OpCode::Div => sx::assume(y != S::zero()),
        OpCode::Ln | OpCode::Powf => sx::assume(x > S::zero()),
        OpCode::Tan => sx::assume(x.cos() != S::zero()),
        OpCode::Asin | OpCode::Acos => sx::assume(x > S::zero() - S::one() && x < S::one()),
        _ => {}
    }
}

fn afloat<S: Sc>()
where
    AFloat<S>: std::ops::Add<f64, Output = AFloat<S>>,
{
    let op = match sx::choose("op", 14) {
        12 => OpCode::Powf,
        13 => OpCode::Abs,
        k => smooth(k),
    };
    let binary = BINARY.contains(&op) || op == OpCode::Powf;
    let rec = sx::choose("rec", if binary { 4 } else { 2 });
    let (x, y, dx, dy): (S, S, S, S) = (sx::fs("x"), sx::fs("y"), sx::fs("dx"), sx::fs("dy"));
    inside(op, x, y);
    let e = S::c(sx::scale());
    let mut ctx = AContext::new();
    let (mut a, mut b) = (AFloat::new(x, dx * e), AFloat::new(y, dy * e));
    if rec & 1 != 0 {
        ctx.set_indep(&mut a);
    }
    if rec & 2 != 0 {
        ctx.set_indep(&mut b);
    }
    let same = binary && sx::choose("same", 2) == 1;
    let r = if same { apply(op, a, a) } else { apply(op, a, b) };
    sx::reach("afloat");
    let want = if same { tangent(op, x, x, dx, dx) } else { tangent(op, x, y, dx, dy) };
    if op == OpCode::Abs && e != S::one() {
        sx::assume(x > S::one() && dx.abs() < S::one() || x < S::zero() - S::one() && dx.abs() < S::one());
        S::real(r.dvalue() / e, x.signum() * dx, "C01.afloat-rule-small");
    } else {
        S::real(r.dvalue() / e, want, "C01.afloat-rule");
    }
}

fn forms<S: Sc>() {
    let k = sx::choose("op", 4);
    let form = sx::choose("form", 4);
    let rec = sx::choose("rec", 2);
    let (x, y, dx, dy): (S, S, S, S) = (sx::fs("x"), sx::fs("y"), sx::fs("dx"), sx::fs("dy"));
    let c = sx::fin("c");
    let cs: S = num::NumCast::from(c).unwrap();
    inside(BINARY[k], x, y);
    let mut ctx = AContext::new();
    let (mut a, b) = (AFloat::new(x, dx), AFloat::new(y, dy));
    if rec == 1 {
        ctx.set_indep(&mut a);
    }
    let z = S::zero();
    let (r, want) = match form {
        0 => (match k { 0 => a + c, 1 => a - c, 2 => a * c, _ => a / c }, tangent(BINARY[k], x, cs, dx, z)),
        1 => (match k { 0 => c + a, 1 => c - a, 2 => c * a, _ => c / a }, tangent(BINARY[k], cs, x, z, dx)),
        2 => {
            let mut r = a;
            match k { 0 => r += b, 1 => r -= b, 2 => r *= b, _ => r /= b };
            (r, tangent(BINARY[k], x, y, dx, dy))
        }
        _ => {
            let mut r = a;
            match k { 0 => r += c, 1 => r -= c, 2 => r *= c, _ => r /= c };
            (r, tangent(BINARY[k], x, cs, dx, z))
        }
    };
    sx::reach("forms");
    S::real(r.dvalue(), want, "C01.operator-form-rule");
}

crate::entries! {
    // forward rule of a recorded operation, operands distinct or the same
    fn c01_tape_rule() {
        let op = match sx::choose("op", 15) { 12 => OpCode::Powf, 13 => OpCode::Abs, 14 => OpCode::Const, k => smooth(k) };
        let (i, j) = (sx::choose("a", 2), sx::choose("b", 2));
        let mut v = [sx::fin("x"), sx::fin("y"), sx::f64("junk")];
        let e = sx::scale();
        let d = [sx::fin("dx"), sx::fin("dy")];
        let mut dv = [d[0] * e, d[1] * e, sx::f64("djunk")];
        inside(op, v[i], v[j]);
        let o = operation(op, 2, i, j);
        let (w, dw) = (v, dv);
        // sweeps find the result on the tape
        o.zero_order(&mut v);
        o.first_order(&v, &mut dv);
        sx::reach("tape-rule");
        if op == OpCode::Const {
            sx::bits(dv[2], 0.0, "C01.constant-tangent");
        } else {
            if op != OpCode::Abs || e == 1.0 {
                sx::real(dv[2] / e, tangent(op, v[i], v[j], d[i], d[j]), "C01.tape-rule");
            }
            sx::bits(v[2], apply(op, w[i], w[j]), "C01.tape-value");
        }
        for k in 0..2 {
            sx::bits(dv[k], dw[k], "C01.operands-kept");
            sx::bits(v[k], w[k], "C01.operands-kept");
        }
    }
    // powers with a constant integer exponent, at any base
    fn c01_int_power() {
        let n = sx::choose("n", 8) as i32 - 3;
        let (x, dx) = (sx::fin("x"), sx::fin("dx"));
        if n < 0 { sx::assume(x != 0.0); }
        let mut want = n as f64 * dx;
        for _ in 1..n { want *= x; }
        for _ in n..1 { want /= x; }
        if n == 0 { want = 0.0; }
        let mut v = [x, n as f64, 0.0];
        let mut dv = [dx, 0.0, 0.0];
        operation(OpCode::Powf, 2, 0, 1).zero_order(&mut v);
        operation(OpCode::Powf, 2, 0, 1).first_order(&v, &mut dv);
        sx::reach("int-power");
        sx::real(dv[2], want, "C01.integer-power-tape");
        let r = num::Float::powf(ADouble::new(x, dx), ADouble::new(n as f64, 0.0));
        sx::real(r.dvalue(), want, "C01.integer-power-afloat");
    }
    fn c01_afloat() { afloat::<f64>() }
    fn c01_afloat32() { afloat::<f32>() }
    fn c01_forms() { forms::<f64>() }
    fn c01_forms32() { forms::<f32>() }

    // one reverse step is the adjoint of one forward step
    fn c02_step() {
        let op = match sx::choose("op", 15) { 12 => OpCode::Powf, 13 => OpCode::Const, 14 => OpCode::Nop, k => smooth(k) };
        let (i, j) = (sx::choose("a", 3), sx::choose("b", 3));
        let mut v = [0.0; 4];
        let mut dv = [0.0; 4];
        let mut bar = [0.0; 4];
        let e = sx::scale();
        for k in 0..4 {
            v[k] = sx::fin("v");
            dv[k] = sx::fin("dv");
            bar[k] = sx::fin("vbar") * e;
        }
        inside(op, v[i], v[j]);
        let (dv0, bar0) = (dv, bar);
        let o = operation(op, 3, i, j);
        // sweeps find the result on the tape
        o.zero_order(&mut v);
        o.first_order(&v, &mut dv);
        o.first_order_reverse(&v, &mut bar);
        // before the step a constant or a result does not depend on anything
        let keep = if op == OpCode::Nop { 1.0 } else { 0.0 };
        let lhs = bar[0] * dv0[0] + bar[1] * dv0[1] + bar[2] * dv0[2] + keep * (bar[3] * dv0[3]);
        let rhs = bar0[0] * dv[0] + bar0[1] * dv[1] + bar0[2] * dv[2] + bar0[3] * dv[3];
        sx::reach("step");
        sx::real(lhs / e, rhs / e, "C02.step-adjoint");
        for k in 0..3 {
            if k != i && k != j || op == OpCode::Const || op == OpCode::Nop {
                sx::bits(bar[k], bar0[k], "C02.others-kept");
            }
        }
    }
    // powers with a constant integer exponent, at any base
    fn c02_int_power() {
        let n = sx::choose("n", 8) as i32 - 3;
        let (x, bx, by) = (sx::fin("x"), sx::fin("xbar"), sx::fin("ybar"));
        if n < 0 { sx::assume(x != 0.0); }
        let mut want = n as f64;
        for _ in 1..n { want *= x; }
        for _ in n..1 { want /= x; }
        if n == 0 { want = 0.0; }
        let mut bar = [bx, 0.0, by];
        let mut v = [x, n as f64, 0.0];
        operation(OpCode::Powf, 2, 0, 1).zero_order(&mut v);
        operation(OpCode::Powf, 2, 0, 1).first_order_reverse(&v, &mut bar);
        sx::reach("int-power");
        sx::real(bar[0], bx + by * want, "C02.integer-power");
    }
}
