//! C07, C08: values of the float type and its derived functions.
use crate::prog::apply;
use crate::sx::{self, Sc};
use advantage::*;
use num::{Float, Num, NumCast, One, ToPrimitive, Zero};

pub trait Both: Sc + Into<f64> {
    fn plain_forms(k: usize, form: usize, a: AFloat<Self>, b: AFloat<Self>, c: f64) -> AFloat<Self>;
}
macro_rules! forms {
    ($s:ty) => {
        impl Both for $s {
            fn plain_forms(k: usize, form: usize, a: AFloat<Self>, b: AFloat<Self>, c: f64) -> AFloat<Self> {
                match form {
                    0 => match k { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b },
                    1 => match k { 0 => a + c, 1 => a - c, 2 => a * c, _ => a / c },
                    2 => match k { 0 => c + a, 1 => c - a, 2 => c * a, _ => c / a },
                    3 => {
                        let mut r = a;
                        match k { 0 => r += b, 1 => r -= b, 2 => r *= b, _ => r /= b };
                        r
                    }
                    _ => {
                        let mut r = a;
                        match k { 0 => r += c, 1 => r -= c, 2 => r *= c, _ => r /= c };
                        r
                    }
                }
            }
        }
    };
}
forms!(f64);
forms!(f32);

/// a variable, recorded or not
fn var<S: Sc>(ctx: &mut AContext, rec: bool, v: S, d: S) -> AFloat<S> {
    let mut a = AFloat::new(v, d);
    if rec {
        ctx.set_indep(&mut a);
    }
    a
}

fn operators<S: Both>() {
    let k = sx::choose("op", 4);
    let form = sx::choose("form", 5);
    let rec = sx::choose("rec", 4);
    let same = sx::choose("same", 2) == 1;
    let (x, y, c): (S, S, f64) = (S::sym("x"), S::sym("y"), sx::f64("c"));
    let mut ctx = AContext::new();
    let a = var(&mut ctx, rec & 1 != 0, x, S::sym("dx"));
    let b = if same { a } else { var(&mut ctx, rec & 2 != 0, y, S::sym("dy")) };
    let r = S::plain_forms(k, form, a, b, c);
    let y = if same { x } else { y };
    let cs: S = NumCast::from(c).unwrap();
    let (p, q) = match form { 0 | 3 => (x, y), 1 | 4 => (x, cs), _ => (cs, x) };
    let want = match k { 0 => p + q, 1 => p - q, 2 => p * q, _ => p / q };
    sx::reach("operators");
    S::bits(r.value(), want, "C07.operator-value");
    S::bits(a.value(), x, "C07.operand-kept");
}

fn functions<S: Both>() {
    let op = [OpCode::Sin, OpCode::Cos, OpCode::Tan, OpCode::Abs, OpCode::Exp, OpCode::Ln, OpCode::Asin, OpCode::Acos, OpCode::Atan, OpCode::Powf]
        [sx::choose("op", 10)];
    let rec = sx::choose("rec", 4);
    let (x, y): (S, S) = (S::sym("x"), S::sym("y"));
    let mut ctx = AContext::new();
    let a = var(&mut ctx, rec & 1 != 0, x, S::sym("dx"));
    let b = var(&mut ctx, rec & 2 != 0, y, S::sym("dy"));
    let r = apply(op, a, b);
    sx::reach("functions");
    S::bits(r.value(), apply(op, x, y), "C07.function-value");
}

fn compare<S: Both>() {
    let rec = sx::choose("rec", 4);
    let (x, y): (S, S) = (S::sym("x"), S::sym("y"));
    let mut ctx = AContext::new();
    let a = var(&mut ctx, rec & 1 != 0, x, S::sym("dx"));
    let b = var(&mut ctx, rec & 2 != 0, y, S::sym("dy"));
    let n = ctx.operations().len();
    sx::check((a < b) == (x < y), "C07.less");
    sx::check((a <= b) == (x <= y), "C07.less-or-equal");
    sx::check((a > b) == (x > y), "C07.greater");
    sx::check((a >= b) == (x >= y), "C07.greater-or-equal");
    sx::check((a == b) == (x == y), "C07.equal");
    sx::check((a != b) == (x != y), "C07.not-equal");
    sx::check(a.partial_cmp(&b) == x.partial_cmp(&y), "C07.partial-cmp");
    sx::check(a.partial_cmp(&a) == x.partial_cmp(&x), "C07.partial-cmp");
    sx::check(ctx.operations().len() == n, "C07.comparisons-not-recorded");
    sx::reach("compare");
}

fn classify<S: Both>() {
    let x: S = S::sym("x");
    let mut ctx = AContext::new();
    let a = var(&mut ctx, sx::choose("rec", 2) == 1, x, S::sym("dx"));
    sx::check(a.is_nan() == x.is_nan(), "C07.is-nan");
    sx::check(a.is_infinite() == x.is_infinite(), "C07.is-infinite");
    sx::check(a.is_finite() == x.is_finite(), "C07.is-finite");
    sx::check(a.is_normal() == x.is_normal(), "C07.is-normal");
    sx::check(a.is_sign_positive() == x.is_sign_positive(), "C07.is-sign-positive");
    sx::check(a.is_sign_negative() == x.is_sign_negative(), "C07.is-sign-negative");
    sx::check(a.is_zero() == x.is_zero(), "C07.is-zero");
    sx::check(a.is_one() == x.is_one(), "C07.is-one");
    sx::check(a.classify() == x.classify(), "C07.classify");
    sx::check(a.integer_decode() == x.integer_decode(), "C07.integer-decode");
    sx::reach("classify");
}

fn constants<S: Both>() {
    type F<S> = AFloat<S>;
    let k = sx::choose("constant", 10);
    let (a, x): (F<S>, S) = match k {
        0 => (F::<S>::nan(), S::nan()),
        1 => (F::<S>::infinity(), S::infinity()),
        2 => (F::<S>::neg_infinity(), S::neg_infinity()),
        3 => (F::<S>::neg_zero(), S::neg_zero()),
        4 => (F::<S>::min_value(), S::min_value()),
        5 => (F::<S>::min_positive_value(), S::min_positive_value()),
        6 => (F::<S>::max_value(), S::max_value()),
        7 => (F::<S>::epsilon(), S::epsilon()),
        8 => (F::<S>::zero(), S::zero()),
        _ => (F::<S>::one(), S::one()),
    };
    S::bits(a.value(), x, "C07.constant");
    S::bits(a.dvalue(), S::zero(), "C07.constant-tangent");
    sx::reach("constants");
}

fn parse<S: Both>() {
    let (s, r) = [("1.5", 10), ("-2.5e3", 10), ("a.8", 16), ("-101.1", 2), ("1.5x", 10), ("", 10), ("inf", 10), ("-0", 10)][sx::choose("text", 8)];
    let a = <AFloat<S> as Num>::from_str_radix(s, r);
    let x = <S as Num>::from_str_radix(s, r);
    match (a, x) {
        (Ok(a), Ok(x)) => {
            S::bits(a.value(), x, "C07.parse");
            S::bits(a.dvalue(), S::zero(), "C07.parse-tangent");
        }
        (Err(_), Err(_)) => {}
        _ => sx::check(false, "C07.parse"),
    }
    sx::reach("parse");
}

fn to_primitive<S: Both>() {
    let x: S = S::sym("x");
    let mut ctx = AContext::new();
    let a = var(&mut ctx, sx::choose("rec", 2) == 1, x, S::sym("dx"));
    match sx::choose("type", 14) {
        0 => sx::check(a.to_i64() == x.to_i64(), "C07.to-i64"),
        1 => sx::check(a.to_u64() == x.to_u64(), "C07.to-u64"),
        2 => sx::check(a.to_i128() == x.to_i128(), "C07.to-i128"),
        3 => sx::check(a.to_u128() == x.to_u128(), "C07.to-u128"),
        4 => sx::check(a.to_i32() == x.to_i32(), "C07.to-i32"),
        5 => sx::check(a.to_u32() == x.to_u32(), "C07.to-u32"),
        6 => sx::check(a.to_i16() == x.to_i16(), "C07.to-i16"),
        7 => sx::check(a.to_u16() == x.to_u16(), "C07.to-u16"),
        8 => sx::check(a.to_i8() == x.to_i8(), "C07.to-i8"),
        9 => sx::check(a.to_u8() == x.to_u8(), "C07.to-u8"),
        10 => sx::check(a.to_isize() == x.to_isize(), "C07.to-isize"),
        11 => sx::check(a.to_usize() == x.to_usize(), "C07.to-usize"),
        12 => match (a.to_f64(), x.to_f64()) {
            (Some(p), Some(q)) => sx::bits(p, q, "C07.to-f64"),
            (p, q) => sx::check(p.is_some() == q.is_some(), "C07.to-f64"),
        },
        _ => match (a.to_f32(), x.to_f32()) {
            (Some(p), Some(q)) => sx::bits32(p, q, "C07.to-f32"),
            (p, q) => sx::check(p.is_some() == q.is_some(), "C07.to-f32"),
        },
    }
    sx::reach("to-primitive");
}

fn agree<S: Both>(a: Option<AFloat<S>>, x: Option<S>) {
    match (a, x) {
        (Some(a), Some(x)) => {
            S::bits(a.value(), x, "C07.from-number");
            S::bits(a.dvalue(), S::zero(), "C07.from-number-tangent");
        }
        (a, x) => sx::check(a.is_none() && x.is_none(), "C07.from-number"),
    }
}
fn from_primitive<S: Both>() {
    macro_rules! via {
        ($t:ty) => {{
            let n = sx::int("n", 0, u64::MAX) as $t;
            agree::<S>(NumCast::from(n), NumCast::from(n))
        }};
    }
    match sx::choose("type", 13) {
        0 => via!(i64),
        1 => via!(u64),
        2 => via!(i32),
        3 => via!(u32),
        4 => via!(i16),
        5 => via!(u16),
        6 => via!(i8),
        7 => via!(u8),
        8 => { let n = sx::f64("n"); agree::<S>(NumCast::from(n), NumCast::from(n)) }
        9 => { let n = sx::f32("n"); agree::<S>(NumCast::from(n), NumCast::from(n)) }
        // another variable
        10 => { let n = sx::f64("n"); agree::<S>(NumCast::from(ADouble::new(n, 2.0)), NumCast::from(n)) }
        11 => { let n = sx::f32("n"); agree::<S>(NumCast::from(AFloat::<f32>::new(n, 2.0)), NumCast::from(n)) }
        _ => { let x: S = S::sym("n"); agree::<S>(Some(<AFloat<S> as From<S>>::from(x)), Some(x)) }
    }
    sx::reach("from-primitive");
}
fn spread<S: Sc>(a: AFloat<S>, v: S, d: S) {
    S::bits(a.value(), v, "C07.cast-value");
    S::bits(a.dvalue(), d, "C07.cast-tangent");
}

// ---- derived functions

struct Case<S> {
    /// of three arguments
    value: S,
    tangent: S,
}
const DERIVED: usize = 32;
/// value and directional derivative by definition; assumes the domain
fn derived<S: Sc>(k: usize, x: S, y: S, z: S, dx: S, dy: S, dz: S) -> Case<S> {
    let (o, l) = (S::zero(), S::one());
    let two = l + l;
    let (ln2, ln10) = (two.ln(), S::c(10.0).ln());
    let c = |value, tangent, _n: usize| Case { value, tangent };
    let mx = |a: S, b: S| if sx::fork(a >= b) { a } else { b };
    match k {
        0 => c(o - x, o - dx, 1),
        1 => c(x * y + z, dx * y + x * dy + dz, 3),
        2 => { sx::assume(x != o); c(l / x, o - dx / (x * x), 1) }
        // powi(-3 ..= 4)
        3..=10 => {
            let n = k as i32 - 6;
            if n < 0 { sx::assume(x != o); }
            let mut p = l;
            let mut q = S::c(n as f64);
            for _ in 0..n { p = p * x; }
            for _ in 1..n { q = q * x; }
            for _ in n..0 { p = p / x; }
            for _ in n..1 { q = q / x; }
            if n == 0 { q = o; }
            c(p, q * dx, 1)
        }
        11 => { sx::assume(x > o); let r = x.sqrt(); c(r, dx / (two * r), 1) }
        12 => { let r = two.powf(x); c(r, dx * ln2 * r, 1) }
        13 => { sx::assume(x > o && y > o && y != l); let (p, q) = (x.ln(), y.ln()); c(p / q, (dx / x * q - p * (dy / y)) / (q * q), 2) }
        14 => { sx::assume(x > o); c(x.ln() / ln2, dx / x / ln2, 1) }
        15 => { sx::assume(x > o); c(x.ln() / ln10, dx / x / ln10, 1) }
        // increments, as for abs
        16 => { let v = mx(x, y); c(v, mx(x + dx, y + dy) - v, 2) }
        17 => { let v = x + y - mx(x, y); c(v, x + dx + y + dy - mx(x + dx, y + dy) - v, 2) }
        18 => { let v = mx(x - y, o); c(v, mx(x + dx - y - dy, o) - v, 2) }
        19 => { sx::assume(x != o || y != o); let r = (x * x + y * y).sqrt(); c(r, (x * dx + y * dy) / r, 2) }
        20 => c(x.sin(), dx * x.cos(), 1),
        21 => c(x.cos(), o - dx * x.sin(), 1),
        // x or its bound
        22..=24 => {
            let (lo, hi) = (S::c(-1.0), two);
            sx::assume(x != lo && x != hi);
            match k { 22 => sx::assume(x < lo), 23 => sx::assume(x > hi), _ => sx::assume(x > lo && x < hi) };
            match k { 22 => c(lo, o, 1), 23 => c(hi, o, 1), _ => c(x, dx, 1) }
        }
        // copysign to either sign, copysign of the signs
        25..=28 => {
            let (nx, ny) = (k & 1 != 0, k > 26);
            sx::assume(if nx { x < o } else { x > o });
            sx::assume(if ny { y < o } else { y > o });
            if nx == ny { c(x, dx, 1) } else { c(o - x, o - dx, 1) }
        }
        29 => { let h = o.acos(); c(x * S::c(90.0) / h, dx * S::c(90.0) / h, 1) }
        30 => { let h = o.acos(); c(x * h / S::c(90.0), dx * h / S::c(90.0), 1) }
        _ => { sx::assume(x > o); let e = l / (two + l); c(x.powf(e), dx * e * x.powf(e - l), 1) }
    }
}
fn call<F: Float>(k: usize, x: F, y: F, z: F) -> F {
    match k {
        0 => -x,
        1 => x.mul_add(y, z),
        2 => x.recip(),
        3..=10 => x.powi(k as i32 - 6),
        11 => x.sqrt(),
        12 => x.exp2(),
        13 => x.log(y),
        14 => x.log2(),
        15 => x.log10(),
        16 => x.max(y),
        17 => x.min(y),
        18 => x.abs_sub(y),
        19 => x.hypot(y),
        20 => x.sin_cos().0,
        21 => x.sin_cos().1,
        22..=24 => num::clamp(x, F::from(-1.0).unwrap(), F::from(2.0).unwrap()),
        25..=28 => x.copysign(y),
        29 => x.to_degrees(),
        30 => x.to_radians(),
        _ => x.cbrt(),
    }
}
fn point<S: Sc>() -> [S; 6] {
    [sx::fs("x"), sx::fs("y"), sx::fs("z"), sx::fs("dx"), sx::fs("dy"), sx::fs("dz")]
}
fn derived_plain<S: Sc>() {
    let k = sx::choose("function", DERIVED);
    let rec = sx::choose("rec", 3);
    let [x, y, z, dx, dy, dz] = point::<S>();
    let w = derived(k, x, y, z, dx, dy, dz);
    let mut ctx = AContext::new();
    let a = var(&mut ctx, rec == 1, x, dx);
    let b = var(&mut ctx, rec > 0, y, dy);
    let c = var(&mut ctx, rec == 2, z, dz);
    let r = call(k, a, b, c);
    sx::reach("derived");
    S::real(r.value(), w.value, "C08.value");
    S::real(r.dvalue(), w.tangent, "C08.tangent");
}

fn powi<S: Sc>() {
    let n = sx::int("n", 0, u32::MAX as u64) as u32 as i32;
    let (x, dx): (S, S) = (sx::fs("x"), sx::fs("dx"));
    sx::assume(x != S::zero());
    let mut ctx = AContext::new();
    let a = var(&mut ctx, sx::choose("rec", 2) == 1, x, dx);
    let r = a.powi(n);
    sx::reach("powi");
    let y = S::c(n as f64);
    S::real(r.value(), x.powf(y), "C08.powi-value");
    let t = if sx::fork(n == 0) { S::zero() } else { y * x.powf(y - S::one()) * dx };
    S::real(r.dvalue(), t, "C08.powi-tangent");
}

fn exact<S: Both>() {
    let x: S = S::sym("x");
    sx::assume(!x.is_nan());
    let mut a = AFloat::<S>::new(x, S::sym("dx"));
    let mut ctx = AContext::new();
    if sx::choose("recorded", 2) == 1 {
        ctx.set_indep(&mut a);
    }
    let same = |r: AFloat<S>, want: S| sx::bits(r.value().to_f64().unwrap(), want.to_f64().unwrap(), "C08.exact-value");
    match sx::choose("function", 3) {
        0 => same(-a, -x),
        1 => same(a.recip(), x.recip()),
        _ => {
            let (s, c) = a.sin_cos();
            same(s, x.sin());
            same(c, x.cos());
        }
    }
    sx::reach("exact");
}

crate::entries! {
    fn c07_operators() { operators::<f64>() }
    fn c07_operators32() { operators::<f32>() }
    fn c07_functions() { functions::<f64>() }
    fn c07_functions32() { functions::<f32>() }
    fn c07_compare() { compare::<f64>() }
    fn c07_compare32() { compare::<f32>() }
    fn c07_classify() { classify::<f64>() }
    fn c07_classify32() { classify::<f32>() }
    fn c07_constants() { constants::<f64>() }
    fn c07_constants32() { constants::<f32>() }
    fn c07_parse() { parse::<f64>() }
    fn c07_parse32() { parse::<f32>() }
    fn c07_to_primitive() { to_primitive::<f64>() }
    fn c07_to_primitive32() { to_primitive::<f32>() }
    fn c07_from_primitive() { from_primitive::<f64>() }
    fn c07_from_primitive32() { from_primitive::<f32>() }
    fn c07_cast() {
        let rec = sx::choose("rec", 2) == 1;
        let mut ctx = AContext::new();
        match sx::choose("types", 4) {
            0 => { let (v, d) = (sx::f64("v"), sx::f64("d")); spread(AFloat::<f32>::cast(var(&mut ctx, rec, v, d)), v as f32, d as f32) }
            1 => { let (v, d) = (sx::f32("v"), sx::f32("d")); spread(AFloat::<f64>::cast(var(&mut ctx, rec, v, d)), v as f64, d as f64) }
            2 => { let (v, d) = (sx::f64("v"), sx::f64("d")); spread(AFloat::<f64>::cast(var(&mut ctx, rec, v, d)), v, d) }
            // casting a variable keeps its identity on the tape
            _ => {
                let (v, d) = (sx::f64("v"), sx::f64("d"));
                let a = var(&mut ctx, true, v, d);
                let b = AFloat::<f32>::cast(a);
                let s = b.sin();
                ctx.set_dep(&s);
                let o = ctx.operations();
                sx::check(o.len() == 1 && o[0].arg1 == Some(ctx.indeps()[0]), "C07.cast-identity");
            }
        }
        sx::reach("cast");
    }
    // reading and writing value and tangent
    fn c07_access() {
        let (v, d, w, e) = (sx::f64("v"), sx::f64("d"), sx::f64("w"), sx::f64("e"));
        let mut ctx = AContext::new();
        let mut a = var(&mut ctx, sx::choose("rec", 2) == 1, v, d);
        sx::bits(a.value(), v, "C07.access");
        sx::bits(a.dvalue(), d, "C07.access");
        *a.value_mut() = w;
        sx::bits(a.value(), w, "C07.access");
        sx::bits(a.dvalue(), d, "C07.access");
        *a.dvalue_mut() = e;
        sx::bits(a.value(), w, "C07.access");
        sx::bits(a.dvalue(), e, "C07.access");
        sx::reach("access");
    }

    // any integer exponent
    fn c08_powi() { powi::<f64>() }
    fn c08_powi32() { powi::<f32>() }
    fn c08_derived() { derived_plain::<f64>() }
    fn c08_derived32() { derived_plain::<f32>() }
    // through a recorded tape, also replayed at another point
    fn c08_tape() {
        let k = sx::choose("function", DERIVED);
        let [x, y, z, mut dx, mut dy, mut dz] = point::<f64>();
        let n = match k { 1 => 3, 13 | 16..=19 | 25..=28 => 2, _ => 1 };
        // which arguments are recorded; the others are plain constants
        let mask = sx::choose("recorded", (1 << n) - 1) + 1;
        let replay = sx::choose("replay", 2) == 1;
        if mask & 1 == 0 { dx = 0.0; }
        if mask & 2 == 0 { dy = 0.0; }
        if mask & 4 == 0 { dz = 0.0; }
        let w = derived(k, x, y, z, dx, dy, dz);
        // the functions that branch on their argument do so while recording
        if k >= 22 && k <= 28 { sx::assume(!replay); }
        let xs = [x, y, z];
        let x0 = if replay { [sx::fin("x0"), sx::fin("y0"), sx::fin("z0")] } else { xs };
        let mut ctx = AContext::new();
        let (mut v, mut q, mut d) = (vec![], vec![], vec![]);
        for i in 0..3 {
            let rec = i < n && mask >> i & 1 == 1;
            let mut a = ADouble::new(if rec { x0[i] } else { xs[i] }, 0.0);
            if rec {
                ctx.set_indep(&mut a);
                q.push(xs[i]);
                d.push([dx, dy, dz][i]);
            }
            v.push(a);
        }
        let r = call(k, v[0], v[1], v[2]);
        ctx.set_dep(&r);
        let mut tape = ctx.tape();
        if replay { tape.zero_order(&nalgebra::DVector::from_row_slice(&q)); }
        sx::reach("tape");
        sx::real(tape.y()[0], w.value, "C08.tape-value");
        let dr = tape.first_order_forward(&nalgebra::DVector::from_row_slice(&d));
        sx::real(dr[0], w.tangent, "C08.tape-tangent");
        // smooth ones in reverse
        if k < 16 || k > 18 {
            let g = tape.first_order_reverse(&nalgebra::DVector::from_row_slice(&[1.0]));
            let mut t = 0.0;
            for i in 0..d.len() { t = t + g[i] * d[i]; }
            sx::real(t, w.tangent, "C08.tape-reverse");
        }
    }
    // negation, recip and sin_cos are exact
    fn c08_exact() { exact::<f64>() }
    fn c08_exact32() { exact::<f32>() }
    // known: powf(1/3) does not know negative arguments
    fn c08_cbrt_negative() {
        let r = ADouble::new(-8.0, 1.0).cbrt();
        sx::reach("cbrt");
        if r.value().is_nan() {
            sx::check(false, "C08.cbrt-negative-nan");
        } else {
            sx::check((r.value() + 2.0).abs() < 1e-9, "C08.cbrt");
            sx::check((r.dvalue() - 1.0 / 12.0).abs() < 1e-9, "C08.cbrt");
        }
    }
}
