//! C17, C18: the C and C++ interfaces.
use crate::sx;
use advantage::ffi::*;
use advantage::*;
use num::Float;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn cx_binary(op: u32, form: u32, c: f64, d: f64);
    fn cx_unary(f: u32, form: u32, c: f64);
    fn cx_scalar(f: u32, a: f64, b: f64) -> f64;
    fn cx_register(n: u32, deps: *const u32, m: u32, c: f64);
    fn cx_program(n: u32, code: *const u32, k: u32, c: f64);
    fn cx_act(act: u32, i: u32, j: u32, c: f64);
    fn cx_ctx(act: u32, i: u32, j: u32);
    fn cx_value(i: u32);
    fn cx_vector(n: u32, drop: u32, c: *const f64);
}

/// What a context of the wrapper holds, seen through the Rust interface.
struct Seen {
    indeps: Vec<usize>,
    deps: Vec<usize>,
    ops: Vec<Operation>,
    vals: Vec<f64>,
    /// values of the dependents elsewhere
    at: Vec<f64>,
}
static MARK: AtomicUsize = AtomicUsize::new(0);
static mut SEEN: Option<Seen> = None;
static mut POINT: Vec<f64> = Vec::new();

fn see(t: impl Tape + Clone) -> Seen {
    let mut moved = t.clone();
    let point = unsafe { (*std::ptr::addr_of!(POINT)).clone() };
    if point.len() == t.num_indeps() {
        moved.zero_order(&DVector::from_vec(point));
    }
    Seen {
        indeps: t.indeps().to_vec(),
        deps: t.deps().to_vec(),
        ops: t.ops_iter().collect(),
        vals: t.values().to_vec(),
        at: moved.deps().iter().map(|d| moved.values()[*d]).collect(),
    }
}
/// contexts made after this are the wrapper's
fn mark() {
    let c = AContext::new();
    MARK.store(c.cid(), Relaxed);
    unsafe { SEEN = None };
}
/// called by the wrapper while its context is alive
#[no_mangle]
extern "C" fn cx_look() {
    let m = MARK.load(Relaxed);
    let mut found = None;
    for k in m + 1..m + 4 {
        if let Some(c) = AContext::from_cid(k) {
            sx::check(found.is_none(), "C17.one-context");
            found = Some(see(c.tape()));
        }
    }
    sx::check(found.is_some(), "C17.context-exists");
    unsafe { SEEN = found };
}
fn seen() -> Seen {
    unsafe { (*std::ptr::addr_of_mut!(SEEN)).take() }.unwrap()
}
fn at(p: &[f64]) {
    unsafe { POINT = p.to_vec() };
}
fn alike(got: &Seen, want: &Seen) {
    sx::check(got.indeps == want.indeps && got.deps == want.deps, "C17.registration-order");
    sx::check(got.ops.len() == want.ops.len(), "C17.recorded-operations");
    for (a, b) in got.ops.iter().zip(want.ops.iter()) {
        sx::check(a.opcode == b.opcode && a.vid == b.vid && a.arg1 == b.arg1 && a.arg2 == b.arg2, "C17.recorded-operations");
    }
    sx::check(got.vals.len() == want.vals.len() && got.at.len() == want.at.len(), "C17.values");
    for (a, b) in got.vals.iter().zip(want.vals.iter()) {
        sx::bits(*a, *b, "C17.values");
    }
    for (a, b) in got.at.iter().zip(want.at.iter()) {
        sx::bits(*a, *b, "C17.values-elsewhere");
    }
}
fn binary<F: Float>(op: usize, a: F, b: F) -> F {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a.min(b),
        _ => a.max(b),
    }
}
fn unary<F: Float>(f: usize, a: F) -> F {
    match f {
        0 => a.sin(),
        1 => a.cos(),
        2 => a.tan(),
        3 => a.abs(),
        4 => a.exp(),
        _ => a.ln(),
    }
}
fn give(x: ADouble) -> &'static ADouble {
    Box::leak(Box::new(x))
}
fn take(p: *mut ADouble) -> ADouble {
    let x = unsafe { *p };
    unsafe { adv_adouble_free(p) };
    x
}
fn back(p: &'static ADouble) {
    unsafe { adv_adouble_free(p as *const ADouble as *mut ADouble) };
}
crate::entries! {
    /// the C interface's operations
    fn c17_c_binary() {
        let op = sx::choose("op", 6);
        let same = sx::choose("same", 2) == 1;
        let mut ctx = AContext::new();
        let mut ctx2 = AContext::new();
        // operands of any kind: value, tangent, recorded or not; twice
        let mut operand = || {
            let mut x = ADouble::new(sx::f64("v"), sx::f64("dv"));
            let mut y = x;
            if sx::choose("recorded", 2) == 1 {
                ctx.set_indep(&mut x);
                ctx2.set_indep(&mut y);
            }
            (x, y)
        };
        let (a, a2) = operand();
        let (b, b2) = if same { (a, a2) } else { operand() };
        let (pa, pb) = (give(a), give(b));
        let pb = if same { pa } else { pb };
        let mut r: *mut ADouble = std::ptr::null_mut();
        let out: &'static mut *mut ADouble = unsafe { &mut *(&mut r as *mut *mut ADouble) };
        match op {
            0 => adv_op_add(pa, pb, out),
            1 => adv_op_sub(pa, pb, out),
            2 => adv_op_mul(pa, pb, out),
            3 => adv_op_div(pa, pb, out),
            4 => adv_min(pa, pb, out),
            _ => adv_max(pa, pb, out),
        }
        let got = take(r);
        let want = binary(op, a2, b2);
        sx::bits(got.value(), want.value(), "C17.value");
        sx::bits(got.dvalue(), want.dvalue(), "C17.tangent");
        adv_acontext_set_dependent(&mut ctx, &got);
        ctx2.set_dep(&want);
        at(&vec![0.5; ctx.indeps().len()]);
        alike(&see(ctx.tape()), &see(ctx2.tape()));
        back(pa);
        if !same {
            back(pb);
        }
        sx::reach("c-binary");
    }
    fn c17_c_unary() {
        let f = sx::choose("f", 6);
        let mut ctx = AContext::new();
        let mut ctx2 = AContext::new();
        let mut a = ADouble::new(sx::f64("v"), sx::f64("dv"));
        let mut a2 = a;
        if sx::choose("recorded", 2) == 1 {
            ctx.set_indep(&mut a);
            ctx2.set_indep(&mut a2);
        }
        let pa = give(a);
        let mut r: *mut ADouble = std::ptr::null_mut();
        let out: &'static mut *mut ADouble = unsafe { &mut *(&mut r as *mut *mut ADouble) };
        match f {
            0 => adv_sin(pa, out),
            1 => adv_cos(pa, out),
            2 => adv_tan(pa, out),
            3 => adv_abs(pa, out),
            4 => adv_exp(pa, out),
            _ => adv_ln(pa, out),
        }
        let got = take(r);
        let want = unary(f, a2);
        sx::bits(got.value(), want.value(), "C17.value");
        sx::bits(got.dvalue(), want.dvalue(), "C17.tangent");
        adv_acontext_set_dependent(&mut ctx, &got);
        ctx2.set_dep(&want);
        at(&vec![0.5; ctx.indeps().len()]);
        alike(&see(ctx.tape()), &see(ctx2.tape()));
        back(pa);
        sx::reach("c-unary");
    }
    /// constructors, copies and contexts of the C interface
    fn c17_c_objects() {
        let (v, dv) = (sx::f64("v"), sx::f64("dv"));
        unsafe {
            let z = take(adv_adouble_default());
            sx::bits(z.value(), 0.0, "C17.default-is-zero");
            sx::bits(z.dvalue(), 0.0, "C17.default-is-zero");
            let x = take(adv_adouble_from_value(v));
            sx::bits(x.value(), v, "C17.value");
            sx::bits(x.dvalue(), 0.0, "C17.tangent");
            let c = adv_acontext_new();
            let p = adv_acontext_new_independent(&mut *c);
            let q = adv_adouble_copy(&*p);
            let y = ADouble::new(v, dv);
            let w = take(adv_adouble_copy(&y));
            sx::bits(w.value(), v, "C17.copy");
            sx::bits(w.dvalue(), dv, "C17.copy");
            adv_acontext_set_dependent(&mut *c, &*q);
            adv_acontext_set_dependent(&mut *c, &w);
            let t = see((*c).tape());
            sx::check(t.indeps == [0] && t.deps == [0, 1], "C17.registration-order");
            sx::bits(t.vals[0], 0.0, "C17.values");
            sx::bits(t.vals[1], v, "C17.values");
            drop(t);
            adv_adouble_free(p);
            adv_adouble_free(q);
            let cid = (*c).cid();
            adv_acontext_free(c);
            sx::check(AContext::from_cid(cid).is_none(), "C17.context-released");
        }
        sx::reach("c-objects");
    }

    /// the wrapper's operators with operands of every kind
    fn c17_binary() {
        let op = sx::choose("op", 6);
        let form = sx::choose("form", 10);
        let (c, d) = (sx::f64("c"), sx::f64("d"));
        at(&[sx::f64("x"), sx::f64("y")]);
        mark();
        unsafe { cx_binary(op as u32, form as u32, c, d) };
        let got = seen();
        let mut ctx = AContext::new();
        let x: ADouble = ctx.new_indep(0.0);
        let y: ADouble = ctx.new_indep(0.0);
        let (p, q) = (ADouble::from(c), ADouble::from(d));
        let r = match form {
            0 => binary(op, x, y),
            1 => binary(op, y, x),
            2 => binary(op, x, x),
            3 => binary(op, x, p),
            4 => binary(op, p, y),
            5 => binary(op, p, q),
            6 => binary(op, p, x),
            7 => binary(op, p, q),
            8 => binary(op, y, q),
            _ => binary(op, p, q),
        };
        ctx.set_dep(&r);
        alike(&got, &see(ctx.tape()));
        sx::reach("binary");
    }
    fn c17_unary() {
        let f = sx::choose("f", 6);
        let form = sx::choose("form", 3);
        let c = sx::f64("c");
        at(&[sx::f64("x"), sx::f64("y")]);
        mark();
        unsafe { cx_unary(f as u32, form as u32, c) };
        let got = seen();
        let mut ctx = AContext::new();
        let x: ADouble = ctx.new_indep(0.0);
        let y: ADouble = ctx.new_indep(0.0);
        ctx.set_dep(&unary(f, [x, y, ADouble::from(c)][form]));
        alike(&got, &see(ctx.tape()));
        sx::reach("unary");
    }
    /// the overloads for plain numbers
    fn c17_scalar() {
        let f = sx::choose("f", 8);
        let (a, b) = (sx::f64("a"), sx::f64("b"));
        let got = unsafe { cx_scalar(f as u32, a, b) };
        if f < 6 {
            sx::bits(got, unary(f, a), "C17.scalar-function");
        } else {
            sx::assume(!a.is_nan() & !b.is_nan());
            let want = if f == 6 { if b < a { b } else { a } } else if b > a { b } else { a };
            sx::check(got == want, "C17.scalar-min-max");
        }
        sx::reach("scalar");
    }
    fn c17_register() {
        let n = sx::choose("n", 4);
        let m = sx::choose("m", 4);
        let deps: Vec<u32> = (0..m).map(|_| sx::choose("dep", n + 1) as u32).collect();
        let c = sx::f64("c");
        at(&(0..n).map(|_| sx::f64("x")).collect::<Vec<f64>>());
        mark();
        unsafe { cx_register(n as u32, deps.as_ptr(), m as u32, c) };
        let got = seen();
        let mut ctx = AContext::new();
        let mut v: Vec<ADouble> = (0..n).map(|_| ctx.new_indep(0.0)).collect();
        v.push(ADouble::from(c));
        for d in deps {
            ctx.set_dep(&v[d as usize]);
        }
        alike(&got, &see(ctx.tape()));
        sx::reach("register");
    }
    fn c17_program() {
        let (n, k) = (2, sx::param("k", 2) as usize);
        let mut code = vec![];
        let mut key = 0usize;
        let mut pick = sx::Pick::new();
        for i in 0..k {
            let op = pick.choose("op", 12);
            code.push(op as u32);
            code.push(pick.choose("a", n + 1 + i) as u32);
            code.push(if op < 6 { pick.choose("b", n + 1 + i) as u32 } else { 0 });
            key = key.wrapping_mul(1000) + op * 64 + code[3 * i + 1] as usize * 8 + code[3 * i + 2] as usize;
        }
        pick.shard(key as u64);
        let c = sx::f64("c");
        at(&[sx::f64("x"), sx::f64("y")]);
        mark();
        unsafe { cx_program(n as u32, code.as_ptr(), k as u32, c) };
        let got = seen();
        let mut ctx = AContext::new();
        let mut v: Vec<ADouble> = (0..n).map(|_| ctx.new_indep(0.0)).collect();
        v.push(ADouble::from(c));
        for i in 0..k {
            let (a, b) = (v[code[3 * i + 1] as usize], v[code[3 * i + 2] as usize]);
            let op = code[3 * i] as usize;
            v.push(if op < 6 { binary(op, a, b) } else { unary(op - 6, a) });
        }
        for x in &v[n..] {
            ctx.set_dep(x);
        }
        alike(&got, &see(ctx.tape()));
        sx::reach("program");
    }

    /// histories of special member functions on a few variables
    fn c18_variables() {
        let slots = sx::param("slots", 3) as usize;
        let k = sx::param("k", 4) as usize;
        // the map of contexts exists and has room
        for _ in 0..2 {
            mark();
        }
        let (live, bytes) = (sx::live(), sx::bytes());
        {
            // values by slot; two where either is right
            let mut m: [Option<(f64, f64)>; 4] = [None; 4];
            let mut key = 0u64;
            let mut pick = sx::Pick::new();
            for step in 0..k {
                let act = pick.choose("act", 12);
                let i = pick.choose("i", slots);
                let unary = matches!(act, 0 | 1 | 6 | 8);
                let builds = act <= 3;
                // empty slots are alike: take the first
                let mut ok = builds == m[i].is_none() && (m[i].is_some() || (0..i).all(|k| m[k].is_some()));
                if !ok && !pick.long() {
                    return;
                }
                let j = if unary { i } else { pick.choose("j", slots) };
                key = key.wrapping_mul(4096) + (act * 64 + i * 8 + j) as u64;
                if step == 1.min(k - 1) {
                    pick.shard(key);
                }
                let (a, b) = (m[i].unwrap_or((0.0, 0.0)), m[j].unwrap_or((0.0, 0.0)));
                ok &= unary || m[j].is_some();
                // no sums with a variable whose value is open
                let open = |v: (f64, f64)| v.0.to_bits() != v.1.to_bits();
                ok &= !(act == 7 && (open(a) || open(b)) || act == 11 && open(b));
                if !ok {
                    if pick.long() {
                        continue;
                    }
                    return;
                }
                let c = if matches!(act, 1 | 8 | 11) { sx::fin("c") } else { 0.0 };
                unsafe { cx_act(act as u32, i as u32, j as u32, c) };
                match act {
                    0 => m[i] = Some((0.0, 0.0)),
                    1 | 8 => m[i] = Some((c, c)),
                    2 | 4 | 10 => m[i] = Some(b),
                    3 => {
                        m[i] = Some(b);
                        m[j] = Some((0.0, 0.0));
                    }
                    5 if i == j => m[i] = Some((a.0, 0.0)),
                    5 => {
                        m[i] = Some(b);
                        m[j] = Some((0.0, 0.0));
                    }
                    6 => m[i] = None,
                    7 => m[i] = Some((a.0 - b.0, a.0 - b.0)),
                    9 => m.swap(i, j),
                    _ => m[i] = Some((c * b.0, c * b.0)),
                }
            }
            for i in 0..slots {
                if let Some((a, b)) = m[i] {
                    mark();
                    unsafe { cx_value(i as u32) };
                    let s = seen();
                    let v = s.vals[s.deps[0]];
                    if a.to_bits() == b.to_bits() {
                        sx::bits(v, a, "C18.value");
                    } else {
                        sx::check((v.to_bits() == a.to_bits()) | (v.to_bits() == b.to_bits()), "C18.value");
                    }
                }
            }
            for i in 0..slots {
                if m[i].is_some() {
                    unsafe { cx_act(6, i as u32, i as u32, 0.0) };
                }
            }
        }
        sx::check(sx::live() == live && sx::bytes() == bytes, "C18.leak");
        sx::reach("variables");
    }
    /// contexts: creation, moves, destruction, use while variables live on
    fn c18_contexts() {
        let k = sx::param("k", 4) as usize;
        at(&[]);
        for _ in 0..2 {
            mark();
        }
        let (live, bytes) = (sx::live(), sx::bytes());
        unsafe {
            cx_act(0, 0, 0, 0.0);
            cx_act(0, 1, 1, 0.0);
        }
        {
            // absent, usable with number of independents, or moved from
            let mut m: [Option<bool>; 2] = [None; 2];
            let mut key = 0u64;
            let mut pick = sx::Pick::new();
            for step in 0..k {
                let act = pick.choose("act", 6);
                let i = pick.choose("i", 2);
                let j = if matches!(act, 0 | 3) { i } else { pick.choose("j", 2) };
                key = key.wrapping_mul(4096) + (act * 64 + i * 8 + j) as u64;
                if step == 1.min(k - 1) {
                    pick.shard(key);
                }
                let ok = match act {
                    0 => m[i].is_none(),
                    1 => m[i].is_none() && i != j && m[j] == Some(true),
                    2 => m[i].is_some() && m[j].is_some(),
                    3 => m[i].is_some(),
                    4 => m[i] == Some(true),
                    // only fresh independents fit the context for sure
                    _ => m[i] == Some(true),
                };
                if !ok {
                    if pick.long() {
                        continue;
                    }
                    return;
                }
                if act == 5 {
                    unsafe {
                        cx_ctx(4, i as u32, j as u32);
                    }
                }
                unsafe { cx_ctx(act as u32, i as u32, j as u32) };
                match act {
                    0 => m[i] = Some(true),
                    1 => {
                        m[i] = Some(true);
                        m[j] = Some(false);
                    }
                    2 if i == j => m[i] = Some(false),
                    2 => {
                        m[i] = m[j];
                        m[j] = Some(false);
                    }
                    3 => m[i] = None,
                    _ => {}
                }
            }
            for i in 0..2 {
                if m[i].is_some() {
                    unsafe { cx_ctx(3, i as u32, i as u32) };
                }
            }
            // the variables outlive their contexts
            unsafe {
                cx_act(11, 0, 1, 2.0);
                cx_act(4, 1, 0, 0.0);
                cx_act(6, 0, 0, 0.0);
                cx_act(6, 1, 1, 0.0);
            }
        }
        sx::check(sx::live() == live && sx::bytes() == bytes, "C18.leak");
        sx::reach("contexts");
    }
    fn c18_vector() {
        let n = 1 + sx::choose("n", 4);
        let drop = sx::choose("drop", n);
        let c: Vec<f64> = (0..n).map(|_| sx::f64("c")).collect();
        at(&[]);
        for _ in 0..2 {
            mark();
        }
        let (live, bytes) = (sx::live(), sx::bytes());
        mark();
        unsafe { cx_vector(n as u32, drop as u32, c.as_ptr()) };
        let s = seen();
        sx::check(s.deps.len() == n - 1, "C18.elements");
        let mut k = 0;
        for i in 0..n {
            if i != drop {
                sx::bits(s.vals[s.deps[k]], c[i], "C18.value");
                k += 1;
            }
        }
        std::mem::drop(s);
        sx::check(sx::live() == live && sx::bytes() == bytes, "C18.leak");
        sx::reach("vector");
    }
}
