//! C05, C06: recording and contexts.
use crate::prog::apply;
use crate::sx;
use crate::val::Both;
use advantage::*;
use num::Float;

/// how a variable of the program is known on the tape
#[derive(Clone, Copy, PartialEq, Debug)]
enum Id {
    Indep(usize),
    /// the n-th operation that is not a constant
    Op(usize),
    None,
}
#[derive(Clone, Copy)]
enum Want {
    Var(Id),
    Const(f64),
}
struct Model {
    nin: usize,
    ops: Vec<(OpCode, Want, Option<Want>, f64)>,
    ins: Vec<f64>,
    deps: Vec<Want>,
}

fn value_of<S: Float>(x: S) -> f64 {
    num::NumCast::from(x).unwrap()
}

/// position at which every variable is defined; none twice
fn defined(indeps: &[usize], ops: &[Operation], nvals: usize, l: &str) -> Vec<Option<usize>> {
    let mut at = vec![None; nvals];
    for v in indeps {
        sx::check(*v < nvals, l);
        sx::check(at[*v].is_none(), l);
        at[*v] = Some(0);
    }
    for (i, o) in ops.iter().enumerate() {
        sx::check(o.vid < nvals, l);
        sx::check(at[o.vid].is_none(), l);
        at[o.vid] = Some(i + 1);
    }
    at
}

/// every mentioned variable is defined before its use
pub fn closed(indeps: &[usize], deps: &[usize], ops: &[Operation], nvals: usize, l: &str) {
    let at = defined(indeps, ops, nvals, l);
    let before = |v: Option<usize>, i: usize| match v {
        None => true,
        Some(v) => v < nvals && at[v].map_or(false, |p| p <= i),
    };
    for (i, o) in ops.iter().enumerate() {
        sx::check(before(o.arg1, i) && before(o.arg2, i), l);
        let want = match o.opcode {
            OpCode::Nop | OpCode::Const => 0,
            OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf => 2,
            _ => 1,
        };
        sx::check(o.arg1.is_some() as usize + o.arg2.is_some() as usize == want, l);
    }
    for d in deps {
        sx::check(*d < nvals && at[*d].is_some(), l);
    }
}

fn matches(m: &Model, indeps: &[usize], deps: &[usize], ops: &[Operation], vals: &[f64]) {
    closed(indeps, deps, ops, vals.len(), "C05.closed");
    sx::check(indeps.len() == m.nin, "C05.independents");
    for i in 0..m.nin {
        sx::bits(vals[indeps[i]], m.ins[i], "C05.independent-values");
    }
    let real: Vec<&Operation> = ops.iter().filter(|o| o.opcode != OpCode::Const).collect();
    sx::check(real.len() == m.ops.len(), "C05.operations-once");
    let konst = |v: usize| ops.iter().any(|o| o.vid == v && o.opcode == OpCode::Const);
    let fits = |v: usize, w: Want, l: &str| match w {
        Want::Var(Id::Indep(i)) => sx::check(v == indeps[i], l),
        Want::Var(Id::Op(i)) => sx::check(v == real[i].vid, l),
        Want::Var(Id::None) => sx::check(false, l),
        Want::Const(c) => {
            sx::check(konst(v), l);
            sx::bits(vals[v], c, "C05.constant-value");
        }
    };
    for (o, (code, a, b, val)) in real.iter().zip(m.ops.iter()) {
        sx::check(o.opcode == *code, "C05.opcode");
        fits(o.arg1.unwrap(), *a, "C05.first-operand");
        sx::check(o.arg2.is_some() == b.is_some(), "C05.second-operand");
        if let Some(b) = b {
            fits(o.arg2.unwrap(), *b, "C05.second-operand");
        }
        sx::bits(vals[o.vid], *val, "C05.result-value");
    }
    sx::check(deps.len() == m.deps.len(), "C05.dependents");
    for (d, w) in deps.iter().zip(m.deps.iter()) {
        fits(*d, *w, "C05.dependents");
    }
}

fn history<S: sx::Sc>() {
    let k = sx::param("k", 3) as usize;
    let one = sx::param("ops", 0) == 1;
    // without the operation whose tangent has cases
    let straight = sx::param("ops", 0) == 2;
    let mut pick = sx::Pick::new();
    let mut ctx = AContext::new();
    let mut m = Model { nin: 0, ops: vec![], ins: vec![], deps: vec![] };
    let mut pool: Vec<(AFloat<S>, Id)> = vec![];
    let mut key = 0u64;
    let x: S = S::sym("x");
    let first = ctx.new_indep(x);
    m.nin = 1;
    m.ins.push(value_of(x));
    pool.push((first, Id::Indep(0)));
    // a plain value
    let p: S = S::sym("p");
    pool.push((AFloat::new(p, S::zero()), Id::None));
    for step in 0..k {
        let what = pick.choose("action", 6);
        key = key.wrapping_mul(7).wrapping_add(what as u64);
        match what {
            // register
            0 => {
                let v: S = S::sym("x");
                let a = ctx.new_indep(v);
                pool.push((a, Id::Indep(m.nin)));
                m.nin += 1;
                m.ins.push(value_of(v));
            }
            // mark dependent
            1 => {
                let c = pick.choose("which", pool.len());
                key = key.wrapping_mul(11).wrapping_add(c as u64);
                let (a, id) = pool[c];
                ctx.set_dep(&a);
                m.deps.push(if id == Id::None { Want::Const(value_of(a.value())) } else { Want::Var(id) });
            }
            // an operation of one or two operands
            _ => {
                let ops: &[OpCode] = if one {
                    &[OpCode::Sub]
                } else {
                    match what {
                        2 => &[OpCode::Add, OpCode::Sub],
                        3 if straight => &[OpCode::Mul, OpCode::Div],
                        3 => &[OpCode::Mul, OpCode::Div, OpCode::Powf],
                        4 => &[OpCode::Sin, OpCode::Cos, OpCode::Tan, OpCode::Abs, OpCode::Exp],
                        _ => &[OpCode::Ln, OpCode::Asin, OpCode::Acos, OpCode::Atan],
                    }
                };
                if one && what > 3 {
                    sx::assume(false);
                }
                // operations on several operands vary in kind, the others in operands
                let op = if one && what == 3 { OpCode::Sin } else { ops[pick.choose("op", ops.len())] };
                key = key.wrapping_mul(17).wrapping_add(op as u64);
                let two = matches!(op, OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf);
                let i = pick.choose("a", pool.len());
                let j = if two { pick.choose("b", pool.len()) } else { 0 };
                key = key.wrapping_mul(97).wrapping_add((i * 10 + j) as u64);
                let ((a, ia), (b, ib)) = (pool[i], pool[j]);
                let r = apply(op, a, b);
                let rec = ia != Id::None || two && ib != Id::None;
                if rec {
                    let w = |v: AFloat<S>, id: Id| if id == Id::None { Want::Const(value_of(v.value())) } else { Want::Var(id) };
                    pool.push((r, Id::Op(m.ops.len())));
                    m.ops.push((op, w(a, ia), if two { Some(w(b, ib)) } else { None }, value_of(r.value())));
                } else {
                    pool.push((r, Id::None));
                }
            }
        }
        if step == 1 {
            pick.shard(key);
        }
    }
    sx::reach("history");
    matches(&m, &ctx.indeps(), &ctx.deps(), &ctx.operations(), &ctx.values());
    let t = ctx.tape();
    let ops: Vec<Operation> = t.ops_iter().collect();
    matches(&m, t.indeps(), t.deps(), &ops, t.values());
    let mut back: Vec<Operation> = t.ops_iter().rev().collect();
    back.reverse();
    sx::check(back == ops, "C05.reverse-iteration");
    sx::check(t.num_indeps() == m.nin && t.num_deps() == m.deps.len(), "C05.counts");
    sx::check(t.num_abs() == m.ops.iter().filter(|o| o.0 == OpCode::Abs).count(), "C05.count-abs");
    let max = t.indeps().iter().chain(t.deps().iter()).cloned().chain(ops.iter().map(|o| o.vid)).max().unwrap();
    sx::check(t.max_id() == max, "C05.max-id");
}

/// operators in all their forms, one after the other on the same variable
fn forms<S: Both>() {
    let mut ctx = AContext::new();
    let x: S = S::sym("x");
    let other: S = S::sym("other");
    let first = ctx.new_indep(x);
    let recorded = ctx.new_indep(other);
    let is = ctx.indeps();
    let mut pool = vec![(first, is[0])];
    for step in 0..sx::param("k", 2) {
        let op = sx::choose("op", 4);
        let form = sx::choose("form", 5);
        let (a, av) = pool[sx::choose("a", pool.len())];
        // the other variable is recorded or plain
        let (b, bv) = if (form == 0 || form == 3) && sx::choose("b", 2) == 1 { (recorded, Some(is[1])) } else { (AFloat::new(S::sym("p"), S::zero()), None) };
        let c = sx::f64("c");
        let n = ctx.operations().len();
        let r = S::plain_forms(op, form, a, b, c);
        let ops = ctx.operations();
        let vals = ctx.values();
        let plain = bv.is_none();
        sx::check(ops.len() == n + 1 + plain as usize, "C05.form-recorded-once");
        let o = ops[ops.len() - 1];
        sx::check(o.opcode == [OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Div][op], "C05.form-opcode");
        let (p, q) = if form == 2 { (o.arg2, o.arg1) } else { (o.arg1, o.arg2) };
        sx::check(p == Some(av), "C05.form-operand");
        match bv {
            Some(v) => sx::check(q == Some(v), "C05.form-operand"),
            None => {
                let k = ops[ops.len() - 2];
                sx::check(k.opcode == OpCode::Const && q == Some(k.vid), "C05.form-constant");
                let want: S = if form == 0 || form == 3 { b.value() } else { num::NumCast::from(c).unwrap() };
                sx::bits(vals[k.vid], value_of(want), "C05.form-constant-value");
            }
        }
        sx::bits(vals[o.vid], value_of(r.value()), "C05.form-result");
        closed(&is, &[], &ops, vals.len(), "C05.closed");
        pool.push((r, o.vid));
        let _ = step;
    }
    // the last result is known by its own variable
    let (r, v) = pool[pool.len() - 1];
    ctx.set_dep(&r);
    sx::check(ctx.deps() == vec![v], "C05.form-result-identity");
    sx::reach("forms");
}

/// snapshot of a context
fn snap(c: &AContext) -> (Vec<usize>, Vec<usize>, Vec<Operation>, Vec<f64>) {
    (c.indeps(), c.deps(), c.operations(), c.values())
}
fn unchanged(c: &AContext, s: &(Vec<usize>, Vec<usize>, Vec<Operation>, Vec<f64>), l: &str) {
    let n = snap(c);
    sx::check(n.0 == s.0 && n.1 == s.1 && n.2 == s.2 && n.3.len() == s.3.len(), l);
    for i in 0..s.3.len() {
        sx::bits(n.3[i], s.3[i], l);
    }
}
const SOME: [OpCode; 4] = [OpCode::Sub, OpCode::Powf, OpCode::Sin, OpCode::Abs];

crate::entries! {
    fn c05_history() { history::<f64>() }
    fn c05_forms() { forms::<f64>() }
    fn c05_forms32() { forms::<f32>() }
    fn c05_history32() { history::<f32>() }
    // vectors and slices register in order
    fn c05_vectors() {
        let n = [0, 1, 2, 3, 20, 70][sx::choose("n", 6)];
        let m = [0, 1, 2, 3, 21, 90][sx::choose("m", 6)];
        let v = sx::f64("v");
        let mut ctx = AContext::new();
        let a = ctx.new_indep(sx::f64("first"));
        let xs = ctx.new_indep_vec(n, v);
        sx::check(xs.len() == n, "C05.vector-length");
        let is = ctx.indeps();
        sx::check(is.len() == n + 1, "C05.vector-registered");
        for i in 0..n {
            sx::bits(ctx.values()[is[i + 1]], v, "C05.vector-values");
            sx::bits(xs[i].value(), v, "C05.vector-values");
            let s = xs[i] - a;
            let o = ctx.operations();
            let o = o.last().unwrap();
            sx::check(o.opcode == OpCode::Sub && o.arg1 == Some(is[i + 1]) && o.arg2 == Some(is[0]), "C05.vector-order");
            let _ = s;
        }
        let mut ys = vec![];
        let mut want = vec![];
        for i in 0..m {
            if i < n { ys.push(xs[n - 1 - i]); want.push(is[n - i]); } else { ys.push(a); want.push(is[0]); }
        }
        ctx.set_dep_slice(&ys);
        sx::check(ctx.deps() == want, "C05.slice-order");
        sx::reach("vectors");
    }
    // registering a variable again gives it a new identity from then on
    fn c05_reregister() {
        let mut ctx = AContext::new();
        let x = sx::f64("x");
        let mut a = ctx.new_indep(x);
        let s = a.sin();
        let rerun = sx::choose("which", 2);
        let mut b = if rerun == 0 { a } else { s };
        let bv = b.value();
        ctx.set_indep(&mut b);
        let c = b - a;
        ctx.set_dep(&b);
        let is = ctx.indeps();
        sx::check(is.len() == 2 && is[0] != is[1], "C05.fresh-variable");
        sx::bits(ctx.values()[is[1]], bv, "C05.reregistered-value");
        let ops = ctx.operations();
        let o = ops.last().unwrap();
        sx::check(o.opcode == OpCode::Sub && o.arg1 == Some(is[1]) && o.arg2 == Some(is[0]), "C05.reregistered-operand");
        sx::check(ctx.deps() == vec![is[1]], "C05.reregistered-dependent");
        closed(&is, &ctx.deps(), &ops, ctx.values().len(), "C05.closed");
        ctx.set_indep(&mut a);
        let _ = c;
        sx::reach("reregister");
    }
    // record() itself
    fn c05_record() {
        let mut ctx = AContext::new();
        let a = ctx.new_indep(sx::f64("x"));
        let i = ctx.indeps()[0];
        let v = sx::f64("v");
        let c = ctx.record(OpCode::Const, v, None, None);
        let w = sx::f64("w");
        let d = ctx.record(OpCode::Mul, w, Some(i), Some(c));
        let ops = ctx.operations();
        sx::check(ops.len() == 2 && ops[0].vid == c && ops[1].vid == d, "C05.record-ids");
        sx::check(ops[0].opcode == OpCode::Const && ops[0].arg1.is_none() && ops[0].arg2.is_none(), "C05.record-const");
        sx::check(ops[1].opcode == OpCode::Mul && ops[1].arg1 == Some(i) && ops[1].arg2 == Some(c), "C05.record-operands");
        sx::bits(ctx.values()[c], v, "C05.record-values");
        sx::bits(ctx.values()[d], w, "C05.record-values");
        closed(&ctx.indeps(), &ctx.deps(), &ops, ctx.values().len(), "C05.closed");
        let _ = a;
        sx::reach("record");
    }

    // two live contexts: operations go where their operands belong
    fn c06_isolation() {
        let mut pick = sx::Pick::new();
        let mut c = [AContext::new(), AContext::new()];
        sx::check(c[0].cid() != c[1].cid(), "C06.distinct-ids");
        let mut pool: Vec<Vec<ADouble>> = vec![vec![], vec![]];
        for w in 0..2 {
            let v = sx::f64("x");
            pool[w].push(c[w].new_indep(v));
        }
        let k = sx::param("k", 3) as usize;
        for step in 0..k {
            let w = pick.choose("context", 2);
            let other = snap(&c[1 - w]);
            let before = snap(&c[w]);
            let act = pick.choose("action", 3);
            if step == 1 { pick.shard((w * 3 + act) as u64); }
            match act {
                0 => {
                    let v = sx::f64("x");
                    let a = c[w].new_indep(v);
                    pool[w].push(a);
                    sx::check(c[w].indeps().len() == before.0.len() + 1, "C06.registered-here");
                }
                1 => {
                    let op = SOME[pick.choose("op", SOME.len())];
                    let a = pool[w][pick.choose("a", pool[w].len())];
                    let p = ADouble::new(sx::f64("p"), 0.0);
                    let (n, r) = match (op, pick.choose("side", 3)) {
                        (OpCode::Sin, _) | (OpCode::Abs, _) => (1, apply(op, a, a)),
                        (_, 0) => (1, apply(op, a, pool[w][0])),
                        (_, 1) => (2, apply(op, a, p)),
                        _ => (2, apply(op, p, a)),
                    };
                    pool[w].push(r);
                    let now = snap(&c[w]);
                    sx::check(now.2.len() == before.2.len() + n, "C06.recorded-here");
                    sx::check(now.2[..before.2.len()] == before.2[..], "C06.earlier-operations-kept");
                    let o = now.2.last().unwrap();
                    sx::check(o.opcode == op, "C06.recorded-here");
                    sx::bits(now.3[o.vid], r.value(), "C06.recorded-value");
                }
                _ => {
                    let a = pool[w][pick.choose("a", pool[w].len())];
                    c[w].set_dep(&a);
                    sx::check(c[w].deps().len() == before.1.len() + 1, "C06.dependent-here");
                }
            }
            unchanged(&c[1 - w], &other, "C06.other-context-unchanged");
        }
        sx::reach("isolation");
    }
    // a variable registered elsewhere belongs to where it was registered
    fn c06_moved() {
        let mut c1 = AContext::new();
        let mut c2 = AContext::new();
        let (x, y) = (sx::f64("x"), sx::f64("y"));
        let a = c1.new_indep(x);
        let b = c2.new_indep(y);
        let mut m = if sx::choose("derived", 2) == 1 { a.sin() } else { a };
        let mv = m.value();
        let s1 = snap(&c1);
        let gone = sx::choose("gone", 2) == 1;
        if gone { c1 = AContext::new(); }
        let s1 = if gone { snap(&c1) } else { s1 };
        c2.set_indep(&mut m);
        let is = c2.indeps();
        sx::check(is.len() == 2 && is[0] != is[1], "C06.registered-here");
        sx::bits(c2.values()[is[1]], mv, "C06.recorded-value");
        let n = c2.operations().len();
        let r = match sx::choose("use", 4) {
            0 => m - b,
            1 => b / m,
            2 => m.powf(b),
            _ => m * m,
        };
        let o = c2.operations();
        sx::check(o.len() == n + 1, "C06.recorded-here");
        let o = o[n];
        sx::check(o.arg1 == Some(is[1]) || o.arg2 == Some(is[1]), "C06.recorded-here");
        sx::bits(c2.values()[o.vid], r.value(), "C06.recorded-value");
        c2.set_dep(&m);
        sx::check(c2.deps() == vec![is[1]], "C06.dependent-here");
        unchanged(&c1, &s1, "C06.other-context-unchanged");
        sx::reach("moved");
        // no longer a variable of the first
        if !gone {
            sx::expect_panic("C06.mixing-refused");
            if sx::choose("mix", 2) == 0 { c1.set_dep(&m); } else { let _ = a + m; }
        }
    }
    // mixing contexts is refused
    fn c06_mixing() {
        let mut c1 = AContext::new();
        let mut c2 = AContext::new();
        let (x, y) = (sx::f64("x"), sx::f64("y"));
        let mut a = c1.new_indep(x);
        let mut b = c2.new_indep(y);
        if sx::choose("derived-a", 2) == 1 { a = a.sin(); }
        if sx::choose("derived-b", 2) == 1 { b = b * a.value(); }
        // the other context may be gone already
        let dead = sx::choose("dead", 3);
        let what = sx::choose("what", if dead == 0 { 9 } else { 8 });
        match dead {
            1 => c1 = AContext::new(),
            2 => c2 = AContext::new(),
            _ => {}
        }
        sx::reach("mixing");
        let (s1, s2) = (snap(&c1), snap(&c2));
        let (p1, p2) = (&mut c1 as *mut AContext, &mut c2 as *mut AContext);
        let (a0, b0) = (a, b);
        sx::refused("C06.mixing-refused", move || {
            let (c1, c2) = unsafe { (&mut *p1, &mut *p2) };
            sx::reach("refused");
            // the context that refuses comes last
            for k in (if what == 7 { [1, 0] } else { [0, 1] }).iter().cloned() {
                let (c, s, v, gone) = if k == 1 { (&mut *c2, &s2, b0, dead == 2) } else { (&mut *c1, &s1, a0, dead == 1) };
                // of the slice, the first is marked
                if what == 8 && k == 1 && dead == 0 {
                    sx::check(c.indeps() == s.0 && c.deps().len() == 1 && c.operations() == s.2 && c.values().len() == s.3.len(), "C06.refused-not-recorded");
                    continue;
                }
                unchanged(c, s, "C06.refused-not-recorded");
                sx::check(AContext::from_cid(c.cid()).is_some(), "C06.found-after-refusal");
                // and it goes on recording
                let n = c.operations().len();
                let w = c.new_indep(x);
                let r = if gone { w * w } else { v * w };
                sx::bits(r.value(), if gone { x * x } else { v.value() * x }, "C06.value-after-refusal");
                sx::check(c.operations().len() == n + 1, "C06.recorded-after-refusal");
            }
        });
        match what {
            0 => { let _ = a + b; }
            1 => { let _ = b - a; }
            2 => { let _ = a * b; }
            3 => { let _ = b / a; }
            4 => { let _ = a.powf(b); }
            5 => { a -= b; }
            6 => { let _ = a.max(b); }
            7 => { c1.set_dep(&b); }
            _ => { c2.set_dep_slice(&[b, a]); }
        }
    }
    // a tape is a snapshot and outlives its context
    fn c06_tape_snapshot() {
        let mut ctx = AContext::new();
        let (x, y) = (sx::f64("x"), sx::f64("y"));
        let a = ctx.new_indep(x);
        let b = ctx.new_indep(y);
        let r = a * b;
        ctx.set_dep(&r);
        let t = ctx.tape();
        let v = t.values().to_vec();
        let ops: Vec<Operation> = t.ops_iter().collect();
        let what = sx::choose("later", 4);
        match what {
            0 => { let s = r.sin() / 3.0; ctx.set_dep(&s); }
            1 => { ctx.new_indep(sx::f64("z")); }
            2 => { ctx.set_dep(&a); }
            _ => { drop(ctx); let c2 = AContext::new(); let _ = c2.cid(); }
        }
        sx::check(t.num_indeps() == 2 && t.num_deps() == 1, "C06.tape-unaffected");
        let now: Vec<Operation> = t.ops_iter().collect();
        sx::check(now == ops && t.values().len() == v.len(), "C06.tape-unaffected");
        for i in 0..v.len() { sx::bits(t.values()[i], v[i], "C06.tape-unaffected"); }
        sx::bits(t.y()[0], x * y, "C06.tape-survives");
        sx::reach("snapshot");
    }
    // replaying a tape does not touch its context or other tapes
    fn c06_tape_replay() {
        let mut ctx = AContext::new();
        let a = ctx.new_indep(sx::f64("x"));
        let r = a.sin();
        ctx.set_dep(&r);
        let s = snap(&ctx);
        let mut t1 = ctx.tape();
        let t2 = ctx.tape();
        let t3 = t1.clone();
        t1.zero_order(&nalgebra::DVector::from_vec(vec![sx::f64("x1")]));
        unchanged(&ctx, &s, "C06.replay-leaves-context");
        for i in 0..s.3.len() {
            sx::bits(t2.values()[i], s.3[i], "C06.replay-leaves-tapes");
            sx::bits(t3.values()[i], s.3[i], "C06.replay-leaves-tapes");
        }
        sx::reach("replay");
    }
    // variables that outlive their context keep computing and attach nowhere
    fn c06_outlive() {
        let mut old = AContext::new();
        let (x, dx, y, dy) = (sx::f64("x"), sx::f64("dx"), sx::f64("y"), sx::f64("dy"));
        let mut a = ADouble::new(x, dx);
        old.set_indep(&mut a);
        if sx::choose("derived", 2) == 1 { a = a * 1.0; }
        let order = sx::choose("order", 3);
        let mut early = None;
        if order == 0 { early = Some(AContext::new()); }
        let id = old.cid();
        drop(old);
        sx::check(AContext::from_cid(id).is_none(), "C06.dead-context-not-found");
        let mut late = match early { Some(c) => c, None => AContext::new() };
        let v = sx::f64("v");
        let live = late.new_indep(v);
        if order == 2 { drop(AContext::new()); }
        let s = snap(&late);
        let b = ADouble::new(y, dy);
        let op = [OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Div, OpCode::Powf, OpCode::Sin, OpCode::Abs, OpCode::Ln][sx::choose("op", 8)];
        let (r, want) = match sx::choose("side", 3) {
            0 => (apply(op, a, b), apply(op, ADouble::new(a.value(), a.dvalue()), b)),
            1 => (apply(op, b, a), apply(op, b, ADouble::new(a.value(), a.dvalue()))),
            _ => { let p = ADouble::new(a.value(), a.dvalue()); (apply(op, a, a), apply(op, p, p)) }
        };
        sx::bits(r.value(), want.value(), "C06.outliving-value");
        sx::bits(r.dvalue(), want.dvalue(), "C06.outliving-tangent");
        // derived from the dead one
        let q = r.sin();
        sx::bits(q.value(), want.sin().value(), "C06.outliving-value");
        unchanged(&late, &s, "C06.not-attached-later");
        let _ = live;
        sx::reach("outlive");
    }
    // many contexts at a time, some gone in between
    fn c06_many() {
        let n = sx::param("n", 40) as usize;
        let stride = sx::param("stride", 3) as usize;
        let mut live: Vec<(AContext, ADouble, f64, usize)> = vec![];
        let mut ids: Vec<usize> = vec![];
        let mut gone: Vec<usize> = vec![];
        let mut start = |live: &mut Vec<(AContext, ADouble, f64, usize)>, gone: &Vec<usize>| {
            let mut c = AContext::new();
            let v = sx::f64("x");
            let a = c.new_indep(v);
            sx::check(!ids.contains(&c.cid()) && !gone.contains(&c.cid()), "C06.distinct-ids");
            ids.push(c.cid());
            live.push((c, a, v, 0));
        };
        let settled = |live: &Vec<(AContext, ADouble, f64, usize)>, gone: &Vec<usize>| {
            for (c, _, _, n) in live {
                let f = AContext::from_cid(c.cid());
                sx::check(f.is_some(), "C06.live-context-found");
                let f = f.unwrap();
                sx::check(f.cid() == c.cid() && f.operations().len() == *n, "C06.same-context-found");
            }
            for g in gone { sx::check(AContext::from_cid(*g).is_none(), "C06.dead-context-not-found"); }
        };
        let turn = |live: &mut Vec<(AContext, ADouble, f64, usize)>, r: usize| {
            let m = live.len();
            for i in 0..m {
                // in an order of its own every time
                let (c, a, v, n) = &mut live[(i * 7 + r) % m];
                match r % 3 {
                    0 => { *a = a.sin(); *v = v.sin(); }
                    1 => { *a = *a * *a; *v = *v * *v; }
                    _ => { *a = *a - a.exp(); *v = *v - v.exp(); *n += 1; }
                }
                *n += 1;
                let o = c.operations();
                sx::check(o.len() == *n, "C06.recorded-here");
                sx::bits(a.value(), *v, "C06.recorded-value");
                sx::bits(c.values()[o[*n - 1].vid], *v, "C06.recorded-value");
            }
        };
        for _ in 0..n { start(&mut live, &gone); }
        settled(&live, &gone);
        for r in 0..sx::param("rounds", 3) as usize {
            turn(&mut live, r);
            let mut i = r % stride;
            while i < live.len() {
                let (c, a, v, _) = live.remove(i);
                gone.push(c.cid());
                drop(c);
                // computes on, attached nowhere
                sx::bits((a + a).value(), v + v, "C06.outliving-value");
                i += stride - 1;
            }
            settled(&live, &gone);
            for _ in 0..n / 4 { start(&mut live, &gone); }
            // as many again, and gone at once
            for _ in 0..n / 4 { let c = AContext::new(); gone.push(c.cid()); }
            turn(&mut live, r + 1);
            settled(&live, &gone);
        }
        sx::reach("many");
    }
    // a context is found by its id exactly as long as it is alive
    fn c06_lookup() {
        let k = sx::param("k", 5) as usize;
        let mut live: Vec<AContext> = vec![];
        let mut dead: Vec<usize> = vec![];
        for _ in 0..k {
            match sx::choose("action", 3) {
                0 => {
                    let c = AContext::new();
                    for o in &live { sx::check(o.cid() != c.cid(), "C06.distinct-ids"); }
                    sx::check(!dead.contains(&c.cid()), "C06.ids-not-reused");
                    live.push(c);
                }
                1 => {
                    if live.is_empty() { break; }
                    let i = sx::choose("drop", live.len());
                    let c = live.remove(i);
                    dead.push(c.cid());
                }
                // a second handle to a live context keeps it alive
                _ => {
                    if live.is_empty() { break; }
                    let i = sx::choose("handle", live.len());
                    let h = AContext::from_cid(live[i].cid());
                    sx::check(h.is_some(), "C06.live-context-found");
                    let mut h = h.unwrap();
                    let n = live[i].indeps().len();
                    h.new_indep(sx::f64("x"));
                    sx::check(live[i].indeps().len() == n + 1, "C06.same-context-found");
                    let id = h.cid();
                    drop(live.remove(i));
                    sx::check(AContext::from_cid(id).is_some(), "C06.handle-keeps-alive");
                    sx::check(h.indeps().len() == n + 1, "C06.handle-keeps-alive");
                    drop(h);
                    dead.push(id);
                }
            }
            for c in &live {
                let f = AContext::from_cid(c.cid());
                sx::check(f.is_some() && f.unwrap().cid() == c.cid(), "C06.live-context-found");
            }
            for d in &dead { sx::check(AContext::from_cid(*d).is_none(), "C06.dead-context-not-found"); }
        }
        sx::check(AContext::from_cid(sx::choose("never", 2) * 1000000).is_none(), "C06.unknown-id");
        sx::reach("lookup");
    }
}
