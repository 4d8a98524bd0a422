//! C16: contexts used by several threads; the engine chooses the schedule.
use crate::rec::closed;
use crate::sx;
use advantage::*;
use num::Float;

/// run every job in a thread of its own, the last one in this thread
struct Job {
    f: Box<dyn FnOnce() + Send>,
}
extern "C" fn run(p: *mut u8) -> *mut u8 {
    let j = unsafe { Box::from_raw(p as *mut Job) };
    (j.f)();
    p
}
fn spawn(f: impl FnOnce() + Send + 'static) -> u64 {
    let j = Box::new(Job { f: Box::new(f) });
    sx::spawn(run, Box::into_raw(j) as *mut u8)
}
/// where a thread leaves its results
struct Slot<T>(*mut Option<T>);
unsafe impl<T> Send for Slot<T> {}
impl<T> Slot<T> {
    fn new() -> (Slot<T>, Slot<T>) {
        let p = Box::into_raw(Box::new(None));
        (Slot(p), Slot(p))
    }
    fn put(self, v: T) {
        unsafe { *self.0 = Some(v) }
    }
    fn take(self) -> T {
        unsafe { Box::from_raw(self.0) }.unwrap()
    }
}

/// what a thread does with the shared variable
fn work<F: Float>(k: usize, me: usize, x: F) -> Vec<F> {
    let c = |v: f64| F::from(v).unwrap();
    match (k, me) {
        (0, 0) => vec![x.sin()],
        (0, _) => vec![x.cos()],
        (1, 0) => {
            let a = x * x;
            vec![a, a - x]
        }
        (1, _) => {
            let a = x + x;
            vec![a, x / a]
        }
        // plain operands take a record of their own
        (2, 0) => vec![c(2.0) - x],
        (2, _) => vec![x / c(3.0)],
        (_, 0) => {
            let a = x.exp();
            vec![a, a * c(5.0)]
        }
        (_, _) => {
            let a = c(7.0) - x;
            vec![a, a.tan()]
        }
    }
}
/// opcodes of a thread's non-constant operations in program order
fn script(k: usize, me: usize) -> Vec<OpCode> {
    match (k, me) {
        (0, 0) => vec![OpCode::Sin],
        (0, _) => vec![OpCode::Cos],
        (1, 0) => vec![OpCode::Mul, OpCode::Sub],
        (1, _) => vec![OpCode::Add, OpCode::Div],
        (2, 0) => vec![OpCode::Sub],
        (2, _) => vec![OpCode::Div],
        (_, 0) => vec![OpCode::Exp, OpCode::Mul],
        (_, _) => vec![OpCode::Sub, OpCode::Tan],
    }
}
fn whole(t: &impl Tape, l: &str) {
    let ops: Vec<Operation> = t.ops_iter().collect();
    closed(t.indeps(), t.deps(), &ops, t.values().len(), l);
}

crate::entries! {
    /// two threads record on one context
    fn c16_record() {
        let k = sx::choose("work", 4);
        sx::shard(k as u64);
        let v = sx::f64("x");
        let mut ctx = AContext::new();
        let x: ADouble = ctx.new_indep(v);
        let (p, q) = Slot::new();
        let t = spawn(move || p.put(work(k, 0, x)));
        let mine = work(k, 1, x);
        sx::join(t);
        let theirs = q.take();
        let all = [theirs, mine];
        let (want0, want1) = (work(k, 0, v), work(k, 1, v));
        let mut n = 0;
        for (r, w) in all.iter().zip([&want0, &want1]) {
            for (r, w) in r.iter().zip(w.iter()) {
                sx::bits(r.value(), *w, "C16.values");
                ctx.set_dep(r);
                n += 1;
            }
        }
        let mut t = ctx.tape();
        whole(&t, "C16.closed");
        // every operation once, each thread's in its order
        let ops: Vec<OpCode> = t.ops_iter().map(|o| o.opcode).filter(|o| *o != OpCode::Const).collect();
        sx::check(ops.len() == script(k, 0).len() + script(k, 1).len(), "C16.operations-once");
        for me in 0..2 {
            let s = script(k, me);
            let mine: Vec<OpCode> = ops.iter().cloned().filter(|o| s.contains(o)).collect();
            sx::check(mine == s, "C16.program-order");
        }
        // and with the right operands: the tape computes both threads' results anywhere
        let v2 = sx::f64("x2");
        t.zero_order(&DVector::from_vec(vec![v2]));
        sx::check(t.num_deps() == n, "C16.dependents");
        let want: Vec<f64> = work(k, 0, v2).into_iter().chain(work(k, 1, v2)).collect();
        for i in 0..n {
            sx::bits(t.values()[t.deps()[i]], want[i], "C16.operands");
        }
        sx::reach("record");
    }

    /// a tape is taken while another thread registers, records and marks
    fn c16_snapshot() {
        let k = sx::choose("history", 4);
        sx::shard(k as u64);
        let (v, w) = (sx::f64("x"), sx::f64("y"));
        let mut ctx = AContext::new();
        let x: ADouble = ctx.new_indep(v);
        let cid = ctx.cid();
        let t = spawn(move || {
            let mut c = AContext::from_cid(cid).unwrap();
            match k {
                0 => {
                    let y = c.new_indep(w);
                    c.set_dep(&y);
                }
                1 => {
                    let y = x * x;
                    c.set_dep(&y);
                }
                2 => {
                    let y = c.new_indep(w);
                    let z = y - x;
                    c.set_dep(&z);
                }
                _ => c.set_dep(&ADouble::from(w)),
            }
        });
        let tape = ctx.tape();
        whole(&tape, "C16.closed");
        sx::check(tape.num_indeps() <= 2 && tape.num_deps() <= 1, "C16.nothing-invented");
        sx::join(t);
        let tape = ctx.tape();
        whole(&tape, "C16.closed");
        sx::check(tape.num_deps() == 1, "C16.dependents");
        sx::check(tape.num_indeps() == if k == 0 || k == 2 { 2 } else { 1 }, "C16.independents");
        sx::reach("snapshot");
    }

    /// contexts come and go while others are looked up and recorded on
    fn c16_lifecycle() {
        let k = sx::choose("history", 7);
        sx::shard(k as u64);
        let v = sx::f64("x");
        match k {
            0 => {
                // created and dropped on both sides
                let (p, q) = Slot::new();
                let t = spawn(move || {
                    let mut c = AContext::new();
                    let x: ADouble = c.new_indep(v);
                    let y = x - x;
                    c.set_dep(&y);
                    p.put((c.cid(), c.tape().num_deps()));
                });
                let mut c = AContext::new();
                let x: ADouble = c.new_indep(v);
                c.set_dep(&x.sin());
                let cid = c.cid();
                sx::check(AContext::from_cid(cid).map(|c| c.cid()) == Some(cid), "C16.lookup");
                let n = c.tape().num_deps();
                drop(c);
                sx::join(t);
                let (other, m) = q.take();
                sx::check(other != cid, "C16.identities");
                sx::check(n == 1 && m == 1, "C16.dependents");
                sx::check(AContext::from_cid(other).is_none() && AContext::from_cid(cid).is_none(), "C16.lookup");
            }
            1 => {
                // recording on a context that goes away
                let mut c = AContext::new();
                let x: ADouble = c.new_indep(v);
                let (p, q) = Slot::new();
                let t = spawn(move || p.put((x * x).value()));
                drop(c);
                sx::join(t);
                sx::bits(q.take(), v * v, "C16.values");
            }
            2 => {
                // lookups of a context that goes away
                let c = AContext::new();
                let cid = c.cid();
                let (p, q) = Slot::new();
                let t = spawn(move || p.put(AContext::from_cid(cid).map_or(cid, |c| c.cid())));
                drop(c);
                sx::join(t);
                sx::check(q.take() == cid, "C16.lookup");
                sx::check(AContext::from_cid(cid).is_none(), "C16.lookup");
            }
            3 => {
                // the last handle is dropped by either thread
                let c = AContext::new();
                let cid = c.cid();
                let c2 = AContext::from_cid(cid).unwrap();
                let t = spawn(move || drop(c2));
                drop(c);
                sx::join(t);
                sx::check(AContext::from_cid(cid).is_none(), "C16.lookup");
            }
            4 => {
                // lookups of ids without a context while another goes away
                let c = AContext::new();
                let cid = c.cid();
                let (p, q) = Slot::new();
                let t = spawn(move || p.put((AContext::from_cid(0).is_none(), AContext::from_cid(cid + 1).is_none())));
                drop(c);
                sx::join(t);
                sx::check(q.take() == (true, true), "C16.lookup");
                sx::check(AContext::from_cid(cid).is_none(), "C16.lookup");
            }
            5 => {
                // a context is made while another goes away
                let c = AContext::new();
                let cid = c.cid();
                let (p, q) = Slot::new();
                let t = spawn(move || {
                    let c = AContext::new();
                    p.put((c.cid(), AContext::from_cid(c.cid()).is_some()));
                });
                drop(c);
                sx::join(t);
                let (other, found) = q.take();
                sx::check(found && other != cid, "C16.identities");
                sx::check(AContext::from_cid(other).is_none() && AContext::from_cid(cid).is_none(), "C16.lookup");
            }
            _ => {
                // independent contexts do not mix
                let (p, q) = Slot::new();
                let t = spawn(move || {
                    let mut c = AContext::new();
                    let x: ADouble = c.new_indep(v);
                    let y = x.exp();
                    c.set_dep(&y);
                    p.put(c.operations());
                });
                let mut c = AContext::new();
                let x: ADouble = c.new_indep(v);
                let y = x.cos();
                c.set_dep(&y);
                let mine = c.operations();
                sx::join(t);
                let theirs = q.take();
                sx::check(mine.len() == 1 && mine[0].opcode == OpCode::Cos, "C16.own-operations");
                sx::check(theirs.len() == 1 && theirs[0].opcode == OpCode::Exp, "C16.own-operations");
            }
        }
        sx::reach("lifecycle");
    }

    /// two threads register independents and dependents
    fn c16_register() {
        let (v, w) = (sx::f64("x"), sx::f64("y"));
        let mut ctx = AContext::new();
        let cid = ctx.cid();
        let t = spawn(move || {
            let mut c = AContext::from_cid(cid).unwrap();
            let y: ADouble = c.new_indep(w);
            c.set_dep(&y);
        });
        let x: ADouble = ctx.new_indep(v);
        ctx.set_dep(&x);
        sx::join(t);
        let t = ctx.tape();
        whole(&t, "C16.closed");
        sx::check(t.num_indeps() == 2 && t.num_deps() == 2, "C16.dependents");
        let (i, d) = (t.indeps(), t.deps());
        sx::check(i[0] != i[1] && d[0] != d[1], "C16.independents");
        for k in 0..2 {
            sx::check(d[k] == i[0] || d[k] == i[1], "C16.dependents");
        }
        let (a, b) = (t.values()[i[0]], t.values()[i[1]]);
        let first = (a.to_bits() == v.to_bits()) & (b.to_bits() == w.to_bits());
        let second = (a.to_bits() == w.to_bits()) & (b.to_bits() == v.to_bits());
        sx::check(first | second, "C16.values");
        sx::reach("register");
    }

    /// two threads record, a third takes tapes and looks at the context
    fn c16_three() {
        let k = sx::choose("work", 4);
        let look = sx::choose("look", 3);
        sx::shard((k * 3 + look) as u64);
        let v = sx::f64("x");
        let ctx = AContext::new();
        let cid = ctx.cid();
        let mut ctx = ctx;
        let x: ADouble = ctx.new_indep(v);
        let (p, q) = Slot::new();
        let t = spawn(move || p.put(work(k, 0, x)));
        let (p2, q2) = Slot::new();
        let u = spawn(move || {
            let c = AContext::from_cid(cid).unwrap();
            match look {
                0 => {
                    let t = c.tape();
                    whole(&t, "C16.closed");
                    p2.put(t.ops_iter().count())
                }
                1 => {
                    // what is seen once stays
                    let before = c.operations();
                    let after = c.operations();
                    sx::check(after.len() >= before.len() && after[..before.len()] == before[..], "C16.recording-grows");
                    p2.put(before.len())
                }
                _ => {
                    let n = c.operations().len();
                    let m = c.values().len();
                    sx::check(m > n, "C16.values-for-all");
                    p2.put(n)
                }
            }
        });
        let mine = work(k, 1, x);
        sx::join(t);
        sx::join(u);
        let theirs = q.take();
        let seen = q2.take();
        for (r, w) in theirs.iter().chain(&mine).zip(work(k, 0, v).iter().chain(&work(k, 1, v))) {
            sx::bits(r.value(), *w, "C16.values");
            ctx.set_dep(r);
        }
        let t = ctx.tape();
        whole(&t, "C16.closed");
        let ops: Vec<OpCode> = t.ops_iter().map(|o| o.opcode).filter(|o| *o != OpCode::Const).collect();
        sx::check(ops.len() == script(k, 0).len() + script(k, 1).len() && seen <= t.ops_iter().count(), "C16.operations-once");
        for me in 0..2 {
            let s = script(k, me);
            let mine: Vec<OpCode> = ops.iter().cloned().filter(|o| s.contains(o)).collect();
            sx::check(mine == s, "C16.program-order");
        }
        sx::reach("three");
    }

    /// threads use two contexts in opposite orders
    fn c16_crossing() {
        let (v, w) = (sx::f64("x"), sx::f64("y"));
        let (mut c1, mut c2) = (AContext::new(), AContext::new());
        let (a, b): (ADouble, ADouble) = (c1.new_indep(v), c2.new_indep(w));
        let (i1, i2) = (c1.cid(), c2.cid());
        let what = sx::choose("what", 3);
        let t = match what {
            0 => spawn(move || {
                let _ = a * a;
                let _ = b - 2.0;
            }),
            1 => spawn(move || {
                let mut k1 = AContext::from_cid(i1).unwrap();
                let k2 = AContext::from_cid(i2).unwrap();
                k1.set_dep(&(a * a));
                let _ = b - 2.0;
                drop(k2);
            }),
            _ => spawn(move || {
                let k1 = AContext::from_cid(i1).unwrap();
                let _ = a * a;
                let t = k1.tape();
                whole(&t, "C16.closed");
                let _ = b - 2.0;
            }),
        };
        let q = b.sin();
        if what == 1 {
            c2.set_dep(&q);
        }
        let _ = a.cos();
        sx::join(t);
        let (o1, o2) = (c1.operations(), c2.operations());
        sx::check(o1.len() == 2 && o2.len() == 3, "C16.operations-once");
        for o in o1.iter() {
            sx::check(o.opcode == OpCode::Mul || o.opcode == OpCode::Cos, "C16.own-operations");
        }
        for o in o2.iter() {
            sx::check(o.opcode == OpCode::Sub || o.opcode == OpCode::Sin || o.opcode == OpCode::Const, "C16.own-operations");
        }
        whole(&c1.tape(), "C16.closed");
        whole(&c2.tape(), "C16.closed");
        sx::check(c1.deps().len() == (what == 1) as usize && c2.deps().len() == (what == 1) as usize, "C16.dependents");
        sx::reach("crossing");
    }

    /// longer recordings
    fn c16_many() {
        let n = sx::param("n", 8) as usize;
        let v = sx::f64("x");
        let mut ctx = AContext::new();
        let x: ADouble = ctx.new_indep(v);
        let (p, q) = Slot::new();
        let t = spawn(move || {
            let mut r = x;
            for _ in 0..n { r = r * x; }
            p.put(r)
        });
        let mut r = x;
        for _ in 0..n { r = r - x; }
        sx::join(t);
        let s = q.take();
        ctx.set_dep(&r);
        ctx.set_dep(&s);
        let mut t = ctx.tape();
        whole(&t, "C16.closed");
        sx::check(t.ops_iter().count() == 2 * n, "C16.operations-once");
        let v2 = sx::f64("x2");
        t.zero_order(&DVector::from_vec(vec![v2]));
        let (mut d, mut m) = (v2, v2);
        for _ in 0..n { d = d - v2; m = m * v2; }
        let y = t.y();
        sx::bits(y[0], d, "C16.operands");
        sx::bits(y[1], m, "C16.operands");
        sx::reach("many");
    }
}
