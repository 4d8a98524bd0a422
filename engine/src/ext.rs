//! Library calls, LLVM intrinsics and the sx_* harness interface.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::prove::Goal;
use crate::term::*;
use std::rc::Rc;

pub enum Ext {
    Value(V),
    Handled,
    Body,
}

fn mathfn(n: &str) -> Option<(FOp, usize, u8)> {
    let (base, w) = if let Some(r) = n.strip_prefix("llvm.") {
        let mut p = r.splitn(2, '.');
        let b = p.next()?;
        let t = p.next()?;
        let w = if t.ends_with("f64") {
            64
        } else if t.ends_with("f32") {
            32
        } else {
            return None;
        };
        (b.to_string(), w)
    } else {
        let known = [
            "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "log", "log2", "log10", "pow", "fmod", "sqrt", "sinh", "cosh",
            "tanh", "expm1", "log1p", "cbrt", "hypot", "asinh", "acosh", "atanh", "fma", "floor", "ceil", "trunc", "round", "rint", "fabs", "fmin",
            "fmax",
        ];
        if known.contains(&n) {
            (n.to_string(), 64)
        } else if n.ends_with('f') && known.contains(&&n[..n.len() - 1]) {
            (n[..n.len() - 1].to_string(), 32)
        } else {
            return None;
        }
    };
    let r = match base.as_str() {
        "sin" => (FOp::Sin, 1),
        "cos" => (FOp::Cos, 1),
        "tan" => (FOp::Tan, 1),
        "asin" => (FOp::Asin, 1),
        "acos" => (FOp::Acos, 1),
        "atan" => (FOp::Atan, 1),
        "atan2" => (FOp::Atan2, 2),
        "exp" => (FOp::Exp, 1),
        "exp2" => (FOp::Exp2, 1),
        "log" => (FOp::Ln, 1),
        "log2" => (FOp::Log2, 1),
        "log10" => (FOp::Log10, 1),
        "pow" => (FOp::Pow, 2),
        "fmod" => (FOp::Rem, 2),
        "sqrt" => (FOp::Sqrt, 1),
        "sinh" => (FOp::Sinh, 1),
        "cosh" => (FOp::Cosh, 1),
        "tanh" => (FOp::Tanh, 1),
        "expm1" => (FOp::ExpM1, 1),
        "log1p" => (FOp::Log1p, 1),
        "cbrt" => (FOp::Cbrt, 1),
        "hypot" => (FOp::Hypot, 2),
        "asinh" => (FOp::Asinh, 1),
        "acosh" => (FOp::Acosh, 1),
        "atanh" => (FOp::Atanh, 1),
        "fma" | "fmuladd" => (FOp::Fma, 3),
        "floor" => (FOp::Floor, 1),
        "ceil" => (FOp::Ceil, 1),
        "trunc" => (FOp::Trunc, 1),
        "round" => (FOp::Round, 1),
        "rint" | "roundeven" | "nearbyint" => (FOp::RoundEven, 1),
        "fabs" => (FOp::Abs, 1),
        "fmin" | "minnum" | "minimumnum" => (FOp::MinNum, 2),
        "fmax" | "maxnum" | "maximumnum" => (FOp::MaxNum, 2),
        "copysign" => (FOp::CopySign, 2),
        _ => return None,
    };
    Some((r.0, r.1, w))
}

impl<'p> Exec<'p> {
    fn size_arg(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.concretize(st, v, 64)? as u64)
    }
    fn tag(&mut self, st: &mut State, p: &V, n: &V) -> R<String> {
        let a = self.size_arg(st, p)?;
        let k = self.size_arg(st, n)?;
        self.read_str(st, a, k as usize)
    }
    /// file:line out of a &core::panic::Location
    fn location(&mut self, st: &mut State, a: u64) -> Option<String> {
        let p = match self.load(st, a, &Ty::Ptr).ok()? {
            V::C(c) => c as u64,
            _ => return None,
        };
        let n = match self.load(st, a + 8, &Ty::Int(64)).ok()? {
            V::C(c) => c as u64,
            _ => return None,
        };
        let l = match self.load(st, a + 16, &Ty::Int(32)).ok()? {
            V::C(c) => c as u64,
            _ => return None,
        };
        if n > 300 || l > 100000 {
            return None;
        }
        let f = self.read_str(st, p, n as usize).ok()?;
        Some(format!("{}:{}", f, l))
    }

    pub fn external(
        &mut self,
        st: &mut State,
        name: &str,
        fid: u32,
        ret: &Ty,
        args: &[(Ty, Opd, u64)],
        av: &[V],
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<Ext> {
        let b = name.as_bytes();
        if name.starts_with("llvm.") {
            return self.llvm(st, name, ret, args, av).map(Ext::Value);
        }
        if name.starts_with("sx_") {
            return self.sx(st, name, ret, av, dst, normal);
        }
        if name.starts_with("_R") {
            if name.contains("4core9panicking") || name.contains("3std9panicking11begin_panic") {
                if name.contains("9panicking") && self.p.funcs.borrow()[fid as usize].def.is_some() || true {
                    let mut loc = String::new();
                    for v in av.iter().rev() {
                        if let V::C(c) = v {
                            if *c >= GLOB_BASE as u128 && *c < HEAP_BASE as u128 {
                                if let Some(l) = self.location(st, *c as u64) {
                                    loc = l;
                                    break;
                                }
                            }
                        }
                    }
                    return self.panic(st, &format!("panic at {}", loc));
                }
            }
            if name.contains("7___rustc") {
                if name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") {
                    let n = self.size_arg(st, &av[0])?;
                    let al = self.size_arg(st, &av[1])?;
                    let p = self.alloc(st, n, Kind::Rust(al), name.ends_with("zeroed"))?;
                    return Ok(Ext::Value(V::C(p as u128)));
                }
                if name.ends_with("___rust_dealloc") {
                    let p = self.size_arg(st, &av[0])?;
                    let n = self.size_arg(st, &av[1])?;
                    let al = self.size_arg(st, &av[2])?;
                    self.free(st, p, &|k, s| {
                        if k != Kind::Rust(al) || s as u64 != n {
                            Err(format!("release of {} bytes, align {}, of a block {:?} with {} bytes", n, al, k, s))
                        } else {
                            Ok(())
                        }
                    })?;
                    return Ok(Ext::Value(V::U));
                }
                if name.ends_with("___rust_realloc") {
                    let p = self.size_arg(st, &av[0])?;
                    let old = self.size_arg(st, &av[1])?;
                    let al = self.size_arg(st, &av[2])?;
                    let n = self.size_arg(st, &av[3])?;
                    self.locate(st, p, old as usize, false)?;
                    let q = self.alloc(st, n, Kind::Rust(al), false)?;
                    self.copy(st, q, p, old.min(n) as usize)?;
                    self.free(st, p, &|k, s| {
                        if k != Kind::Rust(al) || s as u64 != old {
                            Err("realloc with a wrong layout".into())
                        } else {
                            Ok(())
                        }
                    })?;
                    return Ok(Ext::Value(V::C(q as u128)));
                }
                if name.contains("no_alloc_shim") {
                    return Ok(Ext::Value(V::U));
                }
            }
            if name.contains("3std5alloc18handle_alloc_error") || name.contains("5alloc5alloc18handle_alloc_error") {
                return Err(Exc::Bug("alloc".into(), "allocation error handler".into()));
            }
            return Ok(Ext::Body);
        }
        if self.p.funcs.borrow()[fid as usize].def.is_some() && !matches!(name, "malloc" | "free" | "memcpy") {
            return Ok(Ext::Body);
        }
        if let Some((op, n, w)) = mathfn(name) {
            let r = self.fop(op, &Ty::F(w), &av[..n])?;
            return Ok(Ext::Value(r));
        }
        let v = match name {
            "malloc" => {
                let n = self.size_arg(st, &av[0])?;
                V::C(self.alloc(st, n, Kind::Malloc, false)? as u128)
            }
            "calloc" => {
                let n = self.size_arg(st, &av[0])?;
                let m = self.size_arg(st, &av[1])?;
                V::C(self.alloc(st, n * m, Kind::Malloc, true)? as u128)
            }
            "_Znwm" | "_ZnwmSt11align_val_t" | "_ZnwmRKSt9nothrow_t" => {
                let n = self.size_arg(st, &av[0])?;
                V::C(self.alloc(st, n, Kind::New, false)? as u128)
            }
            "_Znam" => {
                let n = self.size_arg(st, &av[0])?;
                V::C(self.alloc(st, n, Kind::NewArr, false)? as u128)
            }
            "free" | "_ZdlPv" | "_ZdlPvm" | "_ZdaPv" | "_ZdaPvm" => {
                let p = self.size_arg(st, &av[0])?;
                if p != 0 {
                    let want = match b[b.len() - 1] {
                        _ if name == "free" => Kind::Malloc,
                        _ if name.starts_with("_Zdl") => Kind::New,
                        _ => Kind::NewArr,
                    };
                    let sz = if name.ends_with('m') { Some(self.size_arg(st, &av[1])?) } else { None };
                    self.free(st, p, &|k, s| {
                        if k != want {
                            Err(format!("block {:?} released as {:?}", k, want))
                        } else if sz.map_or(false, |z| z != s as u64) {
                            Err(format!("block of {} bytes released as {:?} bytes", s, sz))
                        } else {
                            Ok(())
                        }
                    })?;
                }
                V::U
            }
            "realloc" => {
                let p = self.size_arg(st, &av[0])?;
                let n = self.size_arg(st, &av[1])?;
                let q = self.alloc(st, n, Kind::Malloc, false)?;
                if p != 0 {
                    let l = self.locate(st, p, 0, false)?;
                    let old = Exec::obj(st, l).data.len();
                    self.copy(st, q, p, old.min(n as usize))?;
                    self.free(st, p, &|_, _| Ok(()))?;
                }
                V::C(q as u128)
            }
            "posix_memalign" => {
                let out = self.size_arg(st, &av[0])?;
                let n = self.size_arg(st, &av[2])?;
                let p = self.alloc(st, n, Kind::Malloc, false)?;
                self.store(st, out, &Ty::Ptr, &V::C(p as u128))?;
                V::C(0)
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (self.size_arg(st, &av[0])?, self.size_arg(st, &av[1])?, self.size_arg(st, &av[2])?);
                self.copy(st, d, s, n as usize)?;
                V::C(d as u128)
            }
            "memset" => {
                self.memset(st, &av[0], &av[1], &av[2])?;
                av[0].clone()
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (self.size_arg(st, &av[0])?, self.size_arg(st, &av[1])?, self.size_arg(st, &av[2])?);
                let mut r = V::C(0);
                for k in 0..n {
                    let x = self.load(st, p + k, &Ty::Int(8))?;
                    let y = self.load(st, q + k, &Ty::Int(8))?;
                    let e = self.icmp(IP::Eq, &Ty::Int(8), &x, &y)?;
                    if !self.truth(st, &e)? {
                        let lt = self.icmp(IP::Ult, &Ty::Int(8), &x, &y)?;
                        r = if name == "bcmp" || !self.truth(st, &lt)? { V::C(1) } else { V::C(mask(32)) };
                        break;
                    }
                }
                r
            }
            "strlen" => {
                let p = self.size_arg(st, &av[0])?;
                let mut n = 0u64;
                while self.load(st, p + n, &Ty::Int(8))? != V::C(0) {
                    n += 1;
                }
                V::C(n as u128)
            }
            "__cxa_thread_atexit_impl" | "__cxa_atexit" | "__cxa_guard_release" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete"
            | "sched_yield" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_detach" | "sigaltstack" => {
                if name == "sched_yield" {
                    if !st.threads[st.cur].yielded {
                        st.threads[st.cur].yielded = true;
                    }
                    if self.sched_point(st)? {
                        return Ok(Ext::Handled);
                    }
                    st.threads[st.cur].yielded = false;
                }
                V::C(0)
            }
            "__cxa_guard_acquire" => {
                let a = self.size_arg(st, &av[0])?;
                let v = self.load(st, a, &Ty::Int(8))?;
                if v == V::C(0) {
                    self.store(st, a, &Ty::Int(8), &V::C(1))?;
                    V::C(1)
                } else {
                    V::C(0)
                }
            }
            "pthread_getspecific" | "dlsym" | "getenv" | "signal" | "getauxval" => V::C(0),
            "pthread_create" => V::C(38),
            "pthread_self" => V::C(1 + st.cur as u128),
            "getpid" | "gettid" => V::C(4242),
            "sched_getaffinity" => V::C(mask(32)),
            "sysconf" => V::C(if av[0] == V::C(30) { 4096 } else { 2 }),
            "getrandom" => {
                let p = self.size_arg(st, &av[0])?;
                let n = self.size_arg(st, &av[1])?;
                for k in 0..n {
                    self.store(st, p + k, &Ty::Int(8), &V::C(((k * 37 + 11) & 0xff) as u128))?;
                }
                V::C(n as u128)
            }
            "clock_gettime" => {
                let p = self.size_arg(st, &av[1])?;
                self.store(st, p, &Ty::Int(64), &V::C(1000))?;
                self.store(st, p + 8, &Ty::Int(64), &V::C(0))?;
                V::C(0)
            }
            "__errno_location" => {
                let cur = st.cur;
                let a = match st.tls.get(&(cur, u32::MAX)) {
                    Some(a) => *a,
                    None => {
                        let a = self.alloc(st, 4, Kind::Tls, true)?;
                        st.tls.insert((cur, u32::MAX), a);
                        a
                    }
                };
                V::C(a as u128)
            }
            "syscall" => return self.syscall(st, av, dst, normal),
            "abort" | "_exit" | "exit" | "__stack_chk_fail" | "_ZSt9terminatev" | "_ZSt17__throw_bad_allocv" => return self.panic(st, &format!("call of {}", name)),
            "write" | "writev" => av[2].clone(),
            n if n.starts_with("_ZSt") && n.contains("__throw_") => return self.panic(st, &format!("C++ exception {}", n)),
            _ => return Err(Exc::Unsup(format!("external function {}", name))),
        };
        Ok(Ext::Value(match ret {
            Ty::Void => V::U,
            _ => v,
        }))
    }
    pub fn panic(&mut self, st: &mut State, msg: &str) -> R<Ext> {
        if let Some(l) = st.expect.take() {
            *self.reached.entry(format!("panic:{}", l)).or_insert(0) += 1;
            if let Some((fid, arg)) = st.after.take() {
                let cur = st.cur;
                st.threads[cur].frames.clear();
                st.aftermath = true;
                self.push_frame(st, fid, vec![arg], None, None)?;
                return Ok(Ext::Handled);
            }
            return Err(Exc::Done);
        }
        Err(Exc::Bug("panic".into(), msg.to_string()))
    }
    fn syscall(&mut self, st: &mut State, av: &[V], dst: Option<u32>, normal: Option<u32>) -> R<Ext> {
        let nr = self.size_arg(st, &av[0])?;
        match nr {
            202 => {
                let addr = self.size_arg(st, &av[1])?;
                let op = self.size_arg(st, &av[2])? & 0x7f;
                match op {
                    0 | 9 => {
                        let want = &av[3];
                        let keep = st.accesses.clone();
                        let have = self.load(st, addr, &Ty::Int(32))?;
                        st.accesses = keep;
                        let e = self.icmp(IP::Eq, &Ty::Int(32), &have, want)?;
                        if !self.truth(st, &e)? {
                            return Ok(Ext::Value(V::C(mask(64))));
                        }
                        let others = self.runnable(st).into_iter().filter(|t| *t != st.cur).count();
                        if others == 0 {
                            return Err(if st.aftermath { Exc::Done } else { Exc::Bug("deadlock".into(), "every thread waits".into()) });
                        }
                        self.choose(st, others as u32)?;
                        self.resume_after(st, dst, normal, V::C(0))?;
                        let me = st.cur;
                        st.threads[me].status = Status::Futex(addr);
                        self.switch_away(st)?;
                        Ok(Ext::Handled)
                    }
                    1 | 10 => {
                        let n = self.size_arg(st, &av[3])?;
                        let mut k = 0;
                        for t in 0..st.threads.len() {
                            if k < n && st.threads[t].status == Status::Futex(addr) {
                                st.threads[t].status = Status::Run;
                                k += 1;
                            }
                        }
                        Ok(Ext::Value(V::C(k as u128)))
                    }
                    _ => Err(Exc::Unsup(format!("futex op {}", op))),
                }
            }
            186 => Ok(Ext::Value(V::C(4242 + st.cur as u128))),
            24 => Ok(Ext::Value(V::C(0))),
            _ => Err(Exc::Unsup(format!("system call {}", nr))),
        }
    }
    fn memset(&mut self, st: &mut State, d: &V, v: &V, n: &V) -> R<()> {
        let d = self.size_arg(st, d)?;
        let n = self.size_arg(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(c) => {
                let l = self.locate(st, d, n, true)?;
                let db = &mut self.db;
                let o = Exec::obj_mut(st, l);
                o.write_u(db, l.2, n);
                o.data[l.2..l.2 + n].fill(*c as u8);
                o.st[l.2..l.2 + n].fill(1);
            }
            _ => {
                for k in 0..n {
                    self.store(st, d + k as u64, &Ty::Int(8), v)?;
                }
            }
        }
        Ok(())
    }

    fn int1(&mut self, ty: &Ty, v: &V, f: &mut dyn FnMut(&mut Self, T, u16) -> T) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut r = vec![];
            for k in 0..*n as usize {
                r.push(self.int1(e, &item(v, k), f)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if *v == V::U {
            return Ok(V::U);
        }
        let t = self.tm(v, ty)?;
        let r = f(self, t, width(ty));
        Ok(self.vt(r))
    }

    fn llvm(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, Opd, u64)], av: &[V]) -> R<V> {
        let body = &name[5..];
        let head = body.split('.').next().unwrap();
        if let Some((op, n, _)) = mathfn(name) {
            return self.fop(op, ret, &av[..n]);
        }
        Ok(match head {
            "memcpy" | "memmove" => {
                let (d, s, n) = (self.size_arg(st, &av[0])?, self.size_arg(st, &av[1])?, self.size_arg(st, &av[2])?);
                self.copy(st, d, s, n as usize)?;
                V::U
            }
            "memset" => {
                self.memset(st, &av[0], &av[1], &av[2])?;
                V::U
            }
            "lifetime" | "assume" | "experimental" | "prefetch" | "donothing" | "invariant" | "dbg" | "stackrestore" | "var" => {
                if head == "assume" {
                    if let V::C(c) = &av[0] {
                        if c & 1 == 0 {
                            return Err(Exc::Bug("assume".into(), "an assumption the compiler relies on is false".into()));
                        }
                    }
                }
                V::U
            }
            "stacksave" => V::C(0),
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" | "returnaddress" | "frameaddress" => {
                if head == "threadlocal" {
                    let a = self.size_arg(st, &av[0])?;
                    let id = ((a - GLOB_BASE) >> SLOT_BITS) as u32;
                    let cur = st.cur;
                    let r = match st.tls.get(&(cur, id)) {
                        Some(a) => *a,
                        None => {
                            let (bytes, init, _) = self.p.global_init(id);
                            let p = self.alloc(st, bytes.len() as u64, Kind::Tls, false)?;
                            let l = self.locate(st, p, bytes.len(), true)?;
                            let o = Exec::obj_mut(st, l);
                            o.data = bytes;
                            o.st = init;
                            st.tls.insert((cur, id), p);
                            p
                        }
                    };
                    V::C(r as u128 + (a & ((1 << SLOT_BITS) - 1)) as u128)
                } else if head == "returnaddress" || head == "frameaddress" {
                    V::C(0)
                } else {
                    av[0].clone()
                }
            }
            "noalias" => V::U,
            "trap" | "ubsantrap" => return Err(Exc::Bug("trap".into(), "trap instruction".into())),
            "is" => {
                if body.starts_with("is.constant") {
                    V::C(0)
                } else {
                    // is.fpclass
                    let m = self.size_arg(st, &av[1])? as u16;
                    let ty = args[0].0.clone();
                    self.fclass(&ty, &av[0], m)?
                }
            }
            "objectsize" => V::C(mask(64)),
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" | "sshl" | "ushl" => {
                let ty = args[0].0.clone();
                if body.contains(".sat.") {
                    return self.sat(st, head, &ty, &av[0], &av[1]);
                }
                self.overflow(st, head, &ty, &av[0], &av[1])?
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match head {
                    "umax" => IP::Ugt,
                    "umin" => IP::Ult,
                    "smax" => IP::Sgt,
                    _ => IP::Slt,
                };
                if let Ty::Vec(n, e) = ret {
                    let mut r = vec![];
                    for k in 0..*n as usize {
                        let (x, y) = (item(&av[0], k), item(&av[1], k));
                        let c = self.icmp(p, e, &x, &y)?;
                        r.push(self.select(st, &c, e, &x, &y)?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                let c = self.icmp(p, ret, &av[0], &av[1])?;
                self.select(st, &c, ret, &av[0], &av[1])?
            }
            "ucmp" | "scmp" => {
                let ty = args[0].0.clone();
                let (l, g) = if head == "ucmp" { (IP::Ult, IP::Ugt) } else { (IP::Slt, IP::Sgt) };
                let lt = self.icmp(l, &ty, &av[0], &av[1])?;
                let gt = self.icmp(g, &ty, &av[0], &av[1])?;
                let w = width(ret);
                let x = self.select(st, &gt, ret, &V::C(1), &V::C(0))?;
                self.select(st, &lt, ret, &V::C(mask(w)), &x)?
            }
            "abs" => {
                let c = self.icmp(IP::Slt, ret, &av[0], &V::C(0))?;
                let n = self.binop(st, BvOp::Sub, ret, &V::C(0), &av[0])?;
                self.select(st, &c, ret, &n, &av[0])?
            }
            "ctpop" => self.int1(ret, &av[0], &mut |s, t, w| {
                let mut acc = s.db.bv(w, 0);
                if let Some(c) = s.db.cval(t) {
                    return s.db.bv(w, c.count_ones() as u128);
                }
                for k in 0..w {
                    let b = s.db.extract(t, k, k);
                    let z = s.db.zext(b, w);
                    acc = s.db.bin(BvOp::Add, acc, z);
                }
                acc
            })?,
            "cttz" | "ctlz" => self.int1(ret, &av[0], &mut |s, t, w| {
                if let Some(c) = s.db.cval(t) {
                    let r = if c == 0 {
                        w as u32
                    } else if head == "cttz" {
                        c.trailing_zeros()
                    } else {
                        w as u32 - (128 - c.leading_zeros())
                    };
                    return s.db.bv(w, r as u128);
                }
                let mut acc = s.db.bv(w, w as u128);
                for i in 0..w {
                    // the first set bit wins: build from the far end
                    let k = if head == "cttz" { w - 1 - i } else { i };
                    let b = s.db.extract(t, k, k);
                    let b = s.db.bv2bool(b);
                    let v = s.db.bv(w, if head == "cttz" { k } else { w - 1 - k } as u128);
                    acc = s.db.ite(b, v, acc);
                }
                acc
            })?,
            "bswap" | "bitreverse" => self.int1(ret, &av[0], &mut |s, t, w| {
                let step = if head == "bswap" { 8 } else { 1 };
                let mut acc: Option<T> = None;
                for k in 0..w / step {
                    let b = s.db.extract(t, k * step + step - 1, k * step);
                    acc = Some(match acc {
                        None => b,
                        Some(a) => s.db.concat(a, b),
                    });
                }
                acc.unwrap()
            })?,
            "fshl" | "fshr" => {
                let w = width(ret);
                let (a, b) = (self.tm(&av[0], ret)?, self.tm(&av[1], ret)?);
                let s = self.concretize(st, &av[2].clone(), w)? as u16 % w;
                let c = self.db.concat(a, b);
                let r = if head == "fshl" {
                    self.db.extract(c, 2 * w - 1 - s, w - s)
                } else {
                    self.db.extract(c, w - 1 + s, s)
                };
                self.vt(r)
            }
            "fptosi" | "fptoui" => {
                // .sat form
                let from = args[0].0.clone();
                if let (Ty::Vec(n, _), Ty::Vec(_, e2)) = (&from, ret) {
                    let mut r = vec![];
                    for k in 0..*n as usize {
                        let t = self.tm(&item(&av[0], k), &from.elem(0))?;
                        let x = self.db.f2i(head == "fptosi", t, width(e2));
                        r.push(self.vt(x));
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                let t = self.tm(&av[0], &from)?;
                let r = self.db.f2i(head == "fptosi", t, width(ret));
                self.vt(r)
            }
            "powi" => {
                let e = self.concretize(st, &av[1].clone(), 32)?;
                let e = sext(e, 32) as i64;
                let one = if *ret == Ty::F(64) { V::C(1f64.to_bits() as u128) } else { V::C(1f32.to_bits() as u128) };
                let mut r = one.clone();
                let mut a = av[0].clone();
                let mut b = e;
                loop {
                    if b & 1 != 0 {
                        r = self.fop(FOp::Mul, ret, &[r, a.clone()])?;
                    }
                    b /= 2;
                    if b == 0 {
                        break;
                    }
                    a = self.fop(FOp::Mul, ret, &[a.clone(), a])?;
                }
                if e < 0 {
                    r = self.fop(FOp::Div, ret, &[one, r])?;
                }
                r
            }
            "vector" => {
                // reductions
                let (ty, v) = match args.len() {
                    1 => (args[0].0.clone(), av[0].clone()),
                    _ => (args[1].0.clone(), av[1].clone()),
                };
                let e = ty.elem(0);
                let op = body.split('.').nth(2).unwrap_or("");
                let n = ty.count();
                let mut acc = if args.len() == 1 { item(&v, 0) } else { av[0].clone() };
                let start = if args.len() == 1 { 1 } else { 0 };
                for k in start..n {
                    let x = item(&v, k);
                    acc = match op {
                        "add" => self.binop(st, BvOp::Add, &e, &acc, &x)?,
                        "mul" => self.binop(st, BvOp::Mul, &e, &acc, &x)?,
                        "and" => self.binop(st, BvOp::And, &e, &acc, &x)?,
                        "or" => self.binop(st, BvOp::Or, &e, &acc, &x)?,
                        "xor" => self.binop(st, BvOp::Xor, &e, &acc, &x)?,
                        "fadd" => self.fop(FOp::Add, &e, &[acc, x])?,
                        "fmul" => self.fop(FOp::Mul, &e, &[acc, x])?,
                        "umax" | "smax" | "umin" | "smin" => {
                            let p = match op {
                                "umax" => IP::Ugt,
                                "smax" => IP::Sgt,
                                "umin" => IP::Ult,
                                _ => IP::Slt,
                            };
                            let c = self.icmp(p, &e, &acc, &x)?;
                            self.select(st, &c, &e, &acc, &x)?
                        }
                        _ => return Err(Exc::Unsup(name.to_string())),
                    };
                }
                acc
            }
            "x86" if body.contains("addcarry") || body.contains("subborrow") => {
                let ty = args[1].0.clone();
                let w = width(&ty);
                let (cin, a, b) = (self.tm(&av[0], &Ty::Int(8))?, self.tm(&av[1], &ty)?, self.tm(&av[2], &ty)?);
                let z = self.db.bv(8, 0);
                let e = self.db.eq(cin, z);
                let (one, zero) = (self.db.bv(w + 1, 1), self.db.bv(w + 1, 0));
                let c = self.db.ite(e, zero, one);
                let (a, b) = (self.db.zext(a, w + 1), self.db.zext(b, w + 1));
                let op = if body.contains("addcarry") { BvOp::Add } else { BvOp::Sub };
                let s = self.db.bin(op, a, b);
                let s = self.db.bin(op, s, c);
                let out = self.db.extract(s, w, w);
                let out = self.db.zext(out, 8);
                let lo = self.db.extract(s, w - 1, 0);
                V::A(Rc::new(vec![self.vt(out), self.vt(lo)]))
            }
            "x86" if body.contains("pause") => V::U,
            "x86" if body.contains("xgetbv") => V::C(0),
            "eh" => V::C(1),
            _ => return Err(Exc::Unsup(name.to_string())),
        })
    }
    fn fclass(&mut self, ty: &Ty, v: &V, m: u16) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut r = vec![];
            for k in 0..*n as usize {
                r.push(self.fclass(e, &item(v, k), m)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if *v == V::U {
            return Ok(V::U);
        }
        let t = self.tm(v, ty)?;
        let r = self.db.fclass(t, m);
        Ok(self.vt(r))
    }
    fn sat(&mut self, st: &mut State, head: &str, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut r = vec![];
            for k in 0..*n as usize {
                r.push(self.sat(st, head, e, &item(a, k), &item(b, k))?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = width(ty);
        match head {
            "usub" => {
                let c = self.icmp(IP::Ult, ty, a, b)?;
                let d = self.binop(st, BvOp::Sub, ty, a, b)?;
                self.select(st, &c, ty, &V::C(0), &d)
            }
            "uadd" => {
                let d = self.binop(st, BvOp::Add, ty, a, b)?;
                let c = self.icmp(IP::Ult, ty, &d, a)?;
                self.select(st, &c, ty, &V::C(mask(w)), &d)
            }
            _ => Err(Exc::Unsup(format!("{}.sat", head))),
        }
    }
    fn overflow(&mut self, st: &mut State, head: &str, ty: &Ty, a: &V, b: &V) -> R<V> {
        let w = width(ty);
        let (op, signed) = match head {
            "sadd" => (BvOp::Add, true),
            "uadd" => (BvOp::Add, false),
            "ssub" => (BvOp::Sub, true),
            "usub" => (BvOp::Sub, false),
            "smul" => (BvOp::Mul, true),
            "umul" => (BvOp::Mul, false),
            _ => return Err(Exc::Unsup(head.into())),
        };
        if *a == V::U || *b == V::U {
            return Ok(V::A(Rc::new(vec![V::U, V::U])));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (x & mask(w), y & mask(w));
                let (r, o) = if signed {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let r = match op {
                        BvOp::Add => x + y,
                        BvOp::Sub => x - y,
                        _ => x * y,
                    };
                    let t = r as u128 & mask(w);
                    (t, sext(t, w) != r)
                } else {
                    let r = match op {
                        BvOp::Add => x as i128 + y as i128,
                        BvOp::Sub => x as i128 - y as i128,
                        _ => {
                            let (r, of) = (x * y, x * y > mask(w));
                            return Ok(V::A(Rc::new(vec![V::C(r & mask(w)), V::C(of as u128)])));
                        }
                    };
                    (r as u128 & mask(w), r < 0 || r as u128 > mask(w))
                };
                return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
            }
        }
        let r = self.binop(st, op, ty, a, b)?;
        let of = if op == BvOp::Mul || signed {
            let x = self.tm(a, ty)?;
            let y = self.tm(b, ty)?;
            let ww = if op == BvOp::Mul { 2 * w } else { w + 1 };
            let (x, y) = if signed {
                (self.db.sext(x, ww), self.db.sext(y, ww))
            } else {
                (self.db.zext(x, ww), self.db.zext(y, ww))
            };
            let full = self.db.bin(op, x, y);
            let rt = self.tm(&r, ty)?;
            let back = if signed { self.db.sext(rt, ww) } else { self.db.zext(rt, ww) };
            let e = self.db.eq(full, back);
            let o = self.db.not(e);
            self.vt(o)
        } else if op == BvOp::Add {
            self.icmp(IP::Ult, ty, &r, a)?
        } else {
            self.icmp(IP::Ult, ty, a, b)?
        };
        Ok(V::A(Rc::new(vec![r, of])))
    }

    pub fn asm(&mut self, st: &mut State, s: &str, dst: Option<u32>, ret: &Ty, args: &[(Ty, Opd, u64)]) -> R<()> {
        let v = if s.contains("cpuid") {
            // no optional processor features
            let n = ret.count();
            V::A(Rc::new(vec![V::C(0); n]))
        } else if s.starts_with("div $") && s.contains("={dx}") && s.contains("={ax},r,0,1") || s.starts_with("div $") && s.contains("=&{dx},=&{ax},r,0,1") {
            // the processor's division of dx:ax
            let av: Vec<V> = args.iter().map(|(_, o, _)| self.opd(st, o)).collect();
            let ty = args[0].0.clone();
            let (w, dbl) = (width(&ty), Ty::Int(2 * width(&ty)));
            let c = self.icmp(IP::Ult, &ty, &av[1], &av[0])?;
            if !self.truth(st, &c)? {
                return Err(Exc::Bug("arith".into(), "division trap".into()));
            }
            let (d, h, l) = (self.tm(&av[0], &ty)?, self.tm(&av[1], &ty)?, self.tm(&av[2], &ty)?);
            let n = self.db.concat(h, l);
            let d = self.db.zext(d, 2 * w);
            let (n, d) = (self.vt(n), self.vt(d));
            let q = self.binop(st, BvOp::UDiv, &dbl, &n, &d)?;
            let r = self.binop(st, BvOp::URem, &dbl, &n, &d)?;
            let (q, r) = (self.tm(&q, &dbl)?, self.tm(&r, &dbl)?);
            let (q, r) = (self.db.extract(q, w - 1, 0), self.db.extract(r, w - 1, 0));
            V::A(Rc::new(vec![self.vt(r), self.vt(q)]))
        } else if s.starts_with('|') || s.is_empty() || s.split('|').next().map_or(true, |t| t.trim().is_empty() || t.trim_start().starts_with('#')) {
            V::U
        } else {
            return Err(Exc::Unsup(format!("inline assembly {:?}", s)));
        };
        self.resume_after(st, dst, None, v)
    }

    // ---------- harness interface ----------
    fn sx(&mut self, st: &mut State, name: &str, ret: &Ty, av: &[V], dst: Option<u32>, normal: Option<u32>) -> R<Ext> {
        let val = |v: V| Ok(Ext::Value(v));
        match name {
            "sx_f64" | "sx_f32" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let w = if name == "sx_f64" { 64 } else { 32 };
                let n = st.inputs.len();
                let t = self.fresh(Sort::F(w), &format!("{}#{}:f{}", tag, n, w));
                st.inputs.push(Input {
                    kind: if w == 64 { "f64" } else { "f32" },
                    tag,
                    t,
                });
                val(V::S(t))
            }
            "sx_int" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let lo = self.size_arg(st, &av[2])?;
                let hi = self.size_arg(st, &av[3])?;
                let n = st.inputs.len();
                let t = self.fresh(Sort::Bv(64), &format!("{}#{}:i", tag, n));
                st.inputs.push(Input { kind: "int", tag, t });
                let (l, h) = (self.db.bv(64, lo as u128), self.db.bv(64, hi as u128));
                if lo == hi {
                    st.inputs.last_mut().unwrap().t = l;
                    return val(V::C(lo as u128));
                }
                if lo != 0 {
                    let a = self.db.cmp(CmpOp::Ule, l, t);
                    self.add(st, a, None);
                }
                if hi != u64::MAX {
                    let b = self.db.cmp(CmpOp::Ule, t, h);
                    let mut e = st.env.clone().map(|x| (*x.1).clone()).unwrap_or_default();
                    e.vars.insert(t, lo as u128);
                    self.add(st, b, None);
                    let e = self.new_env(e);
                    let pc = st.pc.clone();
                    if self.env_ok(&e, &pc) {
                        st.env = Some(e);
                    }
                }
                val(V::S(t))
            }
            "sx_choose" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let n = self.size_arg(st, &av[2])? as u32;
                let k = self.choose(st, n)?;
                let t = self.db.bv(64, k as u128);
                st.inputs.push(Input { kind: "choose", tag, t });
                val(V::C(k as u128))
            }
            "sx_param" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let d = self.size_arg(st, &av[2])?;
                let v = self.cfg.params.get(&tag).cloned().unwrap_or(d as i64);
                val(V::C(v as u64 as u128))
            }
            "sx_shard" => {
                // sx_shard(key): continue only when this run owns the key; only
                // the first call on a path divides the work
                let k = self.size_arg(st, &av[0])?;
                let (i, n) = self.cfg.shard;
                if n > 1 && !std::mem::replace(&mut st.sharded, true) && (mix(k) % n as u64) as u32 != i {
                    return Err(Exc::End);
                }
                val(V::U)
            }
            "sx_assume" => {
                let c = self.tm(&av[0], &Ty::Int(1))?;
                if c == self.db.ff || st.known.get(&c) == Some(&false) {
                    return Err(Exc::End);
                }
                let holds = match st.env.clone() {
                    Some(e) => self.holds(&e, c) == Some(true),
                    None => false,
                };
                let env = if holds {
                    None
                } else {
                    let (f, e) = self.feasible(st, c);
                    if !f {
                        return Err(Exc::End);
                    }
                    e
                };
                self.add(st, c, env);
                val(V::U)
            }
            "sx_fork" => {
                let c = self.tm(&av[0], &Ty::Int(1))?;
                let k = self.decide(st, c)?;
                val(V::C(k as u128))
            }
            "sx_assert" => {
                let l = self.tag(st, &av[1], &av[2])?;
                let c = self.tm(&av[0], &Ty::Int(1))?;
                let m = self.where_am_i(st);
                self.prove(st, &l, Goal::True(c), &format!("assertion fails ({})", m));
                if c == self.db.ff {
                    return Err(Exc::End);
                }
                val(V::U)
            }
            "sx_assert_bits" | "sx_assert_bits32" => {
                let l = self.tag(st, &av[2], &av[3])?;
                let ty = if name == "sx_assert_bits" { Ty::F(64) } else { Ty::F(32) };
                let (a, b) = (self.tm(&av[0], &ty)?, self.tm(&av[1], &ty)?);
                self.prove(st, &l, Goal::Bits(a, b), "values differ");
                st.obs.push((l, a));
                val(V::U)
            }
            "sx_assert_real" => {
                let l = self.tag(st, &av[2], &av[3])?;
                let (a, b) = (self.tm(&av[0], &Ty::F(64))?, self.tm(&av[1], &Ty::F(64))?);
                self.prove(st, &l, Goal::Real { code: a, spec: b }, "value differs from the specification");
                st.obs.push((l, a));
                val(V::U)
            }
            "sx_assert_real32" => {
                let l = self.tag(st, &av[2], &av[3])?;
                let (a, b) = (self.tm(&av[0], &Ty::F(32))?, self.tm(&av[1], &Ty::F(32))?);
                self.prove(st, &l, Goal::Real { code: a, spec: b }, "value differs from the specification");
                st.obs.push((l, a));
                val(V::U)
            }
            "sx_observe" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let t = self.tm(&av[2], &Ty::F(64))?;
                st.obs.push((tag, t));
                val(V::U)
            }
            "sx_observe_u" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                let t = self.tm(&av[2], &Ty::Int(64))?;
                st.obs.push((tag, t));
                val(V::U)
            }
            "sx_expect_panic" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                st.expect = Some(tag);
                val(V::U)
            }
            "sx_after_panic" => {
                let f = self.size_arg(st, &av[0])?;
                st.after = Some((((f - FUNC_BASE) / 16) as u32, av[1].clone()));
                val(V::U)
            }
            "sx_reach" => {
                let tag = self.tag(st, &av[0], &av[1])?;
                *self.reached.entry(tag).or_insert(0) += 1;
                val(V::U)
            }
            "sx_uf" => {
                // u64 x u64 -> u64
                let id = self.size_arg(st, &av[0])? as u32;
                let (a, b) = (self.tm(&av[1], &Ty::Int(64))?, self.tm(&av[2], &Ty::Int(64))?);
                let r = self.db.uf(id, &[a, b], Sort::Bv(64));
                val(V::S(r))
            }
            "sx_uff" => {
                // f64 x f64 -> f64
                let id = self.size_arg(st, &av[0])? as u32;
                let (a, b) = (self.tm(&av[1], &Ty::F(64))?, self.tm(&av[2], &Ty::F(64))?);
                let r = self.db.uf(id + 1000, &[a, b], Sort::F(64));
                val(V::S(r))
            }
            "sx_live" => val(V::C(st.live as u64 as u128)),
            "sx_bytes" => val(V::C(st.bytes as u64 as u128)),
            "sx_finish" => val(V::U),
            "sx_stop" => {
                st.expect = None;
                Err(Exc::Done)
            }
            "sx_spawn" => {
                let f = self.size_arg(st, &av[0])?;
                let arg = av[1].clone();
                let fid = ((f - FUNC_BASE) / 16) as u32;
                let me = st.cur;
                let id = st.threads.len();
                let mut clock = st.threads[me].clock.clone();
                clock.resize(id + 1, 0);
                clock[id] = 1;
                st.threads[me].clock.resize(id + 1, 0);
                st.threads[me].clock[me] += 1;
                st.threads.push(Thread {
                    frames: vec![],
                    status: Status::Run,
                    yielded: false,
                    clock,
                });
                st.nstack.push(0);
                st.cur = id;
                self.push_frame(st, fid, vec![arg], None, None)?;
                st.cur = me;
                val(V::C(id as u128))
            }
            "sx_join" => {
                let id = self.size_arg(st, &av[0])? as usize;
                let me = st.cur;
                if st.threads[id].status == Status::Done {
                    let c = st.threads[id].clock.clone();
                    let m = &mut st.threads[me].clock;
                    let n = m.len().max(c.len());
                    m.resize(n, 0);
                    for i in 0..c.len() {
                        m[i] = m[i].max(c[i]);
                    }
                    return val(V::U);
                }
                let others = self.runnable(st).into_iter().filter(|t| *t != me).count();
                if others == 0 {
                    return Err(Exc::Bug("deadlock".into(), "every thread waits".into()));
                }
                self.choose(st, others as u32)?;
                self.resume_after(st, dst, normal, V::U)?;
                st.threads[me].status = Status::Join(id);
                self.switch_away(st)?;
                Ok(Ext::Handled)
            }
            _ => {
                let _ = ret;
                Err(Exc::Unsup(format!("harness call {}", name)))
            }
        }
    }
}
