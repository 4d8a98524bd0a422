//! The symbolic executor: states, memory accesses, instructions, forking.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Exc {
    /// the state continues as one copy per constraint
    Split(Vec<T>),
    /// the state continues as n copies, copy k seeing choice k
    Fork(u32),
    /// a property or a safety rule is broken here
    Bug(String, String),
    /// the path ends without a verdict of its own (assumption violated)
    End,
    /// regular end of the path
    Done,
    /// something the engine cannot follow
    Unsup(String),
}
pub type R<X> = Result<X, Exc>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: usize,
    pub prev: u32,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub sbase: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Status {
    Run,
    /// waiting for a thread to end
    Join(usize),
    /// parked on a futex address
    Futex(u64),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub status: Status,
    /// what it last announced: used for yields in spin loops
    pub yielded: bool,
    pub clock: Vec<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub kind: &'static str,
    pub tag: String,
    pub t: T,
}

#[derive(Clone)]
pub struct State {
    pub sharded: bool,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub heap: Pv,
    pub stack: Pv,
    pub globals: Pv,
    pub tls: BTreeMap<(usize, u32), u64>,
    pub nheap: usize,
    pub nstack: Vec<usize>,
    pub pc: Vec<T>,
    pub known: Rc<HashMap<T, bool>>,
    pub conc: Rc<HashMap<T, u128>>,
    pub inputs: Vec<Input>,
    pub obs: Vec<(String, T)>,
    pub env: Option<(u64, Rc<Env>)>,
    pub steps: u64,
    pub expect: Option<String>,
    /// what to run once the expected panic has happened
    pub after: Option<(u32, V)>,
    /// it has happened
    pub aftermath: bool,
    pub live: i64,
    pub bytes: i64,
    pub pending: Option<u32>,
    pub preempt: u32,
    pub tlog: Vec<u32>,
    pub depth: u32,
    pub accesses: Rc<BTreeMap<u64, Access>>,
    pub sync: Rc<BTreeMap<u64, Vec<u32>>>,
}

#[derive(Clone, Default)]
pub struct Access {
    /// last write: (thread, clock)
    pub w: Option<(usize, u32)>,
    pub r: Vec<(usize, u32)>,
}

pub struct Config {
    pub mode: Mode,
    pub params: HashMap<String, i64>,
    pub shard: (u32, u32),
    pub max_steps: u64,
    pub time: f64,
    pub fork_fsel: bool,
    pub preempt_bound: u32,
    pub sched: bool,
    pub qms: u64,
    pub max_samples: usize,
    pub verbose: bool,
}

#[derive(Default, Clone)]
pub struct LabelStat {
    pub checked: u64,
    pub trivial: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
}

pub struct Cex {
    pub label: String,
    pub msg: String,
    pub inputs: Option<String>,
    pub confirmed: bool,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub db: Db,
    pub cfg: Config,
    pub sol: Solver,
    pub ginit: HashMap<u32, Rc<Obj>>,
    pub vars: HashMap<String, T>,
    pub fcache: HashMap<Vec<T>, bool>,
    pub memos: HashMap<u64, HashMap<T, u128>>,
    pub ememos: HashMap<u64, HashMap<T, f64>>,
    pub envs: u64,
    pub varcache: HashMap<T, Rc<Vec<T>>>,
    pub t0: Instant,
    pub labels: BTreeMap<String, LabelStat>,
    pub reached: BTreeMap<String, u64>,
    pub cexs: Vec<Cex>,
    pub unsup: BTreeMap<String, u64>,
    pub funcs: HashMap<u32, u64>,
    pub paths: u64,
    pub ended: u64,
    pub forks: u64,
    pub total_steps: u64,
    pub samples: Vec<(String, Vec<String>)>,
    pub proof_cache: HashMap<(Vec<T>, T), bool>,
    pub unknown_feas: u64,
    pub timed_out: bool,
    pub fnames: HashMap<u32, Rc<str>>,
    /// undecided goals so far: less patience with the next
    pub hopeless: u32,
    /// half the difference between code and specification in the last counterexample
    pub tol: Option<f64>,
    pub seed: u64,
    pub hist: HashMap<String, u64>,
    pub rand: u64,
    pub blob: Vec<String>,
}

pub fn sort_of(t: &Ty) -> Sort {
    match t {
        Ty::Int(1) => Sort::Bool,
        Ty::Int(w) => Sort::Bv(*w),
        Ty::F(w) => Sort::F(*w),
        Ty::Ptr => Sort::Bv(64),
        t => panic!("sort of {:?}", t),
    }
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, cfg: Config) -> Exec<'p> {
        Exec {
            p,
            db: Db::new(cfg.mode == Mode::Real),
            cfg,
            sol: Solver::new(),
            ginit: HashMap::new(),
            vars: HashMap::new(),
            fcache: HashMap::new(),
            memos: HashMap::new(),
            ememos: HashMap::new(),
            envs: 0,
            varcache: HashMap::new(),
            t0: Instant::now(),
            labels: BTreeMap::new(),
            reached: BTreeMap::new(),
            cexs: vec![],
            unsup: BTreeMap::new(),
            funcs: HashMap::new(),
            paths: 0,
            ended: 0,
            forks: 0,
            total_steps: 0,
            samples: vec![],
            proof_cache: HashMap::new(),
            unknown_feas: 0,
            timed_out: false,
            hopeless: 0,
            tol: None,
            fnames: HashMap::new(),
            seed: 1,
            hist: HashMap::new(),
            rand: 0x9E3779B97F4A7C15,
            blob: vec![],
        }
    }
    pub fn rnd(&mut self) -> u64 {
        self.rand = self.rand.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.rand)
    }

    // ---------- values ----------
    pub fn vt(&mut self, t: T) -> V {
        match self.db.cval(t) {
            Some(c) => V::C(c),
            None => V::S(t),
        }
    }
    /// term of the sort the type asks for
    pub fn tm(&mut self, v: &V, ty: &Ty) -> R<T> {
        let s = sort_of(ty);
        Ok(match v {
            V::C(c) => self.db.cterm(s, *c),
            V::S(t) => self.fit(*t, s),
            V::U => return Err(Exc::Bug("undef".into(), "use of an uninitialised value".into())),
            V::A(_) => return Err(Exc::Unsup("aggregate where a scalar is expected".into())),
        })
    }
    pub fn fit(&mut self, t: T, s: Sort) -> T {
        let have = self.db.sort(t);
        if have == s {
            return t;
        }
        match (have, s) {
            (Sort::F(_), Sort::Bv(_)) => self.db.f2bits(t),
            (Sort::Bv(_), Sort::F(_)) => self.db.bits2f(t),
            (Sort::Bv(_), Sort::Bool) => self.db.trunc(t, 1),
            (Sort::Bool, Sort::Bv(w)) => self.db.zext(t, w),
            (Sort::Bv(a), Sort::Bv(b)) if a > b => self.db.trunc(t, b),
            (Sort::Bv(_), Sort::Bv(b)) => self.db.zext(t, b),
            (a, b) => panic!("fit {:?} to {:?}", a, b),
        }
    }
    pub fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            let fr = st.threads[st.cur].frames.last_mut().unwrap();
            fr.regs[d as usize] = v;
        }
    }

    // ---------- path conditions ----------
    pub fn vars_of(&mut self, t: T) -> Rc<Vec<T>> {
        if let Some(v) = self.varcache.get(&t) {
            return v.clone();
        }
        let v = Rc::new(self.db.vars_of(&[t]));
        self.varcache.insert(t, v.clone());
        v
    }
    pub fn slice(&mut self, pc: &[T], goal: T) -> Vec<T> {
        let mut vs: HashSet<T> = self.vars_of(goal).iter().cloned().collect();
        let mut left: Vec<T> = pc.to_vec();
        let mut out = vec![];
        loop {
            let mut ch = false;
            let mut rest = vec![];
            for c in left {
                let cv = self.vars_of(c);
                if cv.iter().any(|v| vs.contains(v)) || cv.is_empty() {
                    vs.extend(cv.iter().cloned());
                    out.push(c);
                    ch = true;
                } else {
                    rest.push(c);
                }
            }
            left = rest;
            if !ch || left.is_empty() {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn eval_in(&mut self, env: &(u64, Rc<Env>), t: T) -> u128 {
        let memo = self.memos.entry(env.0).or_default();
        self.db.eval(t, &env.1, memo)
    }
    pub fn new_env(&mut self, e: Env) -> (u64, Rc<Env>) {
        self.envs += 1;
        if self.memos.len() > 400 {
            let lo = self.envs.saturating_sub(200);
            self.memos.retain(|k, _| *k >= lo);
            self.ememos.retain(|k, _| *k >= lo);
        }
        (self.envs, Rc::new(e))
    }
    /// distance of the native value from the real one (0 outside real mode)
    pub fn error_in(&mut self, env: &(u64, Rc<Env>), t: T) -> f64 {
        if self.cfg.mode != Mode::Real {
            return 0.0;
        }
        self.eval_in(env, t);
        let memo = &self.memos[&env.0];
        let em = self.ememos.entry(env.0).or_default();
        self.db.error(t, memo, em)
    }
    /// truth of a condition under an assignment, unless rounding leaves it open
    pub fn holds(&mut self, env: &(u64, Rc<Env>), c: T) -> Option<bool> {
        let v = self.eval_in(env, c) == 1;
        if self.error_in(env, c) == 0.0 {
            Some(v)
        } else {
            None
        }
    }
    pub fn env_ok(&mut self, env: &(u64, Rc<Env>), pc: &[T]) -> bool {
        pc.iter().all(|c| self.holds(env, *c) == Some(true))
    }
    /// is pc and goal satisfiable? unknown counts as yes
    pub fn feasible(&mut self, st: &State, goal: T) -> (bool, Option<Env>) {
        if goal == self.db.ff {
            return (false, None);
        }
        let mut key = self.slice(&st.pc, goal);
        key.push(goal);
        if let Some(b) = self.fcache.get(&key) {
            self.sol.stats.cached += 1;
            return (*b, None);
        }
        let sc = script(&mut self.db, self.cfg.mode, &key);
        let ans = self.sol.ask("z3-new -in", &self.db, &sc, "(check-sat)", self.cfg.qms, true);
        let (b, e) = match ans {
            Ans::Sat(m) => {
                let mut e = match &st.env {
                    Some((_, e)) => (**e).clone(),
                    None => Env::default(),
                };
                for (k, v) in m {
                    e.vars.insert(k, v);
                }
                (true, Some(e))
            }
            Ans::Unsat => (false, None),
            Ans::Unknown(_) => {
                self.unknown_feas += 1;
                (true, None)
            }
        };
        self.fcache.insert(key, b);
        (b, e)
    }
    /// add a constraint to a path
    pub fn add(&mut self, st: &mut State, c: T, env: Option<Env>) {
        if c == self.db.tt {
            return;
        }
        st.pc.push(c);
        self.learn(st, c, true);
        let keep = match &st.env {
            Some(e) => {
                let e = e.clone();
                self.holds(&e, c) == Some(true)
            }
            None => false,
        };
        if !keep {
            st.env = None;
            if let Some(e) = env {
                let e = self.new_env(e);
                let pc = st.pc.clone();
                if self.env_ok(&e, &pc) {
                    st.env = Some(e);
                }
            }
        }
    }
    fn learn(&mut self, st: &mut State, c: T, v: bool) {
        let mut todo = vec![(c, v)];
        while let Some((c, v)) = todo.pop() {
            Rc::make_mut(&mut st.known).insert(c, v);
            match (self.db.node(c).clone(), v) {
                (Node::Not(x), v) => todo.push((x, !v)),
                (Node::And(a, b), true) => {
                    todo.push((a, true));
                    todo.push((b, true));
                }
                (Node::Or(a, b), false) => {
                    todo.push((a, false));
                    todo.push((b, false));
                }
                (Node::Cmp(CmpOp::Eq, a, b), true) => {
                    if let Some(k) = self.db.cval(b) {
                        Rc::make_mut(&mut st.conc).insert(a, k);
                    } else if let Some(k) = self.db.cval(a) {
                        Rc::make_mut(&mut st.conc).insert(b, k);
                    }
                }
                _ => {}
            }
        }
    }
    fn lookup_known(&self, st: &State, c: T) -> Option<bool> {
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        match self.db.node(c) {
            Node::Not(x) => self.lookup_known(st, *x).map(|b| !b),
            Node::And(a, b) => match (self.lookup_known(st, *a), self.lookup_known(st, *b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Or(a, b) => match (self.lookup_known(st, *a), self.lookup_known(st, *b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if c == self.db.tt {
            return Ok(true);
        }
        if c == self.db.ff {
            return Ok(false);
        }
        if let Some(b) = self.lookup_known(st, c) {
            return Ok(b);
        }
        let nc = self.db.not(c);
        let side = match st.env.clone() {
            Some(e) => self.holds(&e, c),
            None => None,
        };
        let tf = side == Some(true) || self.feasible(st, c).0;
        if !tf {
            self.learn(st, c, false);
            return Ok(false);
        }
        let ff = side == Some(false) || self.feasible(st, nc).0;
        if !ff {
            self.learn(st, c, true);
            return Ok(true);
        }
        Err(Exc::Split(vec![c, nc]))
    }
    pub fn choose(&mut self, st: &mut State, n: u32) -> R<u32> {
        if let Some(c) = st.pending {
            return Ok(c);
        }
        if n == 1 {
            return Ok(0);
        }
        Err(Exc::Fork(n))
    }
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u16) -> R<u128> {
        let t = match v {
            V::C(c) => return Ok(*c & mask(w)),
            V::U => return Err(Exc::Bug("undef".into(), "uninitialised value used as an address, size or index".into())),
            V::A(_) => return Err(Exc::Unsup("aggregate index".into())),
            V::S(t) => *t,
        };
        let t = self.fit(t, if w == 1 { Sort::Bool } else { Sort::Bv(w) });
        if let Some(c) = self.db.cval(t) {
            return Ok(c);
        }
        if self.db.sort(t) == Sort::Bool {
            return Ok(self.decide(st, t)? as u128);
        }
        if let Some(c) = st.conc.get(&t) {
            return Ok(*c);
        }
        // ites: settle the condition first
        if let Node::Ite(c, a, b) = *self.db.node(t) {
            let r = if self.decide(st, c)? { a } else { b };
            let r = self.vt(r);
            return self.concretize(st, &r, w);
        }
        let known = match st.env.clone() {
            Some(e) if self.error_in(&e, t) == 0.0 => Some(self.eval_in(&e, t)),
            _ => None,
        };
        let val = match known {
            Some(v) => v,
            None => {
                // ask for a value
                let probe = self.fresh(Sort::Bv(w), &format!("probe{}", w));
                let eq = self.db.eq(probe, t);
                let mut key = self.slice(&st.pc, t);
                key.push(eq);
                let sc = script(&mut self.db, self.cfg.mode, &key);
                match self.sol.ask("z3-new -in", &self.db, &sc, "(check-sat)", 20000, true) {
                    Ans::Sat(m) => *m.get(&probe).unwrap_or(&0),
                    Ans::Unsat => return Err(Exc::End),
                    Ans::Unknown(u) => return Err(Exc::Unsup(format!("no value for an address or size: {}", u))),
                }
            }
        };
        let k = self.db.bv(w, val);
        let eq = self.db.eq(t, k);
        if eq == self.db.tt {
            return Ok(val);
        }
        let ne = self.db.not(eq);
        if !self.feasible(st, ne).0 {
            Rc::make_mut(&mut st.conc).insert(t, val);
            return Ok(val);
        }
        if eq == self.db.ff {
            return Err(Exc::Unsup("value search".into()));
        }
        Err(Exc::Split(vec![eq, ne]))
    }
    pub fn fresh(&mut self, s: Sort, name: &str) -> T {
        if let Some(t) = self.vars.get(name) {
            return *t;
        }
        let t = self.db.var(s, name);
        self.vars.insert(name.to_string(), t);
        t
    }

    // ---------- memory ----------
    fn global_obj(&mut self, st: &mut State, id: u32) {
        if st.globals.get(id as usize).is_some() {
            return;
        }
        let o = match self.ginit.get(&id) {
            Some(o) => o.clone(),
            None => {
                let (b, init, c) = self.p.global_init(id);
                let mut o = Obj::new(b.len(), Kind::Global, false);
                o.data = b;
                o.st = init;
                o.ro = c;
                let o = Rc::new(o);
                self.ginit.insert(id, o.clone());
                o
            }
        };
        st.globals.set(id as usize, Some(o));
    }
    /// (region, slot, offset)
    pub fn locate(&mut self, st: &mut State, addr: u64, n: usize, write: bool) -> R<(u8, usize, usize)> {
        let off = (addr & ((1 << SLOT_BITS) - 1)) as usize;
        let what = if write { "write" } else { "read" };
        let (reg, base) = if addr >= FUNC_BASE {
            (9, FUNC_BASE)
        } else if addr >= STACK_BASE {
            (2, STACK_BASE)
        } else if addr >= HEAP_BASE {
            (1, HEAP_BASE)
        } else if addr >= GLOB_BASE {
            (0, GLOB_BASE)
        } else {
            (9, 0)
        };
        if reg == 9 {
            return Err(Exc::Bug("memory".into(), format!("{} of {} bytes at invalid address {:#x}", what, n, addr)));
        }
        let slot = ((addr - base) >> SLOT_BITS) as usize;
        if reg == 0 {
            if slot >= self.p.globals.borrow().len() {
                return Err(Exc::Bug("memory".into(), format!("{} at invalid address {:#x}", what, addr)));
            }
            self.global_obj(st, slot as u32);
        }
        let pv = match reg {
            0 => &st.globals,
            1 => &st.heap,
            _ => &st.stack,
        };
        match pv.get(slot) {
            None => Err(Exc::Bug("memory".into(), format!("{} of {} bytes through a dangling pointer {:#x}", what, n, addr))),
            Some(o) => {
                if !o.alive {
                    return Err(Exc::Bug("memory".into(), format!("{} of {} bytes in freed memory", what, n)));
                }
                if off + n > o.data.len() {
                    return Err(Exc::Bug(
                        "memory".into(),
                        format!("{} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.data.len()),
                    ));
                }
                if write && o.ro {
                    return Err(Exc::Bug("memory".into(), "write to a constant".into()));
                }
                Ok((reg, slot, off))
            }
        }
    }
    pub fn obj<'a>(st: &'a State, l: (u8, usize, usize)) -> &'a Obj {
        match l.0 {
            0 => st.globals.get(l.1),
            1 => st.heap.get(l.1),
            _ => st.stack.get(l.1),
        }
        .unwrap()
    }
    pub fn obj_mut<'a>(st: &'a mut State, l: (u8, usize, usize)) -> &'a mut Obj {
        match l.0 {
            0 => st.globals.get_mut(l.1),
            1 => st.heap.get_mut(l.1),
            _ => st.stack.get_mut(l.1),
        }
        .unwrap()
    }
    /// plain data races between threads (vector clocks; atomics synchronise)
    fn race(&mut self, st: &mut State, l: (u8, usize, usize), n: usize, write: bool) -> R<()> {
        if st.threads.len() < 2 || l.0 == 2 {
            return Ok(());
        }
        let me = st.cur;
        let myc = st.threads[me].clock[me];
        let clock = st.threads[me].clock.clone();
        let key = ((l.0 as u64) << 56) | ((l.1 as u64) << SLOT_BITS) | (l.2 as u64 & !7);
        let key2 = ((l.0 as u64) << 56) | ((l.1 as u64) << SLOT_BITS) | ((l.2 + n.max(1) - 1) as u64 & !7);
        let acc = Rc::make_mut(&mut st.accesses);
        let mut k = key;
        while k <= key2 {
            let a = acc.entry(k).or_default();
            let seen = |t: usize, c: u32| t == me || clock.get(t).cloned().unwrap_or(0) >= c;
            if let Some((t, c)) = a.w {
                if !seen(t, c) {
                    return Err(Exc::Bug("race".into(), format!("unsynchronised accesses by threads {} and {}", t, me)));
                }
            }
            if write {
                for (t, c) in &a.r {
                    if !seen(*t, *c) {
                        return Err(Exc::Bug("race".into(), format!("unsynchronised accesses by threads {} and {}", t, me)));
                    }
                }
                a.w = Some((me, myc));
                a.r.clear();
            } else {
                a.r.retain(|x| x.0 != me);
                a.r.push((me, myc));
            }
            k += 8;
        }
        Ok(())
    }
    pub fn sync_acq_rel(&mut self, st: &mut State, addr: u64) {
        if st.threads.len() < 2 {
            return;
        }
        let me = st.cur;
        let s = Rc::make_mut(&mut st.sync);
        let e = s.entry(addr).or_default();
        let c = &mut st.threads[me].clock;
        let n = e.len().max(c.len());
        e.resize(n, 0);
        c.resize(n, 0);
        for i in 0..n {
            c[i] = c[i].max(e[i]);
            e[i] = c[i];
        }
        c[me] += 1;
    }
    pub fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) => {
                let (offs, _) = ty.offsets();
                let mut v = vec![];
                for i in 0..ty.count() {
                    v.push(self.load(st, addr + offs[i], &ty.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) if **e == Ty::Int(1) => {
                let w = (*n as u64 + 7) / 8;
                let x = self.load(st, addr, &Ty::Int((w * 8) as u16))?;
                let mut v = vec![];
                for k in 0..*n {
                    v.push(match &x {
                        V::C(c) => V::C(c >> k & 1),
                        V::S(t) => {
                            let b = self.db.extract(*t, k as u16, k as u16);
                            let b = self.db.bv2bool(b);
                            self.vt(b)
                        }
                        v => v.clone(),
                    });
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Vec(..) => self.load_seq(st, addr, ty),
            _ => {
                let n = ty.store_size() as usize;
                let l = self.locate(st, addr, n, false)?;
                if st.threads.len() > 1 {
                    self.race(st, l, n, false)?;
                }
                let o = match l.0 {
                    0 => st.globals.get(l.1),
                    1 => st.heap.get(l.1),
                    _ => st.stack.get(l.1),
                }
                .unwrap();
                let v = o.read(&mut self.db, l.2, n);
                Ok(match v {
                    V::C(c) => V::C(c & mask(match ty {
                        Ty::Int(w) => *w,
                        _ => 128,
                    })),
                    V::S(t) => {
                        let t = self.fit(t, sort_of(ty));
                        self.vt(t)
                    }
                    v => v,
                })
            }
        }
    }
    fn load_seq(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        let e = ty.elem(0);
        let s = e.size();
        let mut v = vec![];
        for i in 0..ty.count() {
            v.push(self.load(st, addr + s * i as u64, &e)?);
        }
        Ok(V::A(Rc::new(v)))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (_, V::U) if ty.size() == 0 => Ok(()),
            (Ty::Struct(..), V::A(items)) => {
                let (offs, _) = ty.offsets();
                for (i, it) in items.iter().enumerate() {
                    self.store(st, addr + offs[i], &ty.elem(i), it)?;
                }
                Ok(())
            }
            (Ty::Vec(_, e), V::A(items)) if **e == Ty::Int(1) => {
                let w = (items.len() + 7) / 8 * 8;
                let x = self.bits_of(&V::A(items.clone()), ty)?;
                let x = match x {
                    Some(t) => {
                        let t = self.db.zext(t, w as u16);
                        self.vt(t)
                    }
                    None => V::U,
                };
                self.store(st, addr, &Ty::Int(w as u16), &x)
            }
            (Ty::Arr(..) | Ty::Vec(..), V::A(items)) => {
                let e = ty.elem(0);
                let s = e.size();
                for (i, it) in items.iter().enumerate() {
                    self.store(st, addr + s * i as u64, &e, it)?;
                }
                Ok(())
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), V::C(0)) => {
                let n = ty.size() as usize;
                let l = self.locate(st, addr, n, true)?;
                for k in 0..n {
                    let db = &mut self.db;
                    Self::obj_mut(st, l).write_c(db, l.2 + k, 1, 0);
                }
                Ok(())
            }
            _ => {
                let n = ty.size().min(ty.store_size()) as usize;
                let l = self.locate(st, addr, n, true)?;
                if st.threads.len() > 1 {
                    self.race(st, l, n, true)?;
                }
                match v {
                    V::C(c) => {
                        let db = &mut self.db;
                        Self::obj_mut(st, l).write_c(db, l.2, n, *c);
                    }
                    V::U => {
                        let db = &mut self.db;
                        Self::obj_mut(st, l).write_u(db, l.2, n);
                    }
                    V::S(t) => {
                        let mut t = self.fit(*t, sort_of(ty));
                        match self.db.sort(t) {
                            Sort::F(_) => {}
                            _ => {
                                t = self.db.zext(t, (n * 8) as u16);
                            }
                        }
                        let db = &mut self.db;
                        Self::obj_mut(st, l).write_s(db, l.2, n, t);
                    }
                    V::A(_) => return Err(Exc::Unsup("aggregate store".into())),
                }
                Ok(())
            }
        }
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, kind: Kind, zero: bool) -> R<u64> {
        if size >= 1 << SLOT_BITS {
            return Err(Exc::Unsup(format!("allocation of {} bytes", size)));
        }
        st.nheap += 1;
        let id = st.nheap;
        st.heap.set(id, Some(Rc::new(Obj::new(size as usize, kind, zero))));
        if kind != Kind::Tls {
            st.live += 1;
            st.bytes += size as i64;
        }
        Ok(HEAP_BASE + ((id as u64) << SLOT_BITS))
    }
    pub fn free(&mut self, st: &mut State, addr: u64, ok: &dyn Fn(Kind, usize) -> Result<(), String>) -> R<()> {
        let off = addr & ((1 << SLOT_BITS) - 1);
        if !(HEAP_BASE..STACK_BASE).contains(&addr) || off != 0 {
            return Err(Exc::Bug("memory".into(), format!("release of {:#x}, which is no heap block", addr)));
        }
        let slot = ((addr - HEAP_BASE) >> SLOT_BITS) as usize;
        let (kind, size) = match st.heap.get(slot) {
            None => return Err(Exc::Bug("memory".into(), "release of an unknown block".into())),
            Some(o) if !o.alive => return Err(Exc::Bug("memory".into(), "double release".into())),
            Some(o) => (o.kind, o.data.len()),
        };
        if let Err(e) = ok(kind, size) {
            return Err(Exc::Bug("memory".into(), e));
        }
        let mut tomb = Obj::new(0, kind, false);
        tomb.alive = false;
        st.heap.set(slot, Some(Rc::new(tomb)));
        st.live -= 1;
        st.bytes -= size as i64;
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let ls = self.locate(st, src, n, false)?;
        let ld = self.locate(st, dst, n, true)?;
        if st.threads.len() > 1 {
            self.race(st, ls, n, false)?;
            self.race(st, ld, n, true)?;
        }
        let so = match ls.0 {
            0 => st.globals.get_rc(ls.1),
            1 => st.heap.get_rc(ls.1),
            _ => st.stack.get_rc(ls.1),
        }
        .unwrap();
        let db = &mut self.db;
        let pieces = so.pieces(db, ls.2, n);
        let data = so.data[ls.2..ls.2 + n].to_vec();
        let sts = so.st[ls.2..ls.2 + n].to_vec();
        drop(so);
        let o = Self::obj_mut(st, ld);
        o.write_u(db, ld.2, n);
        o.data[ld.2..ld.2 + n].copy_from_slice(&data);
        o.st[ld.2..ld.2 + n].copy_from_slice(&sts);
        for (off, t, sz) in pieces {
            o.sym.insert(ld.2 as u32 + off, (t, sz));
        }
        Ok(())
    }
    pub fn read_str(&mut self, st: &mut State, addr: u64, n: usize) -> R<String> {
        let mut b = vec![];
        for k in 0..n {
            match self.load(st, addr + k as u64, &Ty::Int(8))? {
                V::C(c) => b.push(c as u8),
                _ => b.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    // ---------- bit casts ----------
    /// all bits of a scalar or vector value, None if undefined
    pub fn bits_of(&mut self, v: &V, ty: &Ty) -> R<Option<T>> {
        match ty {
            Ty::Vec(n, e) => {
                let mut acc: Option<T> = None;
                for k in 0..*n as usize {
                    let it = match v {
                        V::A(a) => a[k].clone(),
                        V::C(0) => V::C(0),
                        V::U => V::U,
                        _ => return Err(Exc::Unsup("vector bits".into())),
                    };
                    let b = match self.bits_of(&it, e)? {
                        Some(b) => b,
                        None => self.db.bv(width(e), 0),
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.db.concat(b, a),
                    });
                }
                Ok(acc)
            }
            _ => {
                if *v == V::U {
                    return Ok(None);
                }
                let t = self.tm(v, ty)?;
                Ok(Some(match self.db.sort(t) {
                    Sort::Bool => self.db.zext(t, 1),
                    Sort::F(_) => self.db.f2bits(t),
                    _ => t,
                }))
            }
        }
    }
    pub fn from_bits(&mut self, t: T, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, e) => {
                let w = width(e);
                let mut v = vec![];
                for k in 0..*n as u16 {
                    let x = self.db.extract(t, k * w + w - 1, k * w);
                    v.push(self.from_bits(x, e));
                }
                V::A(Rc::new(v))
            }
            Ty::F(_) => {
                let x = self.db.bits2f(t);
                self.vt(x)
            }
            Ty::Int(1) => {
                let x = self.db.bv2bool(t);
                self.vt(x)
            }
            _ => self.vt(t),
        }
    }

    // ---------- scalar operations ----------
    fn map2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V, &V) -> R<V>) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut v = vec![];
            for k in 0..*n as usize {
                let x = item(a, k);
                let y = item(b, k);
                v.push(f(self, e, &x, &y)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        f(self, ty, a, b)
    }
    pub fn binop(&mut self, st: &mut State, op: BvOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut v = vec![];
            for k in 0..*n as usize {
                v.push(self.binop(st, op, e, &item(a, k), &item(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if *a == V::U || *b == V::U {
            return Ok(V::U);
        }
        let w = width(ty);
        let div = matches!(op, BvOp::UDiv | BvOp::URem | BvOp::SDiv | BvOp::SRem);
        if let (V::C(x), V::C(y)) = (a, b) {
            if div && *y & mask(w) == 0 {
                return Err(Exc::Bug("arith".into(), "integer division by zero".into()));
            }
            let x = x & mask(w);
            let y = y & mask(w);
            if let Some(r) = Db::bvfold(op, x, y, w) {
                return Ok(V::C(r));
            }
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        if div {
            let z = self.db.bv(w, 0);
            let c = self.db.eq(y, z);
            if self.decide(st, c)? {
                return Err(Exc::Bug("arith".into(), "integer division by zero".into()));
            }
        }
        let r = self.db.bin(op, x, y);
        Ok(self.vt(r))
    }
    pub fn icmp(&mut self, p: IP, ty: &Ty, a: &V, b: &V) -> R<V> {
        self.map2(ty, a, b, &mut |s, ty, a, b| {
            if *a == V::U || *b == V::U {
                return Ok(V::U);
            }
            if let (V::C(x), V::C(y)) = (a, b) {
                let w = width(ty);
                let (x, y) = (x & mask(w), y & mask(w));
                let (sx, sy) = (sext(x, w), sext(y, w));
                return Ok(V::C(match p {
                    IP::Eq => x == y,
                    IP::Ne => x != y,
                    IP::Ult => x < y,
                    IP::Ule => x <= y,
                    IP::Ugt => x > y,
                    IP::Uge => x >= y,
                    IP::Slt => sx < sy,
                    IP::Sle => sx <= sy,
                    IP::Sgt => sx > sy,
                    IP::Sge => sx >= sy,
                } as u128));
            }
            let x = s.tm(a, ty)?;
            let y = s.tm(b, ty)?;
            // sign tests of a float's bits
            if s.db.sort(x) == Sort::Bool && !matches!(p, IP::Eq | IP::Ne) {
                let x8 = s.db.zext(x, 1);
                let y8 = s.db.zext(y, 1);
                let r = s.icmp_t(p, x8, y8);
                return Ok(s.vt(r));
            }
            let r = s.icmp_t(p, x, y);
            Ok(s.vt(r))
        })
    }
    fn icmp_t(&mut self, p: IP, x: T, y: T) -> T {
        let d = &mut self.db;
        match p {
            IP::Eq => d.eq(x, y),
            IP::Ne => {
                let e = d.eq(x, y);
                d.not(e)
            }
            IP::Ult => d.cmp(CmpOp::Ult, x, y),
            IP::Ule => d.cmp(CmpOp::Ule, x, y),
            IP::Ugt => d.cmp(CmpOp::Ult, y, x),
            IP::Uge => d.cmp(CmpOp::Ule, y, x),
            IP::Slt => d.cmp(CmpOp::Slt, x, y),
            IP::Sle => d.cmp(CmpOp::Sle, x, y),
            IP::Sgt => d.cmp(CmpOp::Slt, y, x),
            IP::Sge => d.cmp(CmpOp::Sle, y, x),
        }
    }
    pub fn fcmp_t(&mut self, p: &str, x: T, y: T) -> T {
        let d = &mut self.db;
        match p {
            "false" => d.ff,
            "true" => d.tt,
            "oeq" => d.fcmp(FCmp::Oeq, x, y),
            "une" => {
                let e = d.fcmp(FCmp::Oeq, x, y);
                d.not(e)
            }
            "olt" => d.fcmp(FCmp::Olt, x, y),
            "ogt" => d.fcmp(FCmp::Olt, y, x),
            "ole" => d.fcmp(FCmp::Ole, x, y),
            "oge" => d.fcmp(FCmp::Ole, y, x),
            "uno" => d.fcmp(FCmp::Uno, x, y),
            "ord" => {
                let u = d.fcmp(FCmp::Uno, x, y);
                d.not(u)
            }
            "ult" => {
                let e = d.fcmp(FCmp::Ole, y, x);
                d.not(e)
            }
            "ule" => {
                let e = d.fcmp(FCmp::Olt, y, x);
                d.not(e)
            }
            "ugt" => {
                let e = d.fcmp(FCmp::Ole, x, y);
                d.not(e)
            }
            "uge" => {
                let e = d.fcmp(FCmp::Olt, x, y);
                d.not(e)
            }
            "one" | "ueq" => {
                let a = d.fcmp(FCmp::Olt, x, y);
                let b = d.fcmp(FCmp::Olt, y, x);
                let o = d.or(a, b);
                if p == "one" {
                    o
                } else {
                    d.not(o)
                }
            }
            _ => panic!("fcmp {}", p),
        }
    }
    pub fn fop(&mut self, op: FOp, ty: &Ty, args: &[V]) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut v = vec![];
            for k in 0..*n as usize {
                let a: Vec<V> = args.iter().map(|x| item(x, k)).collect();
                v.push(self.fop(op, e, &a)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if args.iter().any(|a| *a == V::U) {
            return Ok(V::U);
        }
        let mut t = vec![];
        for a in args {
            t.push(self.tm(a, ty)?);
        }
        let r = self.db.f(op, &t);
        Ok(self.vt(r))
    }
    fn cast(&mut self, op: CastOp, from: &Ty, v: &V, to: &Ty) -> R<V> {
        if op == CastOp::Bitcast {
            if from == to {
                return Ok(v.clone());
            }
            return Ok(match self.bits_of(v, from)? {
                Some(t) => self.from_bits(t, to),
                None => V::U,
            });
        }
        if let (Ty::Vec(n, e), Ty::Vec(_, e2)) = (from, to) {
            let mut r = vec![];
            for k in 0..*n as usize {
                r.push(self.cast(op, e, &item(v, k), e2)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if *v == V::U {
            return Ok(V::U);
        }
        let (fw, tw) = (width(from), width(to));
        if let V::C(c) = v {
            match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => return Ok(V::C(c & mask(fw) & mask(tw))),
                CastOp::SExt => return Ok(V::C(sext(*c, fw) as u128 & mask(tw))),
                _ => {}
            }
        }
        let t = self.tm(v, from)?;
        let r = match op {
            CastOp::Trunc => self.db.trunc(t, tw),
            CastOp::ZExt => self.db.zext(t, tw),
            CastOp::SExt => self.db.sext(t, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw > fw {
                    self.db.zext(t, tw)
                } else {
                    self.db.trunc(t, tw)
                }
            }
            CastOp::FpTrunc | CastOp::FpExt => self.db.f2f(t, tw as u8),
            CastOp::FpToUi => self.db.f2i(false, t, tw),
            CastOp::FpToSi => self.db.f2i(true, t, tw),
            CastOp::UiToFp | CastOp::SiToFp => {
                let t = if self.db.sort(t) == Sort::Bool { self.db.zext(t, 1) } else { t };
                self.db.i2f(op == CastOp::SiToFp, t, tw as u8)
            }
            CastOp::Bitcast => unreachable!(),
        };
        Ok(self.vt(r))
    }
    pub fn truth(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(c) => Ok(c & 1 == 1),
            V::S(t) => {
                let t = self.fit(*t, Sort::Bool);
                self.decide(st, t)
            }
            _ => Err(Exc::Bug("undef".into(), "branch on an uninitialised value".into())),
        }
    }
    pub fn select(&mut self, st: &mut State, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        if a == b {
            return Ok(a.clone());
        }
        let ct = match c {
            V::C(c) => return Ok(if c & 1 == 1 { a.clone() } else { b.clone() }),
            V::U => return Ok(V::U),
            V::S(t) => *t,
            V::A(_) => unreachable!(),
        };
        if let Some(k) = self.lookup_known(st, ct) {
            return Ok(if k { a.clone() } else { b.clone() });
        }
        let mergeable = match ty {
            Ty::Int(_) => true,
            Ty::F(_) => !self.cfg.fork_fsel,
            Ty::Vec(_, e) => **e != Ty::Ptr,
            _ => false,
        };
        if !mergeable || *a == V::U || *b == V::U {
            return Ok(if self.decide(st, ct)? { a.clone() } else { b.clone() });
        }
        self.merge(ct, ty, a, b)
    }
    fn merge(&mut self, c: T, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let mut v = vec![];
            for k in 0..*n as usize {
                v.push(self.merge(c, e, &item(a, k), &item(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if *a == V::U {
            return Ok(b.clone());
        }
        if *b == V::U {
            return Ok(a.clone());
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        let r = self.db.ite(c, x, y);
        Ok(self.vt(r))
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, m) in &b.phis {
                let o = m.get(&from).expect("phi entry");
                let v = match o {
                    Opd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opd::C(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.prev = from;
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    pub fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = match self.p.func(fid) {
            Some(f) => f,
            None => {
                let n = self.p.funcs.borrow()[fid as usize].name.clone();
                return Err(Exc::Unsup(format!("external function {}", n)));
            }
        };
        let mut regs = vec![V::U; f.nregs as usize];
        for (k, p) in f.params.iter().enumerate() {
            if k < args.len() {
                regs[*p as usize] = args[k].clone();
            }
        }
        let cur = st.cur;
        let sbase = st.nstack[cur];
        if st.threads[cur].frames.len() > 5000 {
            return Err(Exc::Bug("recursion".into(), "unbounded recursion".into()));
        }
        *self.funcs.entry(fid).or_insert(0) += 1;
        st.threads[cur].frames.push(Frame {
            f,
            regs,
            bb: 0,
            ip: 0,
            prev: 0,
            dst,
            normal,
            sbase,
        });
        Ok(())
    }
    /// after a call returned v: set the register and move on
    pub fn resume_after(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: V) -> R<()> {
        if let Some(d) = dst {
            self.set(st, d, v);
        }
        match normal {
            Some(n) => self.jump(st, n),
            None => {
                let cur = st.cur;
                st.threads[cur].frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.pop().unwrap();
        for k in fr.sbase..st.nstack[cur] {
            st.stack.set(cur * STACKS + k, None);
        }
        st.nstack[cur] = fr.sbase;
        if st.threads[cur].frames.is_empty() {
            return self.thread_end(st);
        }
        self.resume_after(st, fr.dst, fr.normal, v)
    }
    fn thread_end(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        if cur == 0 {
            return Err(Exc::Done);
        }
        st.threads[cur].status = Status::Done;
        let clock = st.threads[cur].clock.clone();
        for t in 0..st.threads.len() {
            if st.threads[t].status == Status::Join(cur) {
                st.threads[t].status = Status::Run;
                let c = &mut st.threads[t].clock;
                let n = c.len().max(clock.len());
                c.resize(n, 0);
                for i in 0..clock.len() {
                    c[i] = c[i].max(clock[i]);
                }
            }
        }
        self.switch_away(st)
    }
    pub fn runnable(&self, st: &State) -> Vec<usize> {
        (0..st.threads.len()).filter(|t| st.threads[*t].status == Status::Run).collect()
    }
    /// the current thread cannot go on
    pub fn switch_away(&mut self, st: &mut State) -> R<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            if st.aftermath {
                // a lock held by what panicked: nothing left to observe
                return Err(Exc::Done);
            }
            return Err(Exc::Bug("deadlock".into(), "every thread is blocked".into()));
        }
        let k = self.choose(st, r.len() as u32)? as usize;
        st.pending = None;
        st.cur = r[k];
        st.tlog.push(r[k] as u32);
        Ok(())
    }
    /// a point where another thread may be scheduled; true: switched
    pub fn sched_point(&mut self, st: &mut State) -> R<bool> {
        if !self.cfg.sched || st.threads.len() < 2 {
            return Ok(false);
        }
        let others: Vec<usize> = self.runnable(st).into_iter().filter(|t| *t != st.cur).collect();
        if others.is_empty() || (st.preempt >= self.cfg.preempt_bound && !st.threads[st.cur].yielded) {
            return Ok(false);
        }
        let y = st.threads[st.cur].yielded;
        let n = others.len() as u32 + if y { 0 } else { 1 };
        let k = self.choose(st, n)?;
        let k = if y { k + 1 } else { k };
        st.threads[st.cur].yielded = false;
        if k == 0 {
            return Ok(false);
        }
        if !y {
            st.preempt += 1;
        }
        st.cur = others[k as usize - 1];
        st.tlog.push(st.cur as u32);
        Ok(true)
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip];
        let next = |st: &mut State| {
            st.threads[cur].frames.last_mut().unwrap().ip += 1;
        };
        match ins {
            Ins::Bin(d, op, ty, a, b) => {
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let r = self.binop(st, *op, ty, &a, &b)?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::FBin(d, op, ty, a, b) => {
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let r = self.fop(*op, ty, &[a, b])?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::FNeg(d, ty, a) => {
                let a = self.opd(st, a);
                let r = self.fop(FOp::Neg, ty, &[a])?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::ICmp(d, p, ty, a, b) => {
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let r = self.icmp(*p, ty, &a, &b)?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::FCmp(d, p, ty, a, b) => {
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let r = self.map2(ty, &a, &b, &mut |s, ty, a, b| {
                    if *a == V::U || *b == V::U {
                        return Ok(V::U);
                    }
                    let x = s.tm(a, ty)?;
                    let y = s.tm(b, ty)?;
                    let r = s.fcmp_t(p, x, y);
                    Ok(s.vt(r))
                })?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::Cast(d, op, from, v, to) => {
                let v = self.opd(st, v);
                let r = self.cast(*op, from, &v, to)?;
                self.set(st, *d, r);
                next(st);
            }
            Ins::Alloca(d, ty, n, _) => {
                let n = self.opd(st, n);
                let n = self.concretize(st, &n, 64)?;
                let size = ty.size() as usize * n as usize;
                let slot = cur * STACKS + st.nstack[cur];
                st.nstack[cur] += 1;
                st.stack.set(slot, Some(Rc::new(Obj::new(size, Kind::Stack, false))));
                self.set(st, *d, V::C((STACK_BASE + ((slot as u64) << SLOT_BITS)) as u128));
                next(st);
            }
            Ins::Load(d, ty, p, atomic) => {
                if *atomic && self.sched_point(st)? {
                    return Ok(());
                }
                let p = self.opd(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                if *atomic {
                    self.sync_acq_rel(st, a);
                    let keep = st.accesses.clone();
                    st.accesses = Rc::new(BTreeMap::new());
                    let r = self.load(st, a, ty);
                    st.accesses = keep;
                    let r = r?;
                    self.set(st, *d, r);
                } else {
                    let r = self.load(st, a, ty)?;
                    self.set(st, *d, r);
                }
                next(st);
            }
            Ins::Store(ty, v, p, atomic) => {
                if *atomic && self.sched_point(st)? {
                    return Ok(());
                }
                let p = self.opd(st, p);
                let v = self.opd(st, v);
                let a = self.concretize(st, &p, 64)? as u64;
                if *atomic {
                    self.sync_acq_rel(st, a);
                    let keep = st.accesses.clone();
                    st.accesses = Rc::new(BTreeMap::new());
                    let r = self.store(st, a, ty, &v);
                    st.accesses = keep;
                    r?;
                } else {
                    self.store(st, a, ty, &v)?;
                }
                next(st);
            }
            Ins::Gep(d, base, off, dynv) => {
                let b = self.opd(st, base);
                if let V::A(_) = b {
                    return Err(Exc::Unsup("vector gep".into()));
                }
                let mut conc = match &b {
                    V::C(c) => Some((*c as u64).wrapping_add(*off as u64)),
                    _ => None,
                };
                let mut vals = vec![];
                for (o, w, s) in dynv {
                    let v = self.opd(st, o);
                    match (&v, conc) {
                        (V::C(c), Some(k)) => conc = Some(k.wrapping_add((sext(*c, *w) as i64).wrapping_mul(*s) as u64)),
                        _ => conc = None,
                    }
                    vals.push((v, *w, *s));
                }
                let r = match conc {
                    Some(c) => V::C(c as u128),
                    None => {
                        if b == V::U || vals.iter().any(|v| v.0 == V::U) {
                            V::U
                        } else {
                            let mut t = self.tm(&b, &Ty::Ptr)?;
                            let k = self.db.bv(64, *off as u64 as u128);
                            t = self.db.bin(BvOp::Add, t, k);
                            for (v, w, s) in vals {
                                let x = self.tm(&v, &Ty::Int(w))?;
                                let x = if w < 64 { self.db.sext(x, 64) } else { x };
                                let k = self.db.bv(64, s as u64 as u128);
                                let m = self.db.bin(BvOp::Mul, x, k);
                                t = self.db.bin(BvOp::Add, t, m);
                            }
                            self.vt(t)
                        }
                    }
                };
                self.set(st, *d, r);
                next(st);
            }
            Ins::Select(d, cty, ty, c, a, b) => {
                let (c, a, b) = (self.opd(st, c), self.opd(st, a), self.opd(st, b));
                let r = if let Ty::Vec(n, _) = cty {
                    let e = ty.elem(0);
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        v.push(self.select(st, &item(&c, k), &e, &item(&a, k), &item(&b, k))?);
                    }
                    V::A(Rc::new(v))
                } else {
                    self.select(st, &c, ty, &a, &b)?
                };
                self.set(st, *d, r);
                next(st);
            }
            Ins::Call {
                dst,
                ret,
                callee,
                args,
                normal,
                ..
            } => {
                let fid = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.opd(st, o);
                        let a = self.concretize(st, &v, 64)? as u64;
                        if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.p.funcs.borrow().len() as u64 {
                            return Err(Exc::Bug("memory".into(), format!("call through an invalid function pointer {:#x}", a)));
                        }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                    Callee::Asm(s) => {
                        return self.asm(st, s, *dst, ret, args);
                    }
                };
                let mut av = vec![];
                for (_, o, _) in args {
                    av.push(self.opd(st, o));
                }
                let name = match self.fnames.get(&fid) {
                    Some(n) => n.clone(),
                    None => {
                        let n: Rc<str> = self.p.funcs.borrow()[fid as usize].name.as_str().into();
                        self.fnames.insert(fid, n.clone());
                        n
                    }
                };
                match self.external(st, &name, fid, ret, args, &av, *dst, *normal)? {
                    crate::ext::Ext::Value(v) => self.resume_after(st, *dst, *normal, v)?,
                    crate::ext::Ext::Handled => {}
                    crate::ext::Ext::Body => {
                        // byval arguments get their own copy
                        for (k, (_, _, bv)) in args.iter().enumerate() {
                            if *bv > 0 {
                                let a = self.concretize(st, &av[k].clone(), 64)? as u64;
                                let slot = cur * STACKS + st.nstack[cur];
                                let na = STACK_BASE + ((slot as u64) << SLOT_BITS);
                                st.nstack[cur] += 1;
                                st.stack.set(slot, Some(Rc::new(Obj::new(*bv as usize, Kind::Stack, false))));
                                self.copy(st, na, a, *bv as usize)?;
                                av[k] = V::C(na as u128);
                            }
                        }
                        self.push_frame(st, fid, av, *dst, *normal)?;
                    }
                }
            }
            Ins::Br(l) => self.jump(st, *l)?,
            Ins::CondBr(c, a, b) => {
                let c = self.opd(st, c);
                let k = self.truth(st, &c)?;
                self.jump(st, if k { *a } else { *b })?;
            }
            Ins::Switch(ty, v, dflt, cases) => {
                let v = self.opd(st, v);
                let to = match &v {
                    V::C(c) => {
                        let c = c & mask(width(ty));
                        cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*dflt)
                    }
                    V::U => return Err(Exc::Bug("undef".into(), "switch on an uninitialised value".into())),
                    _ => {
                        let t = self.tm(&v, ty)?;
                        let mut to = *dflt;
                        for (c, l) in cases {
                            let k = self.db.cterm(sort_of(ty), *c);
                            let e = self.db.eq(t, k);
                            if self.decide(st, e)? {
                                to = *l;
                                break;
                            }
                        }
                        to
                    }
                };
                self.jump(st, to)?;
            }
            Ins::Ret(_, v) => {
                let v = match v {
                    Some(o) => self.opd(st, o),
                    None => V::U,
                };
                if st.threads[cur].frames.len() == 1 && cur != 0 {
                    // the end of a thread may need a scheduling choice: settle it first
                    let others: Vec<usize> = (0..st.threads.len())
                        .filter(|t| *t != cur && (st.threads[*t].status == Status::Run || st.threads[*t].status == Status::Join(cur)))
                        .collect();
                    if others.len() > 1 {
                        self.choose(st, others.len() as u32)?;
                    }
                }
                self.ret(st, v)?
            }
            Ins::Unreachable => return Err(Exc::Bug("unreachable".into(), format!("unreachable code reached in {}", f.name))),
            Ins::ExtractValue(d, v, idx, ty) => {
                let mut v = self.opd(st, v);
                let mut t = ty.clone();
                for i in idx {
                    v = item(&v, *i as usize);
                    t = t.elem(*i as usize);
                }
                self.set(st, *d, v);
                next(st);
            }
            Ins::InsertValue(d, ty, v, e, idx) => {
                let v = self.opd(st, v);
                let e = self.opd(st, e);
                let r = insert(ty, &v, &e, idx);
                self.set(st, *d, r);
                next(st);
            }
            Ins::ExtractElement(d, _, v, i) => {
                let v = self.opd(st, v);
                let i = self.opd(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = item(&v, i as usize);
                self.set(st, *d, r);
                next(st);
            }
            Ins::InsertElement(d, ty, v, e, i) => {
                let v = self.opd(st, v);
                let e = self.opd(st, e);
                let i = self.opd(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = insert(ty, &v, &e, &[i as u32]);
                self.set(st, *d, r);
                next(st);
            }
            Ins::Shuffle(d, ty, a, b, m) => {
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let n = ty.count();
                let r = m
                    .iter()
                    .map(|k| match k {
                        None => V::U,
                        Some(k) if (*k as usize) < n => item(&a, *k as usize),
                        Some(k) => item(&b, *k as usize - n),
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(r)));
                next(st);
            }
            Ins::Freeze(d, ty, v) => {
                let v = self.opd(st, v);
                let r = freeze(ty, &v);
                self.set(st, *d, r);
                next(st);
            }
            Ins::CmpXchg(d, ty, p, c, n) => {
                if self.sched_point(st)? {
                    return Ok(());
                }
                let (p, c, n) = (self.opd(st, p), self.opd(st, c), self.opd(st, n));
                let a = self.concretize(st, &p, 64)? as u64;
                let keep = st.accesses.clone();
                let old = self.load(st, a, ty)?;
                let e = self.icmp(IP::Eq, ty, &old, &c)?;
                let k = self.truth(st, &e)?;
                if k {
                    self.store(st, a, ty, &n)?;
                }
                st.accesses = keep;
                self.sync_acq_rel(st, a);
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(k as u128)])));
                next(st);
            }
            Ins::Rmw(d, op, ty, p, v) => {
                if self.sched_point(st)? {
                    return Ok(());
                }
                let (p, v) = (self.opd(st, p), self.opd(st, v));
                let a = self.concretize(st, &p, 64)? as u64;
                let keep = st.accesses.clone();
                let old = self.load(st, a, ty)?;
                let b = |s: &mut Self, st: &mut State, o: BvOp| s.binop(st, o, ty, &old, &v);
                let new = match op {
                    RmwOp::Xchg => v.clone(),
                    RmwOp::Add => b(self, st, BvOp::Add)?,
                    RmwOp::Sub => b(self, st, BvOp::Sub)?,
                    RmwOp::And => b(self, st, BvOp::And)?,
                    RmwOp::Or => b(self, st, BvOp::Or)?,
                    RmwOp::Xor => b(self, st, BvOp::Xor)?,
                    RmwOp::Nand => {
                        let x = b(self, st, BvOp::And)?;
                        let w = width(ty);
                        self.binop(st, BvOp::Xor, ty, &x, &V::C(mask(w)))?
                    }
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let p = match op {
                            RmwOp::Max => IP::Sgt,
                            RmwOp::Min => IP::Slt,
                            RmwOp::UMax => IP::Ugt,
                            _ => IP::Ult,
                        };
                        let c = self.icmp(p, ty, &old, &v)?;
                        self.select(st, &c, ty, &old, &v)?
                    }
                };
                self.store(st, a, ty, &new)?;
                st.accesses = keep;
                self.sync_acq_rel(st, a);
                self.set(st, *d, old);
                next(st);
            }
            Ins::Fence => next(st),
            Ins::LandingPad(..) | Ins::Resume(_) => return Err(Exc::Unsup("unwinding".into())),
        }
        Ok(())
    }

    // ---------- exploration ----------
    pub fn initial(&mut self, entry: u32) -> State {
        let mut st = State {
            threads: vec![Thread {
                frames: vec![],
                status: Status::Run,
                yielded: false,
                clock: vec![1],
            }],
            cur: 0,
            heap: Pv::default(),
            stack: Pv::default(),
            globals: Pv::default(),
            tls: BTreeMap::new(),
            nheap: 0,
            nstack: vec![0],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            sharded: false,
            conc: Rc::new(HashMap::new()),
            inputs: vec![],
            obs: vec![],
            env: None,
            steps: 0,
            expect: None,
            after: None,
            aftermath: false,
            live: 0,
            bytes: 0,
            pending: None,
            preempt: 0,
            tlog: vec![],
            depth: 0,
            accesses: Rc::new(BTreeMap::new()),
            sync: Rc::new(BTreeMap::new()),
        };
        st.env = Some(self.new_env(Env::default()));
        if self.push_frame(&mut st, entry, vec![], None, None).is_err() {
            panic!("entry has no body");
        }
        st
    }
    pub fn run(&mut self, entry: u32) {
        let st = self.initial(entry);
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.time {
                self.timed_out = true;
                break;
            }
            if self.cexs.len() >= 4 || self.cexs.iter().any(|c| c.confirmed) {
                break;
            }
            let mut n = 0u64;
            loop {
                n += 1;
                if n % 4096 == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.time {
                    self.timed_out = true;
                    break;
                }
                st.steps += 1;
                self.total_steps += 1;
                if st.steps > self.cfg.max_steps {
                    // the driver finds out natively whether this ever ends
                    self.report(&mut st, "termination", "no end within the step limit");
                    break;
                }
                match self.step(&mut st) {
                    Ok(()) => {
                        st.pending = None;
                    }
                    Err(Exc::Split(cs)) => {
                        self.forks += 1;
                        st.depth += 1;
                        let mut subs = vec![];
                        for c in cs {
                            let (f, e) = match st.env.clone() {
                                Some(ev) if self.holds(&ev, c) == Some(true) => (true, None),
                                _ => {
                                    // re-ask for a model; usually cached as feasible
                                    let key = {
                                        let mut k = self.slice(&st.pc, c);
                                        k.push(c);
                                        k
                                    };
                                    let cached = self.fcache.get(&key).cloned();
                                    match cached {
                                        Some(false) => (false, None),
                                        Some(true) => {
                                            self.fcache.remove(&key);
                                            self.feasible(&st, c)
                                        }
                                        None => self.feasible(&st, c),
                                    }
                                }
                            };
                            if f {
                                let mut s2 = st.clone();
                                self.add(&mut s2, c, e);
                                subs.push(s2);
                            }
                        }
                        subs.reverse();
                        work.extend(subs);
                        break;
                    }
                    Err(Exc::Fork(n)) => {
                        self.forks += 1;
                        st.depth += 1;
                        for k in (0..n).rev() {
                            let mut s2 = st.clone();
                            s2.pending = Some(k);
                            work.push(s2);
                        }
                        break;
                    }
                    Err(Exc::Bug(kind, msg)) => {
                        let at = self.where_am_i(&st);
                        self.report(&mut st, &kind, &format!("{} ({})", msg, at));
                        self.paths += 1;
                        break;
                    }
                    Err(Exc::End) => {
                        self.ended += 1;
                        break;
                    }
                    Err(Exc::Done) => {
                        self.paths += 1;
                        self.finish_path(&mut st);
                        break;
                    }
                    Err(Exc::Unsup(m)) => {
                        let at = self.where_am_i(&st);
                        *self.unsup.entry(format!("{} ({})", m, at)).or_insert(0) += 1;
                        break;
                    }
                }
            }
        }
    }
    pub fn where_am_i(&self, st: &State) -> String {
        let mut v = vec![];
        for fr in st.threads[st.cur].frames.iter().rev().take(5) {
            v.push(short(&fr.f.name));
        }
        v.join(" < ")
    }
    fn finish_path(&mut self, st: &mut State) {
        if let Some(l) = st.expect.clone() {
            self.report(st, &l, "the expected panic did not happen");
            return;
        }
        if self.samples.len() < self.cfg.max_samples || self.rnd() % 7 == 0 {
            if let Some(e) = st.env.clone() {
                let inp = self.render_inputs(st, &e);
                let mut obs = vec![];
                for (tag, t) in st.obs.clone() {
                    let v = self.eval_in(&e, t);
                    obs.push(format!("OBS {} {:x}", tag, v));
                }
                if self.samples.len() < self.cfg.max_samples {
                    self.samples.push((inp, obs));
                } else {
                    let k = (self.rnd() % self.samples.len().max(1) as u64) as usize;
                    if k < self.samples.len() {
                        self.samples[k] = (inp, obs);
                    }
                }
            }
        }
    }
    pub fn render_inputs(&mut self, st: &State, e: &(u64, Rc<Env>)) -> String {
        let mut s = String::new();
        let mut ps: Vec<_> = self.cfg.params.iter().collect();
        ps.sort();
        for (k, v) in ps {
            s.push_str(&format!("param {} {}\n", k, v));
        }
        for i in st.inputs.clone() {
            let v = self.eval_in(e, i.t);
            s.push_str(&format!("{} {} {:x}\n", i.kind, i.tag, v));
        }
        s
    }
}

/// stack slots reserved per thread
pub const STACKS: usize = 1 << 18;

pub fn item(v: &V, k: usize) -> V {
    match v {
        V::A(a) => a[k].clone(),
        V::C(0) => V::C(0),
        V::U => V::U,
        v => panic!("item of {:?}", v),
    }
}
pub fn insert(ty: &Ty, v: &V, e: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return e.clone();
    }
    let n = ty.count();
    let mut a: Vec<V> = (0..n).map(|k| item(v, k)).collect();
    let i = idx[0] as usize;
    a[i] = insert(&ty.elem(i), &a[i].clone(), e, &idx[1..]);
    V::A(Rc::new(a))
}
fn freeze(ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), _) if *v != V::C(0) => {
            V::A(Rc::new((0..ty.count()).map(|k| freeze(&ty.elem(k), &item(v, k))).collect()))
        }
        (_, V::U) => V::C(0),
        _ => v.clone(),
    }
}
/// readable part of a mangled name
pub fn short(n: &str) -> String {
    // v0 identifiers: decimal length then name
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    if n.starts_with("_R") {
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let mut j = i;
                let mut l = 0usize;
                while j < b.len() && b[j].is_ascii_digit() && l < 1000 {
                    l = l * 10 + (b[j] - b'0') as usize;
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    j += 1;
                }
                if l > 1 && j + l <= b.len() && b[j..j + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() {
                    out.push(String::from_utf8_lossy(&b[j..j + l]).into_owned());
                    i = j + l;
                    continue;
                }
                i = j.max(i + 1);
            } else {
                i += 1;
            }
        }
        let k = out.len().saturating_sub(6);
        return out[k..].join("::");
    }
    n.chars().take(60).collect()
}
#[allow(unused)]
pub fn set_of(v: &[T]) -> BTreeSet<T> {
    v.iter().cloned().collect()
}
