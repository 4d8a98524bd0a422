//! Deciding assertions: definedness over the reals, proof attempts,
//! counterexamples and their native confirmation.
use crate::exec::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;

#[derive(Clone, Copy)]
pub enum Goal {
    /// the term must be true
    True(T),
    /// equal bits (any NaN equals any NaN)
    Bits(T, T),
    /// over the reals: wherever spec is defined, code is defined and equal
    Real { code: T, spec: T },
    /// never reached
    Never,
}

impl<'p> Exec<'p> {
    /// condition under which every operation in a float term is defined
    pub fn defd(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        if let Some(d) = memo.get(&t) {
            return *d;
        }
        let n = self.db.node(t).clone();
        let tt = self.db.tt;
        let d = match &n {
            Node::Fc(w, b) => {
                let x = if *w == 64 { f64::from_bits(*b) } else { f32::from_bits(*b as u32) as f64 };
                self.db.boolc(x.is_finite())
            }
            Node::Ite(c, a, b) => {
                let x = self.defd(*a, memo);
                let y = self.defd(*b, memo);
                let m = self.db.ite(*c, x, y);
                let dc = self.defd(*c, memo);
                self.db.and(dc, m)
            }
            Node::F(op, args) => {
                let mut d = tt;
                for a in args.iter().filter(|x| **x != NOARG) {
                    let x = self.defd(*a, memo);
                    d = self.db.and(d, x);
                }
                let w = self.db.width(t) as u8;
                let zero = self.db.fc(w, 0);
                let one = if w == 64 { self.db.f64c(1.0) } else { self.db.fc(32, 1f32.to_bits() as u64) };
                let own = match op {
                    FOp::Div | FOp::Rem => {
                        let e = self.db.fcmp(FCmp::Oeq, args[1], zero);
                        self.db.not(e)
                    }
                    FOp::Sqrt => self.db.fcmp(FCmp::Ole, zero, args[0]),
                    FOp::Ln | FOp::Log2 | FOp::Log10 => self.db.fcmp(FCmp::Olt, zero, args[0]),
                    FOp::Log1p => {
                        let s = self.db.f(FOp::Add, &[args[0], one]);
                        self.db.fcmp(FCmp::Olt, zero, s)
                    }
                    FOp::Asin | FOp::Acos => {
                        let x = self.db.f(FOp::Abs, &[args[0]]);
                        self.db.fcmp(FCmp::Ole, x, one)
                    }
                    FOp::Atanh => {
                        let x = self.db.f(FOp::Abs, &[args[0]]);
                        self.db.fcmp(FCmp::Olt, x, one)
                    }
                    FOp::Acosh => self.db.fcmp(FCmp::Ole, one, args[0]),
                    FOp::Tan => {
                        let c = self.db.f(FOp::Cos, &[args[0]]);
                        let e = self.db.fcmp(FCmp::Oeq, c, zero);
                        self.db.not(e)
                    }
                    FOp::Pow => {
                        let pos = self.db.fcmp(FCmp::Olt, zero, args[0]);
                        let isz = self.db.fcmp(FCmp::Oeq, args[0], zero);
                        let ypos = self.db.fcmp(FCmp::Ole, zero, args[1]);
                        let z = self.db.and(isz, ypos);
                        let mut d = self.db.or(pos, z);
                        if let Some(c) = self.db.cval(args[1]) {
                            let y = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                            if y.fract() == 0.0 {
                                let nz = self.db.not(isz);
                                d = if y >= 0.0 { tt } else { nz };
                            }
                        } else {
                            // integer exponents of negative bases
                            let f = self.db.f(FOp::Floor, &[args[1]]);
                            let int = self.db.fcmp(FCmp::Oeq, f, args[1]);
                            let nz = self.db.not(isz);
                            let q = self.db.and(int, nz);
                            d = self.db.or(d, q);
                        }
                        d
                    }
                    _ => tt,
                };
                self.db.and(d, own)
            }
            _ => {
                let mut d = tt;
                for c in Db::children(&n) {
                    let x = self.defd(c, memo);
                    d = self.db.and(d, x);
                }
                d
            }
        };
        memo.insert(t, d);
        d
    }

    /// the condition to refute
    fn negated(&mut self, g: Goal) -> T {
        match g {
            Goal::True(c) => self.db.not(c),
            Goal::Never => self.db.tt,
            Goal::Bits(a, b) => {
                if a == b {
                    return self.db.ff;
                }
                if self.cfg.mode == Mode::Real {
                    let e = self.db.fcmp(FCmp::Oeq, a, b);
                    return self.db.not(e);
                }
                let (x, y) = (crate::mem::as_bv(&mut self.db, a), crate::mem::as_bv(&mut self.db, b));
                let e = self.db.eq(x, y);
                let na = self.db.fcmp(FCmp::Uno, a, a);
                let nb = self.db.fcmp(FCmp::Uno, b, b);
                let bn = self.db.and(na, nb);
                let ok = self.db.or(e, bn);
                self.db.not(ok)
            }
            Goal::Real { code, spec } => {
                if code == spec {
                    return self.db.ff;
                }
                let mut memo = HashMap::new();
                let ds = self.defd(spec, &mut memo);
                let dc = self.defd(code, &mut memo);
                let e = self.db.fcmp(FCmp::Oeq, code, spec);
                let ok = self.db.and(dc, e);
                let nok = self.db.not(ok);
                self.db.and(ds, nok)
            }
        }
    }

    /// does this assignment break the goal when run natively?
    fn breaks(&mut self, st: &State, env: &(u64, std::rc::Rc<Env>), g: Goal) -> bool {
        let pc = st.pc.clone();
        if !self.env_ok(env, &pc) {
            return false;
        }
        match g {
            Goal::Never => true,
            Goal::True(c) => self.holds(env, c) == Some(false),
            Goal::Bits(a, b) => {
                let w = self.db.width(a) as u8;
                let (x, y) = (self.eval_in(env, a) as u64, self.eval_in(env, b) as u64);
                let nan = |v| eval_class(w, v) & 3 != 0;
                if self.cfg.mode == Mode::Real {
                    let e = self.error_in(env, a) + self.error_in(env, b);
                    let f = |v: u64| if w == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                    return !((f(x) - f(y)).abs() <= 4.0 * e);
                }
                x != y && !(nan(x) && nan(y))
            }
            Goal::Real { code, spec } => {
                let w = self.db.width(code);
                let f = |v: u128| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let x = f(self.eval_in(env, code));
                let y = f(self.eval_in(env, spec));
                let top = y.abs().max(if x.is_finite() { x.abs() } else { 0.0 });
                // too large or too small for relative precision
                let (lo, hi) = if w == 64 { (1e-200, 1e100) } else { (1e-25, 1e12) };
                if !y.is_finite() || top > hi || x.is_finite() && top < lo {
                    return false;
                }
                let es = self.error_in(env, spec);
                // an undefined code value has no distance; the defined one decides
                let ec = if x.is_finite() { self.error_in(env, code) } else { 0.0 };
                if !(es + ec).is_finite() {
                    return false;
                }
                let tol = if w == 64 { 1e-9 } else { 1e-4 };
                let ok = (x - y).abs() <= 4.0 * (es + ec) + tol * top;
                self.tol = if ok || !x.is_finite() { None } else { Some((x - y).abs() / 2.0) };
                !ok
            }
        }
    }

    fn search(&mut self, st: &State, g: Goal, neg: T, model: Option<HashMap<T, u128>>) -> Option<(u64, std::rc::Rc<Env>)> {
        let base = match &st.env {
            Some((_, e)) => (**e).clone(),
            None => Env::default(),
        };
        let mut seeds = vec![base.clone()];
        if let Some(m) = model {
            let mut e = base.clone();
            for (k, v) in m {
                e.vars.insert(k, v);
            }
            seeds.insert(0, e);
        }
        for e in seeds.clone() {
            let e = self.new_env(e);
            if self.breaks(st, &e, g) {
                return Some(e);
            }
        }
        let mut roots = self.slice(&st.pc, neg);
        roots.push(neg);
        if let Goal::Real { code, spec } = g {
            roots.push(code);
            roots.push(spec);
        }
        let vars = self.db.vars_of(&roots);
        let start = std::time::Instant::now();
        let patience = if self.hopeless > 3 { 2.0 } else { 10.0 };
        for round in 0..4000 {
            if start.elapsed().as_secs_f64() > patience {
                break;
            }
            let mut e = seeds[(round % seeds.len() as u64) as usize].clone();
            let keep = self.rnd() % 4;
            for v in &vars {
                if keep > 0 && self.rnd() % 4 < keep {
                    continue;
                }
                let r = self.rnd();
                let val = match self.db.sort(*v) {
                    Sort::Bool => (r & 1) as u128,
                    Sort::Bv(w) => match r % 3 {
                        0 => (r >> 8) as u128 % 8,
                        1 => (r >> 8) as u128 & mask(w),
                        _ => continue,
                    },
                    Sort::F(w) => {
                        let k = (r >> 8) % 65;
                        let special = if self.cfg.mode == Mode::Bits { r % 3 == 0 } else { false };
                        if special {
                            const S: [f64; 16] = [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0, 0.5, 2.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, -1e-300, 9e18];
                            const S32: [f32; 16] = [0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1.0, -1.0, 0.5, 2.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 1e30, -1e-30, 9e18];
                            let i = (r >> 16) as usize % 20;
                            let bits = match (w, i) {
                                (64, 0..=15) => S[i].to_bits() as u128,
                                (64, _) => self.rnd() as u128,
                                (_, 0..=15) => S32[i].to_bits() as u128,
                                _ => self.rnd() as u32 as u128,
                            };
                            e.vars.insert(*v, bits);
                            continue;
                        }
                        let x = match (r >> 40) % 4 {
                            0 => (k as f64 - 32.0) / 8.0,
                            1 => (k % 9) as f64 / 2.0 - 2.0,
                            2 => (k as f64) / 65.0,
                            _ => ((r >> 16) % 100000) as f64 / 10000.0 - 5.0,
                        };
                        if w == 64 {
                            x.to_bits() as u128
                        } else {
                            (x as f32).to_bits() as u128
                        }
                    }
                };
                e.vars.insert(*v, val);
            }
            let e = self.new_env(e);
            let hit = self.breaks(st, &e, g);
            self.memos.remove(&e.0);
            self.ememos.remove(&e.0);
            if hit {
                return Some(e);
            }
        }
        None
    }

    fn plans(&self, mode: Mode, sc: &Script) -> Vec<(&'static str, &'static str, u64)> {
        let som = "(check-sat-using (then (using-params simplify :som true) propagate-values (using-params simplify :som true) smt))";
        match mode {
            Mode::Real => {
                let pure = !sc.text.contains("BitVec") && !sc.text.contains("declare-fun uf");
                let mut v = vec![("z3-new -in", "(check-sat)", 1500), ("z3-new -in", som, 3000)];
                if sc.nonlinear && pure {
                    v.push(("z3-new -in", "(check-sat-using qfnra-nlsat)", 6000));
                }
                v.push(("z3 -in", "(check-sat)", 6000));
                v.push(("cvc5 --incremental --lang smt2 --produce-models", "(check-sat)", 8000));
                v.push(("z3-new -in", som, 30000));
                if sc.nonlinear && pure {
                    v.push(("z3-new -in", "(check-sat-using (then simplify solve-eqs qfnra-nlsat))", 40000));
                }
                v.push(("z3 -in", som, 30000));
                v
            }
            _ if mode == Mode::Fp && self.hopeless > 3 => vec![("z3-new -in", "(check-sat)", 2000), ("cvc5 --incremental --lang smt2 --produce-models", "(check-sat)", 2000)],
            _ => vec![
                ("z3-new -in", "(check-sat)", 10000),
                ("cvc5 --incremental --lang smt2 --produce-models", "(check-sat)", 20000),
                ("z3 -in", "(check-sat)", 30000),
            ],
        }
    }
    fn attempt(&mut self, mode: Mode, asserts: &[T]) -> Ans {
        let sc = script(&mut self.db, mode, asserts);
        let plans = self.plans(mode, &sc);
        let mut last = Ans::Unknown("no plan".into());
        for (cmd, chk, ms) in plans {
            last = self.sol.ask(cmd, &self.db, &sc, chk, ms, true);
            match last {
                Ans::Unknown(_) => continue,
                _ => return last,
            }
        }
        last
    }

    /// Decide a goal on this path. Records the outcome.
    pub fn prove(&mut self, st: &mut State, label: &str, g: Goal, msg: &str) {
        let neg = self.negated(g);
        self.tol = None;
        {
            let l = self.labels.entry(label.to_string()).or_default();
            l.checked += 1;
        }
        if neg == self.db.ff || st.known.get(&neg) == Some(&false) {
            self.labels.get_mut(label).unwrap().trivial += 1;
            return;
        }
        let mut key = self.slice(&st.pc, neg);
        if neg == self.db.tt {
            key = st.pc.clone();
        }
        if let Some(b) = self.proof_cache.get(&(key.clone(), neg)) {
            if *b {
                self.labels.get_mut(label).unwrap().unsat += 1;
                self.sol.stats.cached += 1;
                return;
            }
        }
        // a natively confirmed violation needs no proof attempt first
        if let Some(e) = st.env.clone() {
            if self.breaks(st, &e, g) {
                self.found(st, label, msg, Some(e), true);
                return;
            }
        }
        let mut asserts = key.clone();
        asserts.push(neg);
        let mut ans = self.attempt(self.cfg.mode, &asserts);
        let mut model = None;
        if let Ans::Sat(m) = &ans {
            if let Some(e) = self.search(st, g, neg, Some(m.clone())) {
                self.found(st, label, msg, Some(e), true);
                return;
            }
            model = Some(m.clone());
            if self.cfg.mode == Mode::Bits {
                ans = self.attempt(Mode::Fp, &asserts);
                if let Ans::Sat(m) = &ans {
                    if let Some(e) = self.search(st, g, neg, Some(m.clone())) {
                        self.found(st, label, msg, Some(e), true);
                        return;
                    }
                    model = Some(m.clone());
                }
            }
        }
        match ans {
            Ans::Unsat => {
                self.labels.get_mut(label).unwrap().unsat += 1;
                self.proof_cache.insert((key, neg), true);
            }
            Ans::Sat(_) => {
                let mut e = st.env.clone().map(|x| (*x.1).clone()).unwrap_or_default();
                for (k, v) in model.unwrap() {
                    e.vars.insert(k, v);
                }
                let e = self.new_env(e);
                self.found(st, label, msg, Some(e), false);
            }
            Ans::Unknown(_) => {
                if let Some(e) = self.search(st, g, neg, None) {
                    self.found(st, label, msg, Some(e), true);
                    return;
                }
                let l = self.labels.get_mut(label).unwrap();
                l.unknown += 1;
                self.hopeless += 1;
                if self.cfg.verbose {
                    eprintln!("unknown: {} {:?}", label, &asserts.len());
                    let sc = script(&mut self.db, self.cfg.mode, &asserts);
                    let _ = std::fs::write(format!("/tmp/unknown_{}.smt2", label.replace('/', "_")), sc.text + "(check-sat)\n");
                }
            }
        }
    }
    fn found(&mut self, st: &mut State, label: &str, msg: &str, env: Option<(u64, std::rc::Rc<Env>)>, confirmed: bool) {
        self.labels.get_mut(label).unwrap().sat += 1;
        let inputs = env.map(|e| self.render_inputs(st, &e));
        if self.cfg.verbose {
            eprintln!("CEX {} confirmed={} {}\n{}", label, confirmed, msg, inputs.clone().unwrap_or_default());
        }
        let mut inputs = inputs;
        // what the native run has to exceed
        if let (Some(s), Some(d)) = (inputs.as_mut(), self.tol.take()) {
            s.push_str(&format!("tol {:x} {}\n", d.to_bits(), label));
        }
        if !st.tlog.is_empty() {
            if let Some(s) = inputs.as_mut() {
                let l: Vec<String> = st.tlog.iter().map(|x| x.to_string()).collect();
                s.push_str(&format!("# schedule {}\n", l.join(" ")));
            }
        }
        self.cexs.push(Cex {
            label: label.to_string(),
            msg: msg.to_string(),
            inputs,
            confirmed,
        });
    }
    /// the path went wrong outright: is the path itself possible?
    pub fn report(&mut self, st: &mut State, label: &str, msg: &str) {
        self.prove(st, label, Goal::Never, msg);
    }
}
