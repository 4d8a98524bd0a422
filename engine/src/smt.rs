//! Translation of terms to SMT-LIB (three readings of floating point) and
//! the solver processes.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash)]
pub enum Mode {
    /// doubles are exact reals
    Real,
    /// doubles are 64-bit words; comparisons, neg, abs, classification exact, arithmetic uninterpreted
    Bits,
    /// as Bits, with + - * / sqrt fma and conversions interpreted per IEEE-754
    Fp,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ans {
    Sat(HashMap<T, u128>),
    Unsat,
    Unknown(String),
}

// ---------- small bignum for decimal literals ----------
fn pow2_times(m: u64, e: u32) -> String {
    let mut d: Vec<u32> = vec![]; // base 1e9 little endian
    let mut x = m as u128;
    while x > 0 {
        d.push((x % 1_000_000_000) as u32);
        x /= 1_000_000_000;
    }
    if d.is_empty() {
        return "0".into();
    }
    for _ in 0..e {
        let mut c = 0u64;
        for k in d.iter_mut() {
            let v = *k as u64 * 2 + c;
            *k = (v % 1_000_000_000) as u32;
            c = v / 1_000_000_000;
        }
        if c > 0 {
            d.push(c as u32);
        }
    }
    let mut s = format!("{}", d.last().unwrap());
    for k in d.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", k));
    }
    s
}

/// exact numerator and denominator of a finite double
pub fn real_lit(v: f64) -> String {
    if v == 0.0 {
        return "0.0".into();
    }
    let b = v.abs().to_bits();
    let e = (b >> 52) as i32;
    let m = if e == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | (1 << 52) };
    let mut e = if e == 0 { -1074 } else { e - 1075 };
    let mut m = m;
    while m & 1 == 0 && e < 0 {
        m >>= 1;
        e += 1;
    }
    let s = if e >= 0 {
        format!("{}.0", pow2_times(m, e as u32))
    } else {
        format!("(/ {}.0 {}.0)", m, pow2_times(1, (-e) as u32))
    };
    if v < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

pub struct Script {
    pub text: String,
    pub vars: Vec<(T, String)>,
    pub nonlinear: bool,
}

struct Enc<'a> {
    db: &'a mut Db,
    mode: Mode,
    out: String,
    axioms: Vec<String>,
    r: HashMap<T, (String, String)>,
    ufs: HashSet<String>,
    vars: Vec<(T, String)>,
    /// real-mode function atoms: (op, arg reprs) -> symbol
    atoms: Vec<(FOp, Vec<String>, String)>,
    amap: HashMap<(FOp, Vec<String>), String>,
    fresh: u32,
}

fn bvlit(w: u16, v: u128) -> String {
    format!("(_ bv{} {})", v & mask(w), w)
}

impl<'a> Enc<'a> {
    fn uf(&mut self, name: &str, args: &[String], asorts: &[&str], rs: &str) -> String {
        if self.ufs.insert(name.to_string()) {
            self.out.push_str(&format!("(declare-fun {} ({}) {})\n", name, asorts.join(" "), rs));
        }
        if args.is_empty() {
            name.to_string()
        } else {
            format!("({} {})", name, args.join(" "))
        }
    }
    fn sort_name(&self, s: Sort) -> String {
        match s {
            Sort::Bool => "Bool".into(),
            Sort::Bv(w) => format!("(_ BitVec {})", w),
            Sort::F(w) => {
                if self.mode == Mode::Real {
                    "Real".into()
                } else {
                    format!("(_ BitVec {})", w)
                }
            }
        }
    }
    fn def(&mut self, sort: &str, e: String) -> String {
        if !e.contains(' ') || e.starts_with("(_ bv") {
            return e;
        }
        let n = format!("d{}", self.fresh);
        self.fresh += 1;
        self.out.push_str(&format!("(define-fun {} () {} {})\n", n, sort, e));
        n
    }
    fn freshv(&mut self, sort: &str) -> String {
        let n = format!("u{}", self.fresh);
        self.fresh += 1;
        self.out.push_str(&format!("(declare-const {} {})\n", n, sort));
        n
    }
    /// a plain Real expression for a (num, den) pair
    fn val(&mut self, p: &(String, String)) -> String {
        if p.1 == "1.0" {
            return p.0.clone();
        }
        let key = (FOp::Div, vec![p.0.clone(), p.1.clone()]);
        if let Some(v) = self.amap.get(&key) {
            return v.clone();
        }
        let v = self.freshv("Real");
        self.axioms.push(format!("(=> (not (= {} 0.0)) (= (* {} {}) {}))", p.1, v, p.1, p.0));
        self.amap.insert(key, v.clone());
        v
    }
    fn atom(&mut self, op: FOp, args: Vec<String>) -> String {
        if let Some(v) = self.amap.get(&(op, args.clone())) {
            return v.clone();
        }
        let v = self.freshv("Real");
        self.amap.insert((op, args.clone()), v.clone());
        self.atoms.push((op, args.clone(), v.clone()));
        let x = args[0].clone();
        match op {
            FOp::Sqrt => {
                self.axioms.push(format!("(=> (>= {x} 0.0) (and (>= {v} 0.0) (= (* {v} {v}) {x})))"));
            }
            FOp::Sin => {
                let c = self.atom(FOp::Cos, vec![x]);
                self.axioms.push(format!("(= (+ (* {v} {v}) (* {c} {c})) 1.0)"));
            }
            FOp::Tan => {
                let c = self.atom(FOp::Cos, vec![x.clone()]);
                let s = self.atom(FOp::Sin, vec![x]);
                self.axioms.push(format!("(= (* {v} {c}) {s})"));
            }
            FOp::Exp => self.axioms.push(format!("(> {v} 0.0)")),
            FOp::Ln => {
                self.axioms.push(format!("(=> (> {x} 1.0) (> {v} 0.0))"));
                self.axioms.push(format!("(=> (and (> {x} 0.0) (< {x} 1.0)) (< {v} 0.0))"));
                self.axioms.push(format!("(=> (= {x} 1.0) (= {v} 0.0))"));
            }
            FOp::Hypot => {
                let y = &args[1];
                self.axioms.push(format!("(and (>= {v} 0.0) (= (* {v} {v}) (+ (* {x} {x}) (* {y} {y}))))"));
            }
            FOp::Cbrt => self.axioms.push(format!("(= (* {v} {v} {v}) {x})")),
            FOp::Pow => {
                let y = &args[1];
                self.axioms.push(format!("(=> (> {x} 0.0) (> {v} 0.0))"));
                self.axioms.push(format!("(=> (= {y} 0.0) (= {v} 1.0))"));
                self.axioms.push(format!("(=> (= {y} 1.0) (= {v} {x}))"));
                self.axioms.push(format!("(=> (= {x} 1.0) (= {v} 1.0))"));
                self.axioms.push(format!("(=> (and (= {x} 0.0) (> {y} 0.0)) (= {v} 0.0))"));
                self.axioms.push(format!("(=> (= {y} 2.0) (= {v} (* {x} {x})))"));
            }
            _ => {}
        }
        v
    }
    fn finish_atoms(&mut self) {
        let n = self.atoms.len();
        for i in 0..n {
            for j in 0..i {
                let (o1, a1, v1) = self.atoms[i].clone();
                let (o2, a2, v2) = self.atoms[j].clone();
                if o1 == o2 {
                    let eqs: Vec<String> = a1.iter().zip(&a2).map(|(x, y)| format!("(= {} {})", x, y)).collect();
                    self.axioms.push(format!("(=> (and {}) (= {} {}))", eqs.join(" "), v1, v2));
                    if o1 == FOp::Pow {
                        for (x, y, v, x2, y2, w) in [
                            (&a1[0], &a1[1], &v1, &a2[0], &a2[1], &v2),
                            (&a2[0], &a2[1], &v2, &a1[0], &a1[1], &v1),
                        ] {
                            self.axioms.push(format!(
                                "(=> (and (= {x} {x2}) (or (> {x} 0.0) (and (= {x} 0.0) (> {y2} 0.0))) (= {y} (+ {y2} 1.0))) (= {v} (* {x} {w})))"
                            ));
                        }
                    }
                }
            }
        }
        // pow(x,y) = exp(y ln x) when the pieces are around
        for i in 0..n {
            if self.atoms[i].0 != FOp::Pow {
                continue;
            }
            let (_, a, v) = self.atoms[i].clone();
            let l = match self.amap.get(&(FOp::Ln, vec![a[0].clone()])) {
                Some(l) => l.clone(),
                None => continue,
            };
            for j in 0..n {
                if self.atoms[j].0 == FOp::Exp {
                    let (_, b, w) = self.atoms[j].clone();
                    self.axioms
                        .push(format!("(=> (and (> {} 0.0) (= {} (* {} {}))) (= {} {}))", a[0], b[0], a[1], l, v, w));
                }
            }
        }
    }
    fn isnan(&self, w: u8, x: &str) -> String {
        if w == 64 {
            format!("(bvugt (bvand {x} #x7fffffffffffffff) #x7ff0000000000000)")
        } else {
            format!("(bvugt (bvand {x} #x7fffffff) #x7f800000)")
        }
    }
    fn flt(&self, w: u8, a: &str, b: &str, or_eq: bool) -> String {
        let na = self.isnan(w, a);
        let nb = self.isnan(w, b);
        let (sb, z, m) = if w == 64 { (63, "#x0000000000000000", "#x7fffffffffffffff") } else { (31, "#x00000000", "#x7fffffff") };
        let bz = format!("(= (bvor (bvand {a} {m}) (bvand {b} {m})) {z})");
        let sa = format!("(= ((_ extract {sb} {sb}) {a}) #b1)");
        let sbb = format!("(= ((_ extract {sb} {sb}) {b}) #b1)");
        let lt = format!("(ite {sa} (ite {sbb} (bvugt {a} {b}) true) (ite {sbb} false (bvult {a} {b})))");
        if or_eq {
            format!("(and (not {na}) (not {nb}) (or {bz} (= {a} {b}) {lt}))")
        } else {
            format!("(and (not {na}) (not {nb}) (not {bz}) {lt})")
        }
    }
    fn tofp(w: u8, x: &str) -> String {
        if w == 64 {
            format!("((_ to_fp 11 53) {x})")
        } else {
            format!("((_ to_fp 8 24) {x})")
        }
    }
    fn enc(&mut self, root: T) {
        let mut st = vec![(root, false)];
        while let Some((t, ready)) = st.pop() {
            if self.r.contains_key(&t) {
                continue;
            }
            let node = self.db.node(t).clone();
            if !ready {
                st.push((t, true));
                for c in Db::children(&node) {
                    if !self.r.contains_key(&c) {
                        st.push((c, false));
                    }
                }
                continue;
            }
            let rep = self.one(t, &node);
            self.r.insert(t, rep);
        }
    }
    fn s(&self, t: T) -> String {
        self.r[&t].0.clone()
    }
    fn one(&mut self, t: T, node: &Node) -> (String, String) {
        let real = self.mode == Mode::Real;
        let one = "1.0".to_string();
        let sort = self.db.sort(t);
        let sn = self.sort_name(sort);
        let plain = |e: String| (e, "1.0".to_string());
        match node {
            Node::Bool(b) => plain(b.to_string()),
            Node::Bv(w, v) => plain(bvlit(*w, *v)),
            Node::Fc(w, v) => {
                if !real {
                    return plain(bvlit(*w as u16, *v as u128));
                }
                let x = if *w == 64 { f64::from_bits(*v) } else { f32::from_bits(*v as u32) as f64 };
                if let Some((op, a)) = known_const(*w, x) {
                    plain(self.atom(op, vec![a.to_string()]))
                } else if let Some(q) = fraction(*w, x) {
                    plain(q)
                } else if x.is_finite() {
                    plain(real_lit(x))
                } else {
                    plain(self.freshv("Real"))
                }
            }
            Node::Var(_, id) => {
                let n = format!("x{}_{}", t, id);
                self.out.push_str(&format!("(declare-const {} {})\n", n, sn));
                self.vars.push((t, n.clone()));
                plain(n)
            }
            Node::Not(a) => {
                let e = format!("(not {})", self.s(*a));
                plain(self.def("Bool", e))
            }
            Node::And(a, b) => {
                let e = format!("(and {} {})", self.s(*a), self.s(*b));
                plain(self.def("Bool", e))
            }
            Node::Or(a, b) => {
                let e = format!("(or {} {})", self.s(*a), self.s(*b));
                plain(self.def("Bool", e))
            }
            Node::Ite(c, a, b) => {
                let (an, ad) = self.r[a].clone();
                let (bn, bd) = self.r[b].clone();
                let e = format!("(ite {} {} {})", self.s(*c), an, bn);
                let n = self.def(&sn, e);
                let d = if ad == bd {
                    ad
                } else {
                    let e = format!("(ite {} {} {})", self.s(*c), ad, bd);
                    self.def("Real", e)
                };
                (n, d)
            }
            Node::Cmp(op, a, b) => {
                let o = match op {
                    CmpOp::Eq => "=",
                    CmpOp::Ult => "bvult",
                    CmpOp::Ule => "bvule",
                    CmpOp::Slt => "bvslt",
                    CmpOp::Sle => "bvsle",
                };
                let e = format!("({} {} {})", o, self.s(*a), self.s(*b));
                plain(self.def("Bool", e))
            }
            Node::Bin(op, a, b) => {
                let o = match op {
                    BvOp::Add => "bvadd",
                    BvOp::Sub => "bvsub",
                    BvOp::Mul => "bvmul",
                    BvOp::UDiv => "bvudiv",
                    BvOp::URem => "bvurem",
                    BvOp::SDiv => "bvsdiv",
                    BvOp::SRem => "bvsrem",
                    BvOp::And => "bvand",
                    BvOp::Or => "bvor",
                    BvOp::Xor => "bvxor",
                    BvOp::Shl => "bvshl",
                    BvOp::LShr => "bvlshr",
                    BvOp::AShr => "bvashr",
                };
                let e = format!("({} {} {})", o, self.s(*a), self.s(*b));
                plain(self.def(&sn, e))
            }
            Node::Concat(a, b) => {
                let e = format!("(concat {} {})", self.s(*a), self.s(*b));
                plain(self.def(&sn, e))
            }
            Node::Extract(a, h, l) => {
                let e = format!("((_ extract {} {}) {})", h, l, self.s(*a));
                plain(self.def(&sn, e))
            }
            Node::ZExt(a, w) => {
                let e = format!("((_ zero_extend {}) {})", w - self.db.width(*a), self.s(*a));
                plain(self.def(&sn, e))
            }
            Node::SExt(a, w) => {
                let e = format!("((_ sign_extend {}) {})", w - self.db.width(*a), self.s(*a));
                plain(self.def(&sn, e))
            }
            Node::Uf(id, args, s) => {
                let rs = self.sort_name(*s);
                let mut av = vec![];
                let mut asn = vec![];
                for a in args.iter() {
                    let p = self.r[a].clone();
                    av.push(self.val(&p));
                    asn.push(self.sort_name(self.db.sort(*a)));
                }
                let refs: Vec<&str> = asn.iter().map(|s| s.as_str()).collect();
                let e = self.uf(&format!("uf{}_{}", id, args.len()), &av, &refs, &rs);
                plain(self.def(&sn, e))
            }
            Node::F(op, args) if real => {
                let a: Vec<(String, String)> = args.iter().filter(|x| **x != NOARG).map(|x| self.r[x].clone()).collect();
                self.real_op(*op, args, &a)
            }
            Node::F(op, args) => {
                let w = self.db.width(t) as u8;
                let a: Vec<String> = args.iter().filter(|x| **x != NOARG).map(|x| self.s(*x)).collect();
                let e = self.bits_op(*op, w, &a);
                plain(self.def(&sn, e))
            }
            Node::FCmp(op, a, b) => {
                if real {
                    let (an, ad) = self.r[a].clone();
                    let (bn, bd) = self.r[b].clone();
                    let e = if *op == FCmp::Uno {
                        "false".to_string()
                    } else if ad == one && bd == one {
                        let o = match op {
                            FCmp::Oeq => "=",
                            FCmp::Olt => "<",
                            _ => "<=",
                        };
                        format!("({} {} {})", o, an, bn)
                    } else {
                        let l = mul(&an, &bd);
                        let r = mul(&bn, &ad);
                        match op {
                            FCmp::Oeq => format!("(= {} {})", l, r),
                            FCmp::Olt => format!("(< (* (- {} {}) {}) 0.0)", l, r, mul(&ad, &bd)),
                            _ => format!("(<= (* (- {} {}) {}) 0.0)", l, r, mul(&ad, &bd)),
                        }
                    };
                    return plain(self.def("Bool", e));
                }
                let w = self.db.width(*a) as u8;
                let (x, y) = (self.s(*a), self.s(*b));
                let e = match op {
                    FCmp::Uno => format!("(or {} {})", self.isnan(w, &x), self.isnan(w, &y)),
                    FCmp::Olt => self.flt(w, &x, &y, false),
                    FCmp::Ole => self.flt(w, &x, &y, true),
                    FCmp::Oeq => {
                        let (z, m) = if w == 64 { ("#x0000000000000000", "#x7fffffffffffffff") } else { ("#x00000000", "#x7fffffff") };
                        format!(
                            "(and (not {}) (not {}) (or (= {x} {y}) (= (bvor (bvand {x} {m}) (bvand {y} {m})) {z})))",
                            self.isnan(w, &x),
                            self.isnan(w, &y)
                        )
                    }
                };
                plain(self.def("Bool", e))
            }
            Node::FClass(a, m) => {
                if real {
                    let (n, d) = self.r[a].clone();
                    let s = if d == one { n } else { mul(&n, &d) };
                    let mut alts = vec![];
                    if m & 0b11000 != 0 {
                        alts.push(format!("(< {} 0.0)", s));
                    }
                    if m & 0b1000000 != 0 {
                        alts.push(format!("(= {} 0.0)", s));
                    }
                    if m & 0b110000000 != 0 {
                        alts.push(format!("(> {} 0.0)", s));
                    }
                    let e = format!("(or false {})", alts.join(" "));
                    return plain(self.def("Bool", e));
                }
                let w = self.db.width(*a) as u8;
                let x = self.s(*a);
                let (sb, mb) = if w == 64 { (63u32, 52u32) } else { (31, 23) };
                let eb = sb - mb;
                let sg = format!("(= ((_ extract {sb} {sb}) {x}) #b1)");
                let ex = format!("((_ extract {} {}) {x})", sb - 1, mb);
                let mt = format!("((_ extract {} 0) {x})", mb - 1);
                let e1 = format!("(= {ex} (bvnot (_ bv0 {eb})))");
                let e0 = format!("(= {ex} (_ bv0 {eb}))");
                let m0 = format!("(= {mt} (_ bv0 {mb}))");
                let q = format!("(= ((_ extract {} {}) {x}) #b1)", mb - 1, mb - 1);
                let classes = [
                    format!("(and {e1} (not {m0}) (not {q}))"),
                    format!("(and {e1} (not {m0}) {q})"),
                    format!("(and {e1} {m0} {sg})"),
                    format!("(and (not {e1}) (not {e0}) {sg})"),
                    format!("(and {e0} (not {m0}) {sg})"),
                    format!("(and {e0} {m0} {sg})"),
                    format!("(and {e0} {m0} (not {sg}))"),
                    format!("(and {e0} (not {m0}) (not {sg}))"),
                    format!("(and (not {e1}) (not {e0}) (not {sg}))"),
                    format!("(and {e1} {m0} (not {sg}))"),
                ];
                let alts: Vec<String> = (0..10).filter(|k| m & (1 << k) != 0).map(|k| classes[k].clone()).collect();
                let e = format!("(or false {})", alts.join(" "));
                plain(self.def("Bool", e))
            }
            Node::F2Bits(a) => {
                if !real {
                    return plain(self.s(*a));
                }
                let p = self.r[a].clone();
                let w = self.db.width(*a);
                let x = self.val(&p);
                let b = self.uf(&format!("fbits{}", w), &[x.clone()], &["Real"], &sn);
                let b = self.def(&sn, b);
                self.axioms
                    .push(format!("(= (= ((_ extract {} {}) {}) #b1) (< {} 0.0))", w - 1, w - 1, b, x));
                self.axioms.push(format!("(= (= {} (_ bv0 {})) (= {} 0.0))", b, w, x));
                plain(b)
            }
            Node::Bits2F(a) => {
                if !real {
                    return plain(self.s(*a));
                }
                let w = self.db.width(*a);
                let x = self.s(*a);
                let an = format!("(_ BitVec {})", w);
                let e = self.uf(&format!("bitsf{}", w), &[x], &[&an], "Real");
                plain(self.def("Real", e))
            }
            Node::F2F(a, w) => {
                if real {
                    return self.r[a].clone();
                }
                let x = self.s(*a);
                let from = self.db.width(*a) as u8;
                let an = self.sort_name(self.db.sort(*a));
                let e = if self.mode == Mode::Fp {
                    let (e, s) = if *w == 64 { (11, 53) } else { (8, 24) };
                    format!("(fp.to_ieee_bv ((_ to_fp {} {}) RNE {}))", e, s, Self::tofp(from, &x))
                } else {
                    self.uf(&format!("fcvt{}", w), &[x], &[&an], &sn)
                };
                plain(self.def(&sn, e))
            }
            Node::I2F(sg, a, w) => {
                let x = self.s(*a);
                let iw = self.db.width(*a);
                if real {
                    let e = if *sg {
                        format!(
                            "(to_real (ite (= ((_ extract {m} {m}) {x}) #b1) (- (bv2nat {x}) {p}) (bv2nat {x})))",
                            m = iw - 1,
                            p = pow2_times(1, iw as u32)
                        )
                    } else {
                        format!("(to_real (bv2nat {}))", x)
                    };
                    return plain(self.def("Real", e));
                }
                let an = self.sort_name(self.db.sort(*a));
                let e = if self.mode == Mode::Fp {
                    let (e, s) = if *w == 64 { (11, 53) } else { (8, 24) };
                    let f = if *sg { "to_fp" } else { "to_fp_unsigned" };
                    format!("(fp.to_ieee_bv ((_ {} {} {}) RNE {}))", f, e, s, x)
                } else {
                    self.uf(&format!("i2f{}_{}_{}", *sg as u8, iw, w), &[x], &[&an], &sn)
                };
                plain(self.def(&sn, e))
            }
            Node::F2I(sg, a, w) => {
                let an = self.sort_name(self.db.sort(*a));
                let fw = self.db.width(*a);
                if real {
                    let p = self.r[a].clone();
                    let x = self.val(&p);
                    let (lo, hi) = if *sg {
                        (format!("(- {})", pow2_times(1, *w as u32 - 1)), format!("(- {} 1)", pow2_times(1, *w as u32 - 1)))
                    } else {
                        ("0".to_string(), format!("(- {} 1)", pow2_times(1, *w as u32)))
                    };
                    let tr = format!("(ite (>= {x} 0.0) (to_int {x}) (- (to_int (- {x}))))");
                    let tr = self.def("Int", tr);
                    let cl = format!("(ite (< {tr} {lo}) {lo} (ite (> {tr} {hi}) {hi} {tr}))");
                    let e = format!("((_ int2bv {}) {})", w, cl);
                    return plain(self.def(&sn, e));
                }
                let x = self.s(*a);
                let e = if self.mode == Mode::Fp {
                    let f = Self::tofp(fw as u8, &x);
                    let op = if *sg { "fp.to_sbv" } else { "fp.to_ubv" };
                    let (lo, hi): (u128, u128) = if *sg { (1u128 << (w - 1), (1u128 << (w - 1)) - 1) } else { (0, mask(*w)) };
                    // out of range saturates, NaN gives zero
                    let (lof, hif) = if *sg {
                        (-(2f64.powi(*w as i32 - 1)), 2f64.powi(*w as i32 - 1))
                    } else {
                        (-1.0, 2f64.powi(*w as i32))
                    };
                    let c = |v: f64| {
                        if fw == 64 {
                            Self::tofp(64, &bvlit(64, v.to_bits() as u128))
                        } else {
                            Self::tofp(32, &bvlit(32, (v as f32).to_bits() as u128))
                        }
                    };
                    let below = if *sg { format!("(fp.lt {f} {})", c(lof)) } else { format!("(fp.leq {f} {})", c(lof)) };
                    format!(
                        "(ite (fp.isNaN {f}) {z} (ite {below} {lo} (ite (fp.geq {f} {hf}) {hi} ((_ {op} {w}) RTZ {f}))))",
                        z = bvlit(*w, 0),
                        lo = bvlit(*w, lo),
                        hf = c(hif),
                        hi = bvlit(*w, hi)
                    )
                } else {
                    self.uf(&format!("f2i{}_{}_{}", *sg as u8, fw, w), &[x], &[&an], &sn)
                };
                plain(self.def(&sn, e))
            }
        }
    }
    fn bits_op(&mut self, op: FOp, w: u8, a: &[String]) -> String {
        let (sgn, absm) = if w == 64 { ("#x8000000000000000", "#x7fffffffffffffff") } else { ("#x80000000", "#x7fffffff") };
        match op {
            FOp::Neg => return format!("(bvxor {} {})", a[0], sgn),
            FOp::Abs => return format!("(bvand {} {})", a[0], absm),
            FOp::CopySign => return format!("(bvor (bvand {} {}) (bvand {} {}))", a[0], absm, a[1], sgn),
            FOp::MinNum | FOp::MaxNum => {
                let (x, y) = (&a[0], &a[1]);
                let lt = self.flt(w, x, y, false);
                let (p, q) = if op == FOp::MinNum { (x, y) } else { (y, x) };
                return format!("(ite {} {y} (ite {} {x} (ite {lt} {p} {q})))", self.isnan(w, x), self.isnan(w, y));
            }
            _ => {}
        }
        if self.mode == Mode::Fp {
            let f: Vec<String> = a.iter().map(|x| Self::tofp(w, x)).collect();
            let e = match op {
                FOp::Add => Some(format!("(fp.add RNE {} {})", f[0], f[1])),
                FOp::Sub => Some(format!("(fp.sub RNE {} {})", f[0], f[1])),
                FOp::Mul => Some(format!("(fp.mul RNE {} {})", f[0], f[1])),
                FOp::Div => Some(format!("(fp.div RNE {} {})", f[0], f[1])),
                FOp::Sqrt => Some(format!("(fp.sqrt RNE {})", f[0])),
                FOp::Fma => Some(format!("(fp.fma RNE {} {} {})", f[0], f[1], f[2])),
                FOp::Floor => Some(format!("(fp.roundToIntegral RTN {})", f[0])),
                FOp::Ceil => Some(format!("(fp.roundToIntegral RTP {})", f[0])),
                FOp::Trunc => Some(format!("(fp.roundToIntegral RTZ {})", f[0])),
                FOp::Round => Some(format!("(fp.roundToIntegral RNA {})", f[0])),
                FOp::RoundEven => Some(format!("(fp.roundToIntegral RNE {})", f[0])),
                _ => None,
            };
            if let Some(e) = e {
                return format!("(fp.to_ieee_bv {})", e);
            }
        }
        let s = format!("(_ BitVec {})", w);
        let sorts: Vec<&str> = a.iter().map(|_| s.as_str()).collect();
        self.uf(&format!("f{:?}{}", op, w), a, &sorts, &s)
    }
    fn rn(&mut self, n: String, d: String) -> (String, String) {
        let n = self.def("Real", n);
        let d = self.def("Real", d);
        (n, d)
    }
    fn real_op(&mut self, op: FOp, args: &[T; 3], a: &[(String, String)]) -> (String, String) {
        let one = "1.0".to_string();
        match op {
            FOp::Add | FOp::Sub => {
                let s = if op == FOp::Add { "+" } else { "-" };
                if a[0].1 == a[1].1 {
                    return self.rn(format!("({} {} {})", s, a[0].0, a[1].0), a[0].1.clone());
                }
                let n = format!("({} {} {})", s, mul(&a[0].0, &a[1].1), mul(&a[1].0, &a[0].1));
                self.rn(n, mul(&a[0].1, &a[1].1))
            }
            FOp::Mul => self.rn(mul(&a[0].0, &a[1].0), mul(&a[0].1, &a[1].1)),
            FOp::Fma => {
                let p = self.rn(mul(&a[0].0, &a[1].0), mul(&a[0].1, &a[1].1));
                self.real_op(FOp::Add, args, &[p, a[2].clone()])
            }
            FOp::Div => self.rn(mul(&a[0].0, &a[1].1), mul(&a[0].1, &a[1].0)),
            FOp::Neg => self.rn(format!("(- {})", a[0].0), a[0].1.clone()),
            FOp::Abs => {
                let n = &a[0].0;
                let s = if a[0].1 == one { n.clone() } else { mul(n, &a[0].1) };
                let e = format!("(ite (>= {} 0.0) {} (- {}))", s, n, n);
                self.rn(e, a[0].1.clone())
            }
            FOp::CopySign => {
                let x = self.real_op(FOp::Abs, args, &a[..1].to_vec());
                let s = mul(&a[1].0, &a[1].1);
                let e = format!("(ite (< {} 0.0) (- {}) {})", s, x.0, x.0);
                self.rn(e, x.1)
            }
            FOp::MinNum | FOp::MaxNum => {
                let x = self.val(&a[0]);
                let y = self.val(&a[1]);
                let (p, q) = if op == FOp::MinNum { (&x, &y) } else { (&y, &x) };
                self.rn(format!("(ite (< {} {}) {} {})", x, y, p, q), one)
            }
            FOp::Pow => {
                // constant exponents
                let y = match self.db.node(args[1]) {
                    Node::Fc(64, b) => Some(f64::from_bits(*b)),
                    Node::Fc(_, b) => Some(f32::from_bits(*b as u32) as f64),
                    _ => None,
                };
                if let Some(y) = y {
                    let k2 = y * 2.0;
                    if k2 == k2.trunc() && k2.abs() <= 32.0 {
                        let k2 = k2 as i32;
                        let k = k2.div_euclid(2);
                        let half = k2.rem_euclid(2) == 1;
                        let mut n = one.clone();
                        let mut d = one.clone();
                        for _ in 0..k.abs() {
                            n = mul(&n, &a[0].0);
                            d = mul(&d, &a[0].1);
                        }
                        let (mut n, d) = if k >= 0 { (n, d) } else { (d, n) };
                        if half {
                            let x = self.val(&a[0]);
                            let s = self.atom(FOp::Sqrt, vec![x]);
                            n = mul(&n, &s);
                        }
                        return self.rn(n, d);
                    }
                }
                let x = self.val(&a[0]);
                let y = self.val(&a[1]);
                (self.atom(FOp::Pow, vec![x, y]), one)
            }
            FOp::Exp2 => {
                let x = self.val(&a[0]);
                (self.atom(FOp::Pow, vec!["2.0".into(), x]), one)
            }
            FOp::Log2 | FOp::Log10 => {
                let x = self.val(&a[0]);
                let n = self.atom(FOp::Ln, vec![x]);
                let d = self.atom(FOp::Ln, vec![if op == FOp::Log2 { "2.0".into() } else { "10.0".into() }]);
                (n, d)
            }
            FOp::ExpM1 => {
                let x = self.val(&a[0]);
                let e = self.atom(FOp::Exp, vec![x]);
                self.rn(format!("(- {} 1.0)", e), one)
            }
            FOp::Log1p => {
                let p = self.rn(format!("(+ {} {})", a[0].0, a[0].1), a[0].1.clone());
                let x = self.val(&p);
                (self.atom(FOp::Ln, vec![x]), one)
            }
            FOp::Floor | FOp::Ceil | FOp::Trunc => {
                let x = self.val(&a[0]);
                let e = match op {
                    FOp::Floor => format!("(to_real (to_int {x}))"),
                    FOp::Ceil => format!("(- (to_real (to_int (- {x}))))"),
                    _ => format!("(ite (>= {x} 0.0) (to_real (to_int {x})) (- (to_real (to_int (- {x})))))"),
                };
                self.rn(e, one)
            }
            _ => {
                let v: Vec<String> = a.to_vec().iter().map(|p| self.val(p)).collect();
                (self.atom(op, v), one)
            }
        }
    }
}

/// constants a compiler folds: ln 2, ln 10, pi/2
fn known_const(w: u8, x: f64) -> Option<(FOp, &'static str)> {
    let r = |c: f64| if w == 64 { c } else { c as f32 as f64 };
    if x == r(std::f64::consts::LN_2) {
        Some((FOp::Ln, "2.0"))
    } else if x == r(std::f64::consts::LN_10) {
        Some((FOp::Ln, "10.0"))
    } else if x == r(std::f64::consts::FRAC_PI_2) {
        Some((FOp::Acos, "0.0"))
    } else {
        None
    }
}

/// is this constant read as a value it only approximates?
pub fn reread(w: u8, x: f64) -> bool {
    known_const(w, x).is_some() || fraction(w, x).is_some()
}

/// a constant that is a rounded fraction with denominator up to 10 is read as that fraction
fn fraction(w: u8, x: f64) -> Option<String> {
    if !x.is_finite() || x.abs() > 1e4 || x == 0.0 {
        return None;
    }
    let ulp = if w == 64 { f64::EPSILON } else { f32::EPSILON as f64 } * x.abs();
    for q in [3.0, 5.0, 6.0, 7.0, 9.0, 10.0] {
        let p = (x * q).round();
        if p != 0.0 && p / q != (p / q).trunc() && (x - p / q).abs() <= ulp && x * 1024.0 != (x * 1024.0).trunc() {
            return Some(if p < 0.0 { format!("(- (/ {:.1} {:.1}))", -p, q) } else { format!("(/ {:.1} {:.1})", p, q) });
        }
    }
    None
}

fn mul(a: &str, b: &str) -> String {
    if a == "1.0" {
        return b.into();
    }
    if b == "1.0" {
        return a.into();
    }
    format!("(* {} {})", a, b)
}

pub fn script(db: &mut Db, mode: Mode, asserts: &[T]) -> Script {
    let mut e = Enc {
        db,
        mode,
        out: String::new(),
        axioms: vec![],
        r: HashMap::new(),
        ufs: HashSet::new(),
        vars: vec![],
        atoms: vec![],
        amap: HashMap::new(),
        fresh: 0,
    };
    let mut tail = String::new();
    for t in asserts {
        e.enc(*t);
        tail.push_str(&format!("(assert {})\n", e.s(*t)));
    }
    e.finish_atoms();
    let mut text = e.out;
    for a in &e.axioms {
        text.push_str(&format!("(assert {})\n", a));
    }
    text.push_str(&tail);
    let nonlinear = text.contains("(* ");
    Script {
        text,
        vars: e.vars,
        nonlinear,
    }
}

// ---------- processes ----------
pub struct Proc {
    name: String,
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn reader(o: ChildStdout) -> Receiver<String> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(o);
        let mut l = String::new();
        loop {
            l.clear();
            match r.read_line(&mut l) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    if tx.send(l.trim_end().to_string()).is_err() {
                        break;
                    }
                }
            }
        }
    });
    rx
}
impl Proc {
    pub fn new(cmd: &str) -> Proc {
        let parts: Vec<&str> = cmd.split_whitespace().collect();
        let mut child = Command::new(parts[0])
            .args(&parts[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("start {}: {}", cmd, e));
        let inp = child.stdin.take().unwrap();
        let rx = reader(child.stdout.take().unwrap());
        Proc {
            name: cmd.to_string(),
            child,
            inp,
            rx,
        }
    }
    /// send text; collect lines until the marker or the deadline
    fn talk(&mut self, text: &str, marker: &str, limit: Duration) -> Option<Vec<String>> {
        if self.inp.write_all(text.as_bytes()).is_err() || self.inp.flush().is_err() {
            return None;
        }
        let end = Instant::now() + limit;
        let mut v = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim_matches('"') == marker {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(_) => return None,
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub maxtime: f64,
}

pub struct Solver {
    pub procs: HashMap<String, Proc>,
    pub stats: Stats,
    pub dump: Option<String>,
}

pub fn parse_model(db: &Db, lines: &[String], vars: &[(T, String)]) -> HashMap<T, u128> {
    let text = lines.join(" ");
    let toks = sexp_tokens(&text);
    let mut m = HashMap::new();
    let names: HashMap<&str, T> = vars.iter().map(|(t, n)| (n.as_str(), *t)).collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(t) = names.get(toks[i].as_str()) {
            let (v, j) = sexp(&toks, i + 1);
            i = j;
            match db.sort(*t) {
                Sort::Bool => {
                    m.insert(*t, (v.atom() == "true") as u128);
                }
                Sort::Bv(w) => {
                    if let Some(x) = v.bv() {
                        m.insert(*t, x & mask(w));
                    }
                }
                Sort::F(w) => {
                    if let Some(x) = v.bv() {
                        m.insert(*t, x);
                    } else if let Some(r) = v.num() {
                        m.insert(*t, if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 });
                    }
                }
            }
        } else {
            i += 1;
        }
    }
    m
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
impl Sx {
    fn atom(&self) -> &str {
        match self {
            Sx::A(s) => s,
            _ => "",
        }
    }
    fn bv(&self) -> Option<u128> {
        match self {
            Sx::A(s) => {
                if let Some(h) = s.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(h) = s.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok()
                } else {
                    None
                }
            }
            Sx::L(v) => {
                if v.len() == 3 && v[0].atom() == "_" {
                    v[1].atom().strip_prefix("bv")?.parse().ok()
                } else {
                    None
                }
            }
        }
    }
    fn num(&self) -> Option<f64> {
        match self {
            Sx::A(s) => s.trim_end_matches('?').parse().ok(),
            Sx::L(v) => match v.first()?.atom() {
                "-" => Some(-v[1].num()?),
                "/" => Some(v[1].num()? / v[2].num()?),
                _ => None,
            },
        }
    }
}
fn sexp_tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn sexp(t: &[String], i: usize) -> (Sx, usize) {
    if i >= t.len() {
        return (Sx::A(String::new()), i);
    }
    if t[i] == "(" {
        let mut v = vec![];
        let mut j = i + 1;
        while j < t.len() && t[j] != ")" {
            let (x, k) = sexp(t, j);
            v.push(x);
            j = k;
        }
        (Sx::L(v), j + 1)
    } else {
        (Sx::A(t[i].clone()), i + 1)
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            procs: HashMap::new(),
            stats: Stats::default(),
            dump: std::env::var("SX_DUMP").ok(),
        }
    }
    /// one query on one solver
    pub fn ask(&mut self, cmd: &str, db: &Db, sc: &Script, check: &str, ms: u64, model: bool) -> Ans {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let z3 = cmd.contains("z3");
        let mut text = String::new();
        if z3 {
            text.push_str("(reset)\n");
            if model {
                text.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n");
            }
            text.push_str(&format!("(set-option :timeout {})\n", ms));
        } else {
            text.push_str("(reset)\n(set-option :produce-models true)\n");
            text.push_str(&format!("(set-option :tlimit-per {})\n(set-logic ALL)\n", ms));
        }
        let body = if z3 { sc.text.clone() } else { sc.text.replace("(fp.to_ieee_bv ", "(fp.to_ieee_bv ") };
        text.push_str(&body);
        text.push_str(check);
        text.push_str("\n(echo \"@@1\")\n");
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &text);
        }
        let p = self.procs.entry(cmd.to_string()).or_insert_with(|| Proc::new(cmd));
        let r = p.talk(&text, "@@1", Duration::from_millis(ms + 2000));
        let ans = match r {
            None => {
                self.procs.remove(cmd);
                Ans::Unknown("timeout (killed)".into())
            }
            Some(lines) => {
                let st = lines.iter().find(|l| *l == "sat" || *l == "unsat" || *l == "unknown" || *l == "timeout");
                match st.map(|s| s.as_str()) {
                    Some("unsat") => {
                        if let Some(e) = lines.iter().find(|l| l.contains("error")) {
                            panic!("solver error: {} in\n{}", e, text);
                        }
                        Ans::Unsat
                    }
                    Some("sat") => {
                        let mut m = HashMap::new();
                        if model && !sc.vars.is_empty() {
                            let names: Vec<&str> = sc.vars.iter().map(|(_, n)| n.as_str()).collect();
                            let q = format!("(get-value ({}))\n(echo \"@@2\")\n", names.join(" "));
                            let p = self.procs.get_mut(cmd).unwrap();
                            if let Some(l) = p.talk(&q, "@@2", Duration::from_millis(5000)) {
                                m = parse_model(db, &l, &sc.vars);
                            } else {
                                self.procs.remove(cmd);
                            }
                        }
                        Ans::Sat(m)
                    }
                    _ => {
                        if let Some(e) = lines.iter().find(|l| l.contains("error")) {
                            panic!("solver error: {} in\n{}", e, text);
                        }
                        Ans::Unknown(lines.join(" "))
                    }
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        self.stats.maxtime = self.stats.maxtime.max(dt);
        match ans {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        ans
    }
    pub fn name_of(p: &Proc) -> &str {
        &p.name
    }
}
