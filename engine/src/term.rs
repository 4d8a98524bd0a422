//! Hash-consed terms. Every simplification made here is valid for IEEE-754
//! arithmetic bit for bit (NaN payloads aside), so that evaluating a term with
//! native floats gives what the program computes; in `real` mode constants are
//! folded only where the result is exact.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Bv(u16),
    F(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BvOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Abs,
    Sqrt,
    Sin,
    Cos,
    Tan,
    Asin,
    Acos,
    Atan,
    Atan2,
    Exp,
    Exp2,
    Ln,
    Log2,
    Log10,
    Pow,
    Fma,
    MinNum,
    MaxNum,
    CopySign,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Sinh,
    Cosh,
    Tanh,
    ExpM1,
    Log1p,
    Cbrt,
    Hypot,
    Asinh,
    Acosh,
    Atanh,
}

/// Ordered comparisons; unordered ones are negations of these.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FCmp {
    Oeq,
    Olt,
    Ole,
    Uno,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Bool(bool),
    Bv(u16, u128),
    Fc(u8, u64),
    Var(Sort, u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Ite(T, T, T),
    Cmp(CmpOp, T, T),
    Bin(BvOp, T, T),
    Concat(T, T),
    Extract(T, u16, u16),
    ZExt(T, u16),
    SExt(T, u16),
    F(FOp, [T; 3]),
    FCmp(FCmp, T, T),
    /// is.fpclass with LLVM's mask
    FClass(T, u16),
    F2Bits(T),
    Bits2F(T),
    F2F(T, u8),
    I2F(bool, T, u8),
    F2I(bool, T, u16),
    Uf(u32, Box<[T]>, Sort),
}

pub const NOARG: T = u32::MAX;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Db {
    pub nodes: Vec<Node>,
    pub sorts: Vec<Sort>,
    map: HashMap<Node, T>,
    /// true when the term mentions no variable
    pub ground: Vec<bool>,
    pub real: bool,
    pub tt: T,
    pub ff: T,
    pub names: Vec<String>,
}

impl Db {
    pub fn new(real: bool) -> Db {
        let mut d = Db {
            nodes: vec![],
            sorts: vec![],
            map: HashMap::new(),
            ground: vec![],
            real,
            tt: 0,
            ff: 0,
            names: vec![],
        };
        d.ff = d.intern(Node::Bool(false), Sort::Bool);
        d.tt = d.intern(Node::Bool(true), Sort::Bool);
        d
    }
    pub fn sort(&self, t: T) -> Sort {
        self.sorts[t as usize]
    }
    pub fn node(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn width(&self, t: T) -> u16 {
        match self.sort(t) {
            Sort::Bool => 1,
            Sort::Bv(w) => w,
            Sort::F(w) => w as u16,
        }
    }
    pub fn children(n: &Node) -> Vec<T> {
        match n {
            Node::Bool(_) | Node::Bv(..) | Node::Fc(..) | Node::Var(..) => vec![],
            Node::Not(a)
            | Node::Extract(a, _, _)
            | Node::ZExt(a, _)
            | Node::SExt(a, _)
            | Node::FClass(a, _)
            | Node::F2Bits(a)
            | Node::Bits2F(a)
            | Node::F2F(a, _)
            | Node::I2F(_, a, _)
            | Node::F2I(_, a, _) => vec![*a],
            Node::And(a, b)
            | Node::Or(a, b)
            | Node::Cmp(_, a, b)
            | Node::Bin(_, a, b)
            | Node::Concat(a, b)
            | Node::FCmp(_, a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::F(_, a) => a.iter().cloned().filter(|x| *x != NOARG).collect(),
            Node::Uf(_, a, _) => a.to_vec(),
        }
    }
    fn intern(&mut self, n: Node, s: Sort) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let g = match &n {
            Node::Var(..) => false,
            Node::Uf(..) => false,
            _ => Db::children(&n).iter().all(|c| self.ground[*c as usize]),
        };
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.sorts.push(s);
        self.ground.push(g);
        self.map.insert(n, id);
        id
    }
    pub fn var(&mut self, s: Sort, name: &str) -> T {
        let id = self.names.len() as u32;
        self.names.push(name.to_string());
        self.intern(Node::Var(s, id), s)
    }
    pub fn bv(&mut self, w: u16, v: u128) -> T {
        self.intern(Node::Bv(w, v & mask(w)), Sort::Bv(w))
    }
    pub fn fc(&mut self, w: u8, bits: u64) -> T {
        self.intern(Node::Fc(w, bits), Sort::F(w))
    }
    pub fn f64c(&mut self, v: f64) -> T {
        self.fc(64, v.to_bits())
    }
    pub fn boolc(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    /// Concrete bits of a constant leaf.
    pub fn cval(&self, t: T) -> Option<u128> {
        match self.node(t) {
            Node::Bool(b) => Some(*b as u128),
            Node::Bv(_, v) => Some(*v),
            Node::Fc(_, v) => Some(*v as u128),
            _ => None,
        }
    }
    pub fn cterm(&mut self, s: Sort, v: u128) -> T {
        match s {
            Sort::Bool => self.boolc(v & 1 == 1),
            Sort::Bv(w) => self.bv(w, v),
            Sort::F(w) => self.fc(w, v as u64),
        }
    }
    pub fn not(&mut self, a: T) -> T {
        match self.node(a) {
            Node::Bool(b) => {
                let b = !*b;
                self.boolc(b)
            }
            Node::Not(x) => *x,
            _ => self.intern(Node::Not(a), Sort::Bool),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == self.ff || b == self.ff {
            return self.ff;
        }
        if a == self.tt {
            return b;
        }
        if b == self.tt || a == b {
            return a;
        }
        if self.not(a) == b {
            return self.ff;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node::And(a, b), Sort::Bool)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == self.tt || b == self.tt {
            return self.tt;
        }
        if a == self.ff {
            return b;
        }
        if b == self.ff || a == b {
            return a;
        }
        if self.not(a) == b {
            return self.tt;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(Node::Or(a, b), Sort::Bool)
    }
    pub fn implies(&mut self, a: T, b: T) -> T {
        let na = self.not(a);
        self.or(na, b)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tt || a == b {
            return a;
        }
        if c == self.ff {
            return b;
        }
        if let Node::Not(x) = *self.node(c) {
            return self.ite(x, b, a);
        }
        let s = self.sort(a);
        debug_assert_eq!(s, self.sort(b));
        if s == Sort::Bool {
            if a == self.tt {
                return self.or(c, b);
            }
            if a == self.ff {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == self.ff {
                return self.and(c, a);
            }
            if b == self.tt {
                let nc = self.not(c);
                return self.or(nc, a);
            }
        }
        if let Node::Ite(c2, x, _) = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(Node::Ite(c, a, b), s)
    }
    fn small_ite(&self, t: T) -> Option<(T, T, T)> {
        if let Node::Ite(c, a, b) = *self.node(t) {
            Some((c, a, b))
        } else {
            None
        }
    }
    /// every leaf of the ite-tree is a constant
    fn const_ite(&self, t: T, depth: u32) -> bool {
        match *self.node(t) {
            Node::Bv(..) => true,
            Node::Ite(_, a, b) => depth > 0 && self.const_ite(a, depth - 1) && self.const_ite(b, depth - 1),
            _ => false,
        }
    }
    pub fn cmp(&mut self, op: CmpOp, a: T, b: T) -> T {
        if self.sort(a) == Sort::Bool {
            debug_assert!(op == CmpOp::Eq);
            if a == b {
                return self.tt;
            }
            if a == self.tt {
                return b;
            }
            if b == self.tt {
                return a;
            }
            if a == self.ff {
                return self.not(b);
            }
            if b == self.ff {
                return self.not(a);
            }
            if self.not(a) == b {
                return self.ff;
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.intern(Node::Cmp(CmpOp::Eq, a, b), Sort::Bool);
        }
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = match op {
                CmpOp::Eq => x == y,
                CmpOp::Ult => x < y,
                CmpOp::Ule => x <= y,
                CmpOp::Slt => sext(x, w) < sext(y, w),
                CmpOp::Sle => sext(x, w) <= sext(y, w),
            };
            return self.boolc(r);
        }
        if a == b {
            return self.boolc(matches!(op, CmpOp::Eq | CmpOp::Ule | CmpOp::Sle));
        }
        // push into ite-trees of constants
        if self.cval(b).is_some() && self.const_ite(a, 6) {
            let (c, x, y) = self.small_ite(a).unwrap();
            let p = self.cmp(op, x, b);
            let q = self.cmp(op, y, b);
            return self.ite(c, p, q);
        }
        if self.cval(a).is_some() && self.const_ite(b, 6) {
            let (c, x, y) = self.small_ite(b).unwrap();
            let p = self.cmp(op, a, x);
            let q = self.cmp(op, a, y);
            return self.ite(c, p, q);
        }
        // zero-extensions against constants
        if let (Node::ZExt(x, _), Some(k)) = (self.node(a).clone(), self.cval(b)) {
            let xw = self.width(x);
            if matches!(op, CmpOp::Eq | CmpOp::Ult | CmpOp::Ule) {
                if k <= mask(xw) {
                    let kb = self.bv(xw, k);
                    return self.cmp(op, x, kb);
                }
                return self.boolc(op != CmpOp::Eq);
            }
        }
        if op == CmpOp::Ult && self.cval(b) == Some(0) {
            return self.ff;
        }
        if op == CmpOp::Ule && self.cval(b) == Some(mask(w)) {
            return self.tt;
        }
        let (a, b) = if op == CmpOp::Eq && b < a { (b, a) } else { (a, b) };
        self.intern(Node::Cmp(op, a, b), Sort::Bool)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.cmp(CmpOp::Eq, a, b)
    }
    pub fn bvfold(op: BvOp, x: u128, y: u128, w: u16) -> Option<u128> {
        let m = mask(w);
        Some(
            m & match op {
                BvOp::Add => x.wrapping_add(y),
                BvOp::Sub => x.wrapping_sub(y),
                BvOp::Mul => x.wrapping_mul(y),
                BvOp::UDiv => {
                    if y == 0 {
                        return None;
                    }
                    x / y
                }
                BvOp::URem => {
                    if y == 0 {
                        return None;
                    }
                    x % y
                }
                BvOp::SDiv => {
                    if y == 0 {
                        return None;
                    }
                    sext(x, w).wrapping_div(sext(y, w)) as u128
                }
                BvOp::SRem => {
                    if y == 0 {
                        return None;
                    }
                    sext(x, w).wrapping_rem(sext(y, w)) as u128
                }
                BvOp::And => x & y,
                BvOp::Or => x | y,
                BvOp::Xor => x ^ y,
                BvOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                BvOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BvOp::AShr => {
                    let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
                    (sext(x, w) >> s) as u128
                }
            },
        )
    }
    pub fn bin(&mut self, op: BvOp, a: T, b: T) -> T {
        if self.sort(a) == Sort::Bool {
            return match op {
                BvOp::And | BvOp::Mul => self.and(a, b),
                BvOp::Or => self.or(a, b),
                BvOp::Xor | BvOp::Add | BvOp::Sub => {
                    let e = self.eq(a, b);
                    self.not(e)
                }
                _ => panic!("bool op {:?}", op),
            };
        }
        let w = self.width(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Db::bvfold(op, x, y, w) {
                return self.bv(w, r);
            }
        }
        let m = mask(w);
        match (op, ca, cb) {
            (BvOp::Add | BvOp::Or | BvOp::Xor, Some(0), _) => return b,
            (BvOp::Add | BvOp::Sub | BvOp::Or | BvOp::Xor | BvOp::Shl | BvOp::LShr | BvOp::AShr, _, Some(0)) => return a,
            (BvOp::Mul | BvOp::And, Some(0), _) | (BvOp::Mul | BvOp::And, _, Some(0)) => return self.bv(w, 0),
            (BvOp::Mul, Some(1), _) => return b,
            (BvOp::Mul | BvOp::UDiv | BvOp::SDiv, _, Some(1)) => return a,
            (BvOp::And, Some(k), _) if k == m => return b,
            (BvOp::And, _, Some(k)) if k == m => return a,
            (BvOp::Or, Some(k), _) | (BvOp::Or, _, Some(k)) if k == m => return self.bv(w, m),
            _ => {}
        }
        if a == b {
            match op {
                BvOp::And | BvOp::Or => return a,
                BvOp::Xor | BvOp::Sub => return self.bv(w, 0),
                _ => {}
            }
        }
        // and with low mask = zext(extract)
        if op == BvOp::And {
            let (k, x) = match (ca, cb) {
                (Some(k), _) => (Some(k), b),
                (_, Some(k)) => (Some(k), a),
                _ => (None, a),
            };
            if let Some(k) = k {
                if (k & (k + 1)) == 0 {
                    let n = 128 - k.leading_zeros() as u16;
                    if n < w {
                        let e = self.extract(x, n - 1, 0);
                        return self.zext(e, w);
                    }
                }
            }
        }
        if let (BvOp::LShr, Some(k)) = (op, cb) {
            if k < w as u128 {
                let e = self.extract(a, w - 1, k as u16);
                return self.zext(e, w);
            }
        }
        if let (BvOp::Shl, Some(k)) = (op, cb) {
            if k < w as u128 {
                let e = self.extract(a, w - 1 - k as u16, 0);
                let z = self.bv(k as u16, 0);
                return self.concat(e, z);
            }
        }
        // ite-of-constants op constant
        if cb.is_some() && self.const_ite(a, 6) {
            let (c, x, y) = self.small_ite(a).unwrap();
            let p = self.bin(op, x, b);
            let q = self.bin(op, y, b);
            return self.ite(c, p, q);
        }
        if ca.is_some() && self.const_ite(b, 6) {
            let (c, x, y) = self.small_ite(b).unwrap();
            let p = self.bin(op, a, x);
            let q = self.bin(op, a, y);
            return self.ite(c, p, q);
        }
        // two ites on the same condition
        if let (Some((c1, x1, y1)), Some((c2, x2, y2))) = (self.small_ite(a), self.small_ite(b)) {
            if c1 == c2 {
                let p = self.bin(op, x1, x2);
                let q = self.bin(op, y1, y2);
                return self.ite(c1, p, q);
            }
            if w <= 8 && matches!(op, BvOp::And | BvOp::Or | BvOp::Xor) && self.const_ite(a, 1) && self.const_ite(b, 1) {
                let p = self.bin(op, x1, b);
                let q = self.bin(op, y1, b);
                return self.ite(c1, p, q);
            }
        }
        // or of disjoint zext / shifted parts -> concat
        if op == BvOp::Or || op == BvOp::Add || op == BvOp::Xor {
            if let Some(r) = self.or_disjoint(a, b, w) {
                return r;
            }
            if let Some(r) = self.or_disjoint(b, a, w) {
                return r;
            }
        }
        if let (BvOp::Add, Some(k)) = (op, cb) {
            if let Node::Bin(BvOp::Add, x, y) = *self.node(a) {
                if let Some(k2) = self.cval(y) {
                    let kk = self.bv(w, k.wrapping_add(k2));
                    return self.bin(BvOp::Add, x, kk);
                }
            }
        }
        if let (BvOp::Sub, Some(k)) = (op, cb) {
            let kk = self.bv(w, 0u128.wrapping_sub(k));
            return self.bin(BvOp::Add, a, kk);
        }
        let (a, b) = match op {
            BvOp::Add | BvOp::Mul | BvOp::And | BvOp::Or | BvOp::Xor => {
                if ca.is_some() || (cb.is_none() && b < a) {
                    (b, a)
                } else {
                    (a, b)
                }
            }
            _ => (a, b),
        };
        self.intern(Node::Bin(op, a, b), Sort::Bv(w))
    }
    /// hi = concat(x, 0^k), lo = zext(y) with y at most k bits
    fn or_disjoint(&mut self, hi: T, lo: T, w: u16) -> Option<T> {
        if let (Node::Concat(x, z), Node::ZExt(y, _)) = (self.node(hi).clone(), self.node(lo).clone()) {
            if self.cval(z) == Some(0) {
                let k = self.width(z);
                let yw = self.width(y);
                if yw <= k {
                    let l = self.zext(y, k);
                    let r = self.concat(x, l);
                    debug_assert_eq!(self.width(r), w);
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.width(hi), self.width(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.bv(w, (x << wl) | y);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if let (Node::Extract(x, h1, l1), Node::Extract(y, h2, l2)) = (self.node(hi).clone(), self.node(lo).clone()) {
            if x == y && l1 == h2 + 1 {
                return self.extract(x, h1, l2);
            }
        }
        // concat(concat(a, extract), extract)
        if let (Node::Concat(a, b), Node::Extract(y, _, _)) = (self.node(hi).clone(), self.node(lo).clone()) {
            if let Node::Extract(x, _, _) = *self.node(b) {
                if x == y {
                    let m = self.concat(b, lo);
                    if !matches!(self.node(m), Node::Concat(..)) {
                        return self.concat(a, m);
                    }
                }
            }
        }
        self.intern(Node::Concat(hi, lo), Sort::Bv(w))
    }
    pub fn extract(&mut self, a: T, hi: u16, lo: u16) -> T {
        let w = self.width(a);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        let n = hi - lo + 1;
        if let Some(v) = self.cval(a) {
            return self.bv(n, v >> lo);
        }
        match *self.node(a) {
            Node::Extract(x, _, l) => return self.extract(x, hi + l, lo + l),
            Node::Concat(x, y) => {
                let wl = self.width(y);
                if hi < wl {
                    return self.extract(y, hi, lo);
                }
                if lo >= wl {
                    return self.extract(x, hi - wl, lo - wl);
                }
                let h = self.extract(x, hi - wl, 0);
                let l = self.extract(y, wl - 1, lo);
                return self.concat(h, l);
            }
            Node::ZExt(x, _) => {
                let xw = self.width(x);
                if hi < xw {
                    return self.extract(x, hi, lo);
                }
                if lo >= xw {
                    return self.bv(n, 0);
                }
                let e = self.extract(x, xw - 1, lo);
                return self.zext(e, n);
            }
            Node::SExt(x, _) => {
                let xw = self.width(x);
                if hi < xw {
                    return self.extract(x, hi, lo);
                }
            }
            Node::Ite(c, x, y) => {
                if self.const_ite(a, 6) || n <= 8 {
                    let p = self.extract(x, hi, lo);
                    let q = self.extract(y, hi, lo);
                    return self.ite(c, p, q);
                }
            }
            Node::Bin(op @ (BvOp::And | BvOp::Or | BvOp::Xor), x, y) => {
                let p = self.extract(x, hi, lo);
                let q = self.extract(y, hi, lo);
                return self.bin(op, p, q);
            }
            Node::Bin(op @ (BvOp::Add | BvOp::Sub | BvOp::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, hi, 0);
                let q = self.extract(y, hi, 0);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        self.intern(Node::Extract(a, hi, lo), Sort::Bv(n))
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        if self.sort(a) == Sort::Bool {
            let (o, z) = (self.bv(w, 1), self.bv(w, 0));
            return self.ite(a, o, z);
        }
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.bv(w, v);
        }
        match *self.node(a) {
            Node::ZExt(x, _) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.const_ite(a, 6) => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.intern(Node::ZExt(a, w), Sort::Bv(w))
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        if self.sort(a) == Sort::Bool {
            let (o, z) = (self.bv(w, mask(w)), self.bv(w, 0));
            return self.ite(a, o, z);
        }
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.bv(w, sext(v, aw) as u128);
        }
        match *self.node(a) {
            Node::SExt(x, _) => return self.sext(x, w),
            Node::ZExt(..) => return self.zext(a, w),
            Node::Ite(c, x, y) if self.const_ite(a, 6) => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.intern(Node::SExt(a, w), Sort::Bv(w))
    }
    pub fn trunc(&mut self, a: T, w: u16) -> T {
        let e = self.extract(a, w - 1, 0);
        if w == 1 {
            return self.bv2bool(e);
        }
        e
    }
    /// one-bit vector to Bool
    pub fn bv2bool(&mut self, e: T) -> T {
        if let Some(v) = self.cval(e) {
            return self.boolc(v == 1);
        }
        let one = self.bv(1, 1);
        self.eq(e, one)
    }

    // ---- floats ----
    pub fn f2bits(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.cval(a) {
            return self.bv(w, v);
        }
        if let Node::Bits2F(x) = *self.node(a) {
            return x;
        }
        self.intern(Node::F2Bits(a), Sort::Bv(w))
    }
    pub fn bits2f(&mut self, a: T) -> T {
        let w = self.width(a) as u8;
        if let Some(v) = self.cval(a) {
            return self.fc(w, v as u64);
        }
        if let Node::F2Bits(x) = *self.node(a) {
            return x;
        }
        self.intern(Node::Bits2F(a), Sort::F(w))
    }
    pub fn f(&mut self, op: FOp, args: &[T]) -> T {
        let mut a = [NOARG; 3];
        a[..args.len()].copy_from_slice(args);
        let w = match self.sort(a[0]) {
            Sort::F(w) => w,
            s => panic!("float op on {:?}", s),
        };
        // constant folding
        let cs: Vec<Option<u128>> = args.iter().map(|t| self.cval(*t)).collect();
        if cs.iter().all(|c| c.is_some()) {
            let v: Vec<u64> = cs.iter().map(|c| c.unwrap() as u64).collect();
            if !self.real || exact_fold(op, w, &v) {
                let r = eval_f(op, w, &v);
                return self.fc(w, r);
            }
        }
        match op {
            FOp::Neg => {
                if let Node::F(FOp::Neg, [x, _, _]) = *self.node(a[0]) {
                    return x;
                }
            }
            FOp::Abs => {
                if let Node::F(FOp::Neg | FOp::Abs, [x, _, _]) = *self.node(a[0]) {
                    return self.f(FOp::Abs, &[x]);
                }
            }
            FOp::Mul => {
                let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                if cs[0] == Some(one) {
                    return a[1];
                }
                if cs[1] == Some(one) {
                    return a[0];
                }
            }
            FOp::Div => {
                let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                if cs[1] == Some(one) {
                    return a[0];
                }
            }
            _ => {}
        }
        if matches!(op, FOp::Add | FOp::Mul) && a[1] < a[0] {
            a.swap(0, 1);
        }
        self.intern(Node::F(op, a), Sort::F(w))
    }
    pub fn fcmp(&mut self, op: FCmp, a: T, b: T) -> T {
        let w = self.width(a) as u8;
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.boolc(eval_fcmp(op, w, x as u64, y as u64));
        }
        // comparisons between terms without variables: what the program does natively
        if self.ground[a as usize] && self.ground[b as usize] {
            let env = Env::default();
            let mut m = HashMap::new();
            let x = self.eval(a, &env, &mut m) as u64;
            let y = self.eval(b, &env, &mut m) as u64;
            return self.boolc(eval_fcmp(op, w, x, y));
        }
        if self.real {
            let isnan = |d: &Db, t: T| match d.node(t) {
                Node::Fc(64, b) => f64::from_bits(*b).is_nan(),
                Node::Fc(_, b) => f32::from_bits(*b as u32).is_nan(),
                _ => false,
            };
            if op != FCmp::Uno && (isnan(self, a) || isnan(self, b)) {
                return self.ff;
            }
            if op == FCmp::Uno {
                // NaN does not exist over the reals unless written as a constant
                let nan = |d: &Db, t: T| match d.node(t) {
                    Node::Fc(64, b) => f64::from_bits(*b).is_nan(),
                    Node::Fc(_, b) => f32::from_bits(*b as u32).is_nan(),
                    _ => false,
                };
                let r = nan(self, a) || nan(self, b);
                return self.boolc(r);
            }
            if a == b {
                return self.boolc(op != FCmp::Olt);
            }
        }
        let (a, b) = if matches!(op, FCmp::Oeq | FCmp::Uno) && b < a { (b, a) } else { (a, b) };
        self.intern(Node::FCmp(op, a, b), Sort::Bool)
    }
    pub fn fclass(&mut self, a: T, m: u16) -> T {
        let w = self.width(a) as u8;
        if let Some(v) = self.cval(a) {
            return self.boolc(eval_class(w, v as u64) & m != 0);
        }
        if m == 0 {
            return self.ff;
        }
        if m == 0x3ff {
            return self.tt;
        }
        self.intern(Node::FClass(a, m), Sort::Bool)
    }
    pub fn f2f(&mut self, a: T, w: u8) -> T {
        if self.width(a) as u8 == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            let r = if w == 64 {
                (f32::from_bits(v as u32) as f64).to_bits()
            } else {
                let x = f64::from_bits(v as u64);
                let y = x as f32;
                if self.real && (y as f64) != x && !x.is_nan() {
                    return self.intern(Node::F2F(a, w), Sort::F(w));
                }
                y.to_bits() as u64
            };
            return self.fc(w, r);
        }
        if w == 32 {
            if let Node::F2F(x, 64) = *self.node(a) {
                return x;
            }
        }
        self.intern(Node::F2F(a, w), Sort::F(w))
    }
    pub fn i2f(&mut self, signed: bool, a: T, w: u8) -> T {
        if let Some(v) = self.cval(a) {
            let iw = self.width(a);
            let r = eval_i2f(signed, v, iw, w);
            return self.fc(w, r);
        }
        self.intern(Node::I2F(signed, a, w), Sort::F(w))
    }
    /// saturating conversion (plain fptosi/fptoui agree where defined)
    pub fn f2i(&mut self, signed: bool, a: T, w: u16) -> T {
        let fw = self.width(a) as u8;
        if self.ground[a as usize] {
            let env = Env::default();
            let mut m = HashMap::new();
            let v = self.eval(a, &env, &mut m) as u64;
            let r = eval_f2i(signed, fw, v, w);
            return self.bv(w, r);
        }
        self.intern(Node::F2I(signed, a, w), Sort::Bv(w))
    }
    pub fn uf(&mut self, id: u32, args: &[T], s: Sort) -> T {
        self.intern(Node::Uf(id, args.into(), s), s)
    }

    // ---- evaluation with native arithmetic ----
    /// value of a variable nothing has fixed
    fn default_value(&self, t: T) -> u128 {
        match self.sort(t) {
            Sort::F(w) => {
                let k = (mix(t as u64 ^ 0x5bd1e995) >> 20) % 95;
                let x = (k as f64 - 47.0) / 16.0;
                if w == 64 {
                    x.to_bits() as u128
                } else {
                    (x as f32).to_bits() as u128
                }
            }
            _ => 0,
        }
    }
    pub fn eval(&self, t: T, env: &Env, memo: &mut HashMap<T, u128>) -> u128 {
        // iterative post-order to survive deep terms
        let mut stack = vec![(t, false)];
        while let Some((t, ready)) = stack.pop() {
            if memo.contains_key(&t) {
                continue;
            }
            let n = self.node(t);
            if !ready {
                stack.push((t, true));
                for c in Db::children(n) {
                    if !memo.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let g = |c: &T| memo[c];
            let v = match n {
                Node::Bool(b) => *b as u128,
                Node::Bv(_, v) => *v,
                Node::Fc(_, v) => *v as u128,
                Node::Var(_, _) => match env.vars.get(&t) {
                    Some(v) => *v,
                    None => self.default_value(t),
                },
                Node::Not(a) => 1 - g(a),
                Node::And(a, b) => g(a) & g(b),
                Node::Or(a, b) => g(a) | g(b),
                Node::Ite(c, a, b) => {
                    if g(c) == 1 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                Node::Cmp(op, a, b) => {
                    let w = self.width(*a);
                    let (x, y) = (g(a), g(b));
                    (match op {
                        CmpOp::Eq => x == y,
                        CmpOp::Ult => x < y,
                        CmpOp::Ule => x <= y,
                        CmpOp::Slt => sext(x, w) < sext(y, w),
                        CmpOp::Sle => sext(x, w) <= sext(y, w),
                    }) as u128
                }
                Node::Bin(op, a, b) => {
                    let w = self.width(*a);
                    Db::bvfold(*op, g(a), g(b), w).unwrap_or(0)
                }
                Node::Concat(a, b) => (g(a) << self.width(*b)) | g(b),
                Node::Extract(a, h, l) => (g(a) >> l) & mask(h - l + 1),
                Node::ZExt(a, _) => g(a),
                Node::SExt(a, w) => (sext(g(a), self.width(*a)) as u128) & mask(*w),
                Node::F(op, args) => {
                    let w = self.width(t) as u8;
                    let v: Vec<u64> = args.iter().filter(|x| **x != NOARG).map(|x| g(x) as u64).collect();
                    eval_f(*op, w, &v) as u128
                }
                Node::FCmp(op, a, b) => eval_fcmp(*op, self.width(*a) as u8, g(a) as u64, g(b) as u64) as u128,
                Node::FClass(a, m) => (eval_class(self.width(*a) as u8, g(a) as u64) & m != 0) as u128,
                Node::F2Bits(a) | Node::Bits2F(a) => g(a),
                Node::F2F(a, w) => {
                    if *w == 64 {
                        (f32::from_bits(g(a) as u32) as f64).to_bits() as u128
                    } else {
                        (f64::from_bits(g(a) as u64) as f32).to_bits() as u128
                    }
                }
                Node::I2F(s, a, w) => eval_i2f(*s, g(a), self.width(*a), *w) as u128,
                Node::F2I(s, a, w) => eval_f2i(*s, self.width(*a) as u8, g(a) as u64, *w),
                Node::Uf(id, args, s) => {
                    let mut h = 0xcbf29ce484222325u64 ^ ((*id as u64).wrapping_mul(0x9E3779B97F4A7C15));
                    for a in args.iter() {
                        h = mix(h ^ (g(a) as u64));
                    }
                    match s {
                        Sort::Bool => (h & 1) as u128,
                        Sort::Bv(w) => (h as u128) & mask(*w),
                        Sort::F(_) => (((h >> 12) % 4096) as f64 / 1024.0 - 2.0).to_bits() as u128,
                    }
                }
            };
            memo.insert(t, v);
        }
        memo[&t]
    }
    /// How far native evaluation may be from the same expression over the
    /// reals: 0 where every step was exact, infinite where a comparison was too
    /// close to call. `memo` holds the native values.
    pub fn error(&self, t: T, memo: &HashMap<T, u128>, em: &mut HashMap<T, f64>) -> f64 {
        let inf = f64::INFINITY;
        let mut stack = vec![(t, false)];
        while let Some((t, ready)) = stack.pop() {
            if em.contains_key(&t) {
                continue;
            }
            let n = self.node(t);
            if !ready {
                stack.push((t, true));
                for c in Db::children(n) {
                    if !em.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let fv = |c: &T| {
                let v = memo.get(c).cloned().unwrap_or(0);
                if self.width(*c) == 32 {
                    f32::from_bits(v as u32) as f64
                } else {
                    f64::from_bits(v as u64)
                }
            };
            let bv = |c: &T| memo.get(c).cloned().unwrap_or(0);
            let e = match n {
                // constants that real mode reads as something else
                Node::Fc(w, b) => {
                    let (x, ulp) = if *w == 64 { (f64::from_bits(*b), f64::EPSILON) } else { (f32::from_bits(*b as u32) as f64, f32::EPSILON as f64) };
                    if crate::smt::reread(*w, x) {
                        ulp * x.abs()
                    } else {
                        0.0
                    }
                }
                Node::Bool(_) | Node::Bv(..) | Node::Var(..) => 0.0,
                Node::And(a, b) => {
                    if em[a] == 0.0 && bv(a) == 0 || em[b] == 0.0 && bv(b) == 0 {
                        0.0
                    } else {
                        em[a].max(em[b])
                    }
                }
                Node::Or(a, b) => {
                    if em[a] == 0.0 && bv(a) == 1 || em[b] == 0.0 && bv(b) == 1 {
                        0.0
                    } else {
                        em[a].max(em[b])
                    }
                }
                Node::Ite(c, a, b) => {
                    if em[c] != 0.0 {
                        inf
                    } else if bv(c) == 1 {
                        em[a]
                    } else {
                        em[b]
                    }
                }
                Node::FCmp(_, a, b) => {
                    let e = em[a] + em[b];
                    let (x, y) = (fv(a), fv(b));
                    if e == 0.0 || *a == *b || (x - y).abs() > 4.0 * e {
                        0.0
                    } else {
                        inf
                    }
                }
                Node::F(op, args) => {
                    let es: Vec<f64> = args.iter().filter(|x| **x != NOARG).map(|x| em[x]).collect();
                    let vs: Vec<f64> = args.iter().filter(|x| **x != NOARG).map(|x| fv(x)).collect();
                    let r = fv(&t);
                    let unit = if self.width(t) == 32 { 1e-6 } else { 1e-14 };
                    let exact = es.iter().all(|e| *e == 0.0);
                    if !r.is_finite() {
                        inf
                    } else {
                        match op {
                            FOp::Neg | FOp::Abs | FOp::CopySign => es[0],
                            FOp::Add | FOp::Sub => {
                                let b = if *op == FOp::Sub { -vs[1] } else { vs[1] };
                                // the rounding error of a sum is a float itself
                                let bb = r - vs[0];
                                let lost = (vs[0] - (r - bb)) + (b - bb);
                                es[0] + es[1] + if lost == 0.0 { 0.0 } else { unit * (1e-30 + r.abs()) }
                            }
                            FOp::Mul => {
                                let lost = vs[0].mul_add(vs[1], -r);
                                let tiny = r == 0.0 && vs[0] != 0.0 && vs[1] != 0.0;
                                let own = if lost == 0.0 && !tiny { 0.0 } else { unit * (1e-30 + r.abs()) };
                                es[0] * (vs[1].abs() + es[1]) + es[1] * vs[0].abs() + own
                            }
                            FOp::Div => {
                                if em[&args[1]] != 0.0 && vs[1].abs() <= 4.0 * es[1] {
                                    inf
                                } else {
                                    let lost = r.mul_add(vs[1], -vs[0]);
                                    let tiny = r == 0.0 && vs[0] != 0.0;
                                    let own = if lost == 0.0 && !tiny { 0.0 } else { unit * (1e-30 + r.abs()) };
                                    let d = vs[1].abs() - es[1];
                                    (if es[0] == 0.0 && es[1] == 0.0 { 0.0 } else { (es[0] + r.abs() * es[1]) / d }) + own
                                }
                            }
                            FOp::Sqrt if exact && r * r == vs[0] => 0.0,
                            FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Round | FOp::RoundEven => {
                                let near = (vs[0] * 2.0 - (vs[0] * 2.0).round()).abs() / 2.0;
                                if exact || near > 4.0 * es[0] {
                                    0.0
                                } else {
                                    inf
                                }
                            }
                            FOp::MinNum | FOp::MaxNum => es[0].max(es[1]),
                            FOp::Exp | FOp::Ln | FOp::Sin | FOp::Cos | FOp::Tan | FOp::Asin | FOp::Acos | FOp::Atan | FOp::Sqrt | FOp::Pow => {
                                let (x, e) = (vs[0], es[0]);
                                let own = unit * r.abs() + if self.width(t) == 32 { 1e-40 } else { 1e-300 };
                                let grown = if exact {
                                    0.0
                                } else {
                                    match op {
                                        FOp::Exp if e < 1.0 => 2.0 * e * r.abs(),
                                        FOp::Ln if e < x / 2.0 => 2.0 * e / x,
                                        FOp::Sin | FOp::Cos | FOp::Atan => e,
                                        FOp::Tan if e * (1.0 + r.abs()) < 0.1 => 2.0 * e * (1.0 + r * r),
                                        FOp::Asin | FOp::Acos if x.abs() + e < 1.0 => e / (1.0 - (x.abs() + e) * (x.abs() + e)).sqrt(),
                                        FOp::Sqrt if e < x / 2.0 => e / r,
                                        FOp::Pow if e < x / 2.0 => {
                                            let d = 2.0 * (vs[1].abs() + es[1]) * e / x + (x.ln().abs() + 1.0) * es[1];
                                            if d < 0.5 {
                                                2.0 * d * r.abs()
                                            } else {
                                                inf
                                            }
                                        }
                                        _ => inf,
                                    }
                                };
                                own + grown
                            }
                            _ => 1e-9 * (1.0 + r.abs()) + 1e3 * es.iter().sum::<f64>(),
                        }
                    }
                }
                Node::F2F(a, w) => em[a] + if *w == 32 && fv(a) != fv(&t) { 1e-6 * (1e-30 + fv(a).abs()) } else { 0.0 },
                Node::FClass(a, _) => {
                    if em[a] == 0.0 || fv(a).abs() > 4.0 * em[a] {
                        0.0
                    } else {
                        inf
                    }
                }
                Node::F2I(_, a, _) => {
                    let x = fv(a);
                    if em[a] == 0.0 || (x - x.round()).abs() > 4.0 * em[a] {
                        0.0
                    } else {
                        inf
                    }
                }
                // anything else depends on exact values
                n => {
                    if Db::children(n).iter().all(|c| em[c] == 0.0) {
                        0.0
                    } else {
                        inf
                    }
                }
            };
            let e = if e.is_nan() { inf } else { e };
            em.insert(t, e);
        }
        em[&t]
    }
    pub fn vars_of(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<T> = roots.to_vec();
        let mut out = vec![];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Node::Var(..) = self.node(t) {
                out.push(t);
            }
            st.extend(Db::children(self.node(t)));
        }
        out.sort();
        out
    }
}

/// The mixing step shared with the native runtime (sx.c).
pub fn mix(mut h: u64) -> u64 {
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}

#[derive(Default, Clone)]
pub struct Env {
    pub vars: HashMap<T, u128>,
}

extern "C" {
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn exp2(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn atan2(x: f64, y: f64) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn sinf(x: f32) -> f32;
    fn cosf(x: f32) -> f32;
    fn tanf(x: f32) -> f32;
    fn asinf(x: f32) -> f32;
    fn acosf(x: f32) -> f32;
    fn atanf(x: f32) -> f32;
    fn expf(x: f32) -> f32;
    fn exp2f(x: f32) -> f32;
    fn logf(x: f32) -> f32;
    fn log2f(x: f32) -> f32;
    fn log10f(x: f32) -> f32;
    fn powf(x: f32, y: f32) -> f32;
    fn atan2f(x: f32, y: f32) -> f32;
    fn fmodf(x: f32, y: f32) -> f32;
}

pub fn eval_f(op: FOp, w: u8, v: &[u64]) -> u64 {
    use std::hint::black_box as bb;
    if w == 64 {
        let a = bb(f64::from_bits(v[0]));
        let b = bb(f64::from_bits(*v.get(1).unwrap_or(&0)));
        let c = bb(f64::from_bits(*v.get(2).unwrap_or(&0)));
        let r = unsafe {
            match op {
                FOp::Add => a + b,
                FOp::Sub => a - b,
                FOp::Mul => a * b,
                FOp::Div => a / b,
                FOp::Rem => fmod(a, b),
                FOp::Neg => return v[0] ^ (1 << 63),
                FOp::Abs => return v[0] & !(1 << 63),
                FOp::Sqrt => a.sqrt(),
                FOp::Sin => sin(a),
                FOp::Cos => cos(a),
                FOp::Tan => tan(a),
                FOp::Asin => asin(a),
                FOp::Acos => acos(a),
                FOp::Atan => atan(a),
                FOp::Atan2 => atan2(a, b),
                FOp::Exp => exp(a),
                FOp::Exp2 => exp2(a),
                FOp::Ln => log(a),
                FOp::Log2 => log2(a),
                FOp::Log10 => log10(a),
                FOp::Pow => pow(a, b),
                FOp::Fma => a.mul_add(b, c),
                FOp::MinNum => a.min(b),
                FOp::MaxNum => a.max(b),
                FOp::CopySign => a.copysign(b),
                FOp::Floor => a.floor(),
                FOp::Ceil => a.ceil(),
                FOp::Trunc => a.trunc(),
                FOp::Round => a.round(),
                FOp::RoundEven => a.round_ties_even(),
                FOp::Sinh => a.sinh(),
                FOp::Cosh => a.cosh(),
                FOp::Tanh => a.tanh(),
                FOp::ExpM1 => a.exp_m1(),
                FOp::Log1p => a.ln_1p(),
                FOp::Cbrt => cbrt(a),
                FOp::Hypot => hypot(a, b),
                FOp::Asinh => a.asinh(),
                FOp::Acosh => a.acosh(),
                FOp::Atanh => a.atanh(),
            }
        };
        r.to_bits()
    } else {
        let a = bb(f32::from_bits(v[0] as u32));
        let b = bb(f32::from_bits(*v.get(1).unwrap_or(&0) as u32));
        let c = bb(f32::from_bits(*v.get(2).unwrap_or(&0) as u32));
        let r = unsafe {
            match op {
                FOp::Add => a + b,
                FOp::Sub => a - b,
                FOp::Mul => a * b,
                FOp::Div => a / b,
                FOp::Rem => fmodf(a, b),
                FOp::Neg => return v[0] ^ (1 << 31),
                FOp::Abs => return v[0] & !(1 << 31),
                FOp::Sqrt => a.sqrt(),
                FOp::Sin => sinf(a),
                FOp::Cos => cosf(a),
                FOp::Tan => tanf(a),
                FOp::Asin => asinf(a),
                FOp::Acos => acosf(a),
                FOp::Atan => atanf(a),
                FOp::Atan2 => atan2f(a, b),
                FOp::Exp => expf(a),
                FOp::Exp2 => exp2f(a),
                FOp::Ln => logf(a),
                FOp::Log2 => log2f(a),
                FOp::Log10 => log10f(a),
                FOp::Pow => powf(a, b),
                FOp::Fma => a.mul_add(b, c),
                FOp::MinNum => a.min(b),
                FOp::MaxNum => a.max(b),
                FOp::CopySign => a.copysign(b),
                FOp::Floor => a.floor(),
                FOp::Ceil => a.ceil(),
                FOp::Trunc => a.trunc(),
                FOp::Round => a.round(),
                FOp::RoundEven => a.round_ties_even(),
                FOp::Sinh => a.sinh(),
                FOp::Cosh => a.cosh(),
                FOp::Tanh => a.tanh(),
                FOp::ExpM1 => a.exp_m1(),
                FOp::Log1p => a.ln_1p(),
                FOp::Cbrt => a.cbrt(),
                FOp::Hypot => a.hypot(b),
                FOp::Asinh => a.asinh(),
                FOp::Acosh => a.acosh(),
                FOp::Atanh => a.atanh(),
            }
        };
        r.to_bits() as u64
    }
}

/// Is folding this operation exact over the reals?
pub fn exact_fold(op: FOp, w: u8, v: &[u64]) -> bool {
    if w == 32 {
        // evaluate in double and compare
        let d: Vec<u64> = v.iter().map(|b| (f32::from_bits(*b as u32) as f64).to_bits()).collect();
        if !exact_fold(op, 64, &d) {
            return false;
        }
        let r = f64::from_bits(eval_f(op, 64, &d));
        return (r as f32) as f64 == r;
    }
    let a = f64::from_bits(v[0]);
    let b = f64::from_bits(*v.get(1).unwrap_or(&0));
    let r = f64::from_bits(eval_f(op, 64, v));
    if !a.is_finite() || (v.len() > 1 && !b.is_finite()) || !r.is_finite() {
        return false;
    }
    // stay away from underflow, where the error terms are themselves inexact
    let ok = |x: f64| x == 0.0 || (x.abs() > 1e-140 && x.abs() < 1e140);
    if !ok(a) || !ok(b) || !ok(r) {
        return matches!(op, FOp::Neg | FOp::Abs);
    }
    match op {
        FOp::Add | FOp::Sub => {
            let b = if op == FOp::Sub { -b } else { b };
            let bb = r - a;
            let err = (a - (r - bb)) + (b - bb);
            err == 0.0
        }
        FOp::Mul => a.mul_add(b, -r) == 0.0,
        FOp::Div => b != 0.0 && r.mul_add(b, -a) == 0.0,
        FOp::Sqrt => r.mul_add(r, -a) == 0.0,
        FOp::Neg | FOp::Abs | FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Round | FOp::RoundEven | FOp::MinNum | FOp::MaxNum | FOp::CopySign => true,
        FOp::Sin | FOp::Tan | FOp::Asin | FOp::Atan => a == 0.0,
        FOp::Cos | FOp::Exp | FOp::Exp2 => a == 0.0,
        FOp::Ln | FOp::Log2 | FOp::Log10 | FOp::Acos => a == 1.0,
        FOp::Pow => b == 0.0 || b == 1.0 || (b == 2.0 && a.mul_add(a, -r) == 0.0) || a == 1.0,
        _ => false,
    }
}

pub fn eval_fcmp(op: FCmp, w: u8, x: u64, y: u64) -> bool {
    let (x, y) = if w == 64 {
        (f64::from_bits(x), f64::from_bits(y))
    } else {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    };
    match op {
        FCmp::Oeq => x == y,
        FCmp::Olt => x < y,
        FCmp::Ole => x <= y,
        FCmp::Uno => x.is_nan() || y.is_nan(),
    }
}

/// LLVM fpclass mask bits: 0 snan,1 qnan,2 -inf,3 -norm,4 -sub,5 -0,6 +0,7 +sub,8 +norm,9 +inf
pub fn eval_class(w: u8, v: u64) -> u16 {
    let (neg, cat, quiet) = if w == 64 {
        let f = f64::from_bits(v);
        (v >> 63 == 1, f.classify(), v >> 51 & 1 == 1)
    } else {
        let f = f32::from_bits(v as u32);
        (v >> 31 & 1 == 1, f.classify(), v >> 22 & 1 == 1)
    };
    use std::num::FpCategory::*;
    1 << match (cat, neg) {
        (Nan, _) => {
            if quiet {
                1
            } else {
                0
            }
        }
        (Infinite, true) => 2,
        (Normal, true) => 3,
        (Subnormal, true) => 4,
        (Zero, true) => 5,
        (Zero, false) => 6,
        (Subnormal, false) => 7,
        (Normal, false) => 8,
        (Infinite, false) => 9,
    }
}
pub fn eval_i2f(signed: bool, v: u128, iw: u16, w: u8) -> u64 {
    if signed {
        let s = sext(v, iw);
        if w == 64 {
            (s as f64).to_bits()
        } else {
            (s as f32).to_bits() as u64
        }
    } else if w == 64 {
        (v as f64).to_bits()
    } else {
        (v as f32).to_bits() as u64
    }
}
pub fn eval_f2i(signed: bool, fw: u8, v: u64, w: u16) -> u128 {
    let x = if fw == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
    if signed {
        let r = x as i128;
        let lo = -(1i128 << (w - 1));
        let hi = (1i128 << (w - 1)) - 1;
        (r.clamp(lo, hi) as u128) & mask(w)
    } else {
        let r = x as u128;
        r.min(mask(w))
    }
}
