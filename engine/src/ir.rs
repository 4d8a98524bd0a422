//! Reader for textual LLVM IR: whole modules are scanned once, function
//! bodies and initialisers are parsed on first use.
use crate::term::{BvOp, FOp};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F(u8),
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F(w) => (*w as u64) / 8,
            Ty::Ptr => 8,
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                _ => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (offs, s) = self.offsets();
                let _ = offs;
                s
            }
            _ => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
        }
    }
    pub fn offsets(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                let mut ma = 1;
                for t in f.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a;
                    v.push(o);
                    o += t.size();
                }
                (v, (o + ma - 1) / ma * ma)
            }
            _ => panic!("offsets of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Runtime value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    S(crate::term::T),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IP {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, BvOp, Ty, Opd, Opd),
    FBin(u32, FOp, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    ICmp(u32, IP, Ty, Opd, Opd),
    FCmp(u32, String, Ty, Opd, Opd),
    Cast(u32, CastOp, Ty, Opd, Ty),
    Alloca(u32, Ty, Opd, u64),
    Load(u32, Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    /// constant offset plus (index, index type width, scale)
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Select(u32, Ty, Ty, Opd, Opd, Opd),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Callee,
        args: Vec<(Ty, Opd, u64)>,
        normal: Option<u32>,
        unwind: Option<u32>,
    },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>, Ty),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<Option<u32>>),
    Freeze(u32, Ty, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Rmw(u32, RmwOp, Ty, Opd, Opd),
    Fence,
    LandingPad(u32, Ty),
    Resume(Opd),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, HashMap<u32, Opd>)>,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    L(String),
    G(String),
    N(String),
    P(char),
    S(Vec<u8>),
    M,
    Nl,
    Eof,
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'*') => {
                while !(b[i] == b'*' && b[i + 1] == b'/') || b[i - 1] == b'/' {
                    i += 1;
                }
                i += 2;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                let (v, j) = lex_str(b, i);
                i = j;
                out.push(Tok::S(v));
            }
            b'%' | b'@' => {
                i += 1;
                let name = if i < b.len() && b[i] == b'"' {
                    let (v, j) = lex_str(b, i);
                    i = j;
                    String::from_utf8_lossy(&v).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    String::from_utf8_lossy(&b[st..i]).into_owned()
                };
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                out.push(Tok::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::M);
            }
            b'0'..=b'9' => {
                let st = i;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') {
                    // exponent signs
                    if (b[i] == b'-' || b[i] == b'+') && !(b[i - 1] == b'e' || b[i - 1] == b'E') {
                        break;
                    }
                    i += 1;
                }
                out.push(Tok::N(String::from_utf8_lossy(&b[st..i]).into_owned()));
            }
            b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') {
                    if (b[i] == b'-' || b[i] == b'+') && !(b[i - 1] == b'e' || b[i - 1] == b'E') {
                        break;
                    }
                    i += 1;
                }
                out.push(Tok::N(String::from_utf8_lossy(&b[st..i]).into_owned()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = lex_str(b, i + 1);
                    i = j;
                    out.push(Tok::S(v));
                    continue;
                }
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::W(String::from_utf8_lossy(&b[st..i]).into_owned()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out.push(Tok::Nl);
    out.push(Tok::Eof);
    out
}

fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    i += 1;
    let mut v = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

pub struct GlobalInfo {
    pub name: String,
    pub module: usize,
    /// text of the definition line, None if external
    pub line: Option<(usize, usize)>,
    pub size: u64,
    pub constant: bool,
    pub tls: bool,
}

pub struct FuncInfo {
    pub name: String,
    pub def: Option<(usize, usize, usize)>,
    pub parsed: RefCell<Option<Rc<Func>>>,
    pub vararg: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, (usize, usize)>,
    pub tcache: RefCell<HashMap<String, Ty>>,
    pub local: HashMap<String, Sym>,
}

pub const FUNC_BASE: u64 = 0x4000_0000_0000;
pub const GLOB_BASE: u64 = 0x1000_0000_0000;
pub const HEAP_BASE: u64 = 0x2000_0000_0000;
pub const STACK_BASE: u64 = 0x3000_0000_0000;
pub const SLOT_BITS: u32 = 24;

pub struct Prog {
    pub modules: Vec<Module>,
    pub global: RefCell<HashMap<String, Sym>>,
    pub funcs: RefCell<Vec<Rc<FuncInfo>>>,
    pub globals: RefCell<Vec<Rc<GlobalInfo>>>,
}

impl Prog {
    pub fn load(paths: &[String]) -> Prog {
        let mut p = Prog {
            modules: vec![],
            global: RefCell::new(HashMap::new()),
            funcs: RefCell::new(vec![]),
            globals: RefCell::new(vec![]),
        };
        let mut aliases: Vec<(usize, String, String, bool)> = vec![];
        for path in paths {
            let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("read {}: {}", path, e));
            let mi = p.modules.len();
            let mut m = Module {
                text: String::new(),
                types: HashMap::new(),
                tcache: RefCell::new(HashMap::new()),
                local: HashMap::new(),
            };
            let mut pos = 0;
            let bytes = text.as_bytes();
            let n = bytes.len();
            let mut pend: Vec<(String, Sym, bool, bool)> = vec![];
            while pos < n {
                let eol = memchr(bytes, pos, b'\n');
                let line = &text[pos..eol];
                if line.starts_with("define ") {
                    // body end
                    let mut q = eol + 1;
                    loop {
                        let e = memchr(bytes, q, b'\n');
                        if &text[q..e] == "}" {
                            q = e;
                            break;
                        }
                        q = e + 1;
                    }
                    let name = sym_name(line);
                    let head = &line[..line.find('@').unwrap()];
                    let internal = head.contains(" internal ") || head.contains(" private ");
                    let weak = head.contains("weak") || head.contains("linkonce") || head.contains("available_externally");
                    let id = p.funcs.borrow().len() as u32;
                    p.funcs.borrow_mut().push(Rc::new(FuncInfo {
                        name: name.clone(),
                        def: Some((mi, pos, q)),
                        parsed: RefCell::new(None),
                        vararg: line.contains("...)"),
                    }));
                    pend.push((name, Sym::F(id), internal, weak));
                    pos = q + 1;
                    continue;
                }
                if line.starts_with('@') {
                    let name = sym_name(line);
                    let toks_head: &str = {
                        let eqp = line.find(" = ").unwrap();
                        &line[eqp + 3..]
                    };
                    let words: Vec<&str> = toks_head.split_whitespace().take(12).collect();
                    if words.iter().any(|w| *w == "alias") {
                        let target = {
                            let r = line.rfind('@').unwrap();
                            sym_name(&line[r..])
                        };
                        let internal = words.iter().any(|w| *w == "internal" || *w == "private");
                        aliases.push((mi, name, target, internal));
                        pos = eol + 1;
                        continue;
                    }
                    let kw = words.iter().position(|w| *w == "global" || *w == "constant");
                    if let Some(k) = kw {
                        let ext = words[..k].iter().any(|w| *w == "external" || *w == "extern_weak");
                        let internal = words[..k].iter().any(|w| *w == "internal" || *w == "private");
                        let tls = words[..k].iter().any(|w| w.starts_with("thread_local"));
                        let weak = words[..k].iter().any(|w| w.contains("weak") || w.contains("linkonce"));
                        let constant = words[k] == "constant";
                        if !ext {
                            let id = p.globals.borrow().len() as u32;
                            p.globals.borrow_mut().push(Rc::new(GlobalInfo {
                                name: name.clone(),
                                module: mi,
                                line: Some((pos, eol)),
                                size: 0,
                                constant,
                                tls,
                            }));
                            pend.push((name, Sym::G(id), internal, weak));
                        }
                    }
                    pos = eol + 1;
                    continue;
                }
                if line.starts_with('%') && line.contains(" = type ") {
                    let name = match lex(&line[..line.find(" = type ").unwrap()]).into_iter().next() {
                        Some(Tok::L(n)) => n,
                        _ => panic!("type line"),
                    };
                    let st = pos + line.find(" = type ").unwrap() + 8;
                    m.types.insert(name, (st, eol));
                }
                pos = eol + 1;
            }
            for (name, sym, internal, weak) in pend {
                if internal {
                    m.local.insert(name, sym);
                } else {
                    let mut g = p.global.borrow_mut();
                    if weak && g.contains_key(&name) {
                        continue;
                    }
                    g.insert(name, sym);
                }
            }
            m.text = text;
            p.modules.push(m);
        }
        for _ in 0..2 {
            for (mi, name, target, internal) in &aliases {
                if let Some(s) = p.lookup(*mi, target) {
                    if *internal {
                        p.modules[*mi].local.insert(name.clone(), s);
                    } else {
                        p.global.borrow_mut().insert(name.clone(), s);
                    }
                }
            }
        }
        p
    }
    pub fn lookup(&self, m: usize, name: &str) -> Option<Sym> {
        if let Some(s) = self.modules[m].local.get(name) {
            return Some(*s);
        }
        self.global.borrow().get(name).cloned()
    }
    /// Symbol for a name; unknown names become external functions or, if
    /// used as data, zero-filled external objects.
    pub fn sym(&self, m: usize, name: &str) -> Sym {
        if let Some(s) = self.lookup(m, name) {
            return s;
        }
        let isdata = {
            // declared as a global?
            let t = &self.modules[m].text;
            t.contains(&format!("\n@{} = ", name)) || t.contains(&format!("\n@\"{}\" = ", name))
        };
        let s = if isdata {
            let id = self.globals.borrow().len() as u32;
            self.globals.borrow_mut().push(Rc::new(GlobalInfo {
                name: name.to_string(),
                module: m,
                line: None,
                size: 256,
                constant: false,
                tls: false,
            }));
            Sym::G(id)
        } else {
            let id = self.funcs.borrow().len() as u32;
            self.funcs.borrow_mut().push(Rc::new(FuncInfo {
                name: name.to_string(),
                def: None,
                parsed: RefCell::new(None),
                vararg: false,
            }));
            Sym::F(id)
        };
        self.global.borrow_mut().insert(name.to_string(), s);
        s
    }
    pub fn addr(&self, s: Sym) -> u64 {
        match s {
            Sym::F(i) => FUNC_BASE + (i as u64) * 16,
            Sym::G(i) => GLOB_BASE + ((i as u64) << SLOT_BITS),
        }
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        let fi = self.funcs.borrow()[id as usize].clone();
        if let Some(f) = fi.parsed.borrow().as_ref() {
            return Some(f.clone());
        }
        let (m, a, b) = fi.def?;
        let toks = lex(&self.modules[m].text[a..b]);
        let mut ps = Parser {
            p: self,
            m,
            t: toks,
            i: 0,
            regs: HashMap::new(),
            labels: HashMap::new(),
            nregs: 0,
            blocks: 0,
        };
        let f = Rc::new(ps.function(id, &fi.name));
        *fi.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }
    pub fn ty(&self, m: usize, name: &str) -> Ty {
        if let Some(t) = self.modules[m].tcache.borrow().get(name) {
            return t.clone();
        }
        let (a, b) = *self.modules[m].types.get(name).unwrap_or_else(|| panic!("type %{}", name));
        let toks = lex(&self.modules[m].text[a..b]);
        let mut ps = Parser::new(self, m, toks);
        if ps.peek() == &Tok::W("opaque".into()) {
            return Ty::Struct(Rc::new(vec![]), false);
        }
        let t = ps.ty();
        self.modules[m].tcache.borrow_mut().insert(name.to_string(), t.clone());
        t
    }
    /// (bytes, undefined-byte mask, align)
    pub fn global_init(&self, id: u32) -> (Vec<u8>, Vec<u8>, bool) {
        let g = self.globals.borrow()[id as usize].clone();
        let (a, b) = match g.line {
            Some(x) => x,
            None => return (vec![0; g.size as usize], vec![1; g.size as usize], false),
        };
        let toks = lex(&self.modules[g.module].text[a..b]);
        let mut ps = Parser::new(self, g.module, toks);
        loop {
            match ps.next() {
                Tok::W(w) if w == "global" || w == "constant" => break,
                Tok::Eof => panic!("global {}", g.name),
                _ => {}
            }
        }
        let ty = ps.ty();
        let v = ps.value(&ty);
        let c = match v {
            Opd::C(v) => v,
            _ => panic!("global init"),
        };
        let n = ty.size() as usize;
        let mut bytes = vec![0u8; n];
        let mut init = vec![1u8; n];
        emit(&ty, &c, 0, &mut bytes, &mut init);
        (bytes, init, g.constant)
    }
}

fn emit(ty: &Ty, v: &V, off: usize, bytes: &mut [u8], init: &mut [u8]) {
    match (ty, v) {
        (_, V::U) => {
            for k in off..off + ty.size() as usize {
                init[k] = 0;
            }
        }
        (Ty::Struct(..), V::A(items)) => {
            let (offs, _) = ty.offsets();
            for (k, it) in items.iter().enumerate() {
                emit(&ty.elem(k), it, off + offs[k] as usize, bytes, init);
            }
        }
        (Ty::Arr(..) | Ty::Vec(..), V::A(items)) => {
            let e = ty.elem(0);
            let s = e.size() as usize;
            for (k, it) in items.iter().enumerate() {
                emit(&e, it, off + k * s, bytes, init);
            }
        }
        (_, V::C(0)) => {}
        (_, V::C(c)) => {
            let n = ty.store_size() as usize;
            for k in 0..n {
                bytes[off + k] = (c >> (8 * k)) as u8;
            }
        }
        _ => panic!("emit {:?} {:?}", ty, v),
    }
}

fn memchr(b: &[u8], mut i: usize, c: u8) -> usize {
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

fn sym_name(line: &str) -> String {
    let at = line.find('@').unwrap();
    let rest = &line[at + 1..];
    if rest.starts_with('"') {
        let e = rest[1..].find('"').unwrap();
        rest[1..1 + e].to_string()
    } else {
        let e = rest
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
            .unwrap_or(rest.len());
        rest[..e].to_string()
    }
}

pub struct Parser<'a> {
    p: &'a Prog,
    m: usize,
    t: Vec<Tok>,
    i: usize,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nregs: u32,
    blocks: u32,
}

impl<'a> Parser<'a> {
    pub fn new(p: &'a Prog, m: usize, t: Vec<Tok>) -> Parser<'a> {
        Parser {
            p,
            m,
            t,
            i: 0,
            regs: HashMap::new(),
            labels: HashMap::new(),
            nregs: 0,
            blocks: 0,
        }
    }
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn peek2(&self) -> &Tok {
        &self.t[(self.i + 1).min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == &Tok::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::W(x) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eatp(c) {
            let lo = self.i.saturating_sub(12);
            panic!("expected {:?} near {:?}", c, &self.t[lo..(self.i + 4).min(self.t.len())]);
        }
    }
    fn skip_nl(&mut self) {
        while self.peek() == &Tok::Nl {
            self.next();
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.blocks;
        self.blocks += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::W(w) => {
                matches!(w.as_str(), "void" | "ptr" | "double" | "float" | "label" | "metadata" | "half" | "x86_fp80" | "fp128" | "opaque")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::L(_) => true,
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "double" => Ty::F(64),
                "float" => Ty::F(32),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "half" => Ty::Int(16),
                "x86_fp80" => Ty::Int(80),
                "fp128" => Ty::Int(128),
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => panic!("type {}", w),
            },
            Tok::L(n) => self.p.ty(self.m, &n),
            Tok::P('{') => {
                let f = self.tylist('}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let f = self.tylist('}');
                    self.exp('>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.exp('>');
                Ty::Vec(n as u32, Rc::new(t))
            }
            t => panic!("type {:?}", t),
        }
    }
    fn tylist(&mut self, close: char) -> Vec<Ty> {
        let mut f = vec![];
        if self.eatp(close) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eatp(close) {
                return f;
            }
            self.exp(',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::N(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            t => panic!("num {:?}", t),
        }
    }
    fn skip_parens(&mut self) {
        self.exp('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("parens"),
                _ => {}
            }
        }
    }
    fn gaddr(&mut self, n: &str) -> V {
        let s = self.p.sym(self.m, n);
        V::C(self.p.addr(s) as u128)
    }
    fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, t) => {
                if *n > 4096 {
                    // big zero arrays: emit treats a scalar zero as all zero bytes
                    V::C(0)
                } else {
                    V::A(Rc::new(vec![self.zero(t); *n as usize]))
                }
            }
            Ty::Vec(n, t) => V::A(Rc::new(vec![self.zero(t); *n as usize])),
            _ => V::C(0),
        }
    }
    fn undef(&self, ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.undef(t)).collect())),
            Ty::Arr(n, t) if *n <= 4096 => V::A(Rc::new(vec![self.undef(t); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![self.undef(t); *n as usize])),
            _ => V::U,
        }
    }
    fn cval(&mut self, ty: &Ty) -> V {
        match self.value(ty) {
            Opd::C(v) => v,
            o => panic!("constant expected, got {:?}", o),
        }
    }
    fn agg(&mut self, close: char) -> V {
        let mut v = vec![];
        if self.eatp(close) {
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty();
            v.push(self.cval(&t));
            if self.eatp(close) {
                return V::A(Rc::new(v));
            }
            self.exp(',');
        }
    }
    pub fn value(&mut self, ty: &Ty) -> Opd {
        match self.next() {
            Tok::L(n) => Opd::Reg(self.reg(&n)),
            Tok::G(n) => Opd::C(self.gaddr(&n)),
            Tok::N(s) => {
                if (s == "-nan" || s == "-qnan" || s == "-snan") && self.isp('(') {
                    self.skip_parens();
                }
                Opd::C(num_const(&s, ty))
            }
            Tok::P('+') => {
                let s = match self.next() {
                    Tok::W(w) => w,
                    Tok::N(w) => w,
                    t => panic!("value +{:?}", t),
                };
                if self.isp('(') {
                    self.skip_parens();
                }
                Opd::C(num_const(&s, ty))
            }
            Tok::W(w) if matches!(ty, Ty::F(_)) && (w.starts_with("f0x") || w == "inf" || w == "nan" || w == "qnan" || w == "snan") => {
                if self.isp('(') {
                    self.skip_parens();
                }
                Opd::C(num_const(&w, ty))
            }
            Tok::S(v) => Opd::C(V::A(Rc::new(v.into_iter().map(|b| V::C(b as u128)).collect()))),
            Tok::M => Opd::C(V::U),
            Tok::P('{') => Opd::C(self.agg('}')),
            Tok::P('[') => Opd::C(self.agg(']')),
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.agg('}');
                    self.exp('>');
                    return Opd::C(v);
                }
                Opd::C(self.agg('>'))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Opd::C(V::C(1)),
                "false" | "null" | "none" => Opd::C(V::C(0)),
                // any choice refines undef
                "undef" if matches!(ty, Ty::Int(_) | Ty::F(_)) => Opd::C(V::C(0)),
                "undef" | "poison" => Opd::C(self.undef(ty)),
                "zeroinitializer" => Opd::C(self.zero(ty)),
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.exp(')');
                    Opd::C(V::A(Rc::new(vec![v; ty.count()])))
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::W(_)) {
                        let is_inrange = self.isw("inrange");
                        self.next();
                        if is_inrange && self.isp('(') {
                            self.skip_parens();
                        }
                    }
                    self.exp('(');
                    let bt = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.cval(&pt);
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty();
                        let iv = match self.cval(&it) {
                            V::C(c) => crate::term::sext(c, width(&it)) as i64,
                            _ => panic!("gep const"),
                        };
                        if first {
                            off += iv * cur.size() as i64;
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    off += cur.offsets().0[iv as usize] as i64;
                                    cur = cur.elem(iv as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    off += iv * e.size() as i64;
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.exp(')');
                    match base {
                        V::C(b) => Opd::C(V::C((b as u64).wrapping_add(off as u64) as u128)),
                        _ => panic!("gep base"),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.exp(')');
                    match v {
                        V::C(c) => Opd::C(V::C(c & crate::term::mask(width(&t2)))),
                        v => Opd::C(v),
                    }
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Tok::W(_)) {
                        self.next();
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.exp(',');
                    let t = self.ty();
                    let b = self.cval(&t);
                    self.exp(')');
                    match (a, b) {
                        (V::C(a), V::C(b)) => {
                            let r = match w.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            };
                            Opd::C(V::C(r & crate::term::mask(width(&t))))
                        }
                        _ => panic!("const arith"),
                    }
                }
                _ => panic!("value {:?} near {:?}", w, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
            },
            t => panic!("value {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
        }
    }
    /// skip attribute words before a type or a value
    fn skip_attrs(&mut self) -> u64 {
        let mut byval = 0;
        loop {
            match self.peek().clone() {
                Tok::W(w) => {
                    if matches!(
                        w.as_str(),
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "asm" | "none" | "sub" | "add" | "trunc" | "zext" | "addrspacecast"
                    ) {
                        return byval;
                    }
                    if w.starts_with("f0x") || matches!(w.as_str(), "inf" | "nan" | "qnan" | "snan" | "xor") {
                        return byval;
                    }
                    self.next();
                    if w == "align" {
                        if self.isp('(') {
                            self.skip_parens();
                        } else {
                            self.next();
                        }
                    } else if w == "byval" {
                        self.exp('(');
                        let t = self.ty();
                        byval = t.size();
                        self.exp(')');
                    } else if self.isp('(') {
                        self.skip_parens();
                    }
                }
                Tok::S(_) => {
                    // string attribute
                    self.next();
                    if self.eatp('=') {
                        self.next();
                    }
                }
                _ => return byval,
            }
        }
    }
    fn skip_words_to_type(&mut self) {
        while !self.is_type_start() {
            match self.peek() {
                Tok::W(w) => {
                    let al = w == "align" || w == "cc";
                    self.next();
                    if al && matches!(self.peek(), Tok::N(_)) {
                        self.next();
                    } else if self.isp('(') {
                        self.skip_parens();
                    }
                }
                Tok::M | Tok::S(_) => {
                    self.next();
                }
                t => panic!("to type: {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
            }
        }
    }
    fn to_nl(&mut self) {
        while self.peek() != &Tok::Nl && self.peek() != &Tok::Eof {
            self.next();
        }
    }

    fn function(&mut self, id: u32, name: &str) -> Func {
        assert!(self.eatw("define"));
        self.skip_words_to_type();
        let _ret = self.ty();
        match self.next() {
            Tok::G(_) => {}
            t => panic!("fn name {:?}", t),
        }
        self.exp('(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !self.eatp(')') {
            loop {
                if self.isp('.') || self.isw("...") {
                    while !self.isp(')') {
                        self.next();
                    }
                    self.next();
                    break;
                }
                let _t = self.ty();
                self.skip_attrs();
                match self.peek().clone() {
                    Tok::L(n) => {
                        self.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(self.reg(&n));
                    }
                    _ => {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        params.push(self.reg(&n));
                    }
                }
                if self.eatp(')') {
                    break;
                }
                self.exp(',');
            }
        }
        while !self.isp('{') {
            self.next();
        }
        // the body's brace is the last '{' on the header line
        let mut last = self.i;
        while self.peek() != &Tok::Nl {
            if self.isp('{') {
                last = self.i;
            }
            self.next();
        }
        self.i = last + 1;
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            self.skip_nl();
            if self.peek() == &Tok::Eof || self.isp('}') {
                break;
            }
            // label?
            let lab = match (self.peek().clone(), self.peek2().clone()) {
                (Tok::W(w), Tok::P(':')) => Some(w),
                (Tok::N(w), Tok::P(':')) => Some(w),
                (Tok::S(w), Tok::P(':')) => Some(String::from_utf8_lossy(&w).into_owned()),
                _ => None,
            };
            if let Some(l) = lab {
                self.next();
                self.next();
                if let Some((k, b)) = cur.take() {
                    put(&mut blocks, k, b);
                }
                let k = self.label(&l);
                cur = Some((
                    k,
                    Block {
                        name: l,
                        phis: vec![],
                        ins: vec![],
                    },
                ));
                continue;
            }
            if cur.is_none() {
                let l = format!("{}", unnamed);
                let k = self.label(&l);
                cur = Some((
                    k,
                    Block {
                        name: l,
                        phis: vec![],
                        ins: vec![],
                    },
                ));
            }
            let b = &mut cur.as_mut().unwrap().1 as *mut Block;
            // SAFETY: the parser does not touch `cur` while reading one instruction
            self.instr(unsafe { &mut *b });
            self.to_nl();
        }
        if let Some((k, b)) = cur.take() {
            put(&mut blocks, k, b);
        }
        // entry must be block 0: it is the first label requested
        Func {
            id,
            name: name.to_string(),
            params,
            nregs: self.nregs,
            blocks: blocks.into_iter().map(|b| b.expect("block defined")).collect(),
        }
    }

    fn opd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        let v = self.value(&t);
        (t, v)
    }

    fn instr(&mut self, b: &mut Block) {
        let mut dst = None;
        if let (Tok::L(n), Tok::P('=')) = (self.peek().clone(), self.peek2().clone()) {
            self.next();
            self.next();
            dst = Some(self.reg(&n));
        }
        let w = match self.next() {
            Tok::W(w) => w,
            t => panic!("instr {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bv = |w: &str| {
            Some(match w {
                "add" => BvOp::Add,
                "sub" => BvOp::Sub,
                "mul" => BvOp::Mul,
                "udiv" => BvOp::UDiv,
                "sdiv" => BvOp::SDiv,
                "urem" => BvOp::URem,
                "srem" => BvOp::SRem,
                "shl" => BvOp::Shl,
                "lshr" => BvOp::LShr,
                "ashr" => BvOp::AShr,
                "and" => BvOp::And,
                "or" => BvOp::Or,
                "xor" => BvOp::Xor,
                _ => return None,
            })
        };
        let fb = |w: &str| {
            Some(match w {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                "frem" => FOp::Rem,
                _ => return None,
            })
        };
        let cast = |w: &str| {
            Some(match w {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "fptrunc" => CastOp::FpTrunc,
                "fpext" => CastOp::FpExt,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "bitcast" | "addrspacecast" => CastOp::Bitcast,
                _ => return None,
            })
        };
        if let Some(op) = bv(&w) {
            self.skip_words_to_type();
            let (t, a) = self.opd();
            self.exp(',');
            let c = self.value(&t);
            b.ins.push(Ins::Bin(d, op, t, a, c));
            return;
        }
        if let Some(op) = fb(&w) {
            self.skip_words_to_type();
            let (t, a) = self.opd();
            self.exp(',');
            let c = self.value(&t);
            b.ins.push(Ins::FBin(d, op, t, a, c));
            return;
        }
        if let Some(op) = cast(&w) {
            self.skip_words_to_type();
            let (t, a) = self.opd();
            assert!(self.eatw("to"));
            let t2 = self.ty();
            b.ins.push(Ins::Cast(d, op, t, a, t2));
            return;
        }
        match w.as_str() {
            "fneg" => {
                self.skip_words_to_type();
                let (t, a) = self.opd();
                b.ins.push(Ins::FNeg(d, t, a));
            }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.next() {
                    Tok::W(w) => match w.as_str() {
                        "eq" => IP::Eq,
                        "ne" => IP::Ne,
                        "ult" => IP::Ult,
                        "ule" => IP::Ule,
                        "ugt" => IP::Ugt,
                        "uge" => IP::Uge,
                        "slt" => IP::Slt,
                        "sle" => IP::Sle,
                        "sgt" => IP::Sgt,
                        "sge" => IP::Sge,
                        _ => panic!("icmp {}", w),
                    },
                    t => panic!("icmp {:?}", t),
                };
                let (t, a) = self.opd();
                self.exp(',');
                let c = self.value(&t);
                b.ins.push(Ins::ICmp(d, p, t, a, c));
            }
            "fcmp" => {
                let preds = [
                    "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true",
                ];
                let p = loop {
                    match self.next() {
                        Tok::W(w) if preds.contains(&w.as_str()) => break w,
                        Tok::W(_) => {}
                        t => panic!("fcmp {:?}", t),
                    }
                };
                let (t, a) = self.opd();
                self.exp(',');
                let c = self.value(&t);
                b.ins.push(Ins::FCmp(d, p, t, a, c));
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty();
                let mut n = Opd::C(V::C(1));
                let mut al = t.align();
                while self.eatp(',') {
                    if self.eatw("align") {
                        al = self.num() as u64;
                    } else if self.is_type_start() {
                        n = self.opd().1;
                    } else {
                        break;
                    }
                }
                b.ins.push(Ins::Alloca(d, t, n, al));
            }
            "load" => {
                let at = self.isw("atomic");
                self.skip_words_to_type();
                let t = self.ty();
                self.exp(',');
                let (_, p) = self.opd();
                b.ins.push(Ins::Load(d, t, p, at));
            }
            "store" => {
                let at = self.isw("atomic");
                self.skip_words_to_type();
                let (t, v) = self.opd();
                self.exp(',');
                let (_, p) = self.opd();
                b.ins.push(Ins::Store(t, v, p, at));
            }
            "getelementptr" => {
                while matches!(self.peek(), Tok::W(w) if w == "inbounds" || w == "nuw" || w == "nusw" || w == "inrange") {
                    self.next();
                }
                let bt = self.ty();
                self.exp(',');
                let (_, base) = self.opd();
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.eatp(',') {
                    if self.peek() == &Tok::M {
                        break;
                    }
                    let (it, iv) = self.opd();
                    let (scale, nxt) = if first {
                        first = false;
                        (cur.size() as i64, cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Opd::C(V::C(c)) => *c as usize,
                                    _ => panic!("struct gep"),
                                };
                                off += cur.offsets().0[k] as i64;
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => {
                                let e = cur.elem(0);
                                (e.size() as i64, e)
                            }
                        }
                    };
                    match &iv {
                        Opd::C(V::C(c)) => off = off.wrapping_add((crate::term::sext(*c, width(&it)) as i64).wrapping_mul(scale)),
                        _ => dynv.push((iv, width(&it), scale)),
                    }
                    cur = nxt;
                }
                b.ins.push(Ins::Gep(d, base, off, dynv));
            }
            "select" => {
                self.skip_words_to_type();
                let (ct, c) = self.opd();
                self.exp(',');
                let (t, x) = self.opd();
                self.exp(',');
                let (_, y) = self.opd();
                b.ins.push(Ins::Select(d, ct, t, c, x, y));
            }
            "phi" => {
                self.skip_words_to_type();
                let t = self.ty();
                let mut m = HashMap::new();
                loop {
                    self.exp('[');
                    let v = self.value(&t);
                    self.exp(',');
                    let l = match self.next() {
                        Tok::L(n) => self.label(&n),
                        t => panic!("phi {:?}", t),
                    };
                    self.exp(']');
                    m.insert(l, v);
                    if !self.eatp(',') {
                        break;
                    }
                    if !self.isp('[') {
                        break;
                    }
                }
                b.phis.push((d, m));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut inv = w == "invoke";
                if w != "call" && w != "invoke" {
                    match self.next() {
                        Tok::W(w) => inv = w == "invoke",
                        _ => {}
                    }
                }
                self.skip_words_to_type();
                let mut ret = self.ty();
                // function type
                if self.isp('(') {
                    self.skip_parens();
                }
                let _ = &mut ret;
                // callee
                let callee = match self.peek().clone() {
                    Tok::G(n) => {
                        self.next();
                        match self.p.sym(self.m, &n) {
                            Sym::F(f) => Callee::Func(f),
                            Sym::G(_) => panic!("call of data {}", n),
                        }
                    }
                    Tok::L(n) => {
                        self.next();
                        Callee::Ind(Opd::Reg(self.reg(&n)))
                    }
                    Tok::W(w) if w == "asm" => {
                        self.next();
                        let mut s = String::new();
                        loop {
                            match self.next() {
                                Tok::S(v) => {
                                    s.push_str(&String::from_utf8_lossy(&v));
                                    if self.eatp(',') {
                                        s.push('|');
                                        if let Tok::S(v) = self.next() {
                                            s.push_str(&String::from_utf8_lossy(&v));
                                        }
                                        break;
                                    }
                                }
                                Tok::W(_) => {}
                                t => panic!("asm {:?}", t),
                            }
                        }
                        Callee::Asm(s)
                    }
                    _ => {
                        let v = self.value(&Ty::Ptr);
                        Callee::Ind(v)
                    }
                };
                self.exp('(');
                let mut args = vec![];
                if !self.eatp(')') {
                    loop {
                        let t = self.ty();
                        if t == Ty::Meta {
                            // metadata argument: skip to , or )
                            let mut dep = 0;
                            loop {
                                if dep == 0 && (self.isp(',') || self.isp(')')) {
                                    break;
                                }
                                match self.next() {
                                    Tok::P('(') | Tok::P('{') => dep += 1,
                                    Tok::P(')') | Tok::P('}') => dep -= 1,
                                    _ => {}
                                }
                            }
                            args.push((Ty::Meta, Opd::C(V::U), 0));
                        } else {
                            let byval = self.skip_attrs();
                            let v = self.value(&t);
                            args.push((t, v, byval));
                        }
                        if self.eatp(')') {
                            break;
                        }
                        self.exp(',');
                    }
                }
                let (mut normal, mut unwind) = (None, None);
                if inv {
                    while !self.isw("to") {
                        self.next();
                    }
                    self.next();
                    assert!(self.eatw("label"));
                    if let Tok::L(n) = self.next() {
                        normal = Some(self.label(&n));
                    }
                    self.skip_nl();
                    assert!(self.eatw("unwind"));
                    assert!(self.eatw("label"));
                    if let Tok::L(n) = self.next() {
                        unwind = Some(self.label(&n));
                    }
                }
                b.ins.push(Ins::Call {
                    dst,
                    ret,
                    callee,
                    args,
                    normal,
                    unwind,
                });
            }
            "br" => {
                if self.eatw("label") {
                    if let Tok::L(n) = self.next() {
                        let l = self.label(&n);
                        b.ins.push(Ins::Br(l));
                    }
                } else {
                    let (_, c) = self.opd();
                    self.exp(',');
                    assert!(self.eatw("label"));
                    let x = match self.next() {
                        Tok::L(n) => self.label(&n),
                        _ => panic!("br"),
                    };
                    self.exp(',');
                    assert!(self.eatw("label"));
                    let y = match self.next() {
                        Tok::L(n) => self.label(&n),
                        _ => panic!("br"),
                    };
                    b.ins.push(Ins::CondBr(c, x, y));
                }
            }
            "switch" => {
                let (t, v) = self.opd();
                self.exp(',');
                assert!(self.eatw("label"));
                let dl = match self.next() {
                    Tok::L(n) => self.label(&n),
                    _ => panic!("switch"),
                };
                self.skip_nl();
                self.exp('[');
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eatp(']') {
                        break;
                    }
                    let ct = self.ty();
                    let cv = match self.cval(&ct) {
                        V::C(c) => c,
                        _ => panic!("case"),
                    };
                    self.exp(',');
                    assert!(self.eatw("label"));
                    let l = match self.next() {
                        Tok::L(n) => self.label(&n),
                        _ => panic!("switch"),
                    };
                    cases.push((cv, l));
                }
                b.ins.push(Ins::Switch(t, v, dl, cases));
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    b.ins.push(Ins::Ret(t, None));
                } else {
                    let v = self.value(&t);
                    b.ins.push(Ins::Ret(t, Some(v)));
                }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "extractvalue" => {
                let (t, v) = self.opd();
                let mut idx = vec![];
                while self.eatp(',') {
                    if let Tok::N(_) = self.peek() {
                        idx.push(self.num() as u32);
                    } else {
                        break;
                    }
                }
                b.ins.push(Ins::ExtractValue(d, v, idx, t));
            }
            "insertvalue" => {
                let (t, v) = self.opd();
                self.exp(',');
                let (_, e) = self.opd();
                let mut idx = vec![];
                while self.eatp(',') {
                    if let Tok::N(_) = self.peek() {
                        idx.push(self.num() as u32);
                    } else {
                        break;
                    }
                }
                b.ins.push(Ins::InsertValue(d, t, v, e, idx));
            }
            "extractelement" => {
                let (t, v) = self.opd();
                self.exp(',');
                let (_, i) = self.opd();
                b.ins.push(Ins::ExtractElement(d, t, v, i));
            }
            "insertelement" => {
                let (t, v) = self.opd();
                self.exp(',');
                let (_, e) = self.opd();
                self.exp(',');
                let (_, i) = self.opd();
                b.ins.push(Ins::InsertElement(d, t, v, e, i));
            }
            "shufflevector" => {
                let (t, v) = self.opd();
                self.exp(',');
                let (_, u) = self.opd();
                self.exp(',');
                let (_, m) = self.opd();
                let mv = match m {
                    Opd::C(V::A(a)) => a
                        .iter()
                        .map(|x| match x {
                            V::C(c) => Some(*c as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                b.ins.push(Ins::Shuffle(d, t, v, u, mv));
            }
            "freeze" => {
                let (t, v) = self.opd();
                b.ins.push(Ins::Freeze(d, t, v));
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.opd();
                self.exp(',');
                let (t, c) = self.opd();
                self.exp(',');
                let (_, n) = self.opd();
                b.ins.push(Ins::CmpXchg(d, t, p, c, n));
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.next() {
                    Tok::W(w) => match w.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "nand" => RmwOp::Nand,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => panic!("rmw {}", w),
                    },
                    _ => panic!("rmw"),
                };
                let (_, p) = self.opd();
                self.exp(',');
                let (t, v) = self.opd();
                b.ins.push(Ins::Rmw(d, op, t, p, v));
            }
            "fence" => b.ins.push(Ins::Fence),
            "landingpad" => {
                let t = self.ty();
                // clauses on following lines
                loop {
                    let save = self.i;
                    self.to_nl();
                    self.skip_nl();
                    if self.isw("cleanup") || self.isw("catch") || self.isw("filter") {
                        self.to_nl();
                    } else {
                        self.i = save;
                        self.to_nl();
                        // position before the newline that ends the last clause
                        if save != self.i {
                            self.i = self.i.max(save);
                        }
                        break;
                    }
                }
                b.ins.push(Ins::LandingPad(d, t));
            }
            "resume" => {
                let (_, v) = self.opd();
                b.ins.push(Ins::Resume(v));
            }
            _ => panic!("unknown instruction {}", w),
        }
    }
}

fn put(blocks: &mut Vec<Option<Block>>, k: u32, b: Block) {
    while blocks.len() <= k as usize {
        blocks.push(None);
    }
    blocks[k as usize] = Some(b);
}

pub fn width(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w,
        Ty::F(w) => *w as u16,
        Ty::Ptr => 64,
        _ => panic!("width of {:?}", t),
    }
}

fn num_const(s: &str, ty: &Ty) -> V {
    match ty {
        Ty::F(w) => {
            if let Some(h) = s.strip_prefix("f0x") {
                return V::C(u64::from_str_radix(h, 16).unwrap() as u128);
            }
            if s.ends_with("nan") || s.ends_with("inf") {
                let v = if s.ends_with("nan") { f64::NAN } else { f64::INFINITY };
                let v = if s.starts_with('-') { -v } else { v };
                return V::C(if *w == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 });
            }
            if let Some(h) = s.strip_prefix("0x") {
                let bits = u64::from_str_radix(h, 16).unwrap();
                if *w == 64 {
                    V::C(bits as u128)
                } else {
                    V::C((f64::from_bits(bits) as f32).to_bits() as u128)
                }
            } else {
                let v: f64 = s.parse().unwrap_or_else(|_| panic!("float {}", s));
                if *w == 64 {
                    V::C(v.to_bits() as u128)
                } else {
                    V::C((v as f32).to_bits() as u128)
                }
            }
        }
        Ty::Int(w) => {
            let v: u128 = if let Some(r) = s.strip_prefix('-') {
                (r.parse::<u128>().unwrap()).wrapping_neg()
            } else {
                s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
            };
            V::C(v & crate::term::mask(*w))
        }
        Ty::Ptr => V::C(s.parse().unwrap()),
        _ => panic!("num_const {} {:?}", s, ty),
    }
}
