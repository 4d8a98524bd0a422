//! Byte-addressed memory: separate objects in 16 MiB slots, concrete bytes
//! with an overlay of symbolic pieces, copy-on-write between states.
use crate::ir::V;
use crate::term::{Db, Sort, T};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Rust(u64),
    Malloc,
    New,
    NewArr,
    Tls,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 undefined, 1 concrete, 2 symbolic
    pub st: Vec<u8>,
    pub sym: BTreeMap<u32, (T, u8)>,
    pub alive: bool,
    pub ro: bool,
    pub kind: Kind,
}

impl Obj {
    pub fn new(size: usize, kind: Kind, init: bool) -> Obj {
        Obj {
            data: vec![0; size],
            st: vec![init as u8; size],
            sym: BTreeMap::new(),
            alive: true,
            ro: false,
            kind,
        }
    }
    fn entry(&self, o: u32) -> Option<(u32, T, u8)> {
        let (k, (t, n)) = self.sym.range(..=o).next_back()?;
        if k + *n as u32 > o {
            Some((*k, *t, *n))
        } else {
            None
        }
    }
    fn clear(&mut self, db: &mut Db, off: u32, n: u32) {
        if self.sym.is_empty() {
            return;
        }
        let mut cur = off;
        let mut todo = vec![];
        if let Some(e) = self.entry(off) {
            todo.push(e);
            cur = e.0 + e.2 as u32;
        }
        for (k, (t, s)) in self.sym.range(cur..off + n) {
            todo.push((*k, *t, *s));
        }
        for (k, t, s) in todo {
            self.sym.remove(&k);
            for b in 0..s as u32 {
                let o = k + b;
                if o < off || o >= off + n {
                    let x = byte_of(db, t, b as u16);
                    match db.cval(x) {
                        Some(c) => {
                            self.data[o as usize] = c as u8;
                            self.st[o as usize] = 1;
                        }
                        None => {
                            self.sym.insert(o, (x, 1));
                        }
                    }
                }
            }
        }
    }
    pub fn write_c(&mut self, db: &mut Db, off: usize, n: usize, v: u128) {
        self.clear(db, off as u32, n as u32);
        let b = v.to_le_bytes();
        self.data[off..off + n].copy_from_slice(&b[..n]);
        self.st[off..off + n].fill(1);
    }
    pub fn write_u(&mut self, db: &mut Db, off: usize, n: usize) {
        self.clear(db, off as u32, n as u32);
        self.st[off..off + n].fill(0);
    }
    pub fn write_s(&mut self, db: &mut Db, off: usize, n: usize, t: T) {
        self.clear(db, off as u32, n as u32);
        debug_assert_eq!(db.width(t) as usize, n * 8);
        self.st[off..off + n].fill(2);
        self.sym.insert(off as u32, (t, n as u8));
    }
    /// value of n bytes; symbolic results have sort Bv(8n) or a float sort
    pub fn read(&self, db: &mut Db, off: usize, n: usize) -> V {
        let s = &self.st[off..off + n];
        if s.iter().all(|b| *b == 1) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[off..off + n]);
            return V::C(u128::from_le_bytes(b));
        }
        if s.iter().all(|b| *b == 0) {
            return V::U;
        }
        if let Some((t, m)) = self.sym.get(&(off as u32)) {
            if *m as usize == n {
                return V::S(*t);
            }
        }
        // assemble
        let mut acc: Option<T> = None;
        let mut i = off;
        while i < off + n {
            let piece = match self.st[i] {
                2 => {
                    let (k, t, m) = self.entry(i as u32).expect("symbolic entry");
                    let b0 = i as u32 - k;
                    let cnt = (m as u32 - b0).min((off + n - i) as u32);
                    let bits = as_bv(db, t);
                    let x = db.extract(bits, ((b0 + cnt) * 8 - 1) as u16, (b0 * 8) as u16);
                    i += cnt as usize;
                    x
                }
                1 => {
                    let x = db.bv(8, self.data[i] as u128);
                    i += 1;
                    x
                }
                _ => {
                    i += 1;
                    db.bv(8, 0)
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => db.concat(piece, a),
            });
        }
        let r = acc.unwrap();
        match db.cval(r) {
            Some(c) => V::C(c),
            None => V::S(r),
        }
    }
}

pub fn as_bv(db: &mut Db, t: T) -> T {
    match db.sort(t) {
        Sort::F(_) => db.f2bits(t),
        Sort::Bool => db.zext(t, 8),
        _ => t,
    }
}
fn byte_of(db: &mut Db, t: T, b: u16) -> T {
    let t = as_bv(db, t);
    db.extract(t, b * 8 + 7, b * 8)
}

const CH: usize = 64;
/// persistent vector of objects
#[derive(Clone, Default)]
pub struct Pv {
    ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
}
impl Pv {
    pub fn get(&self, i: usize) -> Option<&Obj> {
        self.ch.get(i / CH)?[i % CH].as_deref()
    }
    pub fn get_rc(&self, i: usize) -> Option<Rc<Obj>> {
        self.ch.get(i / CH)?[i % CH].clone()
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.ch.get_mut(i / CH)?;
        c[i % CH].as_ref()?;
        let c = Rc::make_mut(c);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.ch.len() <= i / CH {
            self.ch.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.ch[i / CH])[i % CH] = o;
    }
    pub fn iter(&self) -> impl Iterator<Item = (usize, &Obj)> {
        self.ch
            .iter()
            .enumerate()
            .flat_map(|(k, c)| c.iter().enumerate().filter_map(move |(j, o)| o.as_deref().map(|o| (k * CH + j, o))))
    }
}
impl Obj {
    /// symbolic pieces of a range, relative to its start; pieces cut by the
    /// range's ends become single bytes
    pub fn pieces(&self, db: &mut Db, off: usize, n: usize) -> Vec<(u32, T, u8)> {
        let mut out = vec![];
        if self.sym.is_empty() {
            return out;
        }
        let (a, b) = (off as u32, (off + n) as u32);
        let mut start = a;
        if let Some((k, t, s)) = self.entry(a) {
            if k < a {
                for o in a..(k + s as u32).min(b) {
                    out.push((o - a, byte_of(db, t, (o - k) as u16), 1));
                }
                start = k + s as u32;
            }
        }
        for (k, (t, s)) in self.sym.range(start..b.max(start)) {
            if k + *s as u32 <= b {
                out.push((k - a, *t, *s));
            } else {
                for o in *k..b {
                    out.push((o - a, byte_of(db, *t, (o - k) as u16), 1));
                }
            }
        }
        out
    }
}
