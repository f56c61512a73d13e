//! Program states: memory, threads, path condition.
use crate::expr::*;
use crate::ir::*;
use crate::solver::Model;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    /// per byte: 0 = concrete, otherwise TAG | expr << 8 | byte index (little endian)
    pub s: Option<Vec<u64>>,
}
pub const TAG: u64 = 1 << 63;
pub fn sb(e: Ex, i: u16) -> u64 {
    TAG | (e.0 as u64) << 8 | i as u64
}
pub fn un_sb(x: u64) -> (Ex, u16) {
    (Ex(((x & !TAG) >> 8) as u32), (x & 0xff) as u16)
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { b: vec![0; n], s: None }
    }
    pub fn set_c(&mut self, off: usize, bytes: &[u8]) {
        self.b[off..off + bytes.len()].copy_from_slice(bytes);
        if let Some(s) = &mut self.s {
            for x in &mut s[off..off + bytes.len()] {
                *x = 0;
            }
        }
    }
    pub fn set_s(&mut self, off: usize, v: u64) {
        let n = self.b.len();
        self.s.get_or_insert_with(|| vec![0; n])[off] = v;
    }
    pub fn is_sym(&self, off: usize, n: usize) -> bool {
        match &self.s {
            None => false,
            Some(s) => s[off..off + n].iter().any(|x| *x != 0),
        }
    }
}

pub const DYN_BASE: u64 = 0x0100_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub bl: u32,
    pub ip: u32,
    pub base: u32,
    pub obj: u64,
    pub dst: u32,
    pub extra: Vec<u64>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Status {
    Run,
    Futex(u64),
    Join(u32),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub vals: Vec<Val>,
    pub tls: Vec<(u32, u64)>,
    pub st: Status,
    pub result: u64,
}

#[derive(Clone)]
pub enum Ev {
    Bytes(Vec<Ex>),
    Choose(u32),
    Sched(u32),
}

#[derive(Clone, Default)]
pub struct Facts {
    lits: HashMap<u32, bool, Fx>,
    pub bind: HashMap<u32, u128, Fx>,
    terms: Vec<Ex>,
    idx: HashMap<u32, u32, Fx>,
    rel: Vec<u8>, // n*n row-major with stride CAP: 0 none, 1 <=, 2 <
    neq: Vec<(u32, u32)>,
}
const CAP: usize = 48;
impl Facts {
    fn term(&mut self, d: &Dag, e: Ex) -> Option<u32> {
        if let Some(i) = self.idx.get(&e.0) {
            return Some(*i);
        }
        if self.terms.len() >= CAP {
            return None;
        }
        let i = self.terms.len() as u32;
        self.terms.push(e);
        self.idx.insert(e.0, i);
        self.rel.resize(self.terms.len() * CAP, 0);
        self.rel[i as usize * CAP + i as usize] = 1;
        if let Some(k) = d.k(e) {
            for j in 0..i {
                let t = self.terms[j as usize];
                if d.w(t) == d.w(e) {
                    if let Some(kj) = d.k(t) {
                        if kj < k {
                            self.add_rel(j, i, 2);
                        } else {
                            self.add_rel(i, j, 2);
                        }
                    }
                }
            }
        }
        Some(i)
    }
    fn r(&self, i: u32, j: u32) -> u8 {
        self.rel[i as usize * CAP + j as usize]
    }
    fn add_rel(&mut self, i: u32, j: u32, s: u8) {
        let s = if s == 1 && (self.neq.contains(&(i, j)) || self.neq.contains(&(j, i))) { 2 } else { s };
        if self.r(i, j) >= s {
            return;
        }
        let n = self.terms.len() as u32;
        for p in 0..n {
            let pi = self.r(p, i);
            if pi == 0 {
                continue;
            }
            for q in 0..n {
                let jq = self.r(j, q);
                if jq == 0 {
                    continue;
                }
                let v = pi.max(s).max(jq);
                let c = &mut self.rel[p as usize * CAP + q as usize];
                if *c < v && p != q {
                    *c = v;
                }
            }
        }
    }
    /// Records that literal `e` has truth value `v`.
    pub fn set(&mut self, d: &Dag, e: Ex, v: bool) {
        let n = *d.n(e);
        match n.op {
            Op::Const => return,
            Op::Not => return self.set(d, Ex(n.a), !v),
            _ => {}
        }
        if self.lits.insert(e.0, v) == Some(v) {
            return;
        }
        match (n.op, v) {
            (Op::And, true) | (Op::Or, false) => {
                self.set(d, Ex(n.a), v);
                self.set(d, Ex(n.b), v);
            }
            (Op::Eq, _) => {
                let (a, b) = (Ex(n.a), Ex(n.b));
                if v {
                    if let Some(k) = d.k(b) {
                        self.bind.insert(a.0, k);
                    }
                }
                if d.w(a) >= 32 {
                    if let (Some(i), Some(j)) = (self.term(d, a), self.term(d, b)) {
                        if v {
                            self.add_rel(i, j, 1);
                            self.add_rel(j, i, 1);
                        } else {
                            self.neq.push((i, j));
                            if self.r(i, j) == 1 {
                                self.add_rel(i, j, 2);
                            }
                            if self.r(j, i) == 1 {
                                self.add_rel(j, i, 2);
                            }
                        }
                    }
                }
            }
            (Op::Ult, _) => {
                let (a, b) = (Ex(n.a), Ex(n.b));
                if d.w(a) >= 32 {
                    if let (Some(i), Some(j)) = (self.term(d, a), self.term(d, b)) {
                        if v {
                            self.add_rel(i, j, 2);
                        } else {
                            self.add_rel(j, i, 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    pub fn decide(&self, d: &Dag, e: Ex) -> Option<bool> {
        let n = d.n(e);
        match n.op {
            Op::Const => return Some(n.k == 1),
            Op::Not => return self.decide(d, Ex(n.a)).map(|x| !x),
            _ => {}
        }
        if let Some(v) = self.lits.get(&e.0) {
            return Some(*v);
        }
        match n.op {
            Op::And => match (self.decide(d, Ex(n.a)), self.decide(d, Ex(n.b))) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.decide(d, Ex(n.a)), self.decide(d, Ex(n.b))) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Xor => match (self.decide(d, Ex(n.a)), self.decide(d, Ex(n.b))) {
                (Some(a), Some(b)) => Some(a != b),
                _ => None,
            },
            Op::Ite => match self.decide(d, Ex(n.a)) {
                Some(true) => self.decide(d, Ex(n.b)),
                Some(false) => self.decide(d, Ex(n.c)),
                None => None,
            },
            Op::Eq | Op::Ult => {
                if let (Some(a), Some(b)) = (self.val(d, Ex(n.a)), self.val(d, Ex(n.b))) {
                    return Some(if n.op == Op::Eq { a == b } else { a < b });
                }
                let (i, j) = (*self.idx.get(&n.a)?, *self.idx.get(&n.b)?);
                let (ij, ji) = (self.r(i, j), self.r(j, i));
                if n.op == Op::Eq {
                    if ij == 2 || ji == 2 {
                        return Some(false);
                    }
                    if ij == 1 && ji == 1 {
                        return Some(true);
                    }
                    // transitively unequal through equal terms
                    for (p, q) in &self.neq {
                        let eq = |x: u32, y: u32| x == y || (self.r(x, y) == 1 && self.r(y, x) == 1);
                        if (eq(*p, i) && eq(*q, j)) || (eq(*p, j) && eq(*q, i)) {
                            return Some(false);
                        }
                    }
                    None
                } else {
                    if ij == 2 {
                        return Some(true);
                    }
                    if ji >= 1 {
                        return Some(false);
                    }
                    None
                }
            }
            _ => None,
        }
    }
    pub fn val(&self, d: &Dag, e: Ex) -> Option<u128> {
        d.k(e).or_else(|| self.bind.get(&e.0).copied())
    }
}

#[derive(Clone)]
pub struct State {
    pub dynm: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub mglob: Vec<Option<Rc<Obj>>>,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<Ex>,
    pub facts: Facts,
    pub model: Rc<Model>,
    pub trace: Vec<Ev>,
    pub forced: Option<u32>,
    pub steps: u64,
    pub depth: u32,
    pub preempt: u32,
    pub delays: u32,
    pub started: bool,
    pub nvar: u32,
    pub notes: Vec<(String, Vec<Ex>)>,
    pub clock: Vec<Ex>,
}
