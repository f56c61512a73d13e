//! Hash-consed bit-vector expressions (width <= 128).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Bswap,
    // IEEE double / single operations on bit patterns; width of the result
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    UToF,
    SToF,
    FToU, // saturating is not modelled: in-range only
    FToS,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Dag {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32, Fx>,
    pub vars: Vec<(String, u16)>,
    varsets: Vec<Option<Rc<[u32]>>>,
    /// least and greatest value of each node, as far as its structure tells
    rg: Vec<(u128, u128)>,
}

#[derive(Clone, Default)]
pub struct Fx;
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
pub fn bswap_k(v: u128, w: u16) -> u128 {
    v.swap_bytes() >> (128 - w as u32)
}

pub fn fold2(op: Op, w: u16, x: u128, y: u128) -> u128 {
    // w = operand width
    let m = mask(w);
    (match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => x.checked_div(y).unwrap_or(m),
        Op::URem => x.checked_rem(y).unwrap_or(x),
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w);
            (if y >= w as u128 { s >> 127 } else { s >> y }) as u128
        }
        Op::Eq => return (x == y) as u128,
        Op::Ult => return (x < y) as u128,
        Op::Slt => return (sext(x, w) < sext(y, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                })
                .to_bits() as u128
            } else {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                })
                .to_bits() as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe => {
            let (a, b) = if w == 64 {
                (f64::from_bits(x as u64), f64::from_bits(y as u64))
            } else {
                (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
            };
            return (match op {
                Op::FEq => a == b,
                Op::FLt => a < b,
                _ => a <= b,
            }) as u128;
        }
        _ => unreachable!("fold2 {:?}", op),
    }) & m
}
/// Unary folds with a change of width: `w` is the operand width, `rw` the result.
pub fn fold1(op: Op, w: u16, rw: u16, x: u128) -> u128 {
    (match op {
        Op::Not => !x,
        Op::ZExt => x,
        Op::SExt => sext(x, w) as u128,
        Op::Bswap => bswap_k(x, w),
        Op::UToF => {
            if rw == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            if rw == 64 {
                (sext(x, w) as f64).to_bits() as u128
            } else {
                (sext(x, w) as f32).to_bits() as u128
            }
        }
        Op::FToU | Op::FToS => {
            let f = if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            if op == Op::FToU {
                f as u128
            } else {
                f as i128 as u128
            }
        }
        _ => unreachable!("fold1 {:?}", op),
    }) & mask(rw)
}

impl Dag {
    pub fn new() -> Dag {
        let mut d = Dag { nodes: vec![], map: HashMap::with_hasher(Fx), vars: vec![], varsets: vec![], rg: vec![] };
        d.c(1, 0);
        d.c(1, 1);
        d
    }
    pub const F: Ex = Ex(0);
    pub const T: Ex = Ex(1);
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(i) = self.map.get(&n) {
            return Ex(*i);
        }
        let r = self.range(&n);
        if r.0 == r.1 && n.op != Op::Const {
            return self.c(n.w, r.0);
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.varsets.push(None);
        self.rg.push(r);
        self.map.insert(n, i);
        Ex(i)
    }
    /// Bounds of a new node from those of its operands (unsigned).
    fn range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        let g = |i: u32| self.rg[i as usize];
        // all ones up to the highest bit
        let fill = |x: u128| if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() };
        match n.op {
            Op::Const => (n.k, n.k),
            Op::And => (0, g(n.a).1.min(g(n.b).1)),
            Op::Or => (g(n.a).0.max(g(n.b).0), fill(g(n.a).1 | g(n.b).1)),
            Op::Xor => (0, fill(g(n.a).1 | g(n.b).1)),
            Op::Add => {
                let ((a, b), (c, d)) = (g(n.a), g(n.b));
                let (lo, hi) = (a.checked_add(c), b.checked_add(d));
                match (lo, hi) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    (Some(l), Some(h)) if l > m && n.w < 127 => (l & m, h & m),
                    (None, None) if n.w == 128 => (a.wrapping_add(c), b.wrapping_add(d)),
                    _ => full,
                }
            }
            Op::Sub => {
                let ((a, b), (c, d)) = (g(n.a), g(n.b));
                if a >= d {
                    (a - d, b - c)
                } else if b < c {
                    (a.wrapping_sub(d) & m, b.wrapping_sub(c) & m)
                } else {
                    full
                }
            }
            Op::Mul => {
                let ((a, b), (c, d)) = (g(n.a), g(n.b));
                match b.checked_mul(d) {
                    Some(h) if h <= m => (a * c, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let ((a, b), (c, d)) = (g(n.a), g(n.b));
                if c > 0 {
                    (a / d, b / c)
                } else {
                    full
                }
            }
            Op::URem => {
                let ((_, b), (c, d)) = (g(n.a), g(n.b));
                if c > 0 {
                    (0, b.min(d - 1))
                } else {
                    (0, b.max(d))
                }
            }
            Op::LShr => (0, g(n.a).1),
            Op::Ite => (g(n.b).0.min(g(n.c).0), g(n.b).1.max(g(n.c).1)),
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                ((g(n.a).0 << lw) | g(n.b).0, (g(n.a).1 << lw) | g(n.b).1)
            }
            Op::Extract => {
                let (a, b) = g(n.a);
                let (a, b) = (a >> n.k, b >> n.k);
                if b <= m {
                    (a, b)
                } else {
                    full
                }
            }
            Op::ZExt => g(n.a),
            Op::SExt => {
                let iw = self.nodes[n.a as usize].w;
                if g(n.a).1 >> (iw - 1) == 0 {
                    g(n.a)
                } else {
                    full
                }
            }
            _ => full,
        }
    }
    /// Least and greatest value.
    pub fn bounds(&self, e: Ex) -> (u128, u128) {
        self.rg[e.0 as usize]
    }
    pub fn n(&self, e: Ex) -> &Node {
        &self.nodes[e.0 as usize]
    }
    pub fn w(&self, e: Ex) -> u16 {
        self.n(e).w
    }
    pub fn c(&mut self, w: u16, k: u128) -> Ex {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u16) -> Ex {
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        self.mk(Node { op: Op::Var, w, a: id, b: 0, c: 0, k: 0 })
    }
    pub fn k(&self, e: Ex) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn b2(&mut self, op: Op, w: u16, a: Ex, b: Ex) -> Ex {
        self.mk(Node { op, w, a: a.0, b: b.0, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = *self.n(a);
        match n.op {
            Op::Const => self.c(n.w, !n.k),
            Op::Not => Ex(n.a),
            _ => self.mk(Node { op: Op::Not, w: n.w, a: a.0, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::And, a, b)
    }
    /// Flattens a concatenation: most significant first.
    fn segs(&self, e: Ex, out: &mut Vec<(u16, Ex)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.segs(Ex(n.a), out);
                self.segs(Ex(n.b), out);
            }
            _ => out.push((n.w, e)),
        }
    }
    fn has_segs(&self, e: Ex) -> bool {
        let n = self.n(e);
        matches!(n.op, Op::Concat | Op::ZExt)
    }
    /// Like `segs` with a zero-extension seen as constant zero bits on top.
    fn zsegs(&mut self, e: Ex) -> Vec<(u16, Ex)> {
        let n = *self.n(e);
        let mut v = vec![];
        if n.op == Op::ZExt {
            let iw = self.w(Ex(n.a));
            let z = self.c(n.w - iw, 0);
            v.push((n.w - iw, z));
            self.segs(Ex(n.a), &mut v);
        } else {
            self.segs(e, &mut v);
        }
        v
    }
    fn try_segwise(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        if !self.has_segs(a) && !self.has_segs(b) {
            return None;
        }
        let sa = self.zsegs(a);
        let sb = self.zsegs(b);
        if sa.len() + sb.len() < 3 || sa.len() > 40 || sb.len() > 40 {
            return None;
        }
        // every aligned piece must have a constant 0 (or all-ones) on one side
        let w = self.w(a);
        let mut cuts: Vec<u16> = vec![];
        for s in [&sa, &sb] {
            let mut p = 0;
            for (sw, _) in s {
                p += sw;
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut pieces: Vec<Ex> = vec![];
        let mut lo_from_top = 0u16;
        let piece = |d: &Dag, s: &Vec<(u16, Ex)>, from: u16, to: u16| -> (Ex, u16, u16) {
            // returns (seg, hi, lo) within the segment
            let mut p = 0;
            for (sw, e) in s {
                if from >= p && to <= p + sw {
                    let hi = sw - 1 - (from - p);
                    let lo = sw - (to - p);
                    return (*e, hi, lo);
                }
                p += sw;
            }
            let _ = d;
            unreachable!()
        };
        for c in cuts {
            let (ea, ha, la) = piece(self, &sa, lo_from_top, c);
            let (eb, hb, lb) = piece(self, &sb, lo_from_top, c);
            let pw = c - lo_from_top;
            lo_from_top = c;
            let ka = self.k(ea).map(|k| (k >> la) & mask(pw));
            let kb = self.k(eb).map(|k| (k >> lb) & mask(pw));
            let m = mask(pw);
            let r = match (op, ka, kb) {
                (_, Some(x), Some(y)) if op != Op::Add => Some(self.c(pw, fold2(op, pw, x, y))),
                (Op::Or | Op::Xor | Op::Add, Some(0), _) => Some(self.extract(eb, hb, lb)),
                (Op::Or | Op::Xor | Op::Add, _, Some(0)) => Some(self.extract(ea, ha, la)),
                (Op::Or, Some(x), _) | (Op::Or, _, Some(x)) if x == m => Some(self.c(pw, m)),
                (Op::And, Some(0), _) | (Op::And, _, Some(0)) => Some(self.c(pw, 0)),
                (Op::And, Some(x), _) if x == m => Some(self.extract(eb, hb, lb)),
                (Op::And, _, Some(x)) if x == m => Some(self.extract(ea, ha, la)),
                _ if op != Op::Add && (ka.is_some() || kb.is_some()) && false => None,
                _ => None,
            };
            pieces.push(r?);
        }
        debug_assert_eq!(lo_from_top, w);
        let mut it = pieces.into_iter();
        let mut r = it.next().unwrap();
        for p in it {
            r = self.concat(r, p);
        }
        Some(r)
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let rw = match op {
                Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe => 1,
                _ => w,
            };
            return self.c(rw, fold2(op, w, x, y));
        }
        if matches!(op, Op::FEq | Op::FLt | Op::FLe) {
            return self.fcmp(op, a, b);
        }
        let m = mask(w);
        match op {
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul => {
                // constant to the right; otherwise order by id
                let (a, b, kb) = if ka.is_some() || (kb.is_none() && a.0 > b.0) { (b, a, ka) } else { (a, b, kb) };
                match (op, kb) {
                    (Op::And, Some(0)) | (Op::Mul, Some(0)) => return self.c(w, 0),
                    (Op::And, Some(x)) if x == m => return a,
                    (Op::Or | Op::Xor | Op::Add, Some(0)) => return a,
                    (Op::Or, Some(x)) if x == m => return self.c(w, m),
                    (Op::Xor, Some(x)) if x == m => return self.not(a),
                    (Op::Mul, Some(1)) => return a,
                    (Op::Mul, Some(x)) if x.is_power_of_two() => {
                        let s = self.c(w, x.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                    _ => {}
                }
                if a == b {
                    match op {
                        Op::And | Op::Or => return a,
                        Op::Xor => return self.c(w, 0),
                        _ => {}
                    }
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if (na.op == Op::Not && na.a == b.0) || (nb.op == Op::Not && nb.a == a.0) {
                    match op {
                        Op::And => return self.c(w, 0),
                        Op::Or | Op::Xor => return self.c(w, m),
                        _ => {}
                    }
                }
                // (x op k1) op k2
                if let Some(k2) = kb {
                    if na.op == op {
                        if let Some(k1) = self.k(Ex(na.b)) {
                            let k = self.c(w, fold2(op, w, k1, k2));
                            return self.bin(op, Ex(na.a), k);
                        }
                    }
                    if op == Op::And {
                        // mask of a contiguous run
                        let lo = k2.trailing_zeros() as u16;
                        let run = (!(k2 >> lo)).trailing_zeros() as u16;
                        if run < 128 && (k2 >> lo) == mask(run) && lo + run <= w {
                            let e = self.extract(a, lo + run - 1, lo);
                            let z = if lo > 0 {
                                let z = self.c(lo, 0);
                                self.concat(e, z)
                            } else {
                                e
                            };
                            return self.zext(z, w);
                        }
                    }
                    if na.op == Op::Ite && op != Op::Mul {
                        // push constants into small selects
                        if self.k(Ex(na.b)).is_some() && self.k(Ex(na.c)).is_some() {
                            let t = self.bin(op, Ex(na.b), b);
                            let f = self.bin(op, Ex(na.c), b);
                            return self.ite(Ex(na.a), t, f);
                        }
                    }
                }
                if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add) {
                    if let Some(r) = self.try_segwise(op, a, b) {
                        return r;
                    }
                }
                if op == Op::Xor && na.op == Op::Not && nb.op == Op::Not {
                    return self.bin(Op::Xor, Ex(na.a), Ex(nb.a));
                }
                self.b2(op, w, a, b)
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(y) = kb {
                    let k = self.c(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                self.b2(op, w, a, b)
            }
            Op::UDiv | Op::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let s = y.trailing_zeros() as u16;
                        if op == Op::UDiv {
                            let k = self.c(w, s as u128);
                            return self.bin(Op::LShr, a, k);
                        }
                        let k = self.c(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                    let n = *self.n(a);
                    if op == Op::UDiv && y > 1 && n.op == Op::UDiv {
                        if let Some(z) = self.k(Ex(n.b)) {
                            // (x / z) / y
                            return match y.checked_mul(z) {
                                Some(p) if p <= m => {
                                    let k = self.c(w, p);
                                    self.bin(op, Ex(n.a), k)
                                }
                                _ => self.c(w, 0),
                            };
                        }
                    }
                    if y > 1 {
                        let (lo, hi) = self.bounds(a);
                        let q = lo / y;
                        if q > 0 {
                            // x / y = q + (x - q*y) / y
                            let k = self.c(w, q * y);
                            let x = self.bin(Op::Sub, a, k);
                            let r = self.bin(op, x, b);
                            if op == Op::URem {
                                return r;
                            }
                            let k = self.c(w, q);
                            return self.bin(Op::Add, r, k);
                        }
                        if hi < y {
                            return if op == Op::URem { a } else { self.c(w, 0) };
                        }
                        if hi / 2 < y && hi < 2 * y.min(m / 2) {
                            let c = self.ult(a, b);
                            let (t, f) = if op == Op::URem {
                                let d = self.bin(Op::Sub, a, b);
                                (a, d)
                            } else {
                                (self.c(w, 0), self.c(w, 1))
                            };
                            let r = self.ite(c, t, f);
                            if op == Op::URem && self.k(r).is_none() {
                                let g = &mut self.rg[r.0 as usize];
                                g.1 = g.1.min(y - 1);
                            }
                            return r;
                        }
                        let v = 128 - hi.leading_zeros() as u16;
                        if v < w {
                            // no more bits than the operands have
                            let x = self.trunc(a, v);
                            let y = self.c(v, y);
                            let r = self.bin(op, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
                self.b2(op, w, a, b)
            }
            Op::Shl => {
                if let Some(s) = kb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let e = self.extract(a, w - 1 - s as u16, 0);
                    let z = self.c(s as u16, 0);
                    return self.concat(e, z);
                }
                if ka == Some(0) {
                    return a;
                }
                self.b2(op, w, a, b)
            }
            Op::LShr => {
                if let Some(s) = kb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let e = self.extract(a, w - 1, s as u16);
                    return self.zext(e, w);
                }
                if ka == Some(0) {
                    return a;
                }
                self.b2(op, w, a, b)
            }
            Op::AShr => {
                if let Some(s) = kb {
                    if s == 0 {
                        return a;
                    }
                    let s = s.min(w as u128 - 1) as u16;
                    let e = self.extract(a, w - 1, s);
                    return self.sext(e, w);
                }
                self.b2(op, w, a, b)
            }
            Op::SDiv | Op::SRem => self.b2(op, w, a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => {
                if a == b {
                    return Self::F;
                }
                if w == 1 {
                    // signed: 1 is -1
                    let nb = self.not(b);
                    return self.bin(Op::And, a, nb);
                }
                let ((al, ah), (bl, bh)) = (self.bounds(a), self.bounds(b));
                let half = 1u128 << (w - 1);
                let (sa, sb) = ((al >= half, ah >= half), (bl >= half, bh >= half));
                if sa.0 == sa.1 && sb.0 == sb.1 {
                    // both signs are known
                    if sa.0 != sb.0 {
                        return self.c(1, sa.0 as u128);
                    }
                    return self.ult(a, b);
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                // x < 0  is the sign bit
                if kb == Some(0) {
                    return self.extract(a, w - 1, w - 1);
                }
                if kb == Some(m) && false {
                    return Self::F;
                }
                if ka == Some(m) {
                    // -1 < x  iff !(x < 0)
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if na.op == Op::ZExt && (nb.op == Op::ZExt || (kb.is_some() && kb.unwrap() >> (w - 1) == 0)) {
                    return self.ult(a, b);
                }
                if nb.op == Op::ZExt && ka.is_some() && ka.unwrap() >> (w - 1) == 0 {
                    return self.ult(a, b);
                }
                if na.op == Op::Ite && kb.is_some() {
                    if let Some(r) = self.lift_ite(Op::Slt, na, b, false) {
                        return r;
                    }
                }
                if nb.op == Op::Ite && ka.is_some() {
                    if let Some(r) = self.lift_ite(Op::Slt, nb, a, true) {
                        return r;
                    }
                }
                self.b2(Op::Slt, 1, a, b)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => self.b2(op, w, a, b),
            Op::FEq | Op::FLt | Op::FLe => self.b2(op, 1, a, b),
            _ => unreachable!(),
        }
    }
    /// cmp(ite(c, k1, rest), k): distribute when the leaves are constants.
    fn lift_ite(&mut self, op: Op, n: Node, other: Ex, swap: bool) -> Option<Ex> {
        let ok = |d: &Dag, e: u32| {
            let m = d.n(Ex(e));
            m.op == Op::Const || m.op == Op::Ite
        };
        if !ok(self, n.b) || !ok(self, n.c) {
            return None;
        }
        let (t, f) = if swap {
            (self.bin(op, other, Ex(n.b)), self.bin(op, other, Ex(n.c)))
        } else {
            (self.bin(op, Ex(n.b), other), self.bin(op, Ex(n.c), other))
        };
        Some(self.ite(Ex(n.a), t, f))
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return Self::T;
        }
        let (a, b) = if self.k(a).is_some() || (self.k(b).is_none() && a.0 > b.0) { (b, a) } else { (a, b) };
        let w = self.w(a);
        let (na, nb) = (*self.n(a), *self.n(b));
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.c(1, (na.k == nb.k) as u128);
        }
        let ((al, ah), (bl, bh)) = (self.bounds(a), self.bounds(b));
        if ah < bl || bh < al {
            return Self::F;
        }
        let kb = self.k(b);
        if w == 1 {
            if let Some(k) = kb {
                return if k == 1 { a } else { self.not(a) };
            }
            if na.op == Op::Not && nb.op == Op::Not {
                return self.eq(Ex(na.a), Ex(nb.a));
            }
            if na.op == Op::Not {
                let e = self.eq(Ex(na.a), b);
                return self.not(e);
            }
            if nb.op == Op::Not {
                let e = self.eq(a, Ex(nb.a));
                return self.not(e);
            }
        }
        if na.op == Op::Bswap && nb.op == Op::Bswap {
            return self.eq(Ex(na.a), Ex(nb.a));
        }
        if na.op == Op::Not && nb.op == Op::Not {
            return self.eq(Ex(na.a), Ex(nb.a));
        }
        if let Some(k) = kb {
            match na.op {
                Op::Bswap => {
                    let k = self.c(w, bswap_k(k, w));
                    return self.eq(Ex(na.a), k);
                }
                Op::Not => {
                    let k = self.c(w, !k);
                    return self.eq(Ex(na.a), k);
                }
                Op::ZExt => {
                    let iw = self.w(Ex(na.a));
                    if k >> iw != 0 {
                        return Self::F;
                    }
                    let k = self.c(iw, k);
                    return self.eq(Ex(na.a), k);
                }
                Op::SExt => {
                    let iw = self.w(Ex(na.a));
                    if (sext(k & mask(iw), iw) as u128) & mask(w) != k {
                        return Self::F;
                    }
                    let k = self.c(iw, k);
                    return self.eq(Ex(na.a), k);
                }
                Op::Concat => {
                    let lw = self.w(Ex(na.b));
                    let kh = self.c(w - lw, k >> lw);
                    let kl = self.c(lw, k);
                    let h = self.eq(Ex(na.a), kh);
                    if h == Self::F {
                        return h;
                    }
                    let l = self.eq(Ex(na.b), kl);
                    return self.bin(Op::And, h, l);
                }
                Op::Add => {
                    if let Some(k1) = self.k(Ex(na.b)) {
                        let k = self.c(w, k.wrapping_sub(k1));
                        return self.eq(Ex(na.a), k);
                    }
                }
                Op::Xor => {
                    if let Some(k1) = self.k(Ex(na.b)) {
                        let k = self.c(w, k ^ k1);
                        return self.eq(Ex(na.a), k);
                    }
                    if k == 0 {
                        return self.eq(Ex(na.a), Ex(na.b));
                    }
                }
                Op::Sub if k == 0 => return self.eq(Ex(na.a), Ex(na.b)),
                Op::Or if k == 0 => {
                    let z = self.c(w, 0);
                    let x = self.eq(Ex(na.a), z);
                    let y = self.eq(Ex(na.b), z);
                    return self.bin(Op::And, x, y);
                }
                Op::Ite => {
                    if let Some(r) = self.lift_ite(Op::Eq, na, b, false) {
                        return r;
                    }
                }
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (x, y) = (Ex(na.a), Ex(nb.a));
            let (wx, wy) = (self.w(x), self.w(y));
            let m = wx.max(wy);
            let x = self.zext(x, m);
            let y = self.zext(y, m);
            if m < w {
                return self.eq(x, y);
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat {
            let (wa, wb) = (self.w(Ex(na.b)), self.w(Ex(nb.b)));
            if wa == wb {
                let h = self.eq(Ex(na.a), Ex(nb.a));
                if h == Self::F {
                    return h;
                }
                let l = self.eq(Ex(na.b), Ex(nb.b));
                return self.bin(Op::And, h, l);
            }
        }
        self.b2(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(1, (x < y) as u128);
        }
        let m = mask(w);
        if kb == Some(0) || ka == Some(m) {
            return Self::F;
        }
        let ((al, ah), (bl, bh)) = (self.bounds(a), self.bounds(b));
        if ah < bl {
            return Self::T;
        }
        if al >= bh {
            return Self::F;
        }
        if w == 1 {
            let na = self.not(a);
            return self.bin(Op::And, na, b);
        }
        if kb == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if kb == Some(m) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(Ex(na.a));
            if let Some(k) = kb {
                if k > mask(iw) {
                    return Self::T;
                }
                let k = self.c(iw, k);
                return self.ult(Ex(na.a), k);
            }
            if nb.op == Op::ZExt {
                let jw = self.w(Ex(nb.a));
                let mw = iw.max(jw);
                if mw < w {
                    let x = self.zext(Ex(na.a), mw);
                    let y = self.zext(Ex(nb.a), mw);
                    return self.ult(x, y);
                }
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(Ex(nb.a));
            if let Some(k) = ka {
                if k >= mask(iw) {
                    return Self::F;
                }
                let k = self.c(iw, k);
                return self.ult(k, Ex(nb.a));
            }
        }
        if na.op == Op::Ite && kb.is_some() {
            if let Some(r) = self.lift_ite(Op::Ult, na, b, false) {
                return r;
            }
        }
        if nb.op == Op::Ite && ka.is_some() {
            if let Some(r) = self.lift_ite(Op::Ult, nb, a, true) {
                return r;
            }
        }
        self.b2(Op::Ult, 1, a, b)
    }
    pub fn ite(&mut self, c: Ex, t: Ex, f: Ex) -> Ex {
        if t == f {
            return t;
        }
        match self.k(c) {
            Some(1) => return t,
            Some(_) => return f,
            None => {}
        }
        let nc = *self.n(c);
        if nc.op == Op::Not {
            return self.ite(Ex(nc.a), f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.k(t), self.k(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let (nt, nf) = (*self.n(t), *self.n(f));
        if nt.op == Op::Ite && nt.a == c.0 {
            return self.ite(c, Ex(nt.b), f);
        }
        if nf.op == Op::Ite && nf.a == c.0 {
            return self.ite(c, t, Ex(nf.c));
        }
        if nf.op == Op::Ite && nf.b == t.0 {
            let d = self.bin(Op::Or, c, Ex(nf.a));
            return self.ite(d, t, Ex(nf.c));
        }
        self.mk(Node { op: Op::Ite, w, a: c.0, b: t.0, c: f.0, k: 0 })
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (*self.n(h), *self.n(l));
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat too wide");
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.c(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k as u16 == nl.k as u16 + nl.w {
            return self.extract(Ex(nh.a), nh.k as u16 + nh.w - 1, nl.k as u16);
        }
        // (x ++ ext) ++ ext'
        if nh.op == Op::Concat {
            let nb = *self.n(Ex(nh.b));
            if (nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.k as u16 == nl.k as u16 + nl.w)
                || (nb.op == Op::Const && nl.op == Op::Const)
            {
                let m = self.concat(Ex(nh.b), l);
                return self.concat(Ex(nh.a), m);
            }
        }
        if nh.op == Op::ZExt {
            let m = self.concat(Ex(nh.a), l);
            return self.zext(m, w);
        }
        // right-assoc inner merge: h ++ (a ++ b)
        if nl.op == Op::Concat {
            let na = *self.n(Ex(nl.a));
            if (na.op == Op::Extract && nh.op == Op::Extract && na.a == nh.a && nh.k as u16 == na.k as u16 + na.w)
                || (na.op == Op::Const && nh.op == Op::Const)
            {
                let m = self.concat(h, Ex(nl.a));
                return self.concat(m, Ex(nl.b));
            }
            // normalise to left association
            let m = self.concat(h, Ex(nl.a));
            return self.concat(m, Ex(nl.b));
        }
        self.mk(Node { op: Op::Concat, w, a: h.0, b: l.0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: Ex, hi: u16, lo: u16) -> Ex {
        let n = *self.n(e);
        let w = hi - lo + 1;
        debug_assert!(hi < n.w);
        if w == n.w {
            return e;
        }
        match n.op {
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => self.extract(Ex(n.a), hi + n.k as u16, lo + n.k as u16),
            Op::Concat => {
                let lw = self.w(Ex(n.b));
                if hi < lw {
                    self.extract(Ex(n.b), hi, lo)
                } else if lo >= lw {
                    self.extract(Ex(n.a), hi - lw, lo - lw)
                } else {
                    let l = self.extract(Ex(n.b), lw - 1, lo);
                    let h = self.extract(Ex(n.a), hi - lw, 0);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(Ex(n.a));
                if hi < iw {
                    self.extract(Ex(n.a), hi, lo)
                } else if lo >= iw {
                    self.c(w, 0)
                } else {
                    let x = self.extract(Ex(n.a), iw - 1, lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(Ex(n.a));
                if hi < iw {
                    self.extract(Ex(n.a), hi, lo)
                } else if lo < iw {
                    let x = self.extract(Ex(n.a), iw - 1, lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(Ex(n.a), iw - 1, iw - 1);
                    self.sext(x, w)
                }
            }
            Op::Bswap if lo % 8 == 0 && (hi + 1) % 8 == 0 => {
                // bytes reversed
                let nh = n.w - 1 - lo;
                let nl = n.w - 1 - hi;
                let x = self.extract(Ex(n.a), nh, nl);
                self.bswap(x)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(Ex(n.a), hi, lo);
                let y = self.extract(Ex(n.b), hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(Ex(n.a), hi, lo);
                self.not(x)
            }
            Op::Ite => {
                let x = self.extract(Ex(n.b), hi, lo);
                let y = self.extract(Ex(n.c), hi, lo);
                self.ite(Ex(n.a), x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(Ex(n.a), hi, lo);
                let y = self.extract(Ex(n.b), hi, lo);
                self.bin(n.op, x, y)
            }
            _ => self.mk(Node { op: Op::Extract, w, a: e.0, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn zext(&mut self, e: Ex, w: u16) -> Ex {
        let n = *self.n(e);
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => self.c(w, n.k),
            Op::ZExt => self.zext(Ex(n.a), w),
            Op::Ite if self.k(Ex(n.b)).is_some() && self.k(Ex(n.c)).is_some() => {
                let t = self.zext(Ex(n.b), w);
                let f = self.zext(Ex(n.c), w);
                self.ite(Ex(n.a), t, f)
            }
            _ => self.mk(Node { op: Op::ZExt, w, a: e.0, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, e: Ex, w: u16) -> Ex {
        let n = *self.n(e);
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => self.c(w, sext(n.k, n.w) as u128),
            Op::SExt => self.sext(Ex(n.a), w),
            Op::ZExt => self.zext(Ex(n.a), w),
            Op::Ite if self.k(Ex(n.b)).is_some() && self.k(Ex(n.c)).is_some() => {
                let t = self.sext(Ex(n.b), w);
                let f = self.sext(Ex(n.c), w);
                self.ite(Ex(n.a), t, f)
            }
            _ => self.mk(Node { op: Op::SExt, w, a: e.0, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn trunc(&mut self, e: Ex, w: u16) -> Ex {
        self.extract(e, w - 1, 0)
    }
    pub fn bswap(&mut self, e: Ex) -> Ex {
        let n = *self.n(e);
        if n.w == 8 {
            return e;
        }
        match n.op {
            Op::Const => self.c(n.w, bswap_k(n.k, n.w)),
            Op::Bswap => Ex(n.a),
            Op::Concat if self.w(Ex(n.b)) % 8 == 0 => {
                let l = self.bswap(Ex(n.b));
                let h = self.bswap(Ex(n.a));
                self.concat(l, h)
            }
            Op::ZExt if self.w(Ex(n.a)) % 8 == 0 => {
                let iw = self.w(Ex(n.a));
                let x = self.bswap(Ex(n.a));
                let z = self.c(n.w - iw, 0);
                self.concat(x, z)
            }
            _ => self.mk(Node { op: Op::Bswap, w: n.w, a: e.0, b: 0, c: 0, k: 0 }),
        }
    }
    /// Layout of a float of width w: mantissa bits, exponent mask, bias.
    fn flay(w: u16) -> (u16, u128, u128) {
        if w == 64 {
            (52, 0x7ff, 1023)
        } else {
            (23, 0xff, 127)
        }
    }
    pub fn fnan(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let (m, e, _) = Self::flay(w);
        let mk = self.c(w, mask(w) >> 1);
        let a = self.bin(Op::And, x, mk);
        let inf = self.c(w, e << m);
        self.ult(inf, a)
    }
    /// IEEE comparisons by bit patterns; op is FEq, FLt or FLe.
    pub fn fcmp(&mut self, op: Op, x: Ex, y: Ex) -> Ex {
        let w = self.w(x);
        let (nx, ny) = (self.fnan(x), self.fnan(y));
        let nn = self.bin(Op::Or, nx, ny);
        let ord = self.not(nn);
        let mk = self.c(w, mask(w) >> 1);
        let xy = self.bin(Op::Or, x, y);
        let mag = self.bin(Op::And, xy, mk);
        let z = self.c(w, 0);
        let zz = self.eq(mag, z);
        let same = self.eq(x, y);
        let eq = self.bin(Op::Or, same, zz);
        if op == Op::FEq {
            return self.and1(ord, eq);
        }
        // total order of non-NaN values: flip so that it is a signed order
        let (sx, sy) = (self.extract(x, w - 1, w - 1), self.extract(y, w - 1, w - 1));
        let (u, v) = (self.ult(x, y), self.ult(y, x));
        let pos = self.ite(sy, Self::F, u);
        let neg = self.ite(sy, v, Self::T);
        let lt = self.ite(sx, neg, pos);
        let r = if op == Op::FLt {
            let nz = self.not(eq);
            self.and1(lt, nz)
        } else {
            self.bin(Op::Or, lt, eq)
        };
        self.and1(ord, r)
    }
    /// Rounds towards zero, as a float.
    pub fn ftrunc(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let (m, em, bias) = Self::flay(w);
        let e = self.fexp(x);
        let sign = self.c(w, 1 << (w - 1));
        let zero = self.bin(Op::And, x, sign);
        // number of fraction bits: m - (e - bias)
        let top = self.c(w, m as u128 + bias);
        let n = self.bin(Op::Sub, top, e);
        let ones = self.c(w, mask(w));
        let keep = self.bin(Op::Shl, ones, n);
        let cut = self.bin(Op::And, x, keep);
        let b = self.c(w, bias);
        let small = self.ult(e, b);
        let big = {
            let t = self.ult(e, top);
            self.not(t)
        };
        let _ = em;
        let r = self.ite(small, zero, cut);
        self.ite(big, x, r)
    }
    fn fexp(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let (m, em, _) = Self::flay(w);
        let k = self.c(w, m as u128);
        let s = self.bin(Op::LShr, x, k);
        let em = self.c(w, em);
        self.bin(Op::And, s, em)
    }
    /// Saturating conversion to an integer of width rw (NaN gives 0).
    pub fn ftoi_sat(&mut self, x: Ex, rw: u16, signed: bool) -> Ex {
        let w = self.w(x);
        let (m, _, bias) = Self::flay(w);
        let e = self.fexp(x);
        let e = if w < 128 { self.zext(e, 128) } else { e };
        let fm = self.c(w, mask(m));
        let fr = self.bin(Op::And, x, fm);
        let fr = self.zext(fr, 128);
        let one = self.c(128, 1 << m);
        let man = self.bin(Op::Or, fr, one);
        let b = self.c(128, bias);
        let top = self.c(128, bias + m as u128);
        let l = self.bin(Op::Sub, e, top);
        let r = self.bin(Op::Sub, top, e);
        let up = self.bin(Op::Shl, man, l);
        let dn = self.bin(Op::LShr, man, r);
        let left = {
            let t = self.ult(e, top);
            self.not(t)
        };
        let mag = self.ite(left, up, dn);
        let small = self.ult(e, b);
        let z = self.c(128, 0);
        let mag = self.ite(small, z, mag);
        let neg = self.extract(x, w - 1, w - 1);
        let nan = self.fnan(x);
        // magnitudes of 2^(rw-1) (signed) or 2^rw (unsigned) and above saturate
        let lim = self.c(128, bias + if signed { rw as u128 - 1 } else { rw as u128 });
        let over = {
            let t = self.ult(e, lim);
            self.not(t)
        };
        let t = self.trunc(mag, rw);
        let zr = self.c(rw, 0);
        let nt = self.bin(Op::Sub, zr, t);
        let (hi, lo) = if signed { (mask(rw) >> 1, 1u128 << (rw - 1)) } else { (mask(rw), 0) };
        let (hi, lo) = (self.c(rw, hi), self.c(rw, lo));
        let sat = self.ite(neg, lo, hi);
        let nv = if signed { nt } else { zr };
        let v = self.ite(neg, nv, t);
        let v = self.ite(over, sat, v);
        self.ite(nan, zr, v)
    }
    pub fn un(&mut self, op: Op, a: Ex, rw: u16) -> Ex {
        if let Some(x) = self.k(a) {
            let w = self.w(a);
            return self.c(rw, fold1(op, w, rw, x));
        }
        self.mk(Node { op, w: rw, a: a.0, b: 0, c: 0, k: 0 })
    }
    pub fn is_leaf(op: Op) -> bool {
        matches!(op, Op::Const | Op::Var)
    }
    pub fn arity(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Bswap | Op::UToF | Op::SToF | Op::FToU | Op::FToS => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    pub fn varset(&mut self, e: Ex) -> Rc<[u32]> {
        if let Some(v) = &self.varsets[e.0 as usize] {
            return v.clone();
        }
        let n = *self.n(e);
        let r: Rc<[u32]> = match Self::arity(n.op) {
            0 => {
                if n.op == Op::Var {
                    Rc::from([n.a])
                } else {
                    Rc::from([])
                }
            }
            k => {
                let first = self.varset(Ex(n.a));
                if k == 1 {
                    first
                } else {
                    let mut v: Vec<u32> = first.to_vec();
                    v.extend_from_slice(&self.varset(Ex(n.b)));
                    if k == 3 {
                        v.extend_from_slice(&self.varset(Ex(n.c)));
                    }
                    v.sort();
                    v.dedup();
                    if v.len() == first.len() {
                        first
                    } else {
                        Rc::from(v)
                    }
                }
            }
        };
        self.varsets[e.0 as usize] = Some(r.clone());
        r
    }
    pub fn eval(&self, e: Ex, m: &[u128], memo: &mut HashMap<u32, u128, Fx>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = memo.get(&e.0) {
            return *v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(Ex(n.a), m, memo) == 1 {
                    self.eval(Ex(n.b), m, memo)
                } else {
                    self.eval(Ex(n.c), m, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(Ex(n.a), m, memo);
                let l = self.eval(Ex(n.b), m, memo);
                (h << self.w(Ex(n.b))) | l
            }
            Op::Extract => (self.eval(Ex(n.a), m, memo) >> n.k) & mask(n.w),
            op if Self::arity(op) == 1 => {
                let x = self.eval(Ex(n.a), m, memo);
                fold1(op, self.w(Ex(n.a)), n.w, x)
            }
            op => {
                let x = self.eval(Ex(n.a), m, memo);
                let y = self.eval(Ex(n.b), m, memo);
                fold2(op, self.w(Ex(n.a)), x, y)
            }
        };
        memo.insert(e.0, r);
        r
    }
    pub fn show(&self, e: Ex) -> String {
        self.show_d(e, 8)
    }
    fn show_d(&self, e: Ex, d: usize) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("{}#{}", self.vars[n.a as usize].0, n.a),
            Op::Extract => format!("{}[{}:{}]", self.show_d(Ex(n.a), d - 1), n.k as u16 + n.w - 1, n.k),
            Op::Ite => format!(
                "ite({}, {}, {})",
                self.show_d(Ex(n.a), d - 1),
                self.show_d(Ex(n.b), d - 1),
                self.show_d(Ex(n.c), d - 1)
            ),
            op if Self::arity(op) == 1 => format!("{:?}{}({})", op, n.w, self.show_d(Ex(n.a), d - 1)),
            op => format!("{:?}({}, {})", op, self.show_d(Ex(n.a), d - 1), self.show_d(Ex(n.b), d - 1)),
        }
    }
}

/// Random expressions against direct evaluation: every simplification must
/// keep the value, and every value must lie within the bounds.
pub fn selftest(rounds: u64) -> Result<u64, String> {
    let mut s = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut n = 0;
    for _ in 0..rounds {
        let mut d = Dag::new();
        let vw = [8u16, 8, 16, 32, 64, 1];
        let vs: Vec<Ex> = vw.iter().enumerate().map(|(i, w)| d.var(&format!("v{i}"), *w)).collect();
        let ms: Vec<Vec<u128>> = (0..4)
            .map(|j| {
                vw.iter()
                    .map(|w| {
                        let r = (rnd() as u128) & mask(*w);
                        match (j + rnd() % 3) % 4 {
                            0 => r,
                            1 => r % 4 & mask(*w),
                            2 => mask(*w) - (r % 3 & mask(*w)),
                            _ => r,
                        }
                    })
                    .collect()
            })
            .collect();
        let mut pool: Vec<(Ex, Vec<u128>)> = vs.iter().enumerate().map(|(i, e)| (*e, ms.iter().map(|m| m[i]).collect())).collect();
        for _ in 0..60 {
            let (a, va) = pool[rnd() as usize % pool.len()].clone();
            let w = d.w(a);
            let (b, vb) = if rnd() % 3 == 0 {
                let k = match rnd() % 4 {
                    0 => rnd() as u128 % 12,
                    1 => 100,
                    2 => 10000,
                    _ => rnd() as u128,
                } & mask(w);
                (d.c(w, k), vec![k; 4])
            } else {
                let same: Vec<_> = pool.iter().filter(|p| d.w(p.0) == w).cloned().collect();
                same[rnd() as usize % same.len()].clone()
            };
            let ops = [
                Op::And, Op::Or, Op::Xor, Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::UDiv, Op::URem, Op::Shl, Op::LShr, Op::AShr,
                Op::Eq, Op::Ult, Op::Slt,
            ];
            let (e, v): (Ex, Vec<u128>) = match rnd() % 22 {
                16 if w < 64 => {
                    let nw = [16u16, 32, 64][rnd() as usize % 3];
                    if nw <= w {
                        continue;
                    }
                    (d.zext(a, nw), va)
                }
                17 if w < 64 => {
                    let nw = [16u16, 32, 64][rnd() as usize % 3];
                    if nw <= w {
                        continue;
                    }
                    let v = va.iter().map(|x| sext(*x, w) as u128 & mask(nw)).collect();
                    (d.sext(a, nw), v)
                }
                18 if w > 8 => {
                    let nw = 8;
                    let lo = [0, 8, w - 8, 3][rnd() as usize % 4].min(w - 8);
                    (d.extract(a, lo + nw - 1, lo), va.iter().map(|x| x >> lo & 0xff).collect())
                }
                19 if w <= 32 => (d.concat(a, b), va.iter().zip(&vb).map(|(x, y)| x << w | y).collect()),
                20 => {
                    let (c, vc) = match pool.iter().filter(|p| d.w(p.0) == 1).last() {
                        Some(c) => c.clone(),
                        None => continue,
                    };
                    (d.ite(c, a, b), (0..4).map(|i| if vc[i] == 1 { va[i] } else { vb[i] }).collect())
                }
                21 => (d.not(a), va.iter().map(|x| !x & mask(w)).collect()),
                i => {
                    let op = ops[i as usize % ops.len()];
                    if matches!(op, Op::UDiv | Op::URem) && vb.iter().any(|y| *y == 0) {
                        continue;
                    }
                    (d.bin(op, a, b), va.iter().zip(&vb).map(|(x, y)| fold2(op, w, *x, *y)).collect())
                }
            };
            for i in 0..4 {
                let mut memo = HashMap::with_hasher(Fx);
                let got = d.eval(e, &ms[i], &mut memo);
                if got != v[i] {
                    return Err(format!("{} is {:#x}, should be {:#x} under {:?}", d.show(e), got, v[i], ms[i]));
                }
                let (lo, hi) = d.bounds(e);
                if got < lo || got > hi {
                    return Err(format!("{} is {:#x}, outside {:#x}..={:#x}", d.show(e), got, lo, hi));
                }
                n += 1;
            }
            pool.push((e, v));
        }
    }
    Ok(n)
}
