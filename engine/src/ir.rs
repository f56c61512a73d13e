//! Parser for the textual LLVM IR (opaque pointers) that rustc's output
//! disassembles to. Function bodies are decoded on first use.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(crate::expr::Ex),
    A(Rc<Vec<Val>>),
}
impl Default for Val {
    fn default() -> Val {
        Val::C(0)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    L(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    Bitcast,
    UToF,
    SToF,
    FToU,
    FToS,
    FExt,
    FTrunc,
}

#[derive(Debug)]
pub struct GepStep {
    pub idx: Opd,
    pub w: u16,
    pub stride: u64,
}

#[derive(Debug)]
pub enum Ins {
    Bin(BinOp, TyId, Opd, Opd, u32),
    Icmp(Pred, TyId, Opd, Opd, u32),
    Fcmp(String, TyId, Opd, Opd, u32),
    Select(Opd, Opd, Opd, TyId, u32),
    Load(TyId, Opd, u32),
    Store(TyId, Opd, Opd),
    Alloca(u64, u32), // offset in the frame object
    Gep(Opd, u64, Vec<GepStep>, u32),
    Call { f: Callee, args: Vec<(TyId, Opd)>, ret: TyId, dst: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Cast(Cast, TyId, TyId, Opd, u32),
    Extract(Opd, Vec<u32>, u32),
    Insert(TyId, Opd, Opd, Vec<u32>, u32),
    Rmw(String, TyId, Opd, Opd, u32),
    CmpXchg(TyId, Opd, Opd, Opd, u32),
    ExtractEl(Opd, Opd, u32),
    InsertEl(Opd, Opd, Opd, u32),
    Shuffle(TyId, Opd, Opd, Vec<u32>, u32),
    Freeze(Opd, u32),
    FNeg(TyId, Opd, u32),
    Fence,
    Unsupported(String),
}
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opd),
    Asm(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub nlocals: u32,
    pub nparams: u32,
    pub byval: Vec<u64>, // 0 = not byval
    pub frame: u64,
    pub blocks: Vec<Block>,
}
pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize, usize)>, // sig start, body start, body end
    pub code: Option<Rc<Func>>,
}
pub struct Global {
    pub name: String,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    pub init: (usize, usize),
}
pub const FN_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 16;

pub struct Module {
    pub text: Rc<String>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub fns: Vec<FnDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    named: HashMap<String, TyId>,
    sizes: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(String),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    P(u8),
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name: &str;
                if b.get(st) == Some(&b'"') {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = &s[st + 1..j];
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = &s[st..j];
                    i = j;
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name.to_string()) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(&s[i + 2..j]));
                i = j + 1;
            }
            b'!' | b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(&s[i..j]));
                i = j;
            }
            b'0'..=b'9' => {
                let mut j = i;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::Num(&s[i..j]));
                i = j;
            }
            b'-' if b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::Num(&s[i..j]));
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out
}

pub struct Ps<'a, 'm> {
    pub t: Vec<Tok<'a>>,
    pub i: usize,
    m: &'m mut Module,
    loc: HashMap<String, u32>,
    n: u32,
}

type R<T> = Result<T, String>;

impl<'a> Ps<'a, '_> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if *x == s)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, &self.t[self.i.min(self.t.len())..(self.i + 5).min(self.t.len())]))
        }
    }
    fn local(&mut self, name: &str) -> u32 {
        if let Some(i) = self.loc.get(name) {
            return *i;
        }
        let i = self.n;
        self.n += 1;
        self.loc.insert(name.to_string(), i);
        i
    }
    fn skip_parens(&mut self) {
        if self.is_p(b'(') {
            let mut d = 0;
            loop {
                match self.peek() {
                    Some(Tok::P(b'(')) => d += 1,
                    Some(Tok::P(b')')) => d -= 1,
                    None => return,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    return;
                }
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                matches!(*s, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token" | "opaque")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(b'{' | b'[' | b'<')) => true,
            Some(Tok::Loc(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<TyId> {
        let t = match self.peek().cloned() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                match s {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.is_id("addrspace") {
                            self.i += 1;
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" | "opaque" => Ty::Other,
                    _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {s}"))?),
                    _ => return Err(format!("type {s}")),
                }
            }
            Some(Tok::P(b'[')) => {
                self.i += 1;
                let n = self.num()? as u64;
                self.i += 1; // x
                let e = self.ty()?;
                self.need(b']')?;
                Ty::Arr(n, e)
            }
            Some(Tok::P(b'<')) => {
                self.i += 1;
                if self.is_p(b'{') {
                    let s = self.struct_body()?;
                    self.need(b'>')?;
                    Ty::Struct(s, true)
                } else {
                    let n = self.num()? as u32;
                    self.i += 1;
                    let e = self.ty()?;
                    self.need(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            Some(Tok::P(b'{')) => {
                let s = self.struct_body()?;
                Ty::Struct(s, false)
            }
            Some(Tok::Loc(n)) => {
                self.i += 1;
                return self.m.named.get(n).copied().ok_or_else(|| format!("named type {n}"));
            }
            x => return Err(format!("type expected at {x:?}")),
        };
        let id = self.m.mkty(t);
        Ok(id)
    }
    fn struct_body(&mut self) -> R<Vec<TyId>> {
        self.need(b'{')?;
        let mut v = vec![];
        while !self.eat(b'}') {
            v.push(self.ty()?);
            self.eat(b',');
        }
        Ok(v)
    }
    fn num(&mut self) -> R<i128> {
        match self.peek() {
            Some(Tok::Num(s)) => {
                let r = s.parse::<i128>().map_err(|e| format!("{s}: {e}"));
                self.i += 1;
                r
            }
            x => Err(format!("number expected at {x:?}")),
        }
    }
    fn skip_attrs(&mut self) -> Option<u64> {
        // returns byval size if a byval attribute is seen
        let mut byval = None;
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = *s;
                    if matches!(
                        s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                            | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "trunc" | "blockaddress" | "splat" | "asm" | "sub" | "add" | "xor" | "c" | "icmp" | "dso_local_equivalent" | "no_cfi"
                    ) || self.is_type_start()
                    {
                        return byval;
                    }
                    self.i += 1;
                    if s == "byval" {
                        let sv = self.i;
                        if self.eat(b'(') {
                            if let Ok(t) = self.ty() {
                                byval = Some(self.m.size(t).0);
                            }
                        }
                        self.i = sv;
                        self.skip_parens();
                    } else if s == "align" && !self.is_p(b'(') {
                        self.i += 1;
                    } else {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Meta(s)) if s.starts_with('#') => self.i += 1,
                _ => return byval,
            }
        }
    }
    pub fn zero(&mut self, ty: TyId) -> Val {
        self.m.zero(ty)
    }
    pub fn value(&mut self, ty: TyId) -> R<Opd> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.to_string();
            self.i += 1;
            return Ok(Opd::L(self.local(&n)));
        }
        Ok(Opd::K(self.konst(ty)?))
    }
    fn tv(&mut self) -> R<(TyId, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.value(t)?;
        Ok((t, v))
    }
    fn ktv(&mut self) -> R<(TyId, Val)> {
        let t = self.ty()?;
        let v = self.konst(t)?;
        Ok((t, v))
    }
    pub fn konst(&mut self, ty: TyId) -> R<Val> {
        let tk = self.peek().cloned().ok_or("constant expected")?;
        self.i += 1;
        Ok(match tk {
            Tok::Num(s) => match self.m.tys[ty as usize] {
                Ty::F64 | Ty::F32 => {
                    let bits = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|e| format!("{s} {e}"))?
                    } else {
                        s.parse::<f64>().map_err(|e| format!("{s} {e}"))?.to_bits()
                    };
                    if self.m.tys[ty as usize] == Ty::F32 {
                        Val::C((f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        Val::C(bits as u128)
                    }
                }
                Ty::Int(w) => {
                    let v: u128 = if let Some(p) = s.strip_prefix('-') {
                        p.parse::<u128>().map_err(|e| format!("{s} {e}"))?.wrapping_neg()
                    } else {
                        s.parse::<u128>().map_err(|e| format!("{s} {e}"))?
                    };
                    Val::C(v & crate::expr::mask(w))
                }
                _ => return Err(format!("numeric constant {s}")),
            },
            Tok::P(sg @ (b'+' | b'-')) => {
                let f = match self.peek() {
                    Some(Tok::Id("inf")) => f64::INFINITY,
                    Some(Tok::Id("qnan")) => f64::NAN,
                    x => return Err(format!("float constant {x:?}")),
                };
                self.i += 1;
                let f = if sg == b'-' { -f } else { f };
                match self.m.tys[ty as usize] {
                    Ty::F32 => Val::C((f as f32).to_bits() as u128),
                    _ => Val::C(f.to_bits() as u128),
                }
            }
            Tok::Id(s) => match s {
                "true" => Val::C(1),
                "false" | "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(ty),
                "splat" => {
                    self.need(b'(')?;
                    let (_, v) = self.ktv()?;
                    self.need(b')')?;
                    match self.m.tys[ty as usize] {
                        Ty::Vec(n, _) => Val::A(Rc::new(vec![v; n as usize])),
                        Ty::Arr(n, _) => Val::A(Rc::new(vec![v; n as usize])),
                        _ => return Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while !self.is_p(b'(') {
                        self.i += 1;
                        if self.is_p(b'(') && matches!(self.t[self.i - 1], Tok::Id("inrange")) {
                            self.skip_parens();
                        }
                    }
                    self.need(b'(')?;
                    let bt = self.ty()?;
                    self.need(b',')?;
                    let (_, base) = self.ktv()?;
                    let mut addr = match base {
                        Val::C(x) => x as u64,
                        _ => return Err("gep base".into()),
                    };
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat(b',') {
                        let (it, iv) = self.ktv()?;
                        let iw = self.m.width(it);
                        let k = match iv {
                            Val::C(x) => crate::expr::sext(x, iw) as i64,
                            _ => return Err("gep idx".into()),
                        };
                        let (off, next) = self.m.gep_k(cur, k, first);
                        addr = addr.wrapping_add(off as u64);
                        cur = next;
                        first = false;
                    }
                    self.need(b')')?;
                    Val::C(addr as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.need(b'(')?;
                    let (_, v) = self.ktv()?;
                    self.eat_id("to");
                    let t = self.ty()?;
                    self.need(b')')?;
                    match (&v, &self.m.tys[t as usize]) {
                        (Val::C(x), Ty::Int(w)) => Val::C(x & crate::expr::mask(*w)),
                        _ => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p(b'(') {
                        self.i += 1;
                    }
                    self.need(b'(')?;
                    let (t, a) = self.ktv()?;
                    self.need(b',')?;
                    let (_, b) = self.ktv()?;
                    self.need(b')')?;
                    let w = self.m.width(t);
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Val::C(
                            (match s {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            }) & crate::expr::mask(w),
                        ),
                        _ => return Err("const expr".into()),
                    }
                }
                _ => return Err(format!("constant {s}")),
            },
            Tok::Glob(n) => Val::C(self.m.global_addr(&n)? as u128),
            Tok::CStr(s) => {
                let b = s.as_bytes();
                let mut v = Vec::with_capacity(b.len());
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u128));
                            i += 2;
                        } else {
                            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                            v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                            i += 3;
                        }
                    } else {
                        v.push(Val::C(b[i] as u128));
                        i += 1;
                    }
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'{') => self.agg(b'}')?,
            Tok::P(b'[') => self.agg(b']')?,
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let r = self.agg(b'}')?;
                    self.need(b'>')?;
                    r
                } else {
                    self.agg(b'>')?
                }
            }
            Tok::Loc(n) => return Err(format!("local %{n} in constant")),
            x => return Err(format!("constant at {x:?}")),
        })
    }
    fn agg(&mut self, end: u8) -> R<Val> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.ktv()?.1);
            self.eat(b',');
        }
        Ok(Val::A(Rc::new(v)))
    }
}

impl Module {
    pub fn mkty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len() as TyId;
        let sz = self.calc_size(&t);
        self.tys.push(t.clone());
        self.sizes.push(sz);
        self.tymap.insert(t, i);
        i
    }
    fn calc_size(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = b.next_power_of_two().min(16);
                (b.div_ceil(a) * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => {
                let (s, a) = self.sizes[*e as usize];
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.sizes[*e as usize].0 * 8,
                };
                let s = (bits * *n as u64).div_ceil(8).next_power_of_two();
                (s, s)
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.sizes[*x as usize];
                    if !*packed {
                        o = o.div_ceil(a) * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                (o.div_ceil(al) * al, al)
            }
        }
    }
    pub fn size(&self, t: TyId) -> (u64, u64) {
        self.sizes[t as usize]
    }
    pub fn width(&self, t: TyId) -> u16 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, f: &[TyId], packed: bool, k: usize) -> u64 {
        let mut o = 0u64;
        for (i, x) in f.iter().enumerate() {
            let (s, a) = self.sizes[*x as usize];
            if !packed {
                o = o.div_ceil(a) * a;
            }
            if i == k {
                return o;
            }
            o += s;
        }
        o
    }
    fn gep_k(&self, cur: TyId, k: i64, first: bool) -> (i64, TyId) {
        if first {
            return (k * self.size(cur).0 as i64, cur);
        }
        match &self.tys[cur as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (k * self.size(*e).0 as i64, *e),
            Ty::Struct(f, p) => (self.field_off(f, *p, k as usize) as i64, f[k as usize]),
            _ => (k, cur),
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Arr(n, e) => Val::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            _ => Val::C(0),
        }
    }
    pub fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(i) = self.gmap.get(n) {
            return Ok((GLOB_BASE + *i as u64) << 32);
        }
        if let Some(i) = self.fmap.get(n) {
            return Ok((FN_BASE + *i as u64) << 32);
        }
        Err(format!("unknown global @{n}"))
    }
    pub fn parse(text: String) -> R<Module> {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            tys: vec![],
            tymap: HashMap::new(),
            fns: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            named: HashMap::new(),
            sizes: vec![],
        };
        m.mkty(Ty::Void);
        let b = text.as_bytes();
        let mut pos = 0;
        let name_at = |p: usize| -> (String, usize) {
            // p points after '@'
            if b[p] == b'"' {
                let mut j = p + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                (text[p + 1..j].to_string(), j + 1)
            } else {
                let mut j = p;
                while b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-') {
                    j += 1;
                }
                (text[p..j].to_string(), j)
            }
        };
        while pos < b.len() {
            let e = memchr(b, b'\n', pos);
            match b[pos] {
                b'@' => {
                    let (name, j) = name_at(pos + 1);
                    let line = &text[j..e];
                    let ext = line.contains(" external ") || line.contains(" extern_weak ");
                    let toks_prefix: Vec<&str> = line.split(' ').take(10).collect();
                    let constant = toks_prefix.contains(&"constant");
                    let tls = line.starts_with(" = ") && toks_prefix.iter().any(|x| x.starts_with("thread_local"));
                    let kw = if constant { " constant " } else { " global " };
                    let init = match line.find(kw) {
                        Some(k) => (j + k + kw.len(), e),
                        None => (j, j),
                    };
                    m.gmap.insert(name.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name, constant, tls, external: ext, init });
                    pos = e + 1;
                }
                b'd' if text[pos..].starts_with("define ") || text[pos..].starts_with("declare ") => {
                    let at = memchr(b, b'@', pos);
                    let (name, _) = name_at(at + 1);
                    let body = if text[pos..].starts_with("define ") {
                        let mut p = e + 1;
                        // body ends at a line "}"
                        while !(b[p] == b'}' && b[p - 1] == b'\n') {
                            p = memchr(b, b'\n', p) + 1;
                        }
                        Some((pos, e + 1, p))
                    } else {
                        None
                    };
                    m.fmap.insert(name.clone(), m.fns.len() as u32);
                    m.fns.push(FnDecl { name, body, code: None });
                    pos = match body {
                        Some((_, _, p)) => memchr(b, b'\n', p) + 1,
                        None => e + 1,
                    };
                }
                b'%' => {
                    // named type
                    let line = text[pos..e].to_string();
                    let mut ps = Ps { t: lex(&line), i: 0, m: &mut m, loc: HashMap::new(), n: 0 };
                    if let Some(Tok::Loc(n)) = ps.peek().cloned() {
                        ps.i += 3; // name = type
                        if let Ok(t) = ps.ty() {
                            m.named.insert(n.to_string(), t);
                        }
                    }
                    pos = e + 1;
                }
                _ => pos = e + 1,
            }
        }
        Ok(m)
    }
    /// Initial value of a global: type and constant.
    pub fn global_init(&mut self, g: u32) -> R<(TyId, Val)> {
        let text = self.text.clone();
        let (s, e) = self.globals[g as usize].init;
        if self.globals[g as usize].external {
            let i8t = self.mkty(Ty::Int(8));
            return Ok((i8t, Val::C(0)));
        }
        let mut ps = Ps { t: lex(&text[s..e]), i: 0, m: self, loc: HashMap::new(), n: 0 };
        ps.ktv()
    }
    pub fn func(&mut self, i: u32) -> R<Rc<Func>> {
        if let Some(c) = &self.fns[i as usize].code {
            return Ok(c.clone());
        }
        let name = self.fns[i as usize].name.clone();
        let f = Rc::new(self.decode(i).map_err(|e| format!("in {name}: {e}"))?);
        self.fns[i as usize].code = Some(f.clone());
        Ok(f)
    }
    fn decode(&mut self, fi: u32) -> R<Func> {
        let text = self.text.clone();
        let (s, bs, be) = self.fns[fi as usize].body.ok_or("declaration has no body")?;
        let sig = &text[s..bs];
        let body = &text[bs..be];
        let mut ps = Ps { t: lex(sig), i: 0, m: self, loc: HashMap::new(), n: 0 };
        // find '@name' then '('
        while !matches!(ps.peek(), Some(Tok::Glob(_))) {
            ps.i += 1;
        }
        ps.i += 1;
        ps.need(b'(')?;
        let mut byval = vec![];
        let mut unnamed = 0;
        while !ps.eat(b')') {
            if ps.eat(b'.') {
                continue;
            }
            let _t = ps.ty()?;
            let bv = ps.skip_attrs();
            byval.push(bv.unwrap_or(0));
            match ps.peek().cloned() {
                Some(Tok::Loc(n)) => {
                    ps.local(n);
                    ps.i += 1;
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed = unnamed.max(n.parse::<u32>().unwrap() + 1);
                    }
                }
                _ => {
                    ps.local(&unnamed.to_string());
                    unnamed += 1;
                }
            }
            ps.eat(b',');
        }
        let nparams = ps.n;
        // split into lines, joining switch tables
        let mut lines: Vec<String> = vec![];
        for l in body.lines() {
            if let Some(last) = lines.last_mut() {
                let ls = last.trim_start();
                if ls.starts_with("switch ") && !ls.contains(']') {
                    last.push(' ');
                    last.push_str(l);
                    continue;
                }
            }
            if l.trim().is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            lines.push(l.to_string());
        }
        // blocks
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let first_is_label = lines.first().is_some_and(|l| !l.starts_with(' '));
        if !first_is_label {
            bmap.insert(unnamed.to_string(), 0);
        }
        let mut nb = if first_is_label { 0 } else { 1 };
        for l in &lines {
            if !l.starts_with(' ') {
                let n = l.split(':').next().unwrap().trim_matches('"').to_string();
                bmap.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], ins: vec![] }).collect();
        let mut cur: usize = 0;
        let mut seen_label = !first_is_label;
        let mut frame = 0u64;
        for l in &lines {
            if !l.starts_with(' ') {
                if seen_label {
                    cur += 1;
                }
                seen_label = true;
                continue;
            }
            ps.t = unsafe { std::mem::transmute::<Vec<Tok<'_>>, Vec<Tok<'_>>>(lex(l)) };
            ps.i = 0;
            let mut dst = NODST;
            if let (Some(Tok::Loc(n)), Some(Tok::P(b'='))) = (ps.t.first().cloned(), ps.t.get(1)) {
                dst = ps.local(n);
                ps.i = 2;
            }
            let op = match ps.peek().cloned() {
                Some(Tok::Id(s)) => s,
                x => return Err(format!("instruction at {x:?}: {l}")),
            };
            ps.i += 1;
            if op == "phi" {
                while matches!(ps.peek(), Some(Tok::Id(s)) if matches!(*s, "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
                    ps.i += 1;
                }
                let t = ps.ty()?;
                let mut v = vec![];
                while ps.eat(b'[') {
                    let x = ps.value(t)?;
                    ps.need(b',')?;
                    let lab = ps.label(&bmap)?;
                    ps.need(b']')?;
                    v.push((lab, x));
                    if !ps.eat(b',') {
                        break;
                    }
                }
                blocks[cur].phis.push((dst, v));
                continue;
            }
            let ins = match ps.ins(op, dst, &bmap, &mut frame) {
                Ok(Some(x)) => x,
                Ok(None) => continue,
                Err(e) => Ins::Unsupported(format!("{e}: {}", l.trim())),
            };
            blocks[cur].ins.push(ins);
        }
        let nlocals = ps.n;
        Ok(Func { nlocals, nparams, byval, frame, blocks })
    }
}

impl<'a> Ps<'a, '_> {
    fn label(&mut self, bmap: &HashMap<String, u32>) -> R<u32> {
        self.eat_id("label");
        match self.peek().cloned() {
            Some(Tok::Loc(n)) => {
                self.i += 1;
                bmap.get(n).copied().ok_or_else(|| format!("label {n}"))
            }
            x => Err(format!("label at {x:?}")),
        }
    }
    fn skip_flags(&mut self) {
        while let Some(Tok::Id(s)) = self.peek() {
            if matches!(
                *s,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp"
                    | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
            ) {
                self.i += 1;
            } else if *s == "inrange" {
                self.i += 1;
                self.skip_parens();
            } else {
                break;
            }
        }
    }
    fn ins(&mut self, op: &str, dst: u32, bmap: &HashMap<String, u32>, frame: &mut u64) -> R<Option<Ins>> {
        let b = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = b {
            self.skip_flags();
            let t = self.ty()?;
            let x = self.value(t)?;
            self.need(b',')?;
            let y = self.value(t)?;
            return Ok(Some(Ins::Bin(b, t, x, y, dst)));
        }
        Ok(Some(match op {
            "icmp" => {
                self.skip_flags();
                let p = match self.peek().cloned() {
                    Some(Tok::Id(s)) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("icmp {s}")),
                    },
                    _ => return Err("icmp".into()),
                };
                self.i += 1;
                let t = self.ty()?;
                let x = self.value(t)?;
                self.need(b',')?;
                let y = self.value(t)?;
                Ins::Icmp(p, t, x, y, dst)
            }
            "fcmp" => {
                self.skip_flags();
                let p = match self.peek().cloned() {
                    Some(Tok::Id(s)) => s.to_string(),
                    _ => return Err("fcmp".into()),
                };
                self.i += 1;
                let t = self.ty()?;
                let x = self.value(t)?;
                self.need(b',')?;
                let y = self.value(t)?;
                Ins::Fcmp(p, t, x, y, dst)
            }
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.tv()?;
                Ins::FNeg(t, v, dst)
            }
            "select" => {
                self.skip_flags();
                let (_, c) = self.tv()?;
                self.need(b',')?;
                let (t, x) = self.tv()?;
                self.need(b',')?;
                let (_, y) = self.tv()?;
                Ins::Select(c, x, y, t, dst)
            }
            "freeze" => {
                let (_, v) = self.tv()?;
                Ins::Freeze(v, dst)
            }
            "load" => {
                self.skip_flags();
                let t = self.ty()?;
                self.need(b',')?;
                let (_, p) = self.tv()?;
                Ins::Load(t, p, dst)
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.tv()?;
                self.need(b',')?;
                let (_, p) = self.tv()?;
                Ins::Store(t, v, p)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1u64;
                let mut al = 1u64;
                while self.eat(b',') {
                    if self.eat_id("align") {
                        al = self.num()? as u64;
                    } else if self.is_type_start() {
                        let (_, v) = self.ktv()?;
                        if let Val::C(k) = v {
                            n = k as u64;
                        } else {
                            return Err("dynamic alloca".into());
                        }
                    } else {
                        break;
                    }
                }
                let sz = self.m.size(t).0 * n;
                let al = al.max(8);
                let off = frame.div_ceil(al) * al;
                *frame = off + sz.max(1);
                Ins::Alloca(off, dst)
            }
            "getelementptr" => {
                self.skip_flags();
                let bt = self.ty()?;
                self.need(b',')?;
                let (_, base) = self.tv()?;
                let mut k = 0u64;
                let mut steps = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.eat(b',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, iv) = self.tv()?;
                    let iw = self.m.width(it);
                    match iv {
                        Opd::K(Val::C(x)) => {
                            let (off, next) = self.m.gep_k(cur, crate::expr::sext(x, iw) as i64, first);
                            k = k.wrapping_add(off as u64);
                            cur = next;
                        }
                        o => {
                            let stride;
                            if first {
                                stride = self.m.size(cur).0;
                            } else {
                                match self.m.tys[cur as usize] {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        stride = self.m.size(e).0;
                                        cur = e;
                                    }
                                    _ => return Err("gep into struct by variable".into()),
                                }
                            }
                            steps.push(GepStep { idx: o, w: iw, stride });
                        }
                    }
                    first = false;
                }
                Ins::Gep(base, k, steps, dst)
            }
            "tail" | "musttail" | "notail" => {
                self.i += 1;
                self.call(dst)?
            }
            "call" => self.call(dst)?,
            "br" => {
                if self.is_id("label") {
                    Ins::Br(self.label(bmap)?)
                } else {
                    let (_, c) = self.tv()?;
                    self.need(b',')?;
                    let t = self.label(bmap)?;
                    self.need(b',')?;
                    let f = self.label(bmap)?;
                    Ins::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, c) = self.tv()?;
                self.need(b',')?;
                let d = self.label(bmap)?;
                self.need(b'[')?;
                let mut v = vec![];
                while !self.eat(b']') {
                    let (_, k) = self.ktv()?;
                    self.need(b',')?;
                    let l = self.label(bmap)?;
                    if let Val::C(k) = k {
                        v.push((k, l));
                    }
                }
                Ins::Switch(c, self.m.width(t), d, v)
            }
            "ret" => {
                if self.is_id("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tv()?;
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Fence,
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                self.skip_flags();
                let (t, v) = self.tv()?;
                self.eat_id("to");
                let rt = self.ty()?;
                let (w, rw) = (self.m.width(t), self.m.width(rt));
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if w == rw {
                            Cast::Same
                        } else if w < rw {
                            Cast::ZExt
                        } else {
                            Cast::Trunc
                        }
                    }
                    "bitcast" => Cast::Bitcast,
                    "uitofp" => Cast::UToF,
                    "sitofp" => Cast::SToF,
                    "fptoui" => Cast::FToU,
                    "fptosi" => Cast::FToS,
                    "fpext" => Cast::FExt,
                    "fptrunc" => Cast::FTrunc,
                    _ => Cast::Same,
                };
                Ins::Cast(c, t, rt, v, dst)
            }
            "extractvalue" => {
                let (_, v) = self.tv()?;
                let mut ix = vec![];
                while self.eat(b',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    ix.push(self.num()? as u32);
                }
                Ins::Extract(v, ix, dst)
            }
            "insertvalue" => {
                let (t, v) = self.tv()?;
                self.need(b',')?;
                let (_, x) = self.tv()?;
                let mut ix = vec![];
                while self.eat(b',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    ix.push(self.num()? as u32);
                }
                Ins::Insert(t, v, x, ix, dst)
            }
            "atomicrmw" => {
                self.skip_flags();
                let o = match self.peek().cloned() {
                    Some(Tok::Id(s)) => s.to_string(),
                    _ => return Err("rmw".into()),
                };
                self.i += 1;
                let (_, p) = self.tv()?;
                self.need(b',')?;
                let (t, v) = self.tv()?;
                Ins::Rmw(o, t, p, v, dst)
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.tv()?;
                self.need(b',')?;
                let (t, c) = self.tv()?;
                self.need(b',')?;
                let (_, n) = self.tv()?;
                Ins::CmpXchg(t, p, c, n, dst)
            }
            "extractelement" => {
                let (_, v) = self.tv()?;
                self.need(b',')?;
                let (_, i) = self.tv()?;
                Ins::ExtractEl(v, i, dst)
            }
            "insertelement" => {
                let (_, v) = self.tv()?;
                self.need(b',')?;
                let (_, x) = self.tv()?;
                self.need(b',')?;
                let (_, i) = self.tv()?;
                Ins::InsertEl(v, x, i, dst)
            }
            "shufflevector" => {
                let (t, a) = self.tv()?;
                self.need(b',')?;
                let (_, b) = self.tv()?;
                self.need(b',')?;
                let (_, m) = self.ktv()?;
                let mv = match m {
                    Val::A(v) => v.iter().map(|x| if let Val::C(k) = x { *k as u32 } else { 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle(t, a, b, mv, dst)
            }
            _ => return Err(format!("unsupported instruction {op}")),
        }))
    }
    fn call(&mut self, dst: u32) -> R<Ins> {
        self.skip_flags();
        self.skip_attrs(); // calling convention, return attributes
        if matches!(self.peek(), Some(Tok::Num(_))) {
            self.i += 1; // cc N
            self.skip_attrs();
        }
        let ret = self.ty()?;
        // optional function type: (...)
        if self.is_p(b'(') {
            self.skip_parens();
        }
        let f = match self.peek().cloned() {
            Some(Tok::Glob(n)) => {
                self.i += 1;
                match self.m.fmap.get(&n) {
                    Some(i) => Callee::Direct(*i),
                    None => return Err(format!("call of unknown @{n}")),
                }
            }
            Some(Tok::Id("asm")) => {
                self.i += 1;
                let mut s = String::new();
                while !self.is_p(b'(') {
                    if let Some(Tok::Str(x)) = self.peek() {
                        s.push_str(x);
                        s.push('|');
                    }
                    self.i += 1;
                    if self.i >= self.t.len() {
                        return Err("asm".into());
                    }
                }
                Callee::Asm(s)
            }
            _ => {
                let p = self.m.mkty(Ty::Ptr);
                Callee::Indirect(self.value(p)?)
            }
        };
        self.need(b'(')?;
        let mut args = vec![];
        while !self.eat(b')') {
            if self.is_id("metadata") {
                // metadata argument: skip to , or )
                let mut d = 0;
                while let Some(t) = self.peek() {
                    match t {
                        Tok::P(b'(') | Tok::P(b'{') => d += 1,
                        Tok::P(b')') if d == 0 => break,
                        Tok::P(b')') | Tok::P(b'}') => d -= 1,
                        Tok::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                self.eat(b',');
                continue;
            }
            args.push(self.tv()?);
            self.eat(b',');
        }
        Ok(Ins::Call { f, args, ret, dst })
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len())
}
