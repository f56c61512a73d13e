//! libz3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn alarm(s: c_uint) -> c_uint;
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, code: c_uint) {
    eprintln!("z3 error {code}");
    unsafe { libc_abort() }
}
extern "C" {
    #[link_name = "abort"]
    fn libc_abort() -> !;
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}
pub struct Model {
    pub v: Vec<u128>,
    pub memo: std::cell::RefCell<HashMap<u32, u128, Fx>>,
}
impl Model {
    pub fn new(v: Vec<u128>) -> Rc<Model> {
        Rc::new(Model { v, memo: Default::default() })
    }
    pub fn eval(&self, d: &Dag, e: Ex) -> u128 {
        d.eval(e, &self.v, &mut self.memo.borrow_mut())
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub ns: u64,
    pub max_ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    s_fp: P,
    bv: Vec<P>,
    bl: Vec<P>,
    stack: Vec<Ex>,
    fp: bool,
    limit_s: u32,
    limit_ms: u32,
    pub st: Stats,
    cache: HashMap<Vec<u32>, Option<Rc<Model>>, Fx>,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new(timeout_ms: u32, fp: bool) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |fp: bool| {
                let s = if fp {
                    Z3_mk_solver(c)
                } else {
                    let l = CString::new("QF_BV").unwrap();
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
                };
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms.min(4000));
                Z3_solver_set_params(c, s, p);
                s
            };
            let s = mk(fp);
            Solver {
                c,
                s,
                s_fp: std::ptr::null_mut(),
                bv: vec![],
                bl: vec![],
                stack: vec![],
                fp,
                limit_ms: timeout_ms,
                limit_s: timeout_ms / 1000 * 2 + 10,
                st: Stats::default(),
                cache: HashMap::with_hasher(Fx),
                dump: None,
            }
        }
    }
    fn fresh(&self) -> P {
        unsafe {
            let l = CString::new("QF_BVFP").unwrap();
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.limit_ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
            s
        }
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as u32))
        }
    }
    fn fp(&self, a: P, w: u16) -> P {
        unsafe {
            let s = if w == 64 { Z3_mk_fpa_sort_double(self.c) } else { Z3_mk_fpa_sort_single(self.c) };
            Z3_mk_fpa_to_fp_bv(self.c, a, s)
        }
    }
    fn is_pred(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe)
    }
    fn boolean(&mut self, d: &Dag, e: Ex) -> P {
        if self.bl.len() <= e.0 as usize {
            self.bl.resize(d.nodes.len(), std::ptr::null_mut());
        }
        let x = self.bl[e.0 as usize];
        if !x.is_null() {
            return x;
        }
        let n = *d.n(e);
        debug_assert_eq!(n.w, 1);
        let (a, b) = (Ex(n.a), Ex(n.b));
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                }
                Op::Not => {
                    let x = self.boolean(d, a);
                    Z3_mk_not(self.c, x)
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(d, a), self.boolean(d, b)];
                    if n.op == Op::And {
                        Z3_mk_and(self.c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(self.c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let x = self.boolean(d, a);
                    let y = self.boolean(d, b);
                    Z3_mk_xor(self.c, x, y)
                }
                Op::Ite => {
                    let x = self.boolean(d, a);
                    let y = self.boolean(d, b);
                    let z = self.boolean(d, Ex(n.c));
                    Z3_mk_ite(self.c, x, y, z)
                }
                Op::Eq if d.w(a) == 1 => {
                    let x = self.boolean(d, a);
                    let y = self.boolean(d, b);
                    Z3_mk_eq(self.c, x, y)
                }
                Op::Eq => {
                    let x = self.bits(d, a);
                    let y = self.bits(d, b);
                    Z3_mk_eq(self.c, x, y)
                }
                Op::Ult => {
                    let x = self.bits(d, a);
                    let y = self.bits(d, b);
                    Z3_mk_bvult(self.c, x, y)
                }
                Op::Slt => {
                    let x = self.bits(d, a);
                    let y = self.bits(d, b);
                    Z3_mk_bvslt(self.c, x, y)
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let w = d.w(a);
                    let x = self.bits(d, a);
                    let y = self.bits(d, b);
                    let (x, y) = (self.fp(x, w), self.fp(y, w));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(self.c, x, y),
                        Op::FLt => Z3_mk_fpa_lt(self.c, x, y),
                        _ => Z3_mk_fpa_leq(self.c, x, y),
                    }
                }
                _ => {
                    let x = self.bits(d, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(self.c, x, one)
                }
            }
        };
        self.bl[e.0 as usize] = r;
        r
    }
    fn bits(&mut self, d: &Dag, e: Ex) -> P {
        if self.bv.len() <= e.0 as usize {
            self.bv.resize(d.nodes.len(), std::ptr::null_mut());
        }
        let x = self.bv[e.0 as usize];
        if !x.is_null() {
            return x;
        }
        let n = *d.n(e);
        let (a, b) = (Ex(n.a), Ex(n.b));
        let r = unsafe {
            if n.w == 1
                && (Self::is_pred(n.op) || matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite))
            {
                let x = self.boolean(d, e);
                let (one, zero) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(self.c, x, one, zero)
            } else {
                match n.op {
                    Op::Const => self.num(n.w, n.k),
                    Op::Var => {
                        let name = CString::new(format!("v{}", n.a)).unwrap();
                        Z3_mk_const(
                            self.c,
                            Z3_mk_string_symbol(self.c, name.as_ptr()),
                            Z3_mk_bv_sort(self.c, n.w as u32),
                        )
                    }
                    Op::Ite => {
                        let x = self.boolean(d, a);
                        let y = self.bits(d, b);
                        let z = self.bits(d, Ex(n.c));
                        Z3_mk_ite(self.c, x, y, z)
                    }
                    Op::Extract => {
                        let x = self.bits(d, a);
                        Z3_mk_extract(self.c, n.k as u32 + n.w as u32 - 1, n.k as u32, x)
                    }
                    Op::ZExt => {
                        let x = self.bits(d, a);
                        Z3_mk_zero_ext(self.c, (n.w - d.w(a)) as u32, x)
                    }
                    Op::SExt => {
                        let x = self.bits(d, a);
                        Z3_mk_sign_ext(self.c, (n.w - d.w(a)) as u32, x)
                    }
                    Op::Bswap => {
                        let x = self.bits(d, a);
                        let mut r: P = Z3_mk_extract(self.c, 7, 0, x);
                        for i in 1..(n.w as u32 / 8) {
                            let y = Z3_mk_extract(self.c, 8 * i + 7, 8 * i, x);
                            r = Z3_mk_concat(self.c, r, y);
                        }
                        r
                    }
                    Op::Not => {
                        let x = self.bits(d, a);
                        Z3_mk_bvnot(self.c, x)
                    }
                    Op::UToF | Op::SToF => {
                        let x = self.bits(d, a);
                        let s = if n.w == 64 { Z3_mk_fpa_sort_double(self.c) } else { Z3_mk_fpa_sort_single(self.c) };
                        let rm = Z3_mk_fpa_rne(self.c);
                        let f = if n.op == Op::UToF {
                            Z3_mk_fpa_to_fp_unsigned(self.c, rm, x, s)
                        } else {
                            Z3_mk_fpa_to_fp_signed(self.c, rm, x, s)
                        };
                        Z3_mk_fpa_to_ieee_bv(self.c, f)
                    }
                    Op::FToU | Op::FToS => {
                        let x = self.bits(d, a);
                        let f = self.fp(x, d.w(a));
                        let rm = Z3_mk_fpa_rtz(self.c);
                        if n.op == Op::FToU {
                            Z3_mk_fpa_to_ubv(self.c, rm, f, n.w as u32)
                        } else {
                            Z3_mk_fpa_to_sbv(self.c, rm, f, n.w as u32)
                        }
                    }
                    _ => {
                        let x = self.bits(d, a);
                        let y = self.bits(d, b);
                        let c = self.c;
                        match n.op {
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                                let (x, y) = (self.fp(x, n.w), self.fp(y, n.w));
                                let rm = Z3_mk_fpa_rne(c);
                                let f = match n.op {
                                    Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                                    Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                                    Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                                    _ => Z3_mk_fpa_div(c, rm, x, y),
                                };
                                Z3_mk_fpa_to_ieee_bv(c, f)
                            }
                            o => unreachable!("{o:?}"),
                        }
                    }
                }
            }
        };
        self.bv[e.0 as usize] = r;
        r
    }
    /// Is `pc /\ cond` satisfiable? `pc` is the path condition in order. Only
    /// the constraints sharing variables (transitively) with `cond` matter,
    /// because the rest is satisfiable and independent; `base` supplies values
    /// for the others.
    pub fn sat(&mut self, d: &mut Dag, pc: &[Ex], cond: Ex, base: &Model) -> Res {
        // slice
        let mut vars: Vec<u32> = d.varset(cond).to_vec();
        let sets: Vec<Rc<[u32]>> = pc.iter().map(|p| d.varset(*p)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true;
                    ch = true;
                    for v in sets[i].iter() {
                        if let Err(p) = vars.binary_search(v) {
                            vars.insert(p, *v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let sl: Vec<Ex> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        let mut key: Vec<u32> = sl.iter().map(|e| e.0).collect();
        key.push(cond.0);
        key.sort();
        key.dedup();
        let combine = |m: &Model| {
            let mut v = base.v.clone();
            v.resize(d.vars.len().max(v.len()), 0);
            for i in &vars {
                v[*i as usize] = m.v.get(*i as usize).copied().unwrap_or(0);
            }
            Model::new(v)
        };
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(combine(m)),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        // keep the solver's stack in step with the slice
        let common = self.stack.iter().zip(sl.iter()).take_while(|(a, b)| a == b).count();
        let res = unsafe {
            if self.stack.len() > common {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as u32);
                self.stack.truncate(common);
            }
            for e in &sl[common..] {
                Z3_solver_push(self.c, self.s);
                let a = self.boolean(d, *e);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(*e);
            }
            Z3_solver_push(self.c, self.s);
            let a = self.boolean(d, cond);
            Z3_solver_assert(self.c, self.s, a);
            alarm(self.limit_s);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut by = self.s;
            let mut fresh: P = std::ptr::null_mut();
            if r == 0 {
                // second attempt: everything anew, bit-blasted, no incremental state
                fresh = self.fresh();
                by = fresh;
                for e in sl.iter().chain([&cond]) {
                    let a = self.boolean(d, *e);
                    Z3_solver_assert(self.c, fresh, a);
                }
                r = Z3_solver_check(self.c, fresh);
            }
            alarm(0);
            if std::env::var_os("SYMEX_SLOW").is_some() && t0.elapsed().as_millis() > 1000 {
                eprintln!("slow query {:?} -> {} : {}", t0.elapsed(), r, d.show(cond));
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, by);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = base.v.clone();
                    v.resize(d.vars.len(), 0);
                    for i in &vars {
                        let name = CString::new(format!("v{i}")).unwrap();
                        let t = Z3_mk_const(
                            self.c,
                            Z3_mk_string_symbol(self.c, name.as_ptr()),
                            Z3_mk_bv_sort(self.c, d.vars[*i as usize].1 as u32),
                        );
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, t, true, &mut o);
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap();
                        v[*i as usize] = s.parse().unwrap();
                    }
                    Z3_model_dec_ref(self.c, m);
                    let m = Model::new(v);
                    // the model must satisfy what was asked (checks the encoding)
                    if !self.fp {
                        assert_eq!(m.eval(d, cond), 1, "model does not satisfy {}", d.show(cond));
                        for e in &sl {
                            assert_eq!(m.eval(d, *e), 1, "model does not satisfy {}", d.show(*e));
                        }
                    }
                    Res::Sat(m)
                }
                -1 => Res::Unsat,
                _ => {
                    let why = CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, by)).to_string_lossy().to_string();
                    if std::env::var_os("SYMEX_SLOW").is_some() {
                        eprintln!("unknown: {why}");
                    }
                    Res::Unknown
                }
            };
            if let Some(p) = &self.dump {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                let k = self.st.queries;
                let verdict = match &out {
                    Res::Sat(_) => "sat",
                    Res::Unsat => "unsat",
                    _ => "unknown",
                };
                let _ = std::fs::write(
                    format!("{p}/{}-{}-{}.smt2", std::process::id(), k, verdict),
                    format!("(set-logic ALL)\n{s}\n(check-sat)\n"),
                );
            }
            if !fresh.is_null() {
                Z3_solver_dec_ref(self.c, fresh);
            }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.st.queries += 1;
        self.st.ns += ns;
        self.st.max_ns = self.st.max_ns.max(ns);
        match &res {
            Res::Sat(m) => {
                self.st.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => self.st.unknown += 1,
        }
        let _ = self.s_fp;
        res
    }
}
