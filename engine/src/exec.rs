//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use crate::state::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub enum Stop {
    /// this path is over
    Killed,
    Done,
    Violation(String),
    Error(String),
    /// the thread was descheduled or the frame changed; go round the loop
    Again,
}
pub type X<T> = Result<T, Stop>;

#[repr(C)]
pub struct Shared {
    pub stop: AtomicU32,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache: AtomicU64,
    pub solver_ns: AtomicU64,
    pub max_ns: AtomicU64,
    pub procs: AtomicU64,
    pub incomplete: AtomicU64,
    pub maxdepth: AtomicU64,
    pub maxvars: AtomicU64,
    pub reach: [AtomicU64; 64],
    pub fnseen: [AtomicU64; 2048], // bitmap of executed functions (131072)
}

pub struct Cfg {
    pub out: String,
    pub jobs: u32,
    pub max_steps: u64,
    pub deadline: Instant,
    pub preempt: u32,
    /// forced switches to another than the first ready thread
    pub delays: u32,
    pub known: Vec<String>,
    pub tier: u32,
    pub trace: bool,
    pub keep_going: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None,
    Nop,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Bswap,
    Bitrev,
    Ctpop,
    Ctlz,
    Cttz,
    Fshl,
    Fshr,
    UaddO,
    SaddO,
    UsubO,
    SsubO,
    UmulO,
    SmulO,
    UaddS,
    SaddS,
    UsubS,
    SsubS,
    Ucmp,
    Scmp,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Fabs,
    FRoundZ,
    FToISat(bool),
    IsConst,
    ArgId, // returns its first argument
    Tls,
    Trap,
    Panic,
    Abort,
    Hash0,
    HashKeys,
    SymBytes,
    SymChoose,
    SymAssume,
    SymAssert,
    SymFail,
    SymReach,
    SymNote,
    SymYield,
    SymSpawn,
    SymJoin,
    SymSelf,
    SymKnown,
    SymTier,
    Syscall,
    Write,
    Errno,
    Zero,
    MinusOne,
    ClockGettime,
    PthreadCreate,
    PthreadJoin,
    PthreadSelf,
    Malloc,
    Free,
    PosixMemalign,
    VecReduce,
}

pub struct Engine {
    pub m: Module,
    pub d: Dag,
    pub s: Solver,
    consts: Vec<Option<Rc<Obj>>>,
    gslot: Vec<u32>,
    nslots: usize,
    hooks: Vec<u8>,
    bis: Vec<Bi>,
    pub wl: Vec<State>,
    pub sh: &'static Shared,
    pub cfg: Cfg,
    vars: HashMap<(u32, u16), Ex, Fx>,
    pub reach_names: Vec<String>,
    last_fork: Instant,
    tok: (i32, i32),
    nkids: u32,
    reported: HashMap<String, u32>,
    i8t: TyId,
    in_child: bool,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn pipe2(p: *mut i32, fl: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setpgid(p: i32, g: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Write end of the token pipe, for the alarm handler.
static TOK: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// The solver ignored its time limit: give the core back and end this worker;
/// the root counts the lost work as an error.
extern "C" fn stuck(_: i32) {
    unsafe {
        write(TOK.load(SeqCst), b"t".as_ptr(), 1);
        _exit(99)
    }
}

pub fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Error(s.into()))
}

impl Engine {
    pub fn new(m: Module, s: Solver, cfg: Cfg, sh: &'static Shared) -> Engine {
        let mut gslot = vec![];
        let mut nslots = 0;
        for g in &m.globals {
            if g.constant {
                gslot.push(u32::MAX);
            } else {
                gslot.push(nslots as u32);
                nslots += 1;
            }
        }
        let nf = m.fns.len();
        let ng = m.globals.len();
        let mut fds = [0i32; 2];
        unsafe {
            pipe2(fds.as_mut_ptr(), 0o4000); // O_NONBLOCK
            for _ in 1..cfg.jobs {
                write(fds[1], b"t".as_ptr(), 1);
            }
        }
        let mut m = m;
        let i8t = m.mkty(Ty::Int(8));
        Engine {
            m,
            d: Dag::new(),
            s,
            consts: vec![None; ng],
            gslot,
            nslots,
            hooks: vec![0; nf],
            bis: vec![Bi::None; nf],
            wl: vec![],
            sh,
            cfg,
            vars: HashMap::with_hasher(Fx),
            reach_names: vec![],
            last_fork: Instant::now(),
            tok: (fds[0], fds[1]),
            nkids: 0,
            reported: HashMap::new(),
            i8t,
            in_child: false,
        }
    }
    fn flush_stats(&mut self) {
        let st = std::mem::take(&mut self.s.st);
        let a = |x: &AtomicU64, v: u64| {
            x.fetch_add(v, SeqCst);
        };
        a(&self.sh.queries, st.queries);
        a(&self.sh.sat, st.sat);
        a(&self.sh.unsat, st.unsat);
        a(&self.sh.unknown, st.unknown);
        a(&self.sh.cache, st.cache_hits);
        a(&self.sh.solver_ns, st.ns);
        self.sh.max_ns.fetch_max(st.max_ns, SeqCst);
        self.sh.maxvars.fetch_max(self.d.vars.len() as u64, SeqCst);
    }
    pub fn explore(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fmap.get(entry).ok_or_else(|| format!("no function {entry}"))?;
        let mut st = State {
            dynm: vec![],
            free: vec![],
            mglob: vec![None; self.nslots],
            threads: vec![],
            cur: 0,
            pc: vec![],
            facts: Facts::default(),
            model: Model::new(vec![]),
            trace: vec![],
            forced: None,
            steps: 0,
            depth: 0,
            preempt: self.cfg.preempt,
            delays: self.cfg.delays,
            started: false,
            nvar: 0,
            notes: vec![],
            clock: vec![],
        };
        st.threads.push(Thread { frames: vec![], vals: vec![], tls: vec![], st: Status::Run, result: 0 });
        if let Err(Stop::Error(e)) = self.push_frame(&mut st, fi, &[], NODST) {
            return Err(e);
        }
        self.wl.push(st);
        // the root only waits: workers and the workers they start are its to reap
        unsafe {
            TOK.store(self.tok.1, SeqCst);
            prctl(36, 1, 0, 0, 0);
            setpgid(0, 0);
            signal(14, stuck as *const () as usize);
            if fork() == 0 {
                self.work();
                unreachable!()
            }
            signal(15, 1);
            let end = self.cfg.deadline + std::time::Duration::from_secs(30);
            let mut s = 0;
            let mut killed = false;
            loop {
                let p = waitpid(-1, &mut s, 1);
                if p < 0 {
                    break;
                }
                if p == 0 {
                    if Instant::now() > end && !killed {
                        killed = true;
                        self.sh.incomplete.fetch_add(1, SeqCst);
                        kill(0, 15);
                    }
                    std::thread::sleep(std::time::Duration::from_millis(2));
                } else if s != 0 && !killed {
                    self.sh.errors.fetch_add(1, SeqCst);
                    self.report("error", &format!("worker process ended with status {s}"), None);
                }
            }
        }
        Ok(())
    }
    fn work(&mut self) {
        while let Some(st) = self.wl.pop() {
            if self.sh.stop.load(SeqCst) != 0 {
                self.sh.incomplete.fetch_add(1 + self.wl.len() as u64, SeqCst);
                self.wl.clear();
                break;
            }
            self.run(st);
            self.share();
        }
        self.flush_stats();
        // hand the core back, then wait for the processes started from here
        unsafe {
            write(self.tok.1, b"t".as_ptr(), 1);
            while self.nkids > 0 {
                let mut s = 0;
                if waitpid(-1, &mut s, 0) <= 0 {
                    break;
                }
                self.nkids -= 1;
                if s != 0 {
                    self.sh.errors.fetch_add(1, SeqCst);
                    self.report("error", &format!("worker process ended with status {s}"), None);
                }
            }
            _exit(0)
        }
    }
    /// Gives the oldest pending state to a new process if a core is free.
    fn share(&mut self) {
        if self.wl.len() < 2 || self.last_fork.elapsed().as_millis() < 20 {
            return;
        }
        let mut b = [0u8; 1];
        unsafe {
            if read(self.tok.0, b.as_mut_ptr(), 1) != 1 {
                return;
            }
            self.flush_stats();
            match fork() {
                0 => {
                    let first = self.wl.swap_remove(0);
                    self.wl.clear();
                    self.wl.push(first);
                        self.nkids = 0;
                    self.in_child = true;
                    self.last_fork = Instant::now();
                    self.sh.procs.fetch_add(1, SeqCst);
                    self.work();
                    unreachable!()
                }
                p if p > 0 => {
                    self.wl.remove(0);
                    self.nkids += 1;
                    self.last_fork = Instant::now();
                }
                _ => {
                    write(self.tok.1, b"t".as_ptr(), 1);
                }
            }
        }
    }
    fn report(&mut self, kind: &str, msg: &str, st: Option<(&State, &Model)>) {
        use std::io::Write;
        let n = self.reported.entry(format!("{kind}{msg}")).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let id = format!("{}-{}", std::process::id(), self.reported.values().sum::<u32>());
        let mut s = format!("# {kind}: {msg}\n");
        if let Some((st, m)) = st {
            for e in &st.trace {
                match e {
                    Ev::Bytes(v) => {
                        let h: String = v.iter().map(|x| format!("{:02x}", m.eval(&self.d, *x))).collect();
                        s.push_str(&format!("b {h}\n"));
                    }
                    Ev::Choose(i) => s.push_str(&format!("c {i}\n")),
                    Ev::Sched(i) => s.push_str(&format!("s {i}\n")),
                }
            }
            for (k, v) in &st.notes {
                let h: String = v.iter().map(|x| format!("{:02x}", m.eval(&self.d, *x))).collect();
                s.push_str(&format!("# note {k} {h}\n"));
            }
            for t in &st.threads {
                s.push_str("# stack\n");
                for f in t.frames.iter().rev().take(25) {
                    s.push_str(&format!("#   {}\n", self.m.fns[f.fi as usize].name));
                }
            }
        }
        let path = format!("{}/{}-{}.txt", self.cfg.out, kind, id);
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = f.write_all(s.as_bytes());
        }
    }
    fn run(&mut self, mut st: State) {
        let r = self.run_path(&mut st);
        self.sh.steps.fetch_add(st.steps, SeqCst);
        self.sh.maxdepth.fetch_max(st.depth as u64, SeqCst);
        match r {
            Stop::Done => {
                let n = self.sh.paths.fetch_add(1, SeqCst);
                // keep a spread of completed paths for replay on the real build
                let mut k = 1;
                while k < n {
                    k *= 3;
                }
                if n < 2 || k == n {
                    let m = st.model.clone();
                    self.report("sample", &format!("path {n}"), Some((&st, &m)));
                }
            }
            Stop::Killed => {
                self.sh.killed.fetch_add(1, SeqCst);
            }
            Stop::Violation(msg) => {
                self.sh.violations.fetch_add(1, SeqCst);
                let m = st.model.clone();
                self.report("violation", &msg, Some((&st, &m)));
                if !self.cfg.keep_going {
                    self.sh.stop.store(1, SeqCst);
                }
            }
            Stop::Error(msg) => {
                if msg == "deadline" {
                    self.sh.incomplete.fetch_add(1, SeqCst);
                } else {
                    self.sh.errors.fetch_add(1, SeqCst);
                    let m = st.model.clone();
                    self.report("error", &msg, Some((&st, &m)));
                }
            }
            Stop::Again => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n > 1 << 26 {
            return err(format!("allocation of {n} bytes"));
        }
        let o = Rc::new(Obj::new(n as usize));
        let i = match st.free.pop() {
            Some(i) => {
                st.dynm[i as usize] = Some(o);
                i
            }
            None => {
                st.dynm.push(Some(o));
                st.dynm.len() as u32 - 1
            }
        };
        Ok((DYN_BASE + i as u64) << 32)
    }
    fn dealloc(&mut self, st: &mut State, a: u64) -> X<()> {
        let i = (a >> 32).wrapping_sub(DYN_BASE) as usize;
        if a & 0xffff_ffff != 0 || i >= st.dynm.len() || st.dynm[i].is_none() {
            return err(format!("bad free of {a:#x}"));
        }
        st.dynm[i] = None;
        st.free.push(i as u32);
        Ok(())
    }
    fn flat_const(&self, t: TyId, v: &Val, out: &mut [u8]) {
        match (&self.m.tys[t as usize], v) {
            (Ty::Arr(_, e), Val::A(x)) => {
                let sz = self.m.size(*e).0 as usize;
                for (i, v) in x.iter().enumerate() {
                    self.flat_const(*e, v, &mut out[i * sz..(i + 1) * sz]);
                }
            }
            (Ty::Vec(_, e), Val::A(x)) if self.m.tys[*e as usize] == Ty::Int(1) => {
                for (i, v) in x.iter().enumerate() {
                    if let Val::C(k) = v {
                        out[i / 8] |= ((*k & 1) as u8) << (i % 8);
                    }
                }
            }
            (Ty::Vec(_, e), Val::A(x)) => {
                let sz = self.m.size(*e).0 as usize;
                for (i, v) in x.iter().enumerate() {
                    self.flat_const(*e, v, &mut out[i * sz..(i + 1) * sz]);
                }
            }
            (Ty::Struct(f, p), Val::A(x)) => {
                for (i, v) in x.iter().enumerate() {
                    let o = self.m.field_off(f, *p, i) as usize;
                    let sz = self.m.size(f[i]).0 as usize;
                    self.flat_const(f[i], v, &mut out[o..o + sz]);
                }
            }
            (_, Val::C(k)) => {
                for (i, b) in out.iter_mut().enumerate() {
                    *b = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                }
            }
            _ => {}
        }
    }
    fn init_global(&mut self, g: u32) -> X<Rc<Obj>> {
        let (t, v) = self.m.global_init(g).map_err(|e| Stop::Error(format!("global {}: {e}", self.m.globals[g as usize].name)))?;
        let n = self.m.size(t).0 as usize;
        let mut o = Obj::new(n);
        let mut b = std::mem::take(&mut o.b);
        self.flat_const(t, &v, &mut b);
        o.b = b;
        Ok(Rc::new(o))
    }
    fn obj<'a>(&'a mut self, st: &'a mut State, a: u64) -> X<&'a Rc<Obj>> {
        let id = a >> 32;
        if id >= DYN_BASE {
            if id < FN_BASE {
                if let Some(Some(o)) = st.dynm.get((id - DYN_BASE) as usize) {
                    return Ok(o);
                }
            }
        } else if id >= GLOB_BASE {
            let g = (id - GLOB_BASE) as usize;
            if g < self.gslot.len() {
                if self.gslot[g] == u32::MAX {
                    if self.consts[g].is_none() {
                        self.consts[g] = Some(self.init_global(g as u32)?);
                    }
                    return Ok(self.consts[g].as_ref().unwrap());
                }
                let s = self.gslot[g] as usize;
                if st.mglob[s].is_none() {
                    st.mglob[s] = Some(self.init_global(g as u32)?);
                }
                return Ok(st.mglob[s].as_ref().unwrap());
            }
        }
        err(format!("access to invalid address {a:#x}"))
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, a: u64) -> X<&'a mut Obj> {
        let id = a >> 32;
        if id >= DYN_BASE {
            if id < FN_BASE {
                if let Some(Some(o)) = st.dynm.get_mut((id - DYN_BASE) as usize) {
                    return Ok(Rc::make_mut(o));
                }
            }
        } else if id >= GLOB_BASE {
            let g = (id - GLOB_BASE) as usize;
            if g < self.gslot.len() && self.gslot[g] != u32::MAX {
                let s = self.gslot[g] as usize;
                if st.mglob[s].is_none() {
                    st.mglob[s] = Some(self.init_global(g as u32)?);
                }
                return Ok(Rc::make_mut(st.mglob[s].as_mut().unwrap()));
            }
        }
        err(format!("write to invalid address {a:#x}"))
    }
    fn chk(o: &Obj, off: usize, n: usize, a: u64) -> X<()> {
        if off + n > o.b.len() {
            return err(format!("out-of-bounds access at {a:#x}+{n} (object of {})", o.b.len()));
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, a: u64, n: usize) -> X<Val> {
        let off = (a & 0xffff_ffff) as usize;
        let o = self.obj(st, a)?;
        Self::chk(o, off, n, a)?;
        if !o.is_sym(off, n) {
            let mut k = [0u8; 16];
            k[..n].copy_from_slice(&o.b[off..off + n]);
            return Ok(Val::C(u128::from_le_bytes(k)));
        }
        let s: Vec<u64> = o.s.as_ref().unwrap()[off..off + n].to_vec();
        let b: Vec<u8> = o.b[off..off + n].to_vec();
        let d = &mut self.d;
        let mut out: Option<Ex> = None;
        let mut i = n; // exclusive upper end
        while i > 0 {
            let piece;
            if s[i - 1] == 0 {
                let mut j = i - 1;
                while j > 0 && s[j - 1] == 0 {
                    j -= 1;
                }
                let mut k = 0u128;
                for x in (j..i).rev() {
                    k = k << 8 | b[x] as u128;
                }
                piece = d.c(8 * (i - j) as u16, k);
                i = j;
            } else {
                let (e, hi) = un_sb(s[i - 1]);
                let mut j = i - 1;
                let mut cnt = 1u16;
                let next = if j > 0 && s[j - 1] != 0 { Some(un_sb(s[j - 1])) } else { None };
                match next {
                    Some((e2, x)) if e2 == e && x + 1 == hi => {
                        while j > 0 && hi >= cnt && s[j - 1] == sb(e, hi - cnt) {
                            j -= 1;
                            cnt += 1;
                        }
                        piece = d.extract(e, 8 * hi + 7, 8 * (hi + 1 - cnt));
                    }
                    Some((e2, x)) if e2 == e && x == hi + 1 => {
                        while j > 0 && s[j - 1] == sb(e, hi + cnt) {
                            j -= 1;
                            cnt += 1;
                        }
                        let p = d.extract(e, 8 * (hi + cnt - 1) + 7, 8 * hi);
                        piece = d.bswap(p);
                    }
                    _ => piece = d.extract(e, 8 * hi + 7, 8 * hi),
                }
                i = j;
            }
            out = Some(match out {
                None => piece,
                Some(h) => d.concat(h, piece),
            });
        }
        Ok(Val::E(out.unwrap()))
    }
    pub fn byte_of(&mut self, e: Ex, i: u16) -> Result<u8, u64> {
        let x = self.d.extract(e, 8 * i + 7, 8 * i);
        let n = *self.d.n(x);
        match n.op {
            Op::Const => Ok(n.k as u8),
            Op::Extract if n.k % 8 == 0 => Err(sb(Ex(n.a), (n.k / 8) as u16)),
            _ => Err(sb(x, 0)),
        }
    }
    pub fn store(&mut self, st: &mut State, a: u64, v: &Val, n: usize) -> X<()> {
        let off = (a & 0xffff_ffff) as usize;
        match v {
            Val::C(k) => {
                let o = self.obj_mut(st, a)?;
                Self::chk(o, off, n, a)?;
                let kb = k.to_le_bytes();
                if n <= 16 {
                    o.set_c(off, &kb[..n]);
                } else {
                    return err("wide constant store");
                }
            }
            Val::E(e) => {
                let w = self.d.w(*e);
                let e = if w as usize != 8 * n { self.d.zext(*e, 8 * n as u16) } else { *e };
                let bytes: Vec<Result<u8, u64>> = (0..n).map(|i| self.byte_of(e, i as u16)).collect();
                let o = self.obj_mut(st, a)?;
                Self::chk(o, off, n, a)?;
                for (i, b) in bytes.into_iter().enumerate() {
                    match b {
                        Ok(k) => o.set_c(off + i, &[k]),
                        Err(s) => o.set_s(off + i, s),
                    }
                }
            }
            Val::A(_) => return err("aggregate store"),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, a: u64, t: TyId) -> X<Val> {
        let ty = self.m.tys[t as usize].clone();
        Ok(match ty {
            Ty::Int(w) => {
                let n = (w as usize).div_ceil(8);
                let v = self.load(st, a, n)?;
                if w % 8 != 0 {
                    match v {
                        Val::C(k) => Val::C(k & mask(w)),
                        Val::E(e) => self.ve(|d| d.trunc(e, w)),
                        v => v,
                    }
                } else {
                    v
                }
            }
            Ty::Ptr | Ty::F64 => self.load(st, a, 8)?,
            Ty::F32 => self.load(st, a, 4)?,
            Ty::Arr(n, e) => {
                let sz = self.m.size(e).0;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, a + i * sz, e)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                if self.m.tys[e as usize] == Ty::Int(1) {
                    let mut b = vec![];
                    for i in 0..(n as u64).div_ceil(8) {
                        let v = self.load(st, a + i, 1)?;
                        b.push(self.ex(&v, 8));
                    }
                    return self.from_bytes(t, &b);
                }
                let sz = self.m.size(e).0;
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load_ty(st, a + i * sz, e)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Struct(f, p) => {
                let mut v = vec![];
                for (i, x) in f.iter().enumerate() {
                    let o = self.m.field_off(&f, p, i);
                    v.push(self.load_ty(st, a + o, *x)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return err("load of this type"),
        })
    }
    fn store_ty(&mut self, st: &mut State, a: u64, v: &Val, t: TyId) -> X<()> {
        let ty = self.m.tys[t as usize].clone();
        match (ty, v) {
            (Ty::Int(w), v) => self.store(st, a, v, (w as usize).div_ceil(8)),
            (Ty::Ptr | Ty::F64, v) => self.store(st, a, v, 8),
            (Ty::F32, v) => self.store(st, a, v, 4),
            (Ty::Arr(_, e), Val::A(x)) => {
                let sz = self.m.size(e).0;
                for (i, v) in x.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * sz, v, e)?;
                }
                Ok(())
            }
            (Ty::Vec(_, e), v) if self.m.tys[e as usize] == Ty::Int(1) => {
                let mut b = vec![];
                self.to_bytes(t, v, &mut b)?;
                for (i, x) in b.into_iter().enumerate() {
                    let v = match self.d.k(x) {
                        Some(k) => Val::C(k),
                        None => Val::E(x),
                    };
                    self.store(st, a + i as u64, &v, 1)?;
                }
                Ok(())
            }
            (Ty::Vec(_, e), Val::A(x)) => {
                let sz = self.m.size(e).0;
                for (i, v) in x.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * sz, v, e)?;
                }
                Ok(())
            }
            (Ty::Struct(f, p), Val::A(x)) => {
                for (i, v) in x.iter().enumerate() {
                    let o = self.m.field_off(&f, p, i);
                    self.store_ty(st, a + o, v, f[i])?;
                }
                Ok(())
            }
            _ => err("store of this type"),
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let so = (src & 0xffff_ffff) as usize;
        let o = self.obj(st, src)?;
        Self::chk(o, so, n, src)?;
        let b = o.b[so..so + n].to_vec();
        let s = if o.is_sym(so, n) { Some(o.s.as_ref().unwrap()[so..so + n].to_vec()) } else { None };
        let dof = (dst & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, dst)?;
        Self::chk(o, dof, n, dst)?;
        o.set_c(dof, &b);
        if let Some(s) = s {
            for (i, x) in s.iter().enumerate() {
                if *x != 0 {
                    o.set_s(dof + i, *x);
                }
            }
        }
        Ok(())
    }
    fn bytes_at(&mut self, st: &mut State, a: u64, n: usize) -> X<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (a & 0xffff_ffff) as usize;
        let o = self.obj(st, a)?;
        Self::chk(o, off, n, a)?;
        if o.is_sym(off, n) {
            return err("symbolic bytes where concrete ones are needed");
        }
        Ok(o.b[off..off + n].to_vec())
    }
    fn str_at(&mut self, st: &mut State, a: u64, n: usize) -> String {
        match self.bytes_at(st, a, n) {
            Ok(b) => String::from_utf8_lossy(&b).to_string(),
            Err(_) => "<symbolic text>".into(),
        }
    }

    // ------------------------------------------------------------ decisions
    fn ve(&mut self, f: impl FnOnce(&mut Dag) -> Ex) -> Val {
        let e = f(&mut self.d);
        match self.d.k(e) {
            Some(k) => Val::C(k),
            None => Val::E(e),
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> Ex {
        match v {
            Val::C(k) => self.d.c(w, *k),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate as bits"),
        }
    }
    fn push_pc(&mut self, st: &mut State, c: Ex, v: bool) {
        // conjunctions are kept as separate constraints, for slicing
        let n = *self.d.n(c);
        match (n.op, v) {
            (Op::And, true) | (Op::Or, false) => {
                self.push_pc(st, Ex(n.a), v);
                self.push_pc(st, Ex(n.b), v);
                st.facts.set(&self.d, c, v);
                return;
            }
            (Op::Not, _) => return self.push_pc(st, Ex(n.a), !v),
            (Op::Const, _) => return,
            _ => {}
        }
        let lit = if v { c } else { self.d.not(c) };
        st.pc.push(lit);
        st.facts.set(&self.d, c, v);
    }
    pub fn branch(&mut self, st: &mut State, c: Ex) -> X<bool> {
        if let Some(v) = st.facts.decide(&self.d, c) {
            return Ok(v);
        }
        let side = st.model.eval(&self.d, c) == 1;
        let other = if side { self.d.not(c) } else { c };
        let model = st.model.clone();
        match self.s.sat(&mut self.d, &st.pc, other, &model) {
            Res::Unsat => {
                st.facts.set(&self.d, c, side);
                Ok(side)
            }
            r => {
                let mut o = st.clone();
                match r {
                    Res::Sat(m) => o.model = m,
                    _ => {
                        // undecided within the solver's time: both sides are
                        // kept, the other one without a model
                        return err("solver gave no answer on a branch");
                    }
                }
                o.depth += 1;
                self.push_pc(&mut o, c, !side);
                self.sh.forks.fetch_add(1, SeqCst);
                self.wl.push(o);
                st.depth += 1;
                self.push_pc(st, c, side);
                Ok(side)
            }
        }
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> X<bool> {
        match v {
            Val::C(k) => Ok(*k & 1 == 1),
            Val::E(e) => self.branch(st, *e),
            Val::A(_) => err("aggregate condition"),
        }
    }
    /// A concrete value for `v`; forks over the feasible ones.
    pub fn concrete(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::E(e) => {
                for _ in 0..300 {
                    if let Some(k) = st.facts.val(&self.d, *e) {
                        return Ok(k);
                    }
                    let k = st.model.eval(&self.d, *e);
                    let w = self.d.w(*e);
                    let ke = self.d.c(w, k);
                    let c = self.d.eq(*e, ke);
                    if self.branch(st, c)? {
                        st.facts.bind.insert(e.0, k);
                        return Ok(k);
                    }
                }
                err("too many values to enumerate")
            }
            Val::A(_) => err("aggregate as integer"),
        }
    }
    fn ptr(&mut self, st: &mut State, v: &Val) -> X<u64> {
        Ok(self.concrete(st, v)? as u64)
    }
    fn choose(&mut self, st: &mut State, n: u32) -> X<u32> {
        if n == 0 {
            return Err(Stop::Killed);
        }
        if let Some(i) = st.forced.take() {
            return Ok(i);
        }
        if n > 1 {
            self.sh.forks.fetch_add(n as u64 - 1, SeqCst);
            st.depth += 1;
            for i in (1..n).rev() {
                let mut o = st.clone();
                o.forced = Some(i);
                self.wl.push(o);
            }
        }
        Ok(0)
    }
    fn tz(&self, e: Ex) -> u32 {
        let n = self.d.n(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w as u32
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let l = self.tz(Ex(n.b));
                let lw = self.d.w(Ex(n.b)) as u32;
                if l >= lw {
                    lw + self.tz(Ex(n.a))
                } else {
                    l
                }
            }
            Op::ZExt | Op::SExt => self.tz(Ex(n.a)),
            Op::Add | Op::Or | Op::Xor => self.tz(Ex(n.a)).min(self.tz(Ex(n.b))),
            Op::Mul => (self.tz(Ex(n.a)) + self.tz(Ex(n.b))).min(n.w as u32),
            Op::Ite => self.tz(Ex(n.b)).min(self.tz(Ex(n.c))),
            _ => 0,
        }
    }
    /// Load through a symbolic pointer: one object, all its feasible offsets.
    fn load_sym(&mut self, st: &mut State, p: Ex, t: TyId) -> X<Val> {
        if let Some(k) = st.facts.val(&self.d, p) {
            return self.load_ty(st, k as u64, t);
        }
        let a0 = st.model.eval(&self.d, p) as u64;
        let len = self.obj(st, a0)?.b.len();
        let sz = self.m.size(t).0 as usize;
        let w = self.m.width(t);
        if w == 0 || w % 8 != 0 || len > 4096 {
            let k = self.concrete(st, &Val::E(p))?;
            return self.load_ty(st, k as u64, t);
        }
        let base = a0 & !0xffff_ffff;
        let kb = self.d.c(64, base as u128);
        let off = self.d.bin(Op::Sub, p, kb);
        let lim = self.d.c(64, (len - sz + 1) as u128);
        let inb = self.d.ult(off, lim);
        if !self.branch(st, inb)? {
            return Err(Stop::Again);
        }
        let tz = self.tz(off).min(12);
        let step = 1usize << tz;
        let mut groups: Vec<(Val, Vec<u64>)> = vec![];
        let mut o = 0;
        while o + sz <= len {
            let v = self.load(st, base + o as u64, sz)?;
            let same = |a: &Val, b: &Val| match (a, b) {
                (Val::C(x), Val::C(y)) => x == y,
                (Val::E(x), Val::E(y)) => x == y,
                _ => false,
            };
            match groups.iter_mut().find(|g| same(&g.0, &v)) {
                Some(g) => g.1.push(o as u64),
                None => groups.push((v, vec![o as u64])),
            }
            o += step;
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut r = self.ex(&groups[0].0, w);
        for (v, offs) in groups[1..].iter() {
            let mut c = Dag::F;
            // contiguous runs as ranges
            let mut i = 0;
            while i < offs.len() {
                let mut j = i;
                while j + 1 < offs.len() && offs[j + 1] == offs[j] + step as u64 {
                    j += 1;
                }
                let cc = if j - i >= 3 {
                    let lo = self.d.c(64, offs[i] as u128);
                    let hi = self.d.c(64, offs[j] as u128 + 1);
                    let a = self.d.ult(off, lo);
                    let a = self.d.not(a);
                    let b = self.d.ult(off, hi);
                    self.d.and1(a, b)
                } else {
                    let mut x = Dag::F;
                    for q in i..=j {
                        let k = self.d.c(64, offs[q] as u128);
                        let e = self.d.eq(off, k);
                        x = self.d.bin(Op::Or, x, e);
                    }
                    x
                };
                c = self.d.bin(Op::Or, c, cc);
                i = j + 1;
            }
            let x = self.ex(v, w);
            r = self.d.ite(c, x, r);
        }
        Ok(match self.d.k(r) {
            Some(k) => Val::C(k),
            None => Val::E(r),
        })
    }

    // ---------------------------------------------------------------- values
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::L(i) => {
                let t = &st.threads[st.cur];
                let b = t.frames.last().unwrap().base;
                t.vals[(b + i) as usize].clone()
            }
        }
    }
    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst == NODST {
            return;
        }
        let t = &mut st.threads[st.cur];
        let b = t.frames.last().unwrap().base;
        t.vals[(b + dst) as usize] = v;
    }
    fn lanes(&self, t: TyId) -> Option<(u32, TyId)> {
        match self.m.tys[t as usize] {
            Ty::Vec(n, e) => Some((n, e)),
            _ => None,
        }
    }
    fn binop(&mut self, st: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => return err("frem"),
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(fold2(o, w, *x, *y)));
        }
        let _ = st;
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        Ok(self.ve(|d| d.bin(o, x, y)))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sle => (Op::Slt, true, true),
            Pred::Sge => (Op::Slt, false, true),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(fold2(op, w, *x, *y) ^ neg as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        self.ve(|d| {
            let e = d.bin(op, x, y);
            if neg {
                d.not(e)
            } else {
                e
            }
        })
    }
    fn fcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> X<Val> {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let d = &mut self.d;
        let ux = d.bin(Op::FEq, x, x);
        let uy = d.bin(Op::FEq, y, y);
        let ord = d.and1(ux, uy);
        let base = |d: &mut Dag, k: &str| match k {
            "eq" => d.bin(Op::FEq, x, y),
            "gt" => d.bin(Op::FLt, y, x),
            "ge" => d.bin(Op::FLe, y, x),
            "lt" => d.bin(Op::FLt, x, y),
            "le" => d.bin(Op::FLe, x, y),
            _ => {
                // one: ordered and unequal
                let e = d.bin(Op::FEq, x, y);
                let n = d.not(e);
                d.and1(ord, n)
            }
        };
        let e = match p {
            "ord" => ord,
            "uno" => d.not(ord),
            "true" => Dag::T,
            "false" => Dag::F,
            p if p.starts_with('o') => base(d, &p[1..]),
            p if p.starts_with('u') => {
                let r = base(d, &p[1..]);
                let n = d.not(ord);
                d.bin(Op::Or, n, r)
            }
            _ => return err(format!("fcmp {p}")),
        };
        Ok(match self.d.k(e) {
            Some(k) => Val::C(k),
            None => Val::E(e),
        })
    }
    fn cast(&mut self, c: Cast, w: u16, rw: u16, v: &Val) -> X<Val> {
        let op = match c {
            Cast::Same => return Ok(v.clone()),
            Cast::Trunc => {
                return Ok(match v {
                    Val::C(k) => Val::C(k & mask(rw)),
                    Val::E(e) => {
                        let e = *e;
                        self.ve(|d| d.trunc(e, rw))
                    }
                    _ => return err("trunc of aggregate"),
                })
            }
            Cast::ZExt => {
                return Ok(match v {
                    Val::C(k) => Val::C(*k),
                    Val::E(e) => {
                        let e = *e;
                        self.ve(|d| d.zext(e, rw))
                    }
                    _ => return err("zext of aggregate"),
                })
            }
            Cast::SExt => {
                return Ok(match v {
                    Val::C(k) => Val::C(sext(*k, w) as u128 & mask(rw)),
                    Val::E(e) => {
                        let e = *e;
                        self.ve(|d| d.sext(e, rw))
                    }
                    _ => return err("sext of aggregate"),
                })
            }
            Cast::UToF => Op::UToF,
            Cast::SToF => Op::SToF,
            Cast::FToU => Op::FToU,
            Cast::FToS => Op::FToS,
            Cast::FExt => {
                return match v {
                    Val::C(k) => Ok(Val::C((f32::from_bits(*k as u32) as f64).to_bits() as u128)),
                    _ => err("symbolic fpext"),
                }
            }
            Cast::FTrunc => {
                return match v {
                    Val::C(k) => Ok(Val::C((f64::from_bits(*k as u64) as f32).to_bits() as u128)),
                    _ => err("symbolic fptrunc"),
                }
            }
            Cast::Bitcast => return Ok(v.clone()),
        };
        let e = self.ex(v, w);
        Ok(self.ve(|d| d.un(op, e, rw)))
    }
    fn to_bytes(&mut self, t: TyId, v: &Val, out: &mut Vec<Ex>) -> X<()> {
        match (self.m.tys[t as usize].clone(), v) {
            (Ty::Vec(n, e), Val::A(x)) => {
                if self.m.tys[e as usize] == Ty::Int(1) {
                    // packed, lane 0 in the lowest bit
                    for c in x.chunks(8) {
                        let mut r: Option<Ex> = None;
                        for l in c.iter() {
                            let b = self.ex(l, 1);
                            r = Some(match r {
                                None => b,
                                Some(lo) => self.d.concat(b, lo),
                            });
                        }
                        let r = r.unwrap();
                        let r = self.d.zext(r, 8);
                        out.push(r);
                    }
                    let _ = n;
                    return Ok(());
                }
                for l in x.iter() {
                    self.to_bytes(e, l, out)?;
                }
                Ok(())
            }
            (_, v) => {
                let w = self.m.width(t);
                if w == 0 || w % 8 != 0 {
                    return err("bitcast of odd width");
                }
                let e = self.ex(v, w);
                for i in 0..w / 8 {
                    let b = self.d.extract(e, 8 * i + 7, 8 * i);
                    out.push(b);
                }
                Ok(())
            }
        }
    }
    fn from_bytes(&mut self, t: TyId, b: &[Ex]) -> X<Val> {
        match self.m.tys[t as usize].clone() {
            Ty::Vec(n, e) => {
                let mut v = vec![];
                if self.m.tys[e as usize] == Ty::Int(1) {
                    for i in 0..n as u16 {
                        let x = b[(i / 8) as usize];
                        v.push(self.ve(|d| d.extract(x, i % 8, i % 8)));
                    }
                } else {
                    let sz = self.m.size(e).0 as usize;
                    for c in b.chunks(sz) {
                        v.push(self.from_bytes(e, c)?);
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let mut r = b[b.len() - 1];
                for x in b[..b.len() - 1].iter().rev() {
                    r = self.d.concat(r, *x);
                }
                Ok(match self.d.k(r) {
                    Some(k) => Val::C(k),
                    None => Val::E(r),
                })
            }
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, t: TyId, st: &mut State) -> X<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::A(cs) => {
                let (_, e) = self.lanes(t).ok_or(Stop::Error("select lanes".into()))?;
                let (Val::A(x), Val::A(y)) = (a, b) else { return err("select lanes") };
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(&cs[i], &x[i], &y[i], e, st)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Val::E(e) => {
                let w = self.m.width(t);
                // pointers must stay concrete, so they fork
                if w == 0 || self.m.tys[t as usize] == Ty::Ptr {
                    return Ok(if self.branch(st, *e)? { a.clone() } else { b.clone() });
                }
                if let Some(k) = st.facts.decide(&self.d, *e) {
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                let (x, y, e) = (self.ex(a, w), self.ex(b, w), *e);
                Ok(self.ve(|d| d.ite(e, x, y)))
            }
        }
    }
    fn push_frame(&mut self, st: &mut State, fi: u32, args: &[Val], dst: u32) -> X<()> {
        let f = self.m.func(fi).map_err(Stop::Error)?;
        if (fi as usize) < self.sh.fnseen.len() * 64 {
            let w = &self.sh.fnseen[fi as usize / 64];
            let bit = 1u64 << (fi % 64);
            if w.load(std::sync::atomic::Ordering::Relaxed) & bit == 0 {
                w.fetch_or(bit, SeqCst);
            }
        }
        let obj = if f.frame > 0 { self.alloc(st, f.frame)? } else { 0 };
        let mut extra = vec![];
        let mut av: Vec<Val> = args.to_vec();
        for (i, n) in f.byval.iter().enumerate() {
            if *n > 0 {
                let p = self.ptr(st, &av[i])?;
                let c = self.alloc(st, *n)?;
                self.copy(st, c, p, *n as usize)?;
                extra.push(c);
                av[i] = Val::C(c as u128);
            }
        }
        let t = &mut st.threads[st.cur];
        if t.frames.len() > 3000 {
            return err("call depth bound");
        }
        let base = t.vals.len() as u32;
        t.vals.extend(av.into_iter().take(f.nparams as usize));
        t.vals.resize((base + f.nlocals) as usize, Val::C(0));
        t.frames.push(Frame { f, fi, bl: 0, ip: 0, base, obj, dst, extra });
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let t = &mut st.threads[st.cur];
        let fr = t.frames.pop().unwrap();
        t.vals.truncate(fr.base as usize);
        if fr.obj != 0 {
            self.dealloc(st, fr.obj)?;
        }
        for e in fr.extra {
            self.dealloc(st, e)?;
        }
        let t = &mut st.threads[st.cur];
        if t.frames.is_empty() {
            t.st = Status::Done;
            t.result = match v {
                Some(Val::C(k)) => k as u64,
                _ => 0,
            };
            if st.cur == 0 {
                return Err(Stop::Done);
            }
            let me = st.cur as u32;
            for t in &mut st.threads {
                if t.st == Status::Join(me) {
                    t.st = Status::Run;
                }
            }
            return self.resched(st);
        }
        if let Some(v) = v {
            self.set(st, fr.dst, v);
        }
        Ok(())
    }
    fn runnable(&self, st: &State) -> Vec<u32> {
        (0..st.threads.len() as u32).filter(|i| st.threads[*i as usize].st == Status::Run).collect()
    }
    /// The current thread cannot continue: pick another one. Leaves a mark so
    /// that the choice can be redone in forked copies.
    fn resched(&mut self, st: &mut State) -> X<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            return Err(Stop::Violation("deadlock: no thread can run".into()));
        }
        // forked copies resume with `cur` already switched
        if r.len() > 1 && st.delays > 0 {
            st.depth += 1;
            for t in &r[1..] {
                let mut o = st.clone();
                // another thread than the first ready one: costs a delay
                o.delays -= 1;
                o.trace.push(Ev::Sched(*t));
                o.cur = *t as usize;
                self.sh.forks.fetch_add(1, SeqCst);
                self.wl.push(o);
            }
        }
        st.trace.push(Ev::Sched(r[0]));
        st.cur = r[0] as usize;
        Err(Stop::Again)
    }
    fn goto(&mut self, st: &mut State, bl: u32) {
        let cur = st.cur;
        let t = &mut st.threads[cur];
        let fr = t.frames.last_mut().unwrap();
        let prev = fr.bl;
        fr.bl = bl;
        fr.ip = 0;
        let f = fr.f.clone();
        let base = fr.base;
        let ph = &f.blocks[bl as usize].phis;
        match ph.len() {
            0 => {}
            _ => {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(ph.len());
                for (d, v) in ph {
                    if let Some((_, o)) = v.iter().find(|x| x.0 == prev) {
                        let x = match o {
                            Opd::K(k) => k.clone(),
                            Opd::L(i) => t.vals[(base + i) as usize].clone(),
                        };
                        tmp.push((*d, x));
                    }
                }
                for (d, x) in tmp {
                    t.vals[(base + d) as usize] = x;
                }
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            st.steps += 1;
            if n & 0xfff == 0 {
                if Instant::now() > self.cfg.deadline {
                    self.sh.stop.store(2, SeqCst);
                    return Stop::Error("deadline".into());
                }
                if self.sh.stop.load(SeqCst) != 0 {
                    return Stop::Error("deadline".into());
                }
                if st.steps > self.cfg.max_steps {
                    return Stop::Error("step bound".into());
                }
                self.share();
            }
            match self.step(st) {
                Ok(()) | Err(Stop::Again) => {}
                Err(s) => return s,
            }
        }
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let (f, bl, ip) = {
            let fr = st.threads[st.cur].frames.last().unwrap();
            (fr.f.clone(), fr.bl, fr.ip)
        };
        let ins = &f.blocks[bl as usize].ins[ip as usize];
        macro_rules! adv {
            () => {
                st.threads[st.cur].frames.last_mut().unwrap().ip = ip + 1
            };
        }
        match ins {
            Ins::Bin(op, t, a, b, dst) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = match (self.lanes(*t), &x, &y) {
                    (Some((_, e)), Val::A(p), Val::A(q)) => {
                        let w = self.m.width(e);
                        let mut v = vec![];
                        for i in 0..p.len() {
                            v.push(self.binop(st, *op, w, &p[i], &q[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.binop(st, *op, self.m.width(*t), &x, &y)?,
                };
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Icmp(p, t, a, b, dst) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = match (self.lanes(*t), &x, &y) {
                    (Some((_, e)), Val::A(xs), Val::A(ys)) => {
                        let w = self.m.width(e);
                        let v = (0..xs.len()).map(|i| self.icmp(*p, w, &xs[i], &ys[i])).collect();
                        Val::A(Rc::new(v))
                    }
                    _ => self.icmp(*p, self.m.width(*t), &x, &y),
                };
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Fcmp(p, t, a, b, dst) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fcmp(p, self.m.width(*t), &x, &y)?;
                self.set(st, *dst, v);
                adv!();
            }
            Ins::FNeg(t, a, dst) => {
                let x = self.get(st, a);
                let w = self.m.width(*t);
                let k = Val::C(1 << (w - 1));
                let v = self.binop(st, BinOp::Xor, w, &x, &k)?;
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Select(c, a, b, t, dst) => {
                let c = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.select(&c, &x, &y, *t, st)?;
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Freeze(a, dst) => {
                let v = self.get(st, a);
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Load(t, p, dst) => {
                let v = match self.get(st, p) {
                    Val::C(k) => self.load_ty(st, k as u64, *t)?,
                    Val::E(e) => self.load_sym(st, e, *t)?,
                    _ => return err("load pointer"),
                };
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Store(t, v, p) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv)?;
                let v = self.get(st, v);
                self.store_ty(st, a, &v, *t)?;
                adv!();
            }
            Ins::Alloca(off, dst) => {
                let a = st.threads[st.cur].frames.last().unwrap().obj + off;
                self.set(st, *dst, Val::C(a as u128));
                adv!();
            }
            Ins::Gep(b, k, steps, dst) => {
                let mut v = match self.get(st, b) {
                    Val::C(x) => Val::C((x as u64).wrapping_add(*k) as u128),
                    Val::E(e) => {
                        let kk = self.d.c(64, *k as u128);
                        self.ve(|d| d.bin(Op::Add, e, kk))
                    }
                    _ => return err("gep base"),
                };
                for s in steps {
                    let i = self.get(st, &s.idx);
                    v = match (&v, &i) {
                        (Val::C(x), Val::C(y)) => {
                            let off = (sext(*y, s.w) as i64 as u64).wrapping_mul(s.stride);
                            Val::C((*x as u64).wrapping_add(off) as u128)
                        }
                        _ => {
                            let x = self.ex(&v, 64);
                            let y = self.ex(&i, s.w);
                            let y = self.d.sext(y, 64);
                            let sk = self.d.c(64, s.stride as u128);
                            let o = self.d.bin(Op::Mul, y, sk);
                            self.ve(|d| d.bin(Op::Add, x, o))
                        }
                    };
                }
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Br(b) => self.goto(st, *b),
            Ins::CondBr(c, t, e) => {
                let v = self.get(st, c);
                let b = self.cond(st, &v)?;
                self.goto(st, if b { *t } else { *e });
            }
            Ins::Switch(c, w, d, cases) => {
                let v = self.get(st, c);
                let target = match v {
                    Val::C(k) => cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d),
                    Val::E(e) => {
                        if let Some(k) = st.facts.val(&self.d, e) {
                            cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d)
                        } else {
                            // group the cases by destination
                            let mut r = None;
                            let mut dests: Vec<u32> = vec![];
                            for (_, b) in cases {
                                if !dests.contains(b) && b != d {
                                    dests.push(*b);
                                }
                            }
                            for b in dests {
                                let mut c = Dag::F;
                                for (k, _) in cases.iter().filter(|x| x.1 == b) {
                                    let kk = self.d.c(*w, *k);
                                    let q = self.d.eq(e, kk);
                                    c = self.d.bin(Op::Or, c, q);
                                }
                                if self.branch(st, c)? {
                                    r = Some(b);
                                    break;
                                }
                            }
                            r.unwrap_or(*d)
                        }
                    }
                    _ => return err("switch on aggregate"),
                };
                self.goto(st, target);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|v| self.get(st, v));
                self.pop_frame(st, v)?;
            }
            Ins::Unreachable => return err("reached unreachable code"),
            Ins::Cast(c, t, rt, a, dst) => {
                let x = self.get(st, a);
                let v = if *c == Cast::Bitcast {
                    if self.m.width(*t) > 0 && self.m.width(*t) == self.m.width(*rt) {
                        x
                    } else {
                        let mut b = vec![];
                        self.to_bytes(*t, &x, &mut b)?;
                        self.from_bytes(*rt, &b)?
                    }
                } else {
                    match (self.lanes(*t), self.lanes(*rt), &x) {
                        (Some((_, e)), Some((_, re)), Val::A(xs)) => {
                            let (w, rw) = (self.m.width(e), self.m.width(re));
                            let mut v = vec![];
                            for l in xs.iter() {
                                v.push(self.cast(*c, w, rw, l)?);
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => self.cast(*c, self.m.width(*t), self.m.width(*rt), &x)?,
                    }
                };
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Extract(a, ix, dst) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Insert(_, a, x, ix, dst) => {
                let mut v = self.get(st, a);
                let x = self.get(st, x);
                fn ins(v: &mut Val, ix: &[u32], x: Val) -> bool {
                    match v {
                        Val::A(r) => {
                            let r = Rc::make_mut(r);
                            if ix.len() == 1 {
                                r[ix[0] as usize] = x;
                                true
                            } else {
                                ins(&mut r[ix[0] as usize], &ix[1..], x)
                            }
                        }
                        _ => false,
                    }
                }
                if !ins(&mut v, ix, x) {
                    return err("insertvalue");
                }
                self.set(st, *dst, v);
                adv!();
            }
            Ins::Rmw(op, t, p, v, dst) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv)?;
                let old = self.load_ty(st, a, *t)?;
                let x = self.get(st, v);
                let w = self.m.width(*t);
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(st, BinOp::Add, w, &old, &x)?,
                    "sub" => self.binop(st, BinOp::Sub, w, &old, &x)?,
                    "and" => self.binop(st, BinOp::And, w, &old, &x)?,
                    "or" => self.binop(st, BinOp::Or, w, &old, &x)?,
                    "xor" => self.binop(st, BinOp::Xor, w, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => {
                        let pr = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(pr, w, &old, &x);
                        self.select(&c, &old, &x, *t, st)?
                    }
                    o => return err(format!("atomicrmw {o}")),
                };
                self.store_ty(st, a, &new, *t)?;
                self.set(st, *dst, old);
                adv!();
            }
            Ins::CmpXchg(t, p, c, n, dst) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv)?;
                let old = self.load_ty(st, a, *t)?;
                let cv = self.get(st, c);
                let q = self.icmp(Pred::Eq, self.m.width(*t), &old, &cv);
                let ok = self.cond(st, &q)?;
                if ok {
                    let nv = self.get(st, n);
                    self.store_ty(st, a, &nv, *t)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
                adv!();
            }
            Ins::ExtractEl(v, i, dst) => {
                let x = self.get(st, v);
                let iv = self.get(st, i);
                let k = self.concrete(st, &iv)? as usize;
                let r = match &x {
                    Val::A(x) => x[k].clone(),
                    _ => return err("extractelement"),
                };
                self.set(st, *dst, r);
                adv!();
            }
            Ins::InsertEl(v, x, i, dst) => {
                let mut a = self.get(st, v);
                let x = self.get(st, x);
                let iv = self.get(st, i);
                let k = self.concrete(st, &iv)? as usize;
                match &mut a {
                    Val::A(r) => Rc::make_mut(r)[k] = x,
                    _ => return err("insertelement"),
                }
                self.set(st, *dst, a);
                adv!();
            }
            Ins::Shuffle(_, a, b, m, dst) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (Val::A(x), Val::A(y)) = (&x, &y) else { return err("shuffle") };
                let v = m
                    .iter()
                    .map(|i| {
                        let i = *i as usize;
                        if i < x.len() {
                            x[i].clone()
                        } else {
                            y[i - x.len()].clone()
                        }
                    })
                    .collect();
                self.set(st, *dst, Val::A(Rc::new(v)));
                adv!();
            }
            Ins::Fence => adv!(),
            Ins::Unsupported(s) => return err(s.clone()),
            Ins::Call { f: c, args, ret, dst } => {
                let fi = match c {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let v = self.get(st, o);
                        let a = self.concrete(st, &v)? as u64;
                        let i = (a >> 32).wrapping_sub(FN_BASE);
                        if a & 0xffff_ffff != 0 || i >= self.m.fns.len() as u64 {
                            return err(format!("call of address {a:#x}"));
                        }
                        i as u32
                    }
                    Callee::Asm(s) => {
                        if s.starts_with('|') || s.is_empty() {
                            // an empty asm: a barrier that passes its operand through
                            let v = args.first().map(|a| self.get(st, &a.1)).unwrap_or(Val::C(0));
                            if *ret != 0 {
                                self.set(st, *dst, v);
                            }
                            adv!();
                            return Ok(());
                        }
                        if s.contains("cpuid") {
                            // a processor without optional features: the portable code paths
                            self.set(st, *dst, Val::A(Rc::new(vec![Val::C(0), Val::C(0), Val::C(0), Val::C(0)])));
                            adv!();
                            return Ok(());
                        }
                        return err(format!("inline asm {s}"));
                    }
                };
                let bi = self.builtin(fi);
                if bi == Bi::None {
                    if self.m.fns[fi as usize].body.is_none() {
                        return err(format!("call of external function {}", self.m.fns[fi as usize].name));
                    }
                    let av: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
                    if self.cfg.trace {
                        let dpt = st.threads[st.cur].frames.len();
                        eprintln!("{:w$}> {}", "", self.m.fns[fi as usize].name, w = dpt);
                    }
                    adv!();
                    self.push_frame(st, fi, &av, *dst)?;
                    return Ok(());
                }
                let av: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
                let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                let r = self.call_bi(st, bi, fi, &av, &tys, *ret, *dst)?;
                if let Some(v) = r {
                    self.set(st, *dst, v);
                }
                adv!();
            }
        }
        Ok(())
    }

    fn builtin(&mut self, fi: u32) -> Bi {
        let i = fi as usize;
        if self.hooks[i] == 0 {
            self.hooks[i] = 1;
            self.bis[i] = Self::resolve(&self.m.fns[i].name, self.m.fns[i].body.is_some());
        }
        self.bis[i]
    }
    fn resolve(n: &str, defined: bool) -> Bi {
        if let Some(s) = n.strip_prefix("llvm.") {
            let p = |x: &str| s.starts_with(x);
            return if p("lifetime") || p("assume") || p("dbg") || p("experimental") || p("sideeffect") || p("va_") || p("x86.sse2.pause") || p("donothing") || p("prefetch") {
                Bi::Nop
            } else if p("memcpy") || p("memmove") {
                Bi::Memcpy
            } else if p("memset") {
                Bi::Memset
            } else if p("bswap") {
                Bi::Bswap
            } else if p("bitreverse") {
                Bi::Bitrev
            } else if p("ctpop") {
                Bi::Ctpop
            } else if p("ctlz") {
                Bi::Ctlz
            } else if p("cttz") {
                Bi::Cttz
            } else if p("fshl") {
                Bi::Fshl
            } else if p("fshr") {
                Bi::Fshr
            } else if p("uadd.with") {
                Bi::UaddO
            } else if p("sadd.with") {
                Bi::SaddO
            } else if p("usub.with") {
                Bi::UsubO
            } else if p("ssub.with") {
                Bi::SsubO
            } else if p("umul.with") {
                Bi::UmulO
            } else if p("smul.with") {
                Bi::SmulO
            } else if p("uadd.sat") {
                Bi::UaddS
            } else if p("sadd.sat") {
                Bi::SaddS
            } else if p("usub.sat") {
                Bi::UsubS
            } else if p("ssub.sat") {
                Bi::SsubS
            } else if p("ucmp") {
                Bi::Ucmp
            } else if p("scmp") {
                Bi::Scmp
            } else if p("umax") {
                Bi::Umax
            } else if p("umin") {
                Bi::Umin
            } else if p("smax") {
                Bi::Smax
            } else if p("smin") {
                Bi::Smin
            } else if p("abs") {
                Bi::Abs
            } else if p("fabs") {
                Bi::Fabs
            } else if p("trunc.f") {
                Bi::FRoundZ
            } else if p("fptosi.sat") {
                Bi::FToISat(true)
            } else if p("fptoui.sat") {
                Bi::FToISat(false)
            } else if p("is.constant") {
                Bi::IsConst
            } else if p("expect") || p("launder") || p("strip.invariant") || p("ptr.annotation") {
                Bi::ArgId
            } else if p("threadlocal") {
                Bi::Tls
            } else if p("trap") || p("ubsantrap") || p("debugtrap") {
                Bi::Trap
            } else if p("vector.reduce") {
                Bi::VecReduce
            } else {
                Bi::None
            };
        }
        // Rust symbols, whatever crate hash is in the middle
        if n.starts_with("_R") {
            if n.ends_with("12___rust_alloc") {
                return Bi::Alloc;
            }
            if n.ends_with("19___rust_alloc_zeroed") {
                return Bi::AllocZ;
            }
            if n.ends_with("14___rust_dealloc") {
                return Bi::Dealloc;
            }
            if n.ends_with("14___rust_realloc") {
                return Bi::Realloc;
            }
            if n.contains("rust_no_alloc_shim_is_unstable") {
                return Bi::Nop;
            }
            if n.ends_with("4core9panicking9panic_fmt") || n.ends_with("4core9panicking18panic_nounwind_fmt") {
                return Bi::Panic;
            }
            if n.contains("11RandomState") && n.contains("8hash_one") {
                return Bi::Hash0;
            }
            if n.ends_with("19hashmap_random_keys") {
                return Bi::HashKeys;
            }
            if n.contains("18handle_alloc_error") {
                return Bi::Abort;
            }
        }
        match n {
            "memcmp" | "bcmp" => return Bi::Memcmp,
            "memcpy" | "memmove" => return Bi::Memcpy,
            "memset" => return Bi::Memset,
            "strlen" => return Bi::Strlen,
            "sym_bytes" => return Bi::SymBytes,
            "sym_choose" => return Bi::SymChoose,
            "sym_assume" => return Bi::SymAssume,
            "sym_assert" => return Bi::SymAssert,
            "sym_fail" => return Bi::SymFail,
            "sym_reach" => return Bi::SymReach,
            "sym_note" => return Bi::SymNote,
            "sym_yield" => return Bi::SymYield,
            "sym_spawn" => return Bi::SymSpawn,
            "sym_join" => return Bi::SymJoin,
            "sym_self" => return Bi::SymSelf,
            "sym_known" => return Bi::SymKnown,
            "sym_tier" => return Bi::SymTier,
            _ => {}
        }
        if defined {
            return Bi::None;
        }
        match n {
            "abort" | "exit" | "_exit" => Bi::Abort,
            "syscall" => Bi::Syscall,
            "write" | "writev" => Bi::Write,
            "__errno_location" => Bi::Errno,
            "clock_gettime" => Bi::ClockGettime,
            "pthread_create" => Bi::PthreadCreate,
            "pthread_join" => Bi::PthreadJoin,
            "pthread_self" | "gettid" => Bi::PthreadSelf,
            "malloc" => Bi::Malloc,
            "free" => Bi::Free,
            "posix_memalign" => Bi::PosixMemalign,
            "getrandom" => Bi::MinusOne,
            "__cxa_thread_atexit_impl" | "getenv" | "pthread_attr_init" | "pthread_attr_destroy"
            | "pthread_attr_setstacksize" | "pthread_attr_getstack" | "pthread_attr_setguardsize" | "pthread_getattr_np"
            | "pthread_setname_np" | "pthread_detach" | "sched_yield" | "sigaction" | "sigaltstack" | "mprotect"
            | "munmap" | "prctl" | "signal" | "poll" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete"
            | "sched_getaffinity" | "dlsym" => Bi::Zero,
            "sysconf" => Bi::Zero,
            _ => Bi::None,
        }
    }
    fn lanewise(&mut self, st: &mut State, t: TyId, a: &[Val], f: &mut dyn FnMut(&mut Engine, &mut State, u16, &[Val]) -> X<Val>) -> X<Val> {
        if let Some((n, e)) = self.lanes(t) {
            let w = self.m.width(e);
            let mut v = vec![];
            for i in 0..n as usize {
                let l: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::A(y) => y[i].clone(),
                        y => y.clone(),
                    })
                    .collect();
                v.push(f(self, st, w, &l)?);
            }
            Ok(Val::A(Rc::new(v)))
        } else {
            let w = self.m.width(t);
            f(self, st, w, a)
        }
    }
    fn new_var(&mut self, st: &mut State, name: &str, w: u16) -> Ex {
        let k = (st.nvar, w);
        st.nvar += 1;
        if let Some(e) = self.vars.get(&k) {
            return *e;
        }
        let e = self.d.var(name, w);
        self.vars.insert(k, e);
        e
    }
    #[allow(clippy::too_many_arguments)]
    fn call_bi(&mut self, st: &mut State, bi: Bi, fi: u32, a: &[Val], tys: &[TyId], ret: TyId, _dst: u32) -> X<Option<Val>> {
        let ip_adv = |st: &mut State| {
            st.threads[st.cur].frames.last_mut().unwrap().ip += 1;
        };
        let ok = |v: u64| Ok(Some(Val::C(v as u128)));
        match bi {
            Bi::None => unreachable!(),
            Bi::Nop => Ok(None),
            Bi::ArgId => Ok(Some(a[0].clone())),
            Bi::Alloc | Bi::AllocZ | Bi::Malloc => {
                let n = self.concrete(st, &a[0])? as u64;
                ok(self.alloc(st, n)?)
            }
            Bi::PosixMemalign => {
                let n = self.concrete(st, &a[2])? as u64;
                let p = self.alloc(st, n)?;
                let q = self.ptr(st, &a[0])?;
                self.store(st, q, &Val::C(p as u128), 8)?;
                ok(0)
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.ptr(st, &a[0])?;
                if p != 0 {
                    self.dealloc(st, p)?;
                }
                Ok(None)
            }
            Bi::Realloc => {
                let p = self.ptr(st, &a[0])?;
                let n = self.concrete(st, &a[3])? as u64;
                let old = self.concrete(st, &a[1])? as u64;
                let q = self.alloc(st, n)?;
                self.copy(st, q, p, old.min(n) as usize)?;
                self.dealloc(st, p)?;
                ok(q)
            }
            Bi::Memcpy => {
                let n = self.concrete(st, &a[2])? as usize;
                let (p, q) = (self.ptr(st, &a[0])?, self.ptr(st, &a[1])?);
                self.copy(st, p, q, n)?;
                Ok(if ret != 0 { Some(a[0].clone()) } else { None })
            }
            Bi::Memset => {
                let n = self.concrete(st, &a[2])? as usize;
                let p = self.ptr(st, &a[0])?;
                if n > 0 {
                    let off = (p & 0xffff_ffff) as usize;
                    match &a[1] {
                        Val::C(k) => {
                            let k = *k as u8;
                            let o = self.obj_mut(st, p)?;
                            Self::chk(o, off, n, p)?;
                            o.set_c(off, &vec![k; n]);
                        }
                        Val::E(e) => {
                            let e = self.d.trunc(*e, 8);
                            let b = self.byte_of(e, 0);
                            let o = self.obj_mut(st, p)?;
                            Self::chk(o, off, n, p)?;
                            for i in 0..n {
                                match b {
                                    Ok(k) => o.set_c(off + i, &[k]),
                                    Err(s) => o.set_s(off + i, s),
                                }
                            }
                        }
                        _ => return err("memset"),
                    }
                }
                Ok(if ret != 0 { Some(a[0].clone()) } else { None })
            }
            Bi::Memcmp => {
                let n = self.concrete(st, &a[2])? as usize;
                let (p, q) = (self.ptr(st, &a[0])?, self.ptr(st, &a[1])?);
                let eq_only = self.m.fns[fi as usize].name == "bcmp";
                let r = self.memcmp(st, p, q, n, eq_only)?;
                Ok(Some(Val::C((r as i128) as u128 & mask(32))))
            }
            Bi::Strlen => {
                let p = self.ptr(st, &a[0])?;
                let mut n = 0u64;
                loop {
                    let v = self.load(st, p + n, 1)?;
                    if self.concrete(st, &v)? == 0 {
                        return ok(n);
                    }
                    n += 1;
                }
            }
            Bi::Bswap => {
                let v = self.lanewise(st, tys[0], a, &mut |s, _, w, l| {
                    let e = s.ex(&l[0], w);
                    Ok(s.ve(|d| d.bswap(e)))
                })?;
                Ok(Some(v))
            }
            Bi::Bitrev | Bi::Ctpop | Bi::Ctlz | Bi::Cttz => {
                let v = self.lanewise(st, tys[0], a, &mut |s, _, w, l| match &l[0] {
                    Val::C(k) => Ok(Val::C(match bi {
                        Bi::Bitrev => k.reverse_bits() >> (128 - w as u32),
                        Bi::Ctpop => k.count_ones() as u128,
                        Bi::Ctlz => (k.leading_zeros() - (128 - w as u32)) as u128,
                        _ => k.trailing_zeros().min(w as u32) as u128,
                    })),
                    Val::E(e) => {
                        let e = *e;
                        Ok(s.ve(|d| match bi {
                            Bi::Bitrev => {
                                let mut r = d.extract(e, 0, 0);
                                for i in 1..w {
                                    let b = d.extract(e, i, i);
                                    r = d.concat(r, b);
                                }
                                r
                            }
                            Bi::Ctpop => {
                                let mut r = d.c(w, 0);
                                for i in 0..w {
                                    let b = d.extract(e, i, i);
                                    let b = d.zext(b, w);
                                    r = d.bin(Op::Add, r, b);
                                }
                                r
                            }
                            _ => {
                                let mut r = d.c(w, w as u128);
                                for j in 0..w {
                                    // the last assignment wins: scan away from the end that counts
                                    let i = if bi == Bi::Ctlz { j } else { w - 1 - j };
                                    let k = if bi == Bi::Ctlz { w - 1 - i } else { i };
                                    let b = d.extract(e, i, i);
                                    let kk = d.c(w, k as u128);
                                    r = d.ite(b, kk, r);
                                }
                                r
                            }
                        }))
                    }
                    _ => err("bit count"),
                })?;
                Ok(Some(v))
            }
            Bi::Fshl | Bi::Fshr => {
                let v = self.lanewise(st, tys[0], a, &mut |s, st, w, l| {
                    let k = (s.concrete(st, &l[2])? % w as u128) as u16;
                    let k = if bi == Bi::Fshr {
                        if k == 0 {
                            return Ok(l[1].clone());
                        }
                        w - k
                    } else {
                        if k == 0 {
                            return Ok(l[0].clone());
                        }
                        k
                    };
                    let (x, y) = (s.ex(&l[0], w), s.ex(&l[1], w));
                    Ok(s.ve(|d| {
                        let h = d.extract(x, w - 1 - k, 0);
                        let lo = d.extract(y, w - 1, w - k);
                        d.concat(h, lo)
                    }))
                })?;
                Ok(Some(v))
            }
            Bi::UaddO | Bi::SaddO | Bi::UsubO | Bi::SsubO | Bi::UmulO | Bi::SmulO => {
                let w = self.m.width(tys[0]);
                let signed = matches!(bi, Bi::SaddO | Bi::SsubO | Bi::SmulO);
                let op = match bi {
                    Bi::UaddO | Bi::SaddO => Op::Add,
                    Bi::UsubO | Bi::SsubO => Op::Sub,
                    _ => Op::Mul,
                };
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let r = fold2(op, w, *x, *y);
                    let o = if signed {
                        let (p, q) = (sext(*x, w), sext(*y, w));
                        let t = match op {
                            Op::Add => p.checked_add(q),
                            Op::Sub => p.checked_sub(q),
                            _ => p.checked_mul(q),
                        };
                        t != Some(sext(r, w))
                    } else {
                        let t = match op {
                            Op::Add => x.checked_add(*y),
                            Op::Sub => x.checked_sub(*y),
                            _ => x.checked_mul(*y),
                        };
                        t != Some(r)
                    };
                    return Ok(Some(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u128)]))));
                }
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let d = &mut self.d;
                let r = d.bin(op, x, y);
                let o = match (op, signed) {
                    (Op::Add, false) => d.ult(r, x),
                    (Op::Sub, false) => d.ult(x, y),
                    (_, s) => {
                        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                        if ww > 128 {
                            return err("wide overflow check");
                        }
                        let (xx, yy) = if s { (d.sext(x, ww), d.sext(y, ww)) } else { (d.zext(x, ww), d.zext(y, ww)) };
                        let t = d.bin(op, xx, yy);
                        let rr = if s { d.sext(r, ww) } else { d.zext(r, ww) };
                        let e = d.eq(t, rr);
                        d.not(e)
                    }
                };
                let (r, o) = (self.ve(|_| r), self.ve(|_| o));
                Ok(Some(Val::A(Rc::new(vec![r, o]))))
            }
            Bi::UaddS | Bi::UsubS | Bi::SaddS | Bi::SsubS => {
                let v = self.lanewise(st, tys[0], a, &mut |s, _, w, l| {
                    let (x, y) = (s.ex(&l[0], w), s.ex(&l[1], w));
                    Ok(s.ve(|d| match bi {
                        Bi::UaddS => {
                            let r = d.bin(Op::Add, x, y);
                            let o = d.ult(r, x);
                            let m = d.c(w, mask(w));
                            d.ite(o, m, r)
                        }
                        Bi::UsubS => {
                            let r = d.bin(Op::Sub, x, y);
                            let o = d.ult(x, y);
                            let z = d.c(w, 0);
                            d.ite(o, z, r)
                        }
                        _ => {
                            let (xx, yy) = (d.sext(x, w + 1), d.sext(y, w + 1));
                            let t = d.bin(if bi == Bi::SaddS { Op::Add } else { Op::Sub }, xx, yy);
                            let hi = d.c(w, mask(w) >> 1);
                            let lo = d.c(w, 1 << (w - 1));
                            let tr = d.trunc(t, w);
                            let hx = d.sext(hi, w + 1);
                            let lx = d.sext(lo, w + 1);
                            let over = d.bin(Op::Slt, hx, t);
                            let under = d.bin(Op::Slt, t, lx);
                            let r = d.ite(under, lo, tr);
                            d.ite(over, hi, r)
                        }
                    }))
                })?;
                Ok(Some(v))
            }
            Bi::Ucmp | Bi::Scmp => {
                let w = self.m.width(tys[0]);
                let rw = self.m.width(ret);
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let op = if bi == Bi::Ucmp { Op::Ult } else { Op::Slt };
                Ok(Some(self.ve(|d| {
                    let lt = d.bin(op, x, y);
                    let eq = d.eq(x, y);
                    let (m1, z, one) = (d.c(rw, mask(rw)), d.c(rw, 0), d.c(rw, 1));
                    let r = d.ite(eq, z, one);
                    d.ite(lt, m1, r)
                })))
            }
            Bi::Umax | Bi::Umin | Bi::Smax | Bi::Smin => {
                let v = self.lanewise(st, tys[0], a, &mut |s, _, w, l| {
                    let (x, y) = (s.ex(&l[0], w), s.ex(&l[1], w));
                    Ok(s.ve(|d| {
                        let op = if matches!(bi, Bi::Umax | Bi::Umin) { Op::Ult } else { Op::Slt };
                        let lt = d.bin(op, x, y);
                        if matches!(bi, Bi::Umax | Bi::Smax) {
                            d.ite(lt, y, x)
                        } else {
                            d.ite(lt, x, y)
                        }
                    }))
                })?;
                Ok(Some(v))
            }
            Bi::Abs => {
                let w = self.m.width(tys[0]);
                let x = self.ex(&a[0], w);
                Ok(Some(self.ve(|d| {
                    let z = d.c(w, 0);
                    let n = d.bin(Op::Sub, z, x);
                    let s = d.extract(x, w - 1, w - 1);
                    d.ite(s, n, x)
                })))
            }
            Bi::Fabs => {
                let w = self.m.width(tys[0]);
                let x = self.ex(&a[0], w);
                Ok(Some(self.ve(|d| {
                    let m = d.c(w, mask(w) >> 1);
                    d.bin(Op::And, x, m)
                })))
            }
            Bi::FRoundZ => {
                let w = self.m.width(tys[0]);
                let x = self.ex(&a[0], w);
                Ok(Some(self.ve(|d| d.ftrunc(x))))
            }
            Bi::FToISat(s) => {
                let w = self.m.width(tys[0]);
                let x = self.ex(&a[0], w);
                let rw = self.m.width(ret);
                Ok(Some(self.ve(|d| d.ftoi_sat(x, rw, s))))
            }
            Bi::IsConst => ok(0),
            Bi::VecReduce => {
                let name = self.m.fns[fi as usize].name.clone();
                let k = name.split('.').nth(3).unwrap_or("").to_string();
                let (_, e) = self.lanes(tys[0]).ok_or(Stop::Error("reduce".into()))?;
                let w = self.m.width(e);
                let Val::A(l) = &a[0] else { return err("reduce") };
                let op = match k.as_str() {
                    "or" => Op::Or,
                    "and" => Op::And,
                    "add" => Op::Add,
                    "xor" => Op::Xor,
                    _ => return err(format!("reduction {k}")),
                };
                let mut r = self.ex(&l[0], w);
                for x in &l[1..] {
                    let y = self.ex(x, w);
                    r = self.d.bin(op, r, y);
                }
                Ok(Some(self.ve(|_| r)))
            }
            Bi::Tls => {
                let p = self.ptr(st, &a[0])?;
                let g = ((p >> 32) - GLOB_BASE) as u32;
                let t = &st.threads[st.cur];
                if let Some(x) = t.tls.iter().find(|x| x.0 == g) {
                    return ok(x.1);
                }
                let o = self.init_global(g)?;
                let n = o.b.len() as u64;
                let q = self.alloc(st, n)?;
                *self.obj_mut(st, q)? = (*o).clone();
                st.threads[st.cur].tls.push((g, q));
                ok(q)
            }
            Bi::Trap | Bi::Abort => {
                let n = self.m.fns[fi as usize].name.clone();
                Err(Stop::Violation(format!("abort: {n}")))
            }
            Bi::Panic => {
                let mut loc = String::from("?");
                if let Some(Val::C(p)) = a.last() {
                    let p = *p as u64;
                    if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) =
                        (self.load(st, p, 8), self.load(st, p + 8, 8), self.load(st, p + 16, 4))
                    {
                        let f = self.str_at(st, f as u64, n as usize);
                        loc = format!("{f}:{l}");
                    }
                }
                Err(Stop::Violation(format!("panic at {loc}")))
            }
            Bi::Hash0 => ok(0),
            Bi::HashKeys => Ok(Some(Val::A(Rc::new(vec![Val::C(1), Val::C(2)])))),
            Bi::SymBytes => {
                let p = self.ptr(st, &a[0])?;
                let n = self.concrete(st, &a[1])? as usize;
                if n == 0 {
                    return Ok(None);
                }
                let np = self.ptr(st, &a[2])?;
                let nn = self.concrete(st, &a[3])? as usize;
                let name = self.str_at(st, np, nn);
                let mut evs = vec![];
                if matches!(n, 1 | 2 | 4 | 8 | 16) {
                    let v = self.new_var(st, &name, 8 * n as u16);
                    let be = self.d.bswap(v);
                    self.store(st, p, &Val::E(be), n)?;
                    for i in 0..n as u16 {
                        let j = n as u16 - 1 - i;
                        let b = self.d.extract(v, 8 * j + 7, 8 * j);
                        evs.push(b);
                    }
                } else {
                    for i in 0..n {
                        let v = self.new_var(st, &name, 8);
                        self.store(st, p + i as u64, &Val::E(v), 1)?;
                        evs.push(v);
                    }
                }
                let mut v = st.model.v.clone();
                v.resize(self.d.vars.len().max(v.len()), 0);
                st.model = Model::new(v);
                st.trace.push(Ev::Bytes(evs));
                Ok(None)
            }
            Bi::SymChoose => {
                let n = self.concrete(st, &a[0])? as u32;
                let i = self.choose(st, n)?;
                st.trace.push(Ev::Choose(i));
                ok(i as u64)
            }
            Bi::SymAssume => {
                match &a[0] {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Err(Stop::Killed);
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        match st.facts.decide(&self.d, e) {
                            Some(true) => {}
                            Some(false) => return Err(Stop::Killed),
                            None => {
                                if st.model.eval(&self.d, e) != 1 {
                                    let model = st.model.clone();
                                    match self.s.sat(&mut self.d, &st.pc, e, &model) {
                                        Res::Sat(m) => st.model = m,
                                        Res::Unsat => return Err(Stop::Killed),
                                        Res::Unknown => return err("solver gave no answer on an assumption"),
                                    }
                                }
                                self.push_pc(st, e, true);
                            }
                        }
                    }
                    _ => return err("assume"),
                }
                Ok(None)
            }
            Bi::SymAssert => {
                self.sh.asserts.fetch_add(1, SeqCst);
                let e = match &a[0] {
                    Val::C(k) if k & 1 == 1 => return Ok(None),
                    Val::C(_) => Dag::F,
                    Val::E(e) => *e,
                    _ => return err("assert"),
                };
                let mp = self.ptr(st, &a[1])?;
                let ml = self.concrete(st, &a[2])? as usize;
                let msg = self.str_at(st, mp, ml);
                match st.facts.decide(&self.d, e) {
                    Some(true) => return Ok(None),
                    Some(false) => return self.violated(st, msg, None),
                    None => {}
                }
                self.sh.asserts_solver.fetch_add(1, SeqCst);
                let ne = self.d.not(e);
                let model = st.model.clone();
                match self.s.sat(&mut self.d, &st.pc, ne, &model) {
                    Res::Unsat => {
                        st.facts.set(&self.d, e, true);
                        Ok(None)
                    }
                    Res::Sat(m) => self.violated(st, msg, Some(m)),
                    Res::Unknown => err(format!("solver gave no answer on: {msg}")),
                }
            }
            Bi::SymFail => {
                let mp = self.ptr(st, &a[0])?;
                let ml = self.concrete(st, &a[1])? as usize;
                let msg = self.str_at(st, mp, ml);
                self.violated(st, msg, None)
            }
            Bi::SymReach => {
                let mp = self.ptr(st, &a[0])?;
                let ml = self.concrete(st, &a[1])? as usize;
                let msg = self.str_at(st, mp, ml);
                // fixed slot by content, so that processes agree
                let mut h = 5381u64;
                for b in msg.bytes() {
                    h = h.wrapping_mul(33) ^ b as u64;
                }
                let slot = (h % 64) as usize;
                if self.sh.reach[slot].fetch_add(1, SeqCst) == 0 {
                    let _ = std::fs::write(format!("{}/reach-{}.txt", self.cfg.out, slot), &msg);
                }
                Ok(None)
            }
            Bi::SymNote => {
                let mp = self.ptr(st, &a[0])?;
                let ml = self.concrete(st, &a[1])? as usize;
                let msg = self.str_at(st, mp, ml);
                let p = self.ptr(st, &a[2])?;
                let n = self.concrete(st, &a[3])? as usize;
                let mut v = vec![];
                for i in 0..n {
                    let b = self.load(st, p + i as u64, 1)?;
                    v.push(self.ex(&b, 8));
                }
                st.notes.push((msg, v));
                Ok(None)
            }
            Bi::SymTier => ok(self.cfg.tier as u64),
            Bi::SymKnown => {
                let mp = self.ptr(st, &a[0])?;
                let ml = self.concrete(st, &a[1])? as usize;
                let msg = self.str_at(st, mp, ml);
                ok(self.cfg.known.contains(&msg) as u64)
            }
            Bi::SymSelf | Bi::PthreadSelf => ok(st.cur as u64),
            Bi::SymYield => {
                let alive = st.threads.iter().filter(|t| t.st != Status::Done).count();
                if !st.started || alive < 2 {
                    return Ok(None);
                }
                let mut r: Vec<u32> = self.runnable(st);
                let me = st.cur as u32;
                // continuing is choice 0; switching away costs a preemption
                r.retain(|x| *x != me);
                let i = if st.preempt == 0 || r.is_empty() { 0 } else { self.choose(st, 1 + r.len() as u32)? };
                let to = if i == 0 { me } else { r[i as usize - 1] };
                st.trace.push(Ev::Sched(to));
                if to != me {
                    st.preempt -= 1;
                    ip_adv(st);
                    st.cur = to as usize;
                    return Err(Stop::Again);
                }
                Ok(None)
            }
            Bi::SymSpawn | Bi::PthreadCreate => {
                let (f, arg) = if bi == Bi::SymSpawn { (&a[0], &a[1]) } else { (&a[2], &a[3]) };
                let f = self.ptr(st, f)?;
                let i = (f >> 32).wrapping_sub(FN_BASE) as u32;
                let id = st.threads.len();
                st.started = true;
                st.threads.push(Thread { frames: vec![], vals: vec![], tls: vec![], st: Status::Run, result: 0 });
                if bi == Bi::PthreadCreate {
                    let p = self.ptr(st, &a[0])?;
                    self.store(st, p, &Val::C(id as u128), 8)?;
                }
                let cur = st.cur;
                st.cur = id;
                let r = self.push_frame(st, i, &[arg.clone()], NODST);
                st.cur = cur;
                r?;
                ok(if bi == Bi::SymSpawn { id as u64 } else { 0 })
            }
            Bi::SymJoin | Bi::PthreadJoin => {
                let id = self.concrete(st, &a[0])? as usize;
                if id >= st.threads.len() {
                    return err("join of unknown thread");
                }
                if st.threads[id].st != Status::Done {
                    st.threads[st.cur].st = Status::Join(id as u32);
                    self.resched(st)?;
                    unreachable!();
                }
                if bi == Bi::PthreadJoin {
                    let p = self.ptr(st, &a[1])?;
                    if p != 0 {
                        let r = st.threads[id].result;
                        self.store(st, p, &Val::C(r as u128), 8)?;
                    }
                    return ok(0);
                }
                Ok(None)
            }
            Bi::Syscall => {
                let n = self.concrete(st, &a[0])?;
                if n == 202 {
                    let p = self.ptr(st, &a[1])?;
                    let op = self.concrete(st, &a[2])? & 0x7f;
                    match op {
                        0 | 9 => {
                            let v = self.load(st, p, 4)?;
                            let cur = self.concrete(st, &v)?;
                            let want = self.concrete(st, &a[3])? & mask(32);
                            if cur != want {
                                return Ok(Some(Val::C(mask(64))));
                            }
                            st.threads[st.cur].st = Status::Futex(p);
                            self.set(st, _dst, Val::C(0));
                            ip_adv(st);
                            self.resched(st)?;
                            unreachable!();
                        }
                        1 | 10 => {
                            let mut k = self.concrete(st, &a[3])? as u32;
                            let mut woke = 0;
                            for t in &mut st.threads {
                                if k > 0 && t.st == Status::Futex(p) {
                                    t.st = Status::Run;
                                    k -= 1;
                                    woke += 1;
                                }
                            }
                            return ok(woke);
                        }
                        _ => return err(format!("futex op {op}")),
                    }
                }
                if n == 318 {
                    return Ok(Some(Val::C(mask(64))));
                }
                err(format!("system call {n}"))
            }
            Bi::Write => {
                // diagnostics to stdout/stderr are dropped
                let n = if a.len() > 2 { a[2].clone() } else { Val::C(0) };
                Ok(Some(n))
            }
            Bi::Errno => {
                let key = u32::MAX;
                let t = &st.threads[st.cur];
                if let Some(x) = t.tls.iter().find(|x| x.0 == key) {
                    return ok(x.1);
                }
                let q = self.alloc(st, 8)?;
                st.threads[st.cur].tls.push((key, q));
                ok(q)
            }
            Bi::Zero => Ok(if ret != 0 { Some(Val::C(0)) } else { None }),
            Bi::MinusOne => Ok(Some(Val::C(mask(self.m.width(ret))))),
            Bi::ClockGettime => {
                let p = self.ptr(st, &a[1])?;
                self.store(st, p, &Val::C(1_700_000_000), 8)?;
                self.store(st, p + 8, &Val::C(1000), 8)?;
                ok(0)
            }
        }
    }
    fn violated<T>(&mut self, st: &mut State, msg: String, m: Option<Rc<Model>>) -> X<T> {
        if let Some(m) = m {
            st.model = m;
        }
        Err(Stop::Violation(msg))
    }
    /// Comparison of two byte ranges. The result is concrete: -1, 0 or 1, with
    /// a fork per undecided segment.
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: usize, eq_only: bool) -> X<i32> {
        if n == 0 || p == q {
            return Ok(0);
        }
        let rng = |s: &mut Engine, st: &mut State, a: u64| -> X<(Vec<u8>, Option<Vec<u64>>)> {
            let off = (a & 0xffff_ffff) as usize;
            let o = s.obj(st, a)?;
            Self::chk(o, off, n, a)?;
            let sy = if o.is_sym(off, n) { Some(o.s.as_ref().unwrap()[off..off + n].to_vec()) } else { None };
            Ok((o.b[off..off + n].to_vec(), sy))
        };
        let (pb, ps) = rng(self, st, p)?;
        let (qb, qs) = rng(self, st, q)?;
        if ps.is_none() && qs.is_none() {
            return Ok(match pb.cmp(&qb) {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            });
        }
        let zero = vec![0u64; n];
        let ps = ps.unwrap_or_else(|| zero.clone());
        let qs = qs.unwrap_or(zero);
        let src = |s: &[u64], i: usize| -> u64 {
            if s[i] == 0 {
                0
            } else {
                s[i] & !0xff
            }
        };
        let mut i = 0;
        while i < n {
            if ps[i] == 0 && qs[i] == 0 {
                if pb[i] != qb[i] {
                    return Ok(if pb[i] < qb[i] { -1 } else { 1 });
                }
                i += 1;
                continue;
            }
            if ps[i] == qs[i] {
                i += 1;
                continue;
            }
            let mut j = i + 1;
            while j < n && j - i < 16 && src(&ps, j) == src(&ps, i) && src(&qs, j) == src(&qs, i) {
                j += 1;
            }
            let mk = |s: &mut Engine, b: &[u8], y: &[u64]| -> Ex {
                let mut r: Option<Ex> = None;
                let whole_asc = (i..j).all(|k| y[k] != 0) && (i + 1..j).all(|k| y[k] == y[k - 1] + 1);
                if whole_asc && j - i > 1 {
                    let (e, lo) = un_sb(y[i]);
                    let x = s.d.extract(e, 8 * (lo + (j - i) as u16) - 1, 8 * lo);
                    return s.d.bswap(x);
                }
                for k in i..j {
                    let x = if y[k] == 0 {
                        s.d.c(8, b[k] as u128)
                    } else {
                        let (e, ix) = un_sb(y[k]);
                        s.d.extract(e, 8 * ix + 7, 8 * ix)
                    };
                    r = Some(match r {
                        None => x,
                        Some(h) => s.d.concat(h, x),
                    });
                }
                r.unwrap()
            };
            let x = mk(self, &pb, &ps);
            let y = mk(self, &qb, &qs);
            let e = self.d.eq(x, y);
            if !self.branch(st, e)? {
                if eq_only {
                    return Ok(1);
                }
                let l = self.d.ult(x, y);
                return Ok(if self.branch(st, l)? { -1 } else { 1 });
            }
            i = j;
        }
        Ok(0)
    }
}
