//! Intrinsics shared by the harnesses and the environment shims.
//!
//! Built into IR (no feature), every function below is an undefined external
//! that the symbolic engine implements. Built natively (`native`), the same
//! calls consume the values of a replay file written from the solver's model,
//! in the order in which the engine created them.
#![allow(clippy::missing_safety_doc)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nlen: usize);
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, msg: *const u8, mlen: usize);
        pub fn sym_fail(msg: *const u8, mlen: usize) -> !;
        pub fn sym_reach(msg: *const u8, mlen: usize);
        pub fn sym_note(msg: *const u8, mlen: usize, p: *const u8, n: usize);
        pub fn sym_yield();
        pub fn sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
        pub fn sym_join(id: u32);
        pub fn sym_self() -> u32;
        pub fn sym_known(msg: *const u8, mlen: usize) -> bool;
        pub fn sym_tier() -> u32;
    }
    pub fn bytes(b: &mut [u8], name: &str) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { sym_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
    }
    pub fn fail(msg: &str) -> ! {
        unsafe { sym_fail(msg.as_ptr(), msg.len()) }
    }
    pub fn reach(msg: &str) {
        unsafe { sym_reach(msg.as_ptr(), msg.len()) }
    }
    pub fn note(msg: &str, b: &[u8]) {
        unsafe { sym_note(msg.as_ptr(), msg.len(), b.as_ptr(), b.len()) }
    }
    pub fn yield_point() {
        unsafe { sym_yield() }
    }
    extern "C" fn tramp(p: *mut u8) {
        let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
        f()
    }
    pub fn spawn(f: Box<dyn FnOnce() + Send>) -> u32 {
        let p = Box::into_raw(Box::new(f)) as *mut u8;
        unsafe { sym_spawn(tramp, p) }
    }
    pub fn join(id: u32) {
        unsafe { sym_join(id) }
    }
    pub fn known(msg: &str) -> bool {
        unsafe { sym_known(msg.as_ptr(), msg.len()) }
    }
    pub fn self_id() -> u32 {
        unsafe { sym_self() }
    }
    /// 0 = quick, 1 = thorough
    pub fn tier() -> u32 {
        unsafe { sym_tier() }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::Cell;
    use std::collections::VecDeque;
    use std::sync::{Condvar, Mutex};

    #[derive(Debug, Clone)]
    enum Ent {
        Bytes(Vec<u8>),
        Choose(u32),
        Sched(u32),
    }
    struct St {
        ents: VecDeque<Ent>,
        loaded: bool,
        turn: u32,
        alive: Vec<u32>,
        next: u32,
        started: bool,
    }
    static ST: Mutex<Option<St>> = Mutex::new(None);
    static CV: Condvar = Condvar::new();
    thread_local!(static ME: Cell<u32> = const { Cell::new(0) });

    fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
        let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
        let st = g.get_or_insert_with(|| St {
            ents: VecDeque::new(),
            loaded: false,
            turn: 0,
            alive: vec![0],
            next: 1,
            started: false,
        });
        if !st.loaded {
            st.loaded = true;
            let p = std::env::var("VERIF_REPLAY").expect("VERIF_REPLAY");
            for l in std::fs::read_to_string(&p).expect("replay file").lines() {
                let mut it = l.split(' ');
                match it.next() {
                    Some("b") => {
                        let h = it.next().unwrap_or("");
                        let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                        st.ents.push_back(Ent::Bytes(v));
                    }
                    Some("c") => st.ents.push_back(Ent::Choose(it.next().unwrap().parse().unwrap())),
                    Some("s") => st.ents.push_back(Ent::Sched(it.next().unwrap().parse().unwrap())),
                    _ => {}
                }
            }
        }
        f(st)
    }
    fn diverged(what: &str) -> ! {
        println!("REPLAY-DIVERGED {what}");
        std::process::exit(9)
    }
    pub fn bytes(b: &mut [u8], name: &str) {
        if b.is_empty() {
            return;
        }
        match with(|s| s.ents.pop_front()) {
            Some(Ent::Bytes(v)) if v.len() == b.len() => b.copy_from_slice(&v),
            e => diverged(&format!("bytes {name} {} got {e:?}", b.len())),
        }
    }
    pub fn choose(n: u32) -> u32 {
        match with(|s| s.ents.pop_front()) {
            Some(Ent::Choose(v)) if v < n => v,
            e => diverged(&format!("choose {n} got {e:?}")),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            diverged("assumption does not hold");
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            fail(msg)
        }
    }
    pub fn fail(msg: &str) -> ! {
        println!("REPLAY-VIOLATION {msg}");
        std::process::exit(3)
    }
    pub fn reach(_msg: &str) {}
    pub fn note(msg: &str, b: &[u8]) {
        println!("NOTE {msg} {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    }
    pub fn known(msg: &str) -> bool {
        let k = std::env::var("VERIF_KNOWN").unwrap_or_default();
        k.split(';').any(|x| x == msg)
    }
    pub fn tier() -> u32 {
        std::env::var("VERIF_SYMTIER").ok().and_then(|x| x.parse().ok()).unwrap_or(0)
    }
    pub fn self_id() -> u32 {
        ME.with(|m| m.get())
    }
    fn wait_turn(me: u32) {
        let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
        while g.as_ref().unwrap().turn != me {
            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    /// A scheduling point: the replay file says which thread runs next.
    pub fn yield_point() {
        let me = self_id();
        let multi = with(|s| {
            if !s.started || s.alive.len() < 2 {
                return false;
            }
            match s.ents.pop_front() {
                Some(Ent::Sched(t)) => s.turn = t,
                e => diverged(&format!("sched got {e:?}")),
            }
            true
        });
        if multi {
            CV.notify_all();
            wait_turn(me);
        }
    }
    pub fn spawn(f: Box<dyn FnOnce() + Send>) -> u32 {
        let id = with(|s| {
            let id = s.next;
            s.next += 1;
            s.alive.push(id);
            s.started = true;
            id
        });
        std::thread::spawn(move || {
            ME.with(|m| m.set(id));
            wait_turn(id);
            f();
            let me = id;
            with(|s| {
                s.alive.retain(|x| *x != me);
                match s.ents.pop_front() {
                    Some(Ent::Sched(t)) => s.turn = t,
                    e => diverged(&format!("sched at exit got {e:?}")),
                }
            });
            CV.notify_all();
        });
        id
    }
    pub fn join(id: u32) {
        let me = self_id();
        loop {
            let done = with(|s| !s.alive.contains(&id));
            if done {
                return;
            }
            with(|s| match s.ents.pop_front() {
                Some(Ent::Sched(t)) => s.turn = t,
                e => diverged(&format!("sched at join got {e:?}")),
            });
            CV.notify_all();
            wait_turn(me);
        }
    }
}

pub use imp::*;

pub fn u8_(name: &str) -> u8 {
    let mut b = [0u8; 1];
    bytes(&mut b, name);
    b[0]
}
pub fn u16_(name: &str) -> u16 {
    let mut b = [0u8; 2];
    bytes(&mut b, name);
    u16::from_be_bytes(b)
}
pub fn u32_(name: &str) -> u32 {
    let mut b = [0u8; 4];
    bytes(&mut b, name);
    u32::from_be_bytes(b)
}
pub fn u64_(name: &str) -> u64 {
    let mut b = [0u8; 8];
    bytes(&mut b, name);
    u64::from_be_bytes(b)
}
pub fn bytes16(name: &str) -> [u8; 16] {
    let mut b = [0u8; 16];
    bytes(&mut b, name);
    b
}
pub fn bool_() -> bool {
    choose(2) == 1
}
/// Picks one of the elements; forks over all of them.
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize].clone()
}

/// Thread-specific data of the C library (destructors do not run).
#[cfg(not(feature = "native"))]
mod tsd {
    const K: usize = 16;
    static mut NEXT: u32 = 0;
    static mut VAL: [[usize; K]; 8] = [[0; K]; 8];
    #[no_mangle]
    pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _d: *const u8) -> i32 {
        NEXT += 1;
        *k = NEXT;
        if NEXT as usize >= K {
            return 11;
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_key_delete(_k: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_setspecific(k: u32, v: usize) -> i32 {
        VAL[crate::self_id() as usize % 8][k as usize % K] = v;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_getspecific(k: u32) -> usize {
        VAL[crate::self_id() as usize % 8][k as usize % K]
    }
}
