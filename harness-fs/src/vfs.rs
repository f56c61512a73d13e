//! A file system in memory behind the C library's file functions.
//!
//! Contract modelled: create / exclusive / truncate / append, short writes,
//! errors, rename replacing its target atomically, unlinked files that stay
//! readable through open descriptors. A fault can be placed at every call.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    /// call n fails with this errno and has no effect
    Fail(u32, c_int),
    /// call n, if a write, writes only part of the data, and the next write fails
    Short(u32),
    /// call n is interrupted once by a signal
    Intr(u32),
    /// the process dies just before call n
    Die(u32),
}
pub struct Fs {
    names: Vec<(Vec<u8>, usize)>,
    nodes: Vec<Vec<u8>>,
    fds: Vec<Option<(usize, usize, bool)>>,
    pub calls: u32,
    pub fault: Fault,
    pub dead: bool,
    pub hit: bool,
    full: bool,
}
static mut FS: Fs =
    Fs { names: vec![], nodes: vec![], fds: vec![], calls: 0, fault: Fault::None, dead: false, hit: false, full: false };
const BASE: c_int = 1000;

pub fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}
pub fn arm(f: Fault) {
    let s = fs();
    s.calls = 0;
    s.fault = f;
    s.hit = false;
    s.full = false;
    s.dead = false;
}
/// Names of the modelled files.
pub fn list() -> Vec<Vec<u8>> {
    fs().names.iter().map(|n| n.0.clone()).collect()
}
/// The contents of a file, not counted as a call.
pub fn content(p: &str) -> Option<Vec<u8>> {
    let f = fs();
    let i = f.names.iter().position(|n| n.0 == p.as_bytes())?;
    Some(f.nodes[f.names[i].1].clone())
}
/// Replaces the contents of a file, not counted as a call.
pub fn put_file(p: &str, c: &[u8]) {
    let f = fs();
    if let Some(i) = f.names.iter().position(|n| n.0 == p.as_bytes()) {
        let n = f.names[i].1;
        f.nodes[n] = c.to_vec();
    }
}
pub fn init() {
    #[cfg(feature = "native")]
    std::env::set_var("TMPDIR", "/vfs/tmp");
}
fn err(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
/// Whether call number n goes ahead; else the errno.
fn step() -> Result<(), c_int> {
    let f = fs();
    let n = f.calls;
    f.calls += 1;
    match f.fault {
        Fault::Fail(k, e) if k == n => {
            f.hit = true;
            Err(e)
        }
        Fault::Intr(k) if k == n => {
            f.hit = true;
            Err(libc::EINTR)
        }
        Fault::Die(k) if k == n => {
            f.hit = true;
            f.dead = true;
            Ok(())
        }
        _ => Ok(()),
    }
}
fn mine(_p: &[u8]) -> bool {
    #[cfg(feature = "native")]
    return _p.starts_with(b"/vfs/");
    #[cfg(not(feature = "native"))]
    true
}
#[cfg(feature = "native")]
unsafe fn real(n: libc::c_long, a: usize, b: usize, c: usize, d: usize) -> isize {
    libc::syscall(n, a, b, c, d) as isize
}
#[cfg(not(feature = "native"))]
unsafe fn real(n: libc::c_long, _a: usize, _b: usize, c: usize, _d: usize) -> isize {
    if n == libc::SYS_write {
        c as isize
    } else {
        err(libc::ENOSYS) as isize
    }
}
fn node(fd: c_int) -> Option<&'static mut (usize, usize, bool)> {
    if fd < BASE {
        return None;
    }
    fs().fds.get_mut((fd - BASE) as usize)?.as_mut()
}
/// The directories there are.
fn is_dir(p: &[u8]) -> bool {
    let p = match p {
        [q @ .., b'/'] if !q.is_empty() => q,
        p => p,
    };
    matches!(p, b"/" | b"." | b"/vfs" | b"/vfs/data" | b"/vfs/tmp" | b"/tmp")
}
fn find(p: &[u8]) -> Option<usize> {
    fs().names.iter().position(|n| n.0 == p)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    if !mine(p) {
        return real(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize) as c_int;
    }
    if let Err(e) = step() {
        return err(e);
    }
    let f = fs();
    if is_dir(p) {
        if flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR) != 0 {
            return err(libc::EISDIR);
        }
        f.nodes.push(vec![]);
        f.fds.push(Some((f.nodes.len() - 1, 0, false)));
        return BASE + f.fds.len() as c_int - 1;
    }
    let n = match find(p) {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST);
            }
            let n = f.names[i].1;
            if flags & libc::O_TRUNC != 0 && !f.dead {
                f.nodes[n] = vec![];
            }
            n
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return err(libc::ENOENT);
            }
            f.nodes.push(vec![]);
            if !f.dead {
                f.names.push((p.to_vec(), f.nodes.len() - 1));
            }
            f.nodes.len() - 1
        }
    };
    f.fds.push(Some((n, 0, flags & libc::O_APPEND != 0)));
    BASE + f.fds.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn openat64(_d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
fn put(n: usize, pos: usize, b: &[u8]) {
    let v = &mut fs().nodes[n];
    while v.len() < pos {
        v.push(0);
    }
    let over = (v.len() - pos).min(b.len());
    v[pos..pos + over].copy_from_slice(&b[..over]);
    v.extend_from_slice(&b[over..]);
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let Some(h) = node(fd) else {
        return real(libc::SYS_write, fd as usize, b as usize, n, 0);
    };
    let at = fs().calls;
    if let Err(e) = step() {
        return err(e) as ssize_t;
    }
    let mut n = n;
    if fs().full {
        return err(libc::ENOSPC) as ssize_t;
    }
    if fs().fault == Fault::Short(at) {
        fs().hit = true;
        fs().full = true;
        n /= 2;
        if n == 0 {
            return err(libc::ENOSPC) as ssize_t;
        }
    }
    if h.2 {
        h.1 = fs().nodes[h.0].len();
    }
    if !fs().dead {
        put(h.0, h.1, std::slice::from_raw_parts(b as *const u8, n));
    }
    h.1 += n;
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if node(fd).is_none() {
        return real(libc::SYS_writev, fd as usize, v as usize, n as usize, 0);
    }
    if n == 0 {
        return 0;
    }
    let x = &*v;
    write(fd, x.iov_base, x.iov_len)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    let Some(h) = node(fd) else {
        return real(libc::SYS_pwrite64, fd as usize, b as usize, n, o as usize);
    };
    if let Err(e) = step() {
        return err(e) as ssize_t;
    }
    if !fs().dead {
        put(h.0, o as usize, std::slice::from_raw_parts(b as *const u8, n));
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let Some(h) = node(fd) else {
        return real(libc::SYS_read, fd as usize, b as usize, n, 0);
    };
    if let Err(e) = step() {
        return err(e) as ssize_t;
    }
    let v = &fs().nodes[h.0];
    let m = v.len().saturating_sub(h.1).min(n);
    std::slice::from_raw_parts_mut(b as *mut u8, m).copy_from_slice(&v[h.1..h.1 + m]);
    h.1 += m;
    m as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off_t, how: c_int) -> off_t {
    let Some(h) = node(fd) else {
        return real(libc::SYS_lseek, fd as usize, o as usize, how as usize, 0) as off_t;
    };
    let base = match how {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => h.1 as off_t,
        _ => fs().nodes[h.0].len() as off_t,
    };
    if base + o < 0 {
        return err(libc::EINVAL) as off_t;
    }
    h.1 = (base + o) as usize;
    h.1 as off_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    let Some(h) = node(fd) else {
        return real(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0) as c_int;
    };
    if let Err(e) = step() {
        return err(e);
    }
    if !fs().dead {
        fs().nodes[h.0].resize(n as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if node(fd).is_none() {
        return real(libc::SYS_fsync, fd as usize, 0, 0, 0) as c_int;
    }
    match step() {
        Err(e) => err(e),
        Ok(()) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if node(fd).is_none() {
        return real(libc::SYS_close, fd as usize, 0, 0, 0) as c_int;
    }
    fs().fds[(fd - BASE) as usize] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (p, q) = (CStr::from_ptr(a).to_bytes(), CStr::from_ptr(b).to_bytes());
    if !mine(p) {
        return real(libc::SYS_rename, a as usize, b as usize, 0, 0) as c_int;
    }
    if let Err(e) = step() {
        return err(e);
    }
    let f = fs();
    let Some(i) = find(p) else { return if f.dead { 0 } else { err(libc::ENOENT) } };
    if !f.dead && p != q {
        let n = f.names[i].1;
        f.names.remove(i);
        match find(q) {
            Some(j) => f.names[j].1 = n,
            None => f.names.push((q.to_vec(), n)),
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char) -> c_int {
    rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if flags & libc::RENAME_NOREPLACE != 0 && find(CStr::from_ptr(b).to_bytes()).is_some() {
        return err(libc::EEXIST);
    }
    rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let (p, q) = (CStr::from_ptr(a).to_bytes(), CStr::from_ptr(b).to_bytes());
    if !mine(p) {
        return real(libc::SYS_link, a as usize, b as usize, 0, 0) as c_int;
    }
    if let Err(e) = step() {
        return err(e);
    }
    let f = fs();
    let Some(i) = find(p) else { return err(libc::ENOENT) };
    if find(q).is_some() {
        return err(libc::EEXIST);
    }
    if !f.dead {
        let n = f.names[i].1;
        f.names.push((q.to_vec(), n));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, _f: c_int) -> c_int {
    link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_unlink, a as usize, 0, 0, 0) as c_int;
    }
    if let Err(e) = step() {
        return err(e);
    }
    match find(p) {
        Some(i) => {
            if !fs().dead {
                fs().names.remove(i);
            }
            0
        }
        None => err(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(_d: c_int, a: *const c_char, _f: c_int) -> c_int {
    unlink(a)
}
fn size_of_node(n: usize) -> i64 {
    fs().nodes[n].len() as i64
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, s: *mut libc::stat64) -> c_int {
    let Some(h) = node(fd) else {
        return real(libc::SYS_fstat, fd as usize, s as usize, 0, 0) as c_int;
    };
    std::ptr::write_bytes(s, 0, 1);
    (*s).st_mode = libc::S_IFREG | 0o600;
    (*s).st_size = size_of_node(h.0);
    (*s).st_ino = h.0 as u64 + 1;
    0
}
/// Mode, size and number of what is at a path.
fn info(p: &[u8]) -> Result<(u32, i64, u64), c_int> {
    if is_dir(p) {
        return Ok((libc::S_IFDIR | 0o700, 0, u64::MAX));
    }
    match find(p) {
        Some(i) => {
            let n = fs().names[i].1;
            Ok((libc::S_IFREG | 0o600, size_of_node(n), n as u64 + 1))
        }
        None => Err(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(a: *const c_char, s: *mut libc::stat64) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_stat, a as usize, s as usize, 0, 0) as c_int;
    }
    match info(p) {
        Err(e) => err(e),
        Ok((mode, size, ino)) => {
            std::ptr::write_bytes(s, 0, 1);
            (*s).st_mode = mode;
            (*s).st_size = size;
            (*s).st_ino = ino;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(a: *const c_char, s: *mut libc::stat64) -> c_int {
    stat64(a, s)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, a: *const c_char, flags: c_int, mask: c_uint, s: *mut libc::statx) -> c_int {
    if a.is_null() {
        // how std asks whether there is such a call
        return err(libc::EFAULT);
    }
    let i = if let Some(h) = node(d) {
        Ok((libc::S_IFREG | 0o600, size_of_node(h.0), h.0 as u64 + 1))
    } else {
        let p = CStr::from_ptr(a).to_bytes();
        if p.is_empty() || !mine(p) {
            #[cfg(feature = "native")]
            return libc::syscall(libc::SYS_statx, d, a, flags, mask, s) as c_int;
            #[cfg(not(feature = "native"))]
            {
                let _ = (flags, mask);
                return err(libc::ENOENT);
            }
        }
        info(p)
    };
    match i {
        Err(e) => err(e),
        Ok((mode, size, ino)) => {
            std::ptr::write_bytes(s, 0, 1);
            (*s).stx_mask = libc::STATX_BASIC_STATS;
            (*s).stx_mode = mode as u16;
            (*s).stx_size = size as u64;
            (*s).stx_ino = ino;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, a: *const c_char, m: c_int, f: c_int) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_faccessat, d as usize, a as usize, m as usize, f as usize) as c_int;
    }
    match info(p) {
        Err(e) => err(e),
        Ok(_) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, m: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, a, m, 0)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, n: off_t) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_truncate, a as usize, n as usize, 0, 0) as c_int;
    }
    if let Err(e) = step() {
        return err(e);
    }
    let Some(i) = find(p) else { return err(libc::ENOENT) };
    let f = fs();
    if !f.dead {
        let k = f.names[i].1;
        f.nodes[k].resize(n as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_chmod, a as usize, m as usize, 0, 0) as c_int;
    }
    match info(p) {
        Err(e) => err(e),
        Ok(_) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    let Some(h) = node(fd) else {
        return real(libc::SYS_pread64, fd as usize, b as usize, n, o as usize);
    };
    let at = h.1;
    h.1 = o as usize;
    let r = read(fd, b, n);
    if let Some(h) = node(fd) {
        h.1 = at;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if node(fd).is_none() {
        return real(libc::SYS_readv, fd as usize, v as usize, n as usize, 0);
    }
    // a short read is always allowed
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return read(fd, x.iov_base, x.iov_len);
        }
    }
    0
}
/// There are no symbolic links.
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_readlink, a as usize, b as usize, n, 0);
    }
    match info(p) {
        Err(e) => err(e) as ssize_t,
        Ok(_) => err(libc::EINVAL) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if node(fd).is_none() {
        return real(libc::SYS_flock, fd as usize, op as usize, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if node(fd).is_none() {
        return real(libc::SYS_syncfs, fd as usize, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(_fd: c_int, _m: mode_t) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    let p = CStr::from_ptr(a).to_bytes();
    if !mine(p) {
        return real(libc::SYS_mkdir, a as usize, m as usize, 0, 0) as c_int;
    }
    err(libc::EEXIST)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    _a: c_int,
    _b: *mut off_t,
    _c: c_int,
    _d: *mut off_t,
    _n: size_t,
    _f: c_uint,
) -> ssize_t {
    err(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut off_t, _n: size_t) -> ssize_t {
    err(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _a: off_t, _b: off_t, _c: c_int) -> c_int {
    0
}
