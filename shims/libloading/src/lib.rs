//! Stand-in for `libloading`: libraries are tables of functions that a
//! harness registers under a path. Whether a library is still loaded is kept,
//! so that the use of an unloaded one can be noticed.
use std::cell::UnsafeCell;
use std::ffi::{OsStr, OsString};
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;

struct Entry {
    path: OsString,
    symbols: Vec<(&'static [u8], *const ())>,
    open: u32,
}
struct Global(UnsafeCell<Vec<Entry>>);
unsafe impl Sync for Global {}
static TABLE: Global = Global(UnsafeCell::new(Vec::new()));
#[allow(clippy::mut_from_ref)]
fn table() -> &'static mut Vec<Entry> {
    unsafe { &mut *TABLE.0.get() }
}
pub mod ctl {
    use super::*;
    pub fn clear() {
        table().clear();
    }
    pub fn provide(path: &str, symbols: Vec<(&'static [u8], *const ())>) {
        table().push(Entry { path: path.into(), symbols, open: 0 });
    }
    /// How often the library at `path` is loaded now.
    pub fn open(path: &str) -> u32 {
        table().iter().find(|e| e.path == OsStr::new(path)).map_or(0, |e| e.open)
    }
}
pub enum Error {
    DlOpen,
    DlSym,
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
            Error::DlOpen => "dlopen failed",
            Error::DlSym => "dlsym failed",
        })
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Library(usize);
impl Library {
    /// # Safety
    /// As of the real one.
    pub unsafe fn new<P: AsRef<OsStr>>(filename: P) -> Result<Library, Error> {
        match table().iter().position(|e| e.path == filename.as_ref()) {
            Some(i) => {
                table()[i].open += 1;
                Ok(Library(i))
            }
            None => Err(Error::DlOpen),
        }
    }
    /// # Safety
    /// As of the real one.
    pub unsafe fn get<T>(&self, symbol: &[u8]) -> Result<Symbol<'_, T>, Error> {
        let symbol = symbol.strip_suffix(b"\0").unwrap_or(symbol);
        match table()[self.0].symbols.iter().find(|s| s.0 == symbol) {
            Some(s) => Ok(Symbol { pointer: s.1, pd: PhantomData }),
            None => Err(Error::DlSym),
        }
    }
    pub fn close(self) -> Result<(), Error> {
        Ok(())
    }
}
impl Drop for Library {
    fn drop(&mut self) {
        table()[self.0].open -= 1;
    }
}
pub struct Symbol<'lib, T: 'lib> {
    pointer: *const (),
    pd: PhantomData<&'lib T>,
}
impl<'lib, T> Deref for Symbol<'lib, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*(&self.pointer as *const *const () as *const T) }
    }
}
