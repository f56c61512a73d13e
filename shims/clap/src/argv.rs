//! The arguments of the process, as a harness sets them.
use std::ffi::OsString;
use std::sync::Mutex;
static ARGS: Mutex<Vec<OsString>> = Mutex::new(Vec::new());
/// The next command line.
pub fn set(l: Vec<OsString>) {
    *ARGS.lock().unwrap() = l;
}
pub(crate) fn get() -> std::vec::IntoIter<OsString> {
    ARGS.lock().unwrap().clone().into_iter()
}
