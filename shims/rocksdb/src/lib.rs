//! Stand-in for the `rocksdb` crate: the API subset indradb can reasonably
//! use, over one sorted vector per column family. Contract modelled:
//! byte-wise lexicographic key order, atomic write batches applied in order,
//! iterators over the snapshot taken when they are created, named column
//! families, and durability (`disk`): a write that goes through the log
//! survives a process death, one that bypasses it survives only after a flush
//! or a clean close. `ctl` lets a harness stop the process at a chosen write,
//! make a chosen write fail, and counts engine operations.
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Kv = (Arc<[u8]>, Arc<[u8]>);
type Tree = Arc<Vec<Kv>>;

#[derive(Clone, Default)]
struct Disk {
    path: PathBuf,
    cfs: Vec<(String, Tree)>,
    open: bool,
}

struct Global(UnsafeCell<Vec<Disk>>);
unsafe impl Sync for Global {}
static DISKS: Global = Global(UnsafeCell::new(Vec::new()));
#[allow(clippy::mut_from_ref)]
fn disks() -> &'static mut Vec<Disk> {
    unsafe { &mut *DISKS.0.get() }
}
fn disk_idx(p: &Path) -> Option<usize> {
    disks().iter().position(|d| d.path == p)
}

/// Harness controls.
pub mod ctl {
    use super::*;
    /// Counts a point at which the process can die; true if it still lives.
    pub(super) fn point() -> bool {
        let c = get();
        let n = c.writes;
        c.writes += 1;
        if c.die_at == Some(n) {
            c.dead = true;
        }
        !c.dead
    }
    struct G(UnsafeCell<Ctl>);
    unsafe impl Sync for G {}
    pub struct Ctl {
        /// number of atomic writes performed since `reset`
        pub writes: u32,
        /// the process dies just before write number n (0-based)
        pub die_at: Option<u32>,
        pub dead: bool,
        /// write number n fails with an I/O error and has no effect
        pub fail_at: Option<u32>,
        /// reads (lookups, iterator steps) performed since `reset`
        pub reads: u32,
        /// read number n fails with an I/O error
        pub fail_read_at: Option<u32>,
        /// whether engine operations are scheduling points
        pub sched: bool,
    }
    static CTL: G = G(UnsafeCell::new(Ctl { writes: 0, die_at: None, dead: false, fail_at: None, reads: 0, fail_read_at: None, sched: false }));
    #[allow(clippy::mut_from_ref)]
    pub fn get() -> &'static mut Ctl {
        unsafe { &mut *CTL.0.get() }
    }
    pub fn reset() {
        *get() = Ctl { writes: 0, die_at: None, dead: false, fail_at: None, reads: 0, fail_read_at: None, sched: get().sched };
    }
    /// Removes the database at `path` from the modelled disk.
    pub fn wipe(path: &str) {
        disks().retain(|d| d.path != Path::new(path));
    }
    /// After a modelled process death: locks held by the dead process vanish.
    pub fn power_on() {
        for d in disks() {
            d.open = false;
        }
        reset();
    }
    /// Raw contents of a column family on the modelled disk.
    pub fn dump(path: &str, cf: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
        let i = disk_idx(Path::new(path)).unwrap();
        let t = &disks()[i].cfs.iter().find(|c| c.0 == cf).unwrap().1;
        t.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()
    }
}

fn read_ok() -> Result<(), Error> {
    let c = ctl::get();
    let n = c.reads;
    c.reads += 1;
    if c.fail_read_at == Some(n) {
        return Err(Error::new("IO error: While pread: Input/output error"));
    }
    Ok(())
}

/// `Arc::make_mut` without its compare-and-exchange, which would be a
/// scheduling point in the middle of an indivisible engine operation.
fn unshare(t: &mut Tree) -> &mut Vec<Kv> {
    if Arc::strong_count(t) != 1 {
        *t = Arc::new(t.to_vec());
    }
    unsafe { &mut *(Arc::as_ptr(t) as *mut Vec<Kv>) }
}
fn op() {
    if ctl::get().sched {
        sym::yield_point();
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    NotSupported,
    InvalidArgument,
    IOError,
    MergeInProgress,
    Incomplete,
    ShutdownInProgress,
    TimedOut,
    Aborted,
    Busy,
    Expired,
    TryAgain,
    CompactionTooLarge,
    ColumnFamilyDropped,
    Unknown,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn new(s: &str) -> Error {
        Error { message: s.to_string() }
    }
    pub fn into_string(self) -> String {
        self.message
    }
    pub fn kind(&self) -> ErrorKind {
        ErrorKind::IOError
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.message.fmt(f)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum DBCompactionStyle {
    Level,
    Universal,
    Fifo,
}
#[derive(Clone, Copy, Debug)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}
#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
    create_missing_cfs: bool,
    error_if_exists: bool,
}
macro_rules! setters { ($($n:ident($($t:ty),*)),* $(,)?) => { $(#[allow(unused)] pub fn $n(&mut self, $(_: $t),*) { $(let _ = PhantomData::<$t>;)* } )* } }
impl Options {
    pub fn create_if_missing(&mut self, b: bool) {
        self.create_if_missing = b;
    }
    pub fn create_missing_column_families(&mut self, b: bool) {
        self.create_missing_cfs = b;
    }
    pub fn set_error_if_exists(&mut self, b: bool) {
        self.error_if_exists = b;
    }
}
#[allow(unused)]
impl Options {
    pub fn set_compaction_style(&mut self, _: DBCompactionStyle) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_bottommost_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_db_write_buffer_size(&mut self, _: usize) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number_to_merge(&mut self, _: i32) {}
    pub fn set_target_file_size_base(&mut self, _: u64) {}
    pub fn set_target_file_size_multiplier(&mut self, _: i32) {}
    pub fn set_level_zero_file_num_compaction_trigger(&mut self, _: i32) {}
    pub fn set_level_zero_slowdown_writes_trigger(&mut self, _: i32) {}
    pub fn set_level_zero_stop_writes_trigger(&mut self, _: i32) {}
    pub fn set_num_levels(&mut self, _: i32) {}
    pub fn set_max_bytes_for_level_base(&mut self, _: u64) {}
    pub fn set_max_bytes_for_level_multiplier(&mut self, _: f64) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn set_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_wal_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_max_background_jobs(&mut self, _: i32) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_max_subcompactions(&mut self, _: u32) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
    pub fn set_allow_concurrent_memtable_write(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_unordered_write(&mut self, _: bool) {}
    pub fn set_paranoid_checks(&mut self, _: bool) {}
    pub fn set_keep_log_file_num(&mut self, _: usize) {}
    pub fn set_max_total_wal_size(&mut self, _: u64) {}
    pub fn optimize_for_point_lookup(&mut self, _: u64) {}
    pub fn optimize_level_style_compaction(&mut self, _: usize) {}
    pub fn set_manual_wal_flush(&mut self, _: bool) {}
    pub fn set_avoid_unnecessary_blocking_io(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct WriteOptions {
    no_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, b: bool) {
        self.no_wal = b;
    }
    pub fn set_no_slowdown(&mut self, _: bool) {}
    pub fn set_low_pri(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct ReadOptions {
    upper: Option<Vec<u8>>,
    lower: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.upper = Some(k.into());
    }
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.lower = Some(k.into());
    }
    pub fn set_prefix_same_as_start(&mut self, _: bool) {}
    pub fn set_total_order_seek(&mut self, _: bool) {}
    pub fn fill_cache(&mut self, _: bool) {}
    pub fn set_verify_checksums(&mut self, _: bool) {}
    pub fn set_readahead_size(&mut self, _: usize) {}
}
#[derive(Default)]
pub struct FlushOptions;
impl FlushOptions {
    pub fn new() -> Self {
        FlushOptions
    }
    pub fn set_wait(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct CompactOptions;

pub struct ColumnFamily {
    idx: usize,
}
pub type ColumnFamilyRef<'a> = &'a ColumnFamily;
pub trait AsColumnFamilyRef {
    #[doc(hidden)]
    fn idx(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn idx(&self) -> usize {
        self.idx
    }
}
impl AsColumnFamilyRef for &ColumnFamily {
    fn idx(&self) -> usize {
        self.idx
    }
}
pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _o: Options) -> Self {
        Self { name: name.into() }
    }
}

enum Op {
    Put(usize, Arc<[u8]>, Arc<[u8]>),
    Del(usize, Arc<[u8]>),
    DelRange(usize, Arc<[u8]>, Arc<[u8]>),
}
#[derive(Default)]
pub struct WriteBatchWithTransaction<const T: bool> {
    ops: Vec<Op>,
}
pub type WriteBatch = WriteBatchWithTransaction<false>;
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn new() -> Self {
        Self { ops: Vec::new() }
    }
    pub fn with_capacity_bytes(_: usize) -> Self {
        Self::new()
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        12 + self
            .ops
            .iter()
            .map(|o| match o {
                Op::Put(_, k, v) => k.len() + v.len() + 4,
                Op::Del(_, k) => k.len() + 3,
                Op::DelRange(_, a, b) => a.len() + b.len() + 4,
            })
            .sum::<usize>()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops.push(Op::Put(0, key.as_ref().into(), value.as_ref().into()));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K, value: V) {
        self.ops.push(Op::Put(cf.idx(), key.as_ref().into(), value.as_ref().into()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push(Op::Del(0, key.as_ref().into()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.ops.push(Op::Del(cf.idx(), key.as_ref().into()));
    }
    pub fn delete_range<K: AsRef<[u8]>>(&mut self, a: K, b: K) {
        self.ops.push(Op::DelRange(0, a.as_ref().into(), b.as_ref().into()));
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, a: K, b: K) {
        self.ops.push(Op::DelRange(cf.idx(), a.as_ref().into(), b.as_ref().into()));
    }
}

fn apply(cfs: &mut [(String, Tree)], ops: &[Op]) {
    for o in ops {
        match o {
            Op::Put(c, k, v) => {
                let t = unshare(&mut cfs[*c].1);
                match find(t, k) {
                    Ok(i) => t[i].1 = v.clone(),
                    Err(i) => t.insert(i, (k.clone(), v.clone())),
                }
            }
            Op::Del(c, k) => {
                let t = unshare(&mut cfs[*c].1);
                if let Ok(i) = find(t, k) {
                    t.remove(i);
                }
            }
            Op::DelRange(c, a, b) => {
                let t = unshare(&mut cfs[*c].1);
                t.retain(|(k, _)| k[..] < a[..] || k[..] >= b[..]);
            }
        }
    }
}
/// Position of `k`, by linear scan in key order.
fn find(t: &[Kv], k: &[u8]) -> Result<usize, usize> {
    for (i, (x, _)) in t.iter().enumerate() {
        match (**x).cmp(k) {
            std::cmp::Ordering::Less => {}
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
    }
    Err(t.len())
}

struct Inner {
    path: PathBuf,
    cfs: Vec<(String, Tree)>,
    /// operations that bypassed the log and are not flushed
    volatile: bool,
}
pub struct DBCommon {
    inner: UnsafeCell<Inner>,
    handles: Vec<(String, ColumnFamily)>,
}
pub type DB = DBCommon;
pub struct SingleThreaded;
pub struct MultiThreaded;
pub type DBWithThreadMode<T> = PhDB<T>;
pub struct PhDB<T>(PhantomData<T>);
unsafe impl Send for DBCommon {}
unsafe impl Sync for DBCommon {}
impl fmt::Debug for DBCommon {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("RocksDB")
    }
}

impl DBCommon {
    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut Inner {
        unsafe { &mut *self.inner.get() }
    }
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let mut o = Options::default();
        o.create_if_missing(true);
        Self::open(&o, path)
    }
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<Self, Error> {
        Self::open_cf(opts, path, std::iter::empty::<&str>())
    }
    pub fn open_cf<P, I, N>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = N>,
        N: AsRef<str>,
    {
        let path = path.as_ref().to_path_buf();
        let mut names: Vec<String> = vec!["default".to_string()];
        for n in cfs {
            if n.as_ref() != "default" {
                names.push(n.as_ref().to_string());
            }
        }
        let i = match disk_idx(&path) {
            Some(i) => {
                if opts.error_if_exists {
                    return Err(Error::new("Invalid argument: exists (error_if_exists is true)"));
                }
                i
            }
            None => {
                if !opts.create_if_missing {
                    return Err(Error::new("Invalid argument: does not exist (create_if_missing is false)"));
                }
                // As the engine does: the directory is created, then opening
                // fails if a requested column family does not exist.
                disks().push(Disk { path: path.clone(), cfs: vec![("default".into(), Tree::default())], open: false });
                disks().len() - 1
            }
        };
        let d = &mut disks()[i];
        if d.open {
            return Err(Error::new("IO error: While lock file: No locks available"));
        }
        for c in &d.cfs {
            if !names.contains(&c.0) {
                return Err(Error::new("Invalid argument: Column families not opened"));
            }
        }
        let mut cfs = d.cfs.clone();
        for n in &names {
            if !cfs.iter().any(|c| c.0 == *n) {
                if opts.create_missing_cfs {
                    cfs.push((n.clone(), Tree::default()));
                    if ctl::point() {
                        d.cfs.push((n.clone(), Tree::default()));
                    }
                } else {
                    return Err(Error::new("Invalid argument: Column family not found"));
                }
            }
        }
        d.open = true;
        let handles = cfs.iter().enumerate().map(|(i, c)| (c.0.clone(), ColumnFamily { idx: i })).collect();
        Ok(DBCommon { inner: UnsafeCell::new(Inner { path, cfs, volatile: false }), handles })
    }
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        Self::open_cf(opts, path, cfs.into_iter().map(|c| c.name))
    }
    pub fn open_cf_with_opts<P, I, N>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = (N, Options)>,
        N: AsRef<str>,
    {
        Self::open_cf(opts, path, cfs.into_iter().map(|c| c.0.as_ref().to_string()))
    }
    pub fn list_cf<P: AsRef<Path>>(_o: &Options, path: P) -> Result<Vec<String>, Error> {
        match disk_idx(path.as_ref()) {
            Some(i) => Ok(disks()[i].cfs.iter().map(|c| c.0.clone()).collect()),
            None => Err(Error::new("IO error: No such file or directory")),
        }
    }
    pub fn repair<P: AsRef<Path>>(_o: &Options, _path: P) -> Result<(), Error> {
        Ok(())
    }
    pub fn destroy<P: AsRef<Path>>(_o: &Options, path: P) -> Result<(), Error> {
        disks().retain(|d| d.path != path.as_ref());
        Ok(())
    }
    pub fn create_cf<N: AsRef<str>>(&mut self, name: N, _o: &Options) -> Result<(), Error> {
        let name = name.as_ref().to_string();
        if self.inner().cfs.iter().any(|c| c.0 == name) {
            return Err(Error::new("Invalid argument: Column family already exists"));
        }
        self.inner().cfs.push((name.clone(), Tree::default()));
        let n = self.inner().cfs.len();
        self.handles.push((name.clone(), ColumnFamily { idx: n - 1 }));
        if ctl::point() {
            if let Some(i) = disk_idx(&self.inner().path) {
                disks()[i].cfs.push((name, Tree::default()));
            }
        }
        Ok(())
    }
    pub fn drop_cf(&mut self, name: &str) -> Result<(), Error> {
        let _ = name;
        Err(Error::new("Not implemented: drop_cf"))
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.handles.iter().find(|h| h.0 == name).map(|h| &h.1)
    }
    fn lookup(&self, cf: usize, key: &[u8]) -> Result<Option<Arc<[u8]>>, Error> {
        op();
        read_ok()?;
        let t = &self.inner().cfs[cf].1;
        for (k, v) in t.iter() {
            if **k == *key {
                return Ok(Some(v.clone()));
            }
        }
        Ok(None)
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.lookup(0, key.as_ref())?.map(|v| v.to_vec()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.lookup(cf.idx(), key.as_ref())?.map(|v| v.to_vec()))
    }
    pub fn get_cf_opt<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        _o: &ReadOptions,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.get_cf(cf, key)
    }
    pub fn get_pinned_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<DBPinnableSlice<'_>>, Error> {
        Ok(self.lookup(cf.idx(), key.as_ref())?.map(|v| DBPinnableSlice(v, PhantomData)))
    }
    pub fn multi_get_cf<'a, 'b: 'a, K, I, W>(&'a self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>>
    where
        K: AsRef<[u8]>,
        I: IntoIterator<Item = (&'b W, K)>,
        W: 'b + AsColumnFamilyRef,
    {
        keys.into_iter().map(|(c, k)| self.get_cf(c, k)).collect()
    }
    pub fn key_may_exist_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> bool {
        // may be true for an absent key: a free choice
        !matches!(self.lookup(cf.idx(), key.as_ref()), Ok(None)) || sym::choose(2) == 1
    }
    pub fn iterator<'a: 'b, 'b>(&'a self, mode: IteratorMode) -> DBIterator<'b> {
        self.iter_idx(0, mode, None, None)
    }
    pub fn iterator_cf<'a: 'b, 'b>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode) -> DBIterator<'b> {
        self.iter_idx(cf.idx(), mode, None, None)
    }
    pub fn full_iterator_cf<'a: 'b, 'b>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode) -> DBIterator<'b> {
        self.iter_idx(cf.idx(), mode, None, None)
    }
    pub fn iterator_cf_opt<'a: 'b, 'b>(
        &'a self,
        cf: &impl AsColumnFamilyRef,
        o: ReadOptions,
        mode: IteratorMode,
    ) -> DBIterator<'b> {
        self.iter_idx(cf.idx(), mode, o.lower, o.upper)
    }
    /// Without a prefix extractor this is a plain seek, as in the engine.
    pub fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(
        &'a self,
        cf: &impl AsColumnFamilyRef,
        prefix: P,
    ) -> DBIterator<'a> {
        self.iter_idx(cf.idx(), IteratorMode::From(prefix.as_ref(), Direction::Forward), None, None)
    }
    fn iter_idx<'a>(&self, cf: usize, mode: IteratorMode, lo: Option<Vec<u8>>, hi: Option<Vec<u8>>) -> DBIterator<'a> {
        op();
        let mut tree = self.inner().cfs[cf].1.clone();
        if lo.is_some() || hi.is_some() {
            let v: Vec<Kv> = tree
                .iter()
                .filter(|(k, _)| {
                    lo.as_ref().is_none_or(|l| k[..] >= l[..]) && hi.as_ref().is_none_or(|h| k[..] < h[..])
                })
                .cloned()
                .collect();
            tree = Arc::new(v);
        }
        let n = tree.len();
        let (pos, back) = match mode {
            IteratorMode::Start => (0, false),
            IteratorMode::End => (n, true),
            IteratorMode::From(k, Direction::Forward) => (
                match find(&tree, k) {
                    Ok(i) => i,
                    Err(i) => i,
                },
                false,
            ),
            IteratorMode::From(k, Direction::Reverse) => (
                match find(&tree, k) {
                    Ok(i) => i + 1,
                    Err(i) => i,
                },
                true,
            ),
        };
        DBIteratorWithThreadMode { tree, pos, back, failed: false, ph: PhantomData }
    }
    fn do_write(&self, ops: &[Op], wal: bool) -> Result<(), Error> {
        op();
        let c = ctl::get();
        let n = c.writes;
        c.writes += 1;
        if c.fail_at == Some(n) {
            return Err(Error::new("IO error: No space left on device"));
        }
        if c.die_at == Some(n) {
            c.dead = true;
        }
        let inner = self.inner();
        apply(&mut inner.cfs, ops);
        if !c.dead {
            if wal {
                if let Some(i) = disk_idx(&inner.path) {
                    if inner.volatile {
                        // replayed log on top of what was flushed
                        apply(&mut disks()[i].cfs, ops);
                    } else {
                        disks()[i].cfs = inner.cfs.clone();
                    }
                }
            } else {
                inner.volatile = true;
            }
        }
        Ok(())
    }
    fn persist(&self) {
        if !ctl::get().dead {
            let inner = self.inner();
            if let Some(i) = disk_idx(&inner.path) {
                disks()[i].cfs = inner.cfs.clone();
            }
            inner.volatile = false;
        }
    }
    /// Flushing covers one column family.
    fn flush_idx(&self, c: usize) -> Result<(), Error> {
        op();
        let n = ctl::get().writes;
        ctl::point();
        if ctl::get().fail_at == Some(n) {
            return Err(Error::new("IO error: No space left on device"));
        }
        self.persist_cf(c);
        Ok(())
    }
    fn persist_cf(&self, c: usize) {
        let inner = self.inner();
        if !ctl::get().dead && inner.volatile {
            if let Some(i) = disk_idx(&inner.path) {
                disks()[i].cfs[c].1 = inner.cfs[c].1.clone();
            }
        }
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.do_write(&batch.ops, true)
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        self.do_write(&batch.ops, !o.no_wal)
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        self.do_write(&batch.ops, false)
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.do_write(&[Op::Put(0, key.as_ref().into(), value.as_ref().into())], true)
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.do_write(&[Op::Put(cf.idx(), key.as_ref().into(), value.as_ref().into())], true)
    }
    pub fn put_cf_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
        o: &WriteOptions,
    ) -> Result<(), Error> {
        self.do_write(&[Op::Put(cf.idx(), key.as_ref().into(), value.as_ref().into())], !o.no_wal)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.do_write(&[Op::Del(0, key.as_ref().into())], true)
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, key: K) -> Result<(), Error> {
        self.do_write(&[Op::Del(cf.idx(), key.as_ref().into())], true)
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, a: K, b: K) -> Result<(), Error> {
        self.do_write(&[Op::DelRange(cf.idx(), a.as_ref().into(), b.as_ref().into())], true)
    }
    pub fn flush(&self) -> Result<(), Error> {
        self.flush_idx(0)
    }
    pub fn flush_opt(&self, _o: &FlushOptions) -> Result<(), Error> {
        self.flush_idx(0)
    }
    pub fn flush_cf(&self, cf: &impl AsColumnFamilyRef) -> Result<(), Error> {
        self.flush_idx(cf.idx())
    }
    pub fn flush_cf_opt(&self, cf: &impl AsColumnFamilyRef, _o: &FlushOptions) -> Result<(), Error> {
        self.flush_idx(cf.idx())
    }
    pub fn flush_cfs_opt(&self, cfs: &[&impl AsColumnFamilyRef], _o: &FlushOptions) -> Result<(), Error> {
        for c in cfs {
            self.flush_idx(c.idx())?;
        }
        Ok(())
    }
    pub fn flush_wal(&self, _sync: bool) -> Result<(), Error> {
        op();
        Ok(())
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _s: Option<S>, _e: Option<E>) {
        op();
        self.persist_cf(0);
    }
    pub fn compact_range_cf<S: AsRef<[u8]>, E: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        _s: Option<S>,
        _e: Option<E>,
    ) {
        op();
        self.persist_cf(cf.idx());
    }
    pub fn path(&self) -> &Path {
        &self.inner().path
    }
    pub fn property_int_value_cf(&self, cf: &impl AsColumnFamilyRef, _name: &str) -> Result<Option<u64>, Error> {
        // An estimate: any number is allowed; offer the exact one and off-by-one.
        let n = self.inner().cfs[cf.idx()].1.len() as u64;
        Ok(Some(n + sym::choose(2) as u64))
    }
}
impl Drop for DBCommon {
    fn drop(&mut self) {
        self.persist();
        if !ctl::get().dead {
            if let Some(i) = disk_idx(&self.inner().path) {
                disks()[i].open = false;
            }
        }
    }
}

pub struct DBPinnableSlice<'a>(Arc<[u8]>, PhantomData<&'a ()>);
impl std::ops::Deref for DBPinnableSlice<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBPinnableSlice<'_> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub struct DBIteratorWithThreadMode<'a, D> {
    tree: Tree,
    pos: usize,
    back: bool,
    failed: bool,
    ph: PhantomData<(&'a (), D)>,
}
pub type DBIterator<'a> = DBIteratorWithThreadMode<'a, ()>;
impl<D> Iterator for DBIteratorWithThreadMode<'_, D> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        // (over a snapshot: not a scheduling point)
        if self.failed {
            return None;
        }
        if let Err(e) = read_ok() {
            self.failed = true;
            return Some(Err(e));
        }
        let i = if self.back {
            if self.pos == 0 {
                return None;
            }
            self.pos -= 1;
            self.pos
        } else {
            if self.pos >= self.tree.len() {
                return None;
            }
            self.pos += 1;
            self.pos - 1
        };
        let (k, v) = &self.tree[i];
        Some(Ok((Box::from(&k[..]), Box::from(&v[..]))))
    }
}
