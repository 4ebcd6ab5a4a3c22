//! Recording and failing the file operations of SQLite: the functions below take precedence over
//! those of the C library in this executable.

use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicI32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[derive(Clone, Debug)]
pub enum FileOp {
    Write(PathBuf, u64, Vec<u8>),
    Truncate(PathBuf, u64),
    Sync(PathBuf),
    Unlink(PathBuf),
}

const OFF: u8 = 0;
const RECORD: u8 = 1;
const FAIL: u8 = 2;

static MODE: AtomicU8 = AtomicU8::new(OFF);
static SKIP: AtomicI64 = AtomicI64::new(0);
static LEFT: AtomicI64 = AtomicI64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);
static ERRNO: AtomicI32 = AtomicI32::new(0);

struct Shared {
    lock: std::sync::atomic::AtomicBool,
    trace: UnsafeCell<Vec<FileOp>>,
    dir: UnsafeCell<Option<PathBuf>>,
}

unsafe impl Sync for Shared {}

static SHARED: Shared = Shared {
    lock: std::sync::atomic::AtomicBool::new(false),
    trace: UnsafeCell::new(Vec::new()),
    dir: UnsafeCell::new(None),
};

fn locked<T>(f: impl FnOnce(&mut Vec<FileOp>, &mut Option<PathBuf>) -> T) -> T {
    while SHARED.lock.swap(true, SeqCst) {
        std::thread::yield_now();
    }
    let r = unsafe { f(&mut *SHARED.trace.get(), &mut *SHARED.dir.get()) };
    SHARED.lock.store(false, SeqCst);
    r
}

fn path_of(fd: i32) -> Option<PathBuf> {
    let path = std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok()?;
    let inside = locked(|_, dir| dir.as_ref().map_or(false, |d| path.starts_with(d)));
    if inside && !path.as_os_str().as_bytes().ends_with(b"-shm") {
        Some(path)
    } else {
        None
    }
}

fn inside(path: &Path) -> bool {
    locked(|_, dir| dir.as_ref().map_or(false, |d| path.starts_with(d)))
}

/// Whether this operation has to fail; else it is recorded.
fn intercept(op: impl FnOnce() -> Option<FileOp>) -> bool {
    match MODE.load(SeqCst) {
        RECORD => {
            if let Some(op) = op() {
                locked(|trace, _| trace.push(op));
            }
            false
        }
        FAIL => {
            if op().is_none() {
                return false;
            }
            if SKIP.fetch_sub(1, SeqCst) > 0 {
                return false;
            }
            if LEFT.fetch_sub(1, SeqCst) > 0 {
                HITS.fetch_add(1, SeqCst);
                return true;
            }
            false
        }
        _ => false,
    }
}

unsafe fn set_errno() -> i32 {
    *libc::__errno_location() = ERRNO.load(SeqCst);
    -1
}

fn dup(buf: *const libc::c_void, n: usize) -> Vec<u8> {
    if MODE.load(SeqCst) == RECORD {
        unsafe { std::slice::from_raw_parts(buf as *const u8, n).to_vec() }
    } else {
        vec![]
    }
}

unsafe fn do_pwrite(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    if MODE.load(SeqCst) != OFF && intercept(|| Some(FileOp::Write(path_of(fd)?, off as u64, dup(buf, n)))) {
        return set_errno() as isize;
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    do_pwrite(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    do_pwrite(fd, buf, n, off)
}

/// SQLite as it is built here seeks, then writes.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if MODE.load(SeqCst) != OFF
        && intercept(|| {
            let path = path_of(fd)?;
            let off = libc::lseek(fd, 0, libc::SEEK_CUR);
            Some(FileOp::Write(path, off as u64, dup(buf, n)))
        })
    {
        return set_errno() as isize;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if MODE.load(SeqCst) != OFF && intercept(|| Some(FileOp::Sync(path_of(fd)?))) {
        return set_errno();
    }
    libc::syscall(libc::SYS_fsync, fd) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if MODE.load(SeqCst) != OFF && intercept(|| Some(FileOp::Sync(path_of(fd)?))) {
        return set_errno();
    }
    libc::syscall(libc::SYS_fdatasync, fd) as i32
}

unsafe fn do_ftruncate(fd: i32, len: i64) -> i32 {
    if MODE.load(SeqCst) != OFF && intercept(|| Some(FileOp::Truncate(path_of(fd)?, len as u64))) {
        return set_errno();
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    do_ftruncate(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    do_ftruncate(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    if MODE.load(SeqCst) != OFF {
        let p = PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(path).to_bytes()));
        if inside(&p) && intercept(|| Some(FileOp::Unlink(p))) {
            return set_errno();
        }
    }
    libc::syscall(libc::SYS_unlink, path) as i32
}

// ---------------------------------------------------------------------------------------------

pub struct Recording(());

impl Recording {
    /// Records what happens to the files in `dir`.
    pub fn start(dir: &Path) -> Recording {
        locked(|trace, d| {
            trace.clear();
            *d = Some(dir.to_path_buf());
        });
        MODE.store(RECORD, SeqCst);
        Recording(())
    }

    pub fn len(&self) -> usize {
        locked(|trace, _| trace.len())
    }

    pub fn stop(self) -> Vec<FileOp> {
        MODE.store(OFF, SeqCst);
        locked(|trace, d| {
            *d = None;
            std::mem::take(trace)
        })
    }
}

/// The file operations in `dir` from the `nth` on fail, `count` of them.
pub fn fail_from(dir: &Path, nth: u64, count: u64, errno: i32) {
    locked(|_, d| *d = Some(dir.to_path_buf()));
    SKIP.store(nth as i64, SeqCst);
    LEFT.store(count as i64, SeqCst);
    HITS.store(0, SeqCst);
    ERRNO.store(errno, SeqCst);
    MODE.store(FAIL, SeqCst);
}

/// How many operations failed.
pub fn stop_failing() -> u64 {
    MODE.store(OFF, SeqCst);
    locked(|_, d| *d = None);
    HITS.load(SeqCst)
}

#[derive(Clone, Copy, Debug)]
pub enum Unsynced {
    All,
    None,
    Some,
}

/// Rebuilds in `to` the files of `from` as the operations leave them. Operations on a file that
/// are not followed by a sync of it may be missing.
pub fn materialise(ops: &[FileOp], from: &Path, to: &Path, unsynced: Unsynced, pick: u64) {
    let mut last_sync: BTreeMap<&Path, usize> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        if let FileOp::Sync(p) = op {
            last_sync.insert(p, i);
        }
    }
    let mut rng = crate::pbt::Rng::new(pick);
    for (i, op) in ops.iter().enumerate() {
        let path = match op {
            FileOp::Write(p, ..) | FileOp::Truncate(p, ..) | FileOp::Sync(p) | FileOp::Unlink(p) => p,
        };
        let synced = last_sync.get(path.as_path()).map_or(false, |s| *s > i);
        let lost = match unsynced {
            Unsynced::All => false,
            Unsynced::None => true,
            Unsynced::Some => rng.next() & 1 == 0,
        };
        if !synced && lost && !matches!(op, FileOp::Unlink(_)) {
            continue;
        }
        let dst = to.join(path.strip_prefix(from).expect("recorded path"));
        let open = || {
            std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .open(&dst)
                .expect("env: crash image")
        };
        match op {
            FileOp::Write(_, off, data) => open().write_all_at(data, *off).expect("env: crash image"),
            FileOp::Truncate(_, len) => open().set_len(*len).expect("env: crash image"),
            FileOp::Sync(_) => {}
            FileOp::Unlink(_) => {
                let _ = std::fs::remove_file(&dst);
            }
        }
    }
}

static LATER: AtomicI64 = AtomicI64::new(0);

/// The clock that timeouts are measured with, which `pass` puts forward.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, at: *mut libc::timespec) -> i32 {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, at) as i32;
    if r == 0 && clock == libc::CLOCK_MONOTONIC {
        (*at).tv_sec += LATER.load(SeqCst);
    }
    r
}

/// Makes time pass.
pub fn pass(seconds: u64) {
    LATER.fetch_add(seconds as i64, SeqCst);
}
