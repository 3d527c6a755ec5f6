#![allow(invalid_runtime_symbol_definitions)]
//! Interposed system calls: while a thread has armed itself, every open, read, write, sync and rename it
//! makes is answered as a plan says (see props/c18.rs); otherwise the call goes straight through.
use std::cell::{Cell, RefCell};
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Open,
    Read(usize),
    Write(usize),
    Other,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Answer {
    /// let the call through
    Real,
    /// let it through for at most this many bytes
    Short(usize),
    /// report end of file / nothing written
    Zero,
    Fail(c_int),
}
pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const ENOSPC: c_int = 28;
pub const EACCES: c_int = 13;
pub const ENOENT: c_int = 2;
pub const EMFILE: c_int = 24;
pub const EDQUOT: c_int = 122;
pub const EFBIG: c_int = 27;
pub const EISDIR: c_int = 21;
pub const EAGAIN: c_int = 11;

thread_local! {
    static OPEN: Cell<i64> = const { Cell::new(0) };
}
/// Files this thread opened and has not closed.
pub fn open_files() -> i64 {
    OPEN.with(|o| o.get())
}
type Plan = Box<dyn FnMut(Call) -> Answer>;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}
pub fn arm(p: Plan) {
    PLAN.with(|x| *x.borrow_mut() = Some(p));
    ARMED.with(|a| a.set(true));
}
pub fn disarm() {
    let _ = ARMED.try_with(|a| a.set(false));
    let _ = PLAN.try_with(|x| x.borrow_mut().take());
}
fn ask(c: Call) -> Answer {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return Answer::Real;
    }
    // the plan itself must not be asked about what it does
    let _ = ARMED.try_with(|a| a.set(false));
    let r = PLAN.try_with(|p| p.borrow_mut().as_mut().map(|f| f(c))).ok().flatten().unwrap_or(Answer::Real);
    let _ = ARMED.try_with(|a| a.set(true));
    r
}
extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
fn fail(e: c_int) -> c_long {
    unsafe { *__errno_location() = e };
    -1
}
const READ: c_long = 0;
const WRITE: c_long = 1;
const CLOSE: c_long = 3;
const OPENAT: c_long = 257;
const PREAD: c_long = 17;
const PWRITE: c_long = 18;
const READV: c_long = 19;
const WRITEV: c_long = 20;
const FSYNC: c_long = 74;
const FDATASYNC: c_long = 75;
const FTRUNCATE: c_long = 77;
const RENAME: c_long = 82;
const AT_FDCWD: c_int = -100;

#[repr(C)]
struct Iovec {
    base: *mut c_void,
    len: usize,
}
fn opened(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match ask(Call::Open) {
        Answer::Fail(e) => fail(e) as c_int,
        _ => {
            let fd = unsafe { syscall(OPENAT, dir, p, flags, mode) as c_int };
            if fd >= 0 {
                let _ = OPEN.try_with(|o| o.set(o.get() + 1));
            }
            fd
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r = syscall(CLOSE, fd) as c_int;
    if r == 0 {
        let _ = OPEN.try_with(|o| o.set(o.get() - 1));
    }
    r
}
#[no_mangle]
pub extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    opened(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    opened(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    opened(dir, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    opened(dir, p, flags, mode)
}
fn transfer(write: bool, n: usize, go: &dyn Fn(usize) -> c_long) -> isize {
    let r = match ask(if write { Call::Write(n) } else { Call::Read(n) }) {
        Answer::Fail(e) => fail(e),
        Answer::Zero => 0,
        Answer::Short(k) => go(n.min(k)),
        Answer::Real => go(n),
    };
    r as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    transfer(false, n, &|k| syscall(READ, fd, b, k))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    transfer(true, n, &|k| syscall(WRITE, fd, b, k))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    transfer(false, n, &|k| syscall(PREAD, fd, b, k, o))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    transfer(true, n, &|k| syscall(PWRITE, fd, b, k, o))
}
unsafe fn vector(write: bool, fd: c_int, v: *const Iovec, n: c_int) -> isize {
    let vs = std::slice::from_raw_parts(v, n.max(0) as usize);
    let total: usize = vs.iter().map(|x| x.len).sum();
    transfer(write, total, &|k| {
        if k == total {
            return syscall(if write { WRITEV } else { READV }, fd, v, n);
        }
        let mut left = k;
        let mut w: Vec<Iovec> = vec![];
        for x in vs {
            let l = x.len.min(left);
            left -= l;
            if l > 0 {
                w.push(Iovec { base: x.base, len: l });
            }
        }
        syscall(if write { WRITEV } else { READV }, fd, w.as_ptr(), w.len() as c_int)
    })
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const c_void, n: c_int) -> isize {
    vector(false, fd, v as *const Iovec, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    vector(true, fd, v as *const Iovec, n)
}
fn other(go: &dyn Fn() -> c_long) -> c_int {
    match ask(Call::Other) {
        Answer::Fail(e) => fail(e) as c_int,
        _ => go() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    other(&|| syscall(FSYNC, fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    other(&|| syscall(FDATASYNC, fd))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    other(&|| syscall(FTRUNCATE, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    other(&|| syscall(RENAME, a, b))
}
