//! C21, below the level of calls: one call is stopped before a machine instruction, another object makes
//! a whole call on a thread of its own, and the first goes on. The places that matter are those where the
//! first touches memory the second touches too; they are found by stepping both calls through the
//! processor's trap flag and decoding the operand of every instruction.
use std::cell::Cell;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};

extern "C" {
    fn sigaction(s: c_int, a: *const Action, o: *mut Action) -> c_int;
    fn fork() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    fn alarm(s: u32) -> u32;
    fn gettid() -> c_int;
}
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
/// Every call into the library goes through here; the armed thread executes it instruction by instruction.
#[inline(never)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    #[cfg(target_arch = "x86_64")]
    if ARMED.with(|a| a.get()) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") }
            }
        }
        let off = Off;
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
        let r = f();
        drop(off);
        return r;
    }
    f()
}

/// The rest of what this thread does is executed at once.
pub fn disarm() {
    ARMED.with(|a| a.set(false));
}

// ---- which memory does the instruction at ip touch? ----
const GREG: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
/// Calls `hit` with the range of memory the instruction at `ip` reads or writes, other than through
/// push, pop, call, return and segment registers, and with whether it may write.
unsafe fn operands(g: *const u64, ip: u64, mut hit: impl FnMut(u64, u64, bool)) {
    let b = |n: u64| *((ip + n) as *const u8);
    let reg = |r: u8| *g.add(GREG[r as usize & 15]);
    let mut n = 0;
    let (mut rep, mut rex, mut narrow) = (false, 0u8, false);
    loop {
        match b(n) {
            0x66 => narrow = true,
            0xf2 | 0xf3 => rep = true,
            0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x67 => {}
            0x64 | 0x65 => return, // thread-local
            _ => break,
        }
        n += 1;
    }
    let _ = narrow;
    if b(n) & 0xf0 == 0x40 {
        rex = b(n);
        n += 1;
    }
    let (mut map, mut width, mut scale8) = (0, 16u64, 1i64);
    match b(n) {
        0xc5 => {
            rex = (!b(n + 1) >> 7) << 2;
            width = 32;
            map = 1;
            n += 2;
        }
        0xc4 => {
            rex = !b(n + 1) >> 5;
            map = b(n + 1) & 31;
            width = 32;
            n += 3;
        }
        0x62 => {
            rex = !b(n + 1) >> 5;
            map = b(n + 1) & 7;
            width = 64;
            scale8 = 16 << (b(n + 3) >> 5 & 3);
            n += 4;
        }
        0x0f => {
            map = 1;
            n += 1;
            if b(n) == 0x38 {
                map = 2;
                n += 1;
            } else if b(n) == 0x3a {
                map = 3;
                n += 1;
            }
        }
        _ => {}
    }
    let op = b(n);
    n += 1;
    if map == 0 {
        match op {
            0xa4..=0xa7 | 0xaa..=0xaf => {
                let size = if rep { reg(1).min(1 << 20) * 8 } else { 8 };
                if !(0xaa..=0xab).contains(&op) {
                    hit(reg(6), size, false);
                }
                hit(reg(7), size, matches!(op, 0xa4 | 0xa5 | 0xaa | 0xab));
                return;
            }
            0xa0..=0xa3 => {
                let mut a = 0;
                for i in 0..8 {
                    a |= (b(n + i) as u64) << (8 * i);
                }
                hit(a, 8, op >= 0xa2);
                return;
            }
            _ => {}
        }
        let modrm = op < 0x40 && op & 7 < 4 || matches!(op, 0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff);
        if !modrm || op == 0x8d {
            return;
        }
    } else if map == 1 && matches!(op, 0x05..=0x0b | 0x0d | 0x18..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf) {
        return;
    }
    let m = b(n);
    n += 1;
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return;
    }
    let mut a: u64;
    let mut slack = 0;
    let d32 = |n: u64| (b(n) as u32 | (b(n + 1) as u32) << 8 | (b(n + 2) as u32) << 16 | (b(n + 3) as u32) << 24) as i32 as i64;
    if rm == 4 {
        let s = b(n);
        n += 1;
        let (base, index) = (s & 7, s >> 3 & 7 | (rex & 2) << 2);
        a = if base == 5 && md == 0 {
            let d = d32(n) as u64;
            n += 4;
            d
        } else {
            reg(base | (rex & 1) << 3)
        };
        if index != 4 {
            a = a.wrapping_add(reg(index) << (s >> 6));
        }
    } else if rm == 5 && md == 0 {
        // relative to the end of the instruction, which an immediate operand moves by up to 8
        a = (ip + n + 4).wrapping_add(d32(n) as u64);
        slack = 8;
        n += 4;
    } else {
        a = reg(rm | (rex & 1) << 3);
    }
    if md == 1 {
        a = a.wrapping_add((b(n) as i8 as i64 * scale8) as u64);
    } else if md == 2 {
        a = a.wrapping_add(d32(n) as u64);
    }
    let ext = (m >> 3) & 7;
    let reads = match map {
        0 => op < 0x40 && (op & 2 != 0 || op & 0x38 == 0x38) || matches!(op, 0x63 | 0x69 | 0x6b | 0x84 | 0x85 | 0x8a | 0x8b) || matches!(op, 0x80..=0x83) && ext == 7 || matches!(op, 0xf6 | 0xf7) && matches!(ext, 0 | 1 | 4..=7) || op == 0xff && ext >= 2,
        1 => !matches!(op, 0x11 | 0x13 | 0x17 | 0x29 | 0x2b | 0x7e | 0x7f | 0xd6 | 0xe7 | 0xc3 | 0x90..=0x9f | 0xa4 | 0xa5 | 0xab..=0xae | 0xb0 | 0xb1 | 0xb3 | 0xba | 0xbb | 0xc0 | 0xc1 | 0xc7 | 0x01 | 0x00),
        2 => !matches!(op, 0x8a..=0x8f | 0xf0..=0xff | 0x10..=0x15 | 0x20..=0x35),
        _ => !matches!(op, 0x14..=0x17 | 0x19 | 0x1b | 0x39 | 0x3b),
    };
    hit(a, width + slack, !reads || op == 0x7e);
}

// ---- memory of its own for each side, so that only what is really shared has one address ----
const REGION: usize = 64 << 20;
thread_local! {
    static MINE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
static REGIONS: AtomicUsize = AtomicUsize::new(0);
/// The allocator's part of it; None outside a stepped call.
pub fn alloc(size: usize, align: usize) -> Option<*mut u8> {
    let (next, end) = MINE.try_with(|m| m.get()).unwrap_or((0, 0));
    if next == 0 {
        return None;
    }
    let a = (next + align.max(16) - 1) & !(align.max(16) - 1);
    let after = a + size.div_ceil(16) * 16;
    if after > end {
        return None;
    }
    MINE.with(|m| m.set((after, end)));
    Some(a as *mut u8)
}
/// Is this block, or what happens now, part of a stepped call? Then nothing is given back.
pub fn keep(p: *mut u8) -> bool {
    let (p, base) = (p as usize, REGIONS.load(Relaxed));
    base != 0 && (p >= base && p < base + 2 * REGION || MINE.try_with(|m| m.get().0 != 0).unwrap_or(false))
}
fn region(which: usize) {
    let b = REGIONS.load(SeqCst);
    if b != 0 {
        MINE.with(|m| m.set((b + which * REGION, b + (which + 1) * REGION)));
    }
}
fn no_region() {
    MINE.with(|m| m.set((0, 0)));
}

// ---- stepping ----
const LINE: u32 = 4; // conflicts are found between pieces of 16 bytes
const SLOTS: usize = 1 << 17;
const MARKS: usize = 1 << 21;
/// Shared between a process and its children.
#[repr(C)]
struct Shared {
    /// the footprints of the second object's calls: address piece -> set of calls
    keys: [AtomicU64; SLOTS],
    calls: [AtomicU32; SLOTS],
    /// those among them that write there
    writes: [AtomicU32; SLOTS],
    /// where the first object's call meets them, by number of executed instructions
    marks: [AtomicU32; MARKS],
    instructions: AtomicU64,
    overflow: AtomicU32,
    /// how often the second could not finish while the first was stopped
    waited: AtomicU32,
    /// the call starts threads, which a copy of the process would not have
    threads: AtomicU32,
    message_len: AtomicU32,
    message: [u8; 4096],
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Footprint,
    Mark,
    Stop,
}
struct Stepping {
    mode: Mode,
    call: u32,
    shared: *mut Shared,
    /// instructions of the executable itself so far
    at: usize,
    /// a conflict inside another library waits for the next one
    pending: u32,
    stops: u64,
    failed: bool,
    inside: bool,
    left_out: u64,
    every: usize,
    /// the one place to stop at, without a copy of the process: for calls that write or read files
    only: usize,
}
static mut S: Stepping = Stepping { mode: Mode::Footprint, call: 0, shared: std::ptr::null_mut(), at: 0, pending: 0, stops: 0, failed: false, inside: false, left_out: 0, every: 1, only: 0 };
static mut MASKED: (u64, u64) = (0, 0);
static mut TEXT: (u64, u64) = (0, 0);
/// the data of other libraries, where the allocator keeps its own books
static mut FOREIGN: [(u64, u64); 32] = [(0, 0); 32];
/// what the second thread does when the first is stopped
static mut SECOND: Option<Box<dyn Fn() + Sync>> = None;
static SECOND_ID: AtomicI32 = AtomicI32::new(0);
static SECOND_DONE: AtomicBool = AtomicBool::new(false);

unsafe fn slot(sh: *mut Shared, key: u64) -> Option<usize> {
    let mut p = (key.wrapping_mul(0x9e3779b97f4a7c15) >> 40) as usize % SLOTS;
    for _ in 0..64 {
        let k = (*sh).keys[p].load(SeqCst);
        if k == key || k == 0 {
            return Some(p);
        }
        p = (p + 1) % SLOTS;
    }
    None
}
/// Is this thread waiting for another?
fn sleeps(id: i32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", id)).unwrap_or_default();
    t.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}
/// From here this process goes on with the second object's call in the middle.
unsafe fn go_inside(s: &mut Stepping, g: *mut u64) {
    s.inside = true;
    disarm();
    *g.add(17) &= !0x100;
    alarm(60);
    SECOND_DONE.store(false, SeqCst);
    let h = std::thread::spawn(|| {
        SECOND_ID.store(gettid(), SeqCst);
        region(1);
        #[allow(static_mut_refs)]
        if let Some(f) = SECOND.as_ref() {
            f();
        }
        no_region();
        SECOND_DONE.store(true, SeqCst);
    });
    // one that waits for something the first holds goes on when the first does
    let patience = if (*s.shared).waited.load(SeqCst) < 10 { 200 } else { 50 };
    let t = std::time::Instant::now();
    let mut asleep = 0;
    while !SECOND_DONE.load(SeqCst) {
        if t.elapsed().as_millis() >= patience {
            (*s.shared).waited.fetch_add(1, SeqCst);
            break;
        }
        if t.elapsed().as_millis() >= 1 {
            asleep = if sleeps(SECOND_ID.load(SeqCst)) { asleep + 1 } else { 0 };
            if asleep == 5 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        std::thread::yield_now();
    }
    std::mem::forget(h);
}
unsafe extern "C" fn trap(_: c_int, _: *mut c_void, u: *mut c_void) {
    let g = (u as *mut u64).add(5);
    let ip = *g.add(16);
    let s = &mut *(&raw mut S);
    let sh = s.shared;
    if !ARMED.with(|a| a.get()) {
        // a thread that the call has started
        if !sh.is_null() {
            (*sh).threads.store(1, SeqCst);
        }
        *g.add(17) &= !0x100;
        return;
    }
    // a signal mask that would block the trap (while a thread is started, for one) is replaced
    if MASKED.0 != 0 {
        *g.add(GREG[6]) = MASKED.0;
        MASKED.0 = 0;
    }
    if *(ip as *const [u8; 2]) == [0x0f, 0x05] && *g.add(GREG[0]) == 14 && *g.add(GREG[6]) != 0 && *g.add(GREG[7]) != 1 {
        MASKED = (*g.add(GREG[6]), *(*g.add(GREG[6]) as *const u64) & !(1 << 4));
        *g.add(GREG[6]) = &raw const MASKED.1 as u64;
    }
    let own = ip >= TEXT.0 && ip < TEXT.1;
    (*sh).instructions.fetch_add(1, SeqCst);
    if s.mode == Mode::Stop {
        if !own {
            return;
        }
        s.at += 1;
        if s.only != 0 {
            if s.at == s.only && !s.inside {
                go_inside(s, g);
            }
            return;
        }
        if s.at < MARKS && (*sh).marks[s.at].load(SeqCst) & 1 << s.call != 0 {
            s.stops += 1;
            if s.every > 1 && s.stops % s.every as u64 != 0 {
                s.left_out += 1;
                return;
            }
            let p = fork();
            if p == 0 {
                go_inside(s, g);
            } else if p > 0 {
                let mut st = 0;
                waitpid(p, &mut st, 0);
                if st != 0 {
                    s.failed = true;
                    // no more stops
                    disarm();
                    *g.add(17) &= !0x100;
                }
            }
        }
        return;
    }
    if own {
        s.at += 1;
        if s.mode == Mode::Mark && s.pending != 0 && s.at < MARKS {
            (*sh).marks[s.at].fetch_or(s.pending, SeqCst);
            s.pending = 0;
        }
    }
    let (mode, call, at) = (s.mode, s.call, s.at);
    let mut pending = 0;
    operands(g, ip, |a, n, write| {
        #[allow(static_mut_refs)]
        if FOREIGN.iter().any(|f| a >= f.0 && a < f.1) {
            return;
        }
        for key in (a >> LINE)..=((a + n - 1) >> LINE) {
            match slot(sh, key) {
                None => (*sh).overflow.store(1, SeqCst),
                Some(p) if mode == Mode::Footprint => {
                    (*sh).keys[p].store(key, SeqCst);
                    (*sh).calls[p].fetch_or(1 << call, SeqCst);
                    if write {
                        (*sh).writes[p].fetch_or(1 << call, SeqCst);
                    }
                }
                Some(p) => {
                    if (*sh).keys[p].load(SeqCst) == key {
                        pending |= if write { &(*sh).calls } else { &(*sh).writes }[p].load(SeqCst);
                    }
                }
            }
        }
    });
    if mode == Mode::Mark && pending != 0 {
        if at >= MARKS {
            (*sh).overflow.store(2, SeqCst);
        } else {
            (*sh).marks[at].fetch_or(pending, SeqCst);
        }
        if !own {
            s.pending |= pending;
        }
    }
}
fn ready() -> bool {
    if !cfg!(target_arch = "x86_64") {
        return false;
    }
    unsafe {
        if TEXT.1 == 0 {
            let exe = std::fs::read_link("/proc/self/exe").ok().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
            let mut n = 0;
            for l in maps.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                let (a, b) = match w[0].split_once('-') {
                    Some((a, b)) => (u64::from_str_radix(a, 16).unwrap_or(0), u64::from_str_radix(b, 16).unwrap_or(0)),
                    None => continue,
                };
                let path = w.get(5).copied().unwrap_or("");
                if path == exe && w[1].contains('x') {
                    TEXT = (if TEXT.0 == 0 { a } else { TEXT.0.min(a) }, TEXT.1.max(b));
                } else if path.contains(".so") && w[1].contains('w') && n < 32 {
                    // with the anonymous rest of it
                    let extra = maps.lines().filter_map(|m| {
                        let v: Vec<&str> = m.split_whitespace().collect();
                        let (c, d) = v[0].split_once('-')?;
                        (u64::from_str_radix(c, 16).ok()? == b && v.len() < 6 && v[1].contains('w')).then(|| u64::from_str_radix(d, 16).ok())?
                    });
                    FOREIGN[n] = (a, extra.min().map(|e| e.min(b + (1 << 16))).unwrap_or(b));
                    n += 1;
                }
            }
            let mut sa: Action = std::mem::zeroed();
            sa.handler = trap as *const () as usize;
            sa.flags = 4;
            if sigaction(5, &sa, std::ptr::null_mut()) != 0 {
                return false;
            }
        }
        TEXT.1 > 0
    }
}
/// Runs f in a child and waits; false if it did not end well.
fn forked(f: impl FnOnce()) -> bool {
    unsafe {
        let p = fork();
        assert!(p >= 0, "harness: fork");
        if p == 0 {
            alarm(600);
            let ok = crate::engine::guarded(f).is_ok();
            _exit(!ok as c_int);
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        st == 0
    }
}
fn step(mode: Mode, call: u32, shared: *mut Shared, every: usize, only: usize, f: impl FnOnce() -> String) -> String {
    unsafe {
        S = Stepping { mode, call, shared, at: 0, pending: 0, stops: 0, failed: false, inside: false, left_out: 0, every, only };
    }
    region((mode == Mode::Footprint) as usize);
    ARMED.with(|a| a.set(true));
    let r = f();
    disarm();
    no_region();
    r
}
fn say(shared: *mut Shared, m: &str) {
    let b = m.as_bytes();
    let n = b.len().min(4000);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), &raw mut (*shared).message as *mut u8, n);
        (*shared).message_len.store(n as u32, SeqCst);
    }
}
fn said(shared: *mut Shared) -> String {
    unsafe {
        let n = (*shared).message_len.load(SeqCst) as usize;
        String::from_utf8_lossy(std::slice::from_raw_parts(&raw const (*shared).message as *const u8, n)).into_owned()
    }
}
fn text(f: impl FnOnce() -> String) -> String {
    crate::engine::guarded(f).unwrap_or_else(|m| m)
}
pub struct AnyThread<T>(pub T);
unsafe impl<T> Send for AnyThread<T> {}
unsafe impl<T> Sync for AnyThread<T> {}
/// An object behind a pointer, so that the second thread of a copied process can use it.
pub type Handle = *mut dyn FnMut(usize) -> String;

pub struct Outcome {
    pub message: Option<String>,
    pub stops: u64,
    pub instructions: u64,
    pub left_out: u64,
    pub available: bool,
    /// calls that do not survive being stepped through, and so were not stopped
    pub unstepped: u64,
}
/// Every call of `a` stopped at every place where it meets a call of `b`. Both are called with a number
/// and answer with all that can be seen. `files`: the calls of `a` that use files, which a copy of the
/// process would share.
pub fn meet(a: Handle, a_calls: usize, files: &[usize], b: Handle, b_calls: usize, title: &str, most: usize) -> Outcome {
    let mut out = Outcome { message: None, stops: 0, instructions: 0, left_out: 0, available: ready(), unstepped: 0 };
    if !out.available {
        return out;
    }
    let size = std::mem::size_of::<Shared>();
    let shared = unsafe { mmap(std::ptr::null_mut(), size, 3, 0x21, -1, 0) } as *mut Shared;
    assert!(shared as isize != -1, "harness: mmap");
    if REGIONS.load(SeqCst) == 0 {
        let m = unsafe { mmap(std::ptr::null_mut(), 2 * REGION, 3, 0x4022, -1, 0) };
        if m as isize != -1 {
            REGIONS.store(m as usize, SeqCst);
        }
    }
    let (pa, pb) = (AnyThread(a), AnyThread(b));
    let on_thread = |call: usize| -> String {
        let p = &pb;
        std::thread::scope(|s| s.spawn(move || { let p = p; unsafe { (*p.0)(call) } }).join().unwrap_or_else(|_| "panic".into()))
    };
    // what each answers alone
    let ask = |f: &dyn Fn() -> String| -> Option<String> {
        let ok = forked(|| say(shared, &f()));
        ok.then(|| said(shared))
    };
    let mut want_b = vec![];
    for q in 0..b_calls {
        match ask(&|| digest(&on_thread(q))) {
            Some(w) => want_b.push(w),
            None => {
                out.message = Some(format!("{}: call {} of B alone does not return", title, q));
                return out;
            }
        }
        let shared_ = AnyThread(shared);
        let (p, s) = (&pb, &shared_);
        let ok = forked(|| {
            std::thread::scope(|t| {
                t.spawn(move || {
                    let (p, s) = (p, s);
                    step(Mode::Footprint, q as u32, s.0, 1, 0, || unsafe { (*p.0)(q) })
                });
            });
        });
        if !ok {
            out.unstepped += 1;
        }
    }
    'calls: for x in 0..a_calls {
        let want_a = match ask(&|| digest(&unsafe { (*pa.0)(x) })) {
            Some(w) => w,
            None => {
                out.message = Some(format!("{}: call {} of A alone does not return", title, x));
                break;
            }
        };
        unsafe {
            for m in (*shared).marks.iter() {
                if m.load(SeqCst) != 0 {
                    m.store(0, SeqCst);
                }
            }
        }
        unsafe { (*shared).threads.store(0, SeqCst) };
        if !forked(|| {
            step(Mode::Mark, 0, shared, 1, 0, || unsafe { (*pa.0)(x) });
        }) {
            out.unstepped += 1;
            continue;
        }
        let marks = unsafe { &(*shared).marks };
        for q in 0..b_calls {
            let count = marks.iter().filter(|m| m.load(SeqCst) & 1 << q != 0).count();
            if count == 0 {
                continue;
            }
            let file = files.contains(&x) || unsafe { (*shared).threads.load(SeqCst) } != 0;
            let most = if file { most.div_ceil(3) } else { most };
            let every = count.div_ceil(most);
            out.stops += (count / every) as u64;
            out.left_out += (count - count / every) as u64;
            let places: Vec<usize> = if file {
                marks.iter().enumerate().filter(|m| m.1.load(SeqCst) & 1 << q != 0).map(|m| m.0).skip(every - 1).step_by(every).collect()
            } else {
                vec![0]
            };
            for only in places {
                unsafe { (*shared).message_len.store(0, SeqCst) };
                let (want_a, want_b) = (&want_a, &want_b[q]);
                let ok = forked(|| {
                    // the second object's answer, once it has one
                    static mut ANSWER: Option<String> = None;
                    let raw = pb.0 as *mut (dyn FnMut(usize) -> String + 'static);
                    let p = AnyThread(raw);
                    unsafe {
                        SECOND = Some(Box::new(move || {
                            let p = &p;
                            let r = text(|| (*p.0)(q));
                            *(&raw mut ANSWER) = Some(r);
                        }));
                    }
                    let got = step(Mode::Stop, q as u32, shared, every, only, || text(|| unsafe { (*pa.0)(x) }));
                    unsafe {
                        let s = &*(&raw const S);
                        if !s.inside {
                            if s.failed {
                                _exit(1);
                            }
                            return;
                        }
                        let at = s.at;
                        // the first has finished; so must the second
                        let t = std::time::Instant::now();
                        while !SECOND_DONE.load(SeqCst) && t.elapsed().as_secs() < 20 {
                            std::thread::yield_now();
                        }
                        let gb = (*(&raw const ANSWER)).clone().unwrap_or_else(|| "nothing: it does not return".into());
                        if digest(&got) != *want_a {
                            say(shared, &format!("{}: call {} of A, stopped before its instruction number {} for call {} of B, answers {}, alone it answers otherwise", title, x, at, q, cut(&got)));
                            _exit(1);
                        }
                        if digest(&gb) != *want_b {
                            say(shared, &format!("{}: call {} of B made while call {} of A is stopped before its instruction number {} answers {}, alone it answers otherwise", title, q, x, at, cut(&gb)));
                            _exit(1);
                        }
                        _exit(0);
                    }
                });
                if !ok {
                    let m = said(shared);
                    out.message = Some(if m.is_empty() { format!("{}: call {} of A stopped for call {} of B: the process does not end well", title, x, q) } else { m });
                    break 'calls;
                }
            }
        }
    }
    unsafe {
        out.instructions = (*shared).instructions.load(SeqCst);
        if (*shared).overflow.load(SeqCst) != 0 && out.message.is_none() {
            out.left_out += 1;
        }
        munmap(shared as *mut c_void, size);
    }
    out
}
fn digest(s: &str) -> String {
    format!("{:016x} {}", crate::engine::hash_bytes(7, s.as_bytes()), s.len())
}
fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}
