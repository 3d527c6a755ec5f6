//! C18: what the operating system may answer while a file is saved or loaded.
use super::nets::*;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use crate::sys::*;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

/// What the plan did during one library call.
#[derive(Default, Clone, Debug)]
struct Story {
    calls: Vec<(Call, Answer)>,
    hard: bool,
    zero: bool,
    /// a call other than opening, reading and writing failed
    other: bool,
    thinned: u64,
    opens: usize,
    transfers: usize,
}
/// Where code moves its data in many small transfers, patterns of deviations are bounded by their number
/// and position: with `base` transfers expected, at most this many deviations,
fn most(base: usize, left: usize) -> usize {
    left.min(match base {
        0..=2 => left,
        3..=4 => 4,
        5..=16 => 3,
        17..=1000 => 2,
        _ => 1,
    })
}
/// and, beyond 64 transfers, deviations at these: the first, powers of two and their halves, the last, and
/// those shortly after another deviation.
fn considered(base: usize, p: usize, used: usize, last: usize, remaining: usize, n: usize) -> bool {
    let round = p.is_power_of_two() || p % 3 == 0 && (p / 3).is_power_of_two();
    base <= 64 || remaining <= 2 * n || if used == 0 { p < 24 || round } else { p < 8 || p <= last + 4 }
}
/// The answers for one call into the library: answers are chosen by the engine while deviations are left.
fn plan(size: usize, left: usize, ctx: *mut Ctx, story: Rc<RefCell<Story>>, uniform: Option<(usize, bool)>) -> Box<dyn FnMut(Call) -> Answer> {
    let mut flip = false;
    // transfers expected from the size of the first one; position, deviations so far and where, bytes moved
    let (mut base, mut p, mut used, mut last, mut moved) = (0, 0, 0, 0, 0);
    Box::new(move |call| {
        // the engine's context outlives the library call during which the plan is armed
        let c = unsafe { &mut *ctx };
        let mut s = story.borrow_mut();
        match call {
            Call::Open => s.opens += 1,
            Call::Read(_) | Call::Write(_) => s.transfers += 1,
            _ => {}
        }
        let n = if let Call::Read(n) | Call::Write(n) = call { n } else { 0 };
        if n > 0 && base == 0 {
            base = size.div_ceil(n);
        }
        p += 1;
        let free = used < most(base, left) && considered(base, p, used, last, size.saturating_sub(moved), n.max(1));
        s.thinned += (!free && used < left) as u64;
        let mut menu = vec![Answer::Real];
        if let (Some((k, intr)), Call::Read(_) | Call::Write(_)) = (uniform, call) {
            flip = !flip;
            menu[0] = if intr && flip { Answer::Fail(EINTR) } else { Answer::Short(k) };
        }
        if free {
            match call {
                Call::Open => menu.extend([Answer::Fail(EINTR), Answer::Fail(ENOENT), Answer::Fail(EACCES), Answer::Fail(EMFILE), Answer::Fail(EISDIR)]),
                Call::Read(n) | Call::Write(n) => {
                    menu.push(Answer::Fail(EINTR));
                    let mut k = vec![1, n / 2, n.saturating_sub(1), 8, n.min(4096) * 3 / 4];
                    k.sort();
                    k.dedup();
                    menu.extend(k.into_iter().filter(|k| *k > 0 && *k < n).map(Answer::Short));
                    menu.push(Answer::Fail(EIO));
                    menu.push(Answer::Fail(EAGAIN));
                    if matches!(call, Call::Write(_)) {
                        menu.extend([Answer::Fail(ENOSPC), Answer::Fail(EDQUOT), Answer::Fail(EFBIG)]);
                    }
                    menu.push(Answer::Zero);
                }
                Call::Other => menu.push(Answer::Fail(EIO)),
            }
        }
        let q = c.choose(menu.len());
        if q > 0 {
            used += 1;
            last = p;
            c.deviations += 1;
        }
        let a = menu[q];
        if let (Answer::Fail(e), Call::Open | Call::Read(_) | Call::Write(_)) = (a, call) {
            s.hard |= e != EINTR;
        }
        s.other |= call == Call::Other && a != Answer::Real;
        moved += match a {
            Answer::Real => n,
            Answer::Short(k) => k.min(n),
            _ => 0,
        };
        s.zero |= a == Answer::Zero;
        if s.calls.len() < 64 || q > 0 {
            s.calls.push((call, a));
        }
        a
    })
}
fn under<R>(c: &mut Ctx, size: usize, left: usize, uniform: Option<(usize, bool)>, f: impl FnOnce() -> R) -> (R, Story) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            disarm();
        }
    }
    let story = Rc::new(RefCell::new(Story::default()));
    let guard = Guard;
    arm(plan(size, left, c as *mut Ctx, story.clone(), uniform));
    let r = f();
    drop(guard);
    let s = story.borrow().clone();
    c.step();
    c.log(|| format!("system calls: {:?}", s.calls));
    c.count("system calls answered", (s.opens + s.transfers) as u64);
    if s.thinned > 0 {
        c.count("system calls without deviations for the bound on many small transfers", s.thinned);
    }
    (r, s)
}
/// Things to save: tensors, then networks.
pub enum Thing {
    T(Dim, Vec<u32>),
    N(Vec<Spec>),
}
pub fn things(large: bool) -> Vec<Thing> {
    let t = |d: Dim| Thing::T(d, (0..total(d) as u32).map(|i| i.wrapping_mul(2654435761) ^ 0x40490fdb).collect());
    let s = singles();
    let big = Spec::Fc { w: dense([2, 3000, 1], 4, -1, 2), b: dense([2, 1, 1], 5, -1, 2) };
    if large {
        return vec![t([1024, 20, 1]), t([70000, 1, 1]), Thing::N(vec![big, s[3].clone()].into_iter().take(1).collect())];
    }
    vec![t([1, 1, 1]), t([3, 2, 2]), Thing::N(vec![]), Thing::N(vec![s[1].clone()]), Thing::N(vec![s[0].clone(), Spec::Pool { input: [2, 2, 2], win: [1, 2], stride: 1 }]), t([600, 5, 1])]
}
impl Thing {
    pub fn file(&self) -> Vec<u8> {
        match self {
            Thing::T(d, v) => codec::tensor_bits(*d, v),
            Thing::N(s) => image(s, &names(s.len())),
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Thing::T(d, _) => format!("tensor {:?}", d),
            Thing::N(s) => format!("network of {} layers", s.len()),
        }
    }
    /// Does the file hold this thing completely (and nothing else)?
    pub fn held_by(&self, b: &[u8]) -> bool {
        match self {
            Thing::T(..) => b == self.file(),
            Thing::N(s) => codec::parse_network(b) == Some(s.iter().zip(names(s.len())).map(|(s, n)| codec::layer_fields(s, &n)).collect()),
        }
    }
    pub fn save(&self, p: &String) -> Result<Box<dyn FnOnce() -> Result<(), String>>, String> {
        let p = p.clone();
        Ok(match self {
            Thing::T(d, v) => {
                let t = tensor_of_bits(*d, v);
                Box::new(move || t.save_to_file(&p).map_err(|e| e.to_string()))
            }
            Thing::N(s) => {
                let n = build(s, &names(s.len()), false)?;
                Box::new(move || n.save_to_file(&p).map_err(|e| e.to_string()))
            }
        })
    }
}
fn saving(left: usize, large: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let ts = things(large);
        let th = c.pick(&ts);
        let old = c.choose(3);
        let p = path(c, "f");
        let _ = std::fs::remove_file(&p);
        match old {
            1 => put(&p, &[1, 2, 3]),
            2 => put(&p, &vec![9u8; th.file().len() + 500]),
            _ => {}
        }
        c.log(|| format!("saving {}; the file {}", th.describe(), ["does not exist", "exists and is shorter", "exists and is longer"][old]));
        save_once(c, th, &p, left, None)
    }
}
fn save_once(c: &mut Ctx, th: &Thing, p: &String, left: usize, uniform: Option<(usize, bool)>) -> Result<(), String> {
    let go = th.save(p)?;
    let (r, s) = under(c, th.file().len(), left, uniform, go);
    let what = || format!("saving {} under the answers {:?}", th.describe(), s.calls);
    need(s.opens >= 1 && (s.transfers >= 1 || s.hard), || "HARNESS:the system calls of a save were not intercepted".into())?;
    c.observe(mix(r.is_ok() as u64, s.transfers as u64));
    match r {
        Ok(()) => {
            c.count("successes", 1);
            let b = get(p);
            need(th.held_by(&b), || format!("{}: reported success, but the file of {} bytes does not hold the complete data", what(), b.len()))?;
            need(!s.hard, || format!("{}: reported success", what()))
        }
        Err(e) => {
            c.count("errors", 1);
            need(s.hard || s.zero || s.other, || format!("{}: failed ({})", what(), e))
        }
    }
}
fn loading(left: usize, large: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let ts = things(large);
        let th = c.pick(&ts);
        let p = path(c, "f");
        put(&p, &th.file());
        c.log(|| format!("loading {}", th.describe()));
        load_once(c, th, &p, left, None)
    }
}
fn load_once(c: &mut Ctx, th: &Thing, p: &String, left: usize, uniform: Option<(usize, bool)>) -> Result<(), String> {
    let outcome;
    let story;
    match th {
        Thing::T(d, v) => {
            let (r, s) = under(c, th.file().len(), left, uniform, || Tensor::from_file(p).map_err(|e| e.to_string()));
            let what = || format!("loading {} under the answers {:?}", th.describe(), s.calls);
            outcome = match r {
                Ok(t) => {
                    need(dim(&t.get_shape()) == *d && bits(&t) == *v, || format!("{}: reported success, but the tensor is not the one in the file", what()))?;
                    Ok(())
                }
                Err(e) => Err(e),
            };
            story = s;
        }
        Thing::N(specs) => {
            let training = c.choose(2) == 1;
            let mut n = Network::new(train(training));
            // into a network that already has a fitting layer, in the middle of its life
            let hosted = c.choose(2) == 1 && !specs.is_empty();
            let host = specs.first().map(|s| Spec::Soft { shape: s.in_dim() });
            if hosted {
                Lib::build(host.as_ref().unwrap(), "host")?.add_to(&mut n)?;
                n.infer(&lt(&dense(host.as_ref().unwrap().in_dim(), 3, -1, 2)))?;
            }
            let before = look(&n);
            let (r, s) = under(c, th.file().len(), left, uniform, || n.load_from_file(p).map_err(|e| e.to_string()));
            let what = || format!("loading {} under the answers {:?}", th.describe(), s.calls);
            let after = look(&n);
            outcome = r;
            match &outcome {
                Ok(()) => {
                    let mut want: Vec<Face> = if hosted { before.layers.clone() } else { vec![] };
                    want.extend(specs.iter().zip(names(specs.len())).map(|(s, x)| want_face(s, &x, training)));
                    need(after.layers == want, || format!("{}: reported success, but the network holds {:?}", what(), after.layers))?;
                }
                Err(_) => need(after == before, || format!("{}: failed, and changed the network from {:?} to {:?}", what(), before, after))?,
            }
            story = s;
        }
    }
    let what = || format!("loading {} under the answers {:?}", th.describe(), story.calls);
    static OPENS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if story.opens >= 1 {
        OPENS.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    // data read before may be remembered, as long as the answer is right
    need(OPENS.load(std::sync::atomic::Ordering::Relaxed), || "HARNESS:the system calls of a load were not intercepted".into())?;
    c.observe(mix(outcome.is_ok() as u64, story.transfers as u64));
    match outcome {
        Ok(()) => {
            c.count("successes", 1);
            need(!story.hard, || format!("{}: reported success", what()))
        }
        Err(e) => {
            c.count("errors", 1);
            need(story.hard || story.zero || story.other, || format!("{}: failed ({})", what(), e))
        }
    }
}
/// What a path holds.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Held {
    Nothing,
    Thing(usize),
    /// only the beginning of that thing
    Part(usize),
    /// left behind by a failed save
    Unknown,
}
/// One or two paths whose contents change between loads: a load shows what the path holds at that time.
pub fn over_time(kinds: &'static [bool], depth: usize, left: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let t = |d: Dim, salt: u32| Thing::T(d, (0..total(d) as u32).map(|i| i.wrapping_mul(2654435761) ^ 0x40490fdb ^ salt).collect());
        let fc = |salt: u64| Spec::Fc { w: dense([2, 3, 1], salt, -2, 2), b: dense([2, 1, 1], salt + 1, -2, 2) };
        let mut ts = vec![];
        if kinds.contains(&false) {
            ts.extend([t([2, 2, 1], 0), t([2, 2, 1], 7), t([4, 1, 1], 9), t([3, 2, 1], 11)]);
        }
        if kinds.contains(&true) {
            // the second differs in its parameters only, the third in its arrangement
            ts.extend([Thing::N(vec![fc(1)]), Thing::N(vec![fc(31)]), Thing::N(vec![fc(1), Spec::Soft { shape: [2, 1, 1] }]), Thing::N(vec![])]);
        }
        static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = path(c, "over-time");
        // no execution sees the names of another
        let ps = [format!("{}-{}-a", base, n), format!("{}-{}-b", base, n)];
        struct Gone<'a>(&'a [String; 2]);
        impl Drop for Gone<'_> {
            fn drop(&mut self) {
                for p in self.0 {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        let _gone = Gone(&ps);
        let mut held = [Held::Nothing; 2];
        let mut left = left;
        let m = ts.len();
        for step in 0..depth {
            // the second path comes into play once the first was used
            let which = if step == 0 { 0 } else { c.choose(2) };
            let p = &ps[which];
            // the last call is a load
            let op = if step + 1 == depth { 2 * m } else { c.choose(2 * m + 3) };
            if op < m {
                c.log(|| format!("{} is written to path {}", ts[op].describe(), which));
                put(p, &ts[op].file());
                held[which] = Held::Thing(op);
            } else if op < 2 * m {
                let th = &ts[op - m];
                c.log(|| format!("saving {} number {} to path {}", th.describe(), op - m, which));
                let before = c.deviations;
                save_once(c, th, p, left, None)?;
                left = left.saturating_sub(c.deviations - before);
                held[which] = match std::fs::read(p) {
                    Ok(b) if th.held_by(&b) => Held::Thing(op - m),
                    Ok(_) => Held::Unknown,
                    Err(_) => Held::Nothing,
                };
            } else if op == 2 * m {
                c.log(|| format!("loading path {}, which holds {:?}", which, held[which]));
                match held[which] {
                    Held::Thing(q) => {
                        let before = c.deviations;
                        load_once(c, &ts[q], p, left, None)?;
                        left = left.saturating_sub(c.deviations - before);
                    }
                    Held::Unknown => {}
                    h => {
                        c.step();
                        let tensor = Tensor::from_file(p).is_ok();
                        let network = Network::new(train(false)).load_from_file(p).is_ok();
                        let judged = match h {
                            Held::Part(q) => (matches!(ts[q], Thing::T(..)) && tensor) || (matches!(ts[q], Thing::N(..)) && network),
                            _ => tensor || network,
                        };
                        need(!judged, || format!("loading a path that holds {:?} reports success", h))?;
                    }
                }
            } else if op == 2 * m + 1 {
                c.log(|| format!("path {} is removed", which));
                let _ = std::fs::remove_file(p);
                held[which] = Held::Nothing;
            } else if let Held::Thing(q) = held[which] {
                c.log(|| format!("path {} is cut short", which));
                let f = ts[q].file();
                put(p, &f[..f.len() - 1]);
                held[which] = Held::Part(q);
            } else {
                return Ok(());
            }
            c.observe(mix(which as u64, match held[which] {
                Held::Nothing => 0,
                Held::Unknown => 1,
                Held::Thing(q) => 2 + 2 * q as u64,
                Held::Part(q) => 3 + 2 * q as u64,
            }));
        }
        Ok(())
    }
}
/// Every transfer moves at most k bytes, and possibly every other one is interrupted.
fn trickle(ks: Vec<usize>, left: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let ts = things(false);
        let th = c.pick(&ts);
        let k = *c.pick(&ks);
        let intr = c.choose(2) == 1;
        let save = c.choose(2) == 1;
        // many pieces: no further deviations
        let left = if th.file().len() / k > 200 { 0 } else { left };
        let p = path(c, "f");
        c.log(|| format!("{} {}, {} bytes at a time, interrupted: {}", if save { "saving" } else { "loading" }, th.describe(), k, intr));
        if save {
            let _ = std::fs::remove_file(&p);
            save_once(c, th, &p, left, Some((k, intr)))
        } else {
            put(&p, &th.file());
            load_once(c, th, &p, left, Some((k, intr)))
        }
    }
}
/// Loading from a pipe: the length is not known beforehand. The pipe holds everything, or a part.
fn pipes(c: &mut Ctx) -> Result<(), String> {
    use std::os::fd::AsRawFd;
    let mut ts = things(false);
    ts.retain(|t| t.file().len() < 60_000);
    let th = c.pick(&ts);
    let whole = th.file();
    let n = match c.choose(5) {
        0 => 0,
        1 => 7.min(whole.len() - 1),
        2 => whole.len() / 2,
        3 => whole.len() - 1,
        _ => whole.len(),
    };
    let dir = *c.pick(&["/proc/self/fd", "/dev/fd"]);
    let (read, mut write) = std::io::pipe().expect("harness: pipe");
    std::io::Write::write_all(&mut write, &whole[..n]).expect("harness: write");
    drop(write);
    let p = format!("{}/{}", dir, read.as_raw_fd());
    let what = || format!("loading {} from a pipe with {} of {} bytes", th.describe(), n, whole.len());
    c.log(&what);
    c.step();
    let r = match th {
        Thing::T(d, v) => Tensor::from_file(&p).map_err(|e| e.to_string()).and_then(|t| if dim(&t.get_shape()) == *d && bits(&t) == *v { Ok(()) } else { Err("wrong tensor".into()) }),
        Thing::N(specs) => {
            let mut m = Network::new(train(false));
            let before = look(&m);
            let r = m.load_from_file(&p).map_err(|e| e.to_string());
            let want: Vec<Face> = specs.iter().zip(names(specs.len())).map(|(s, x)| want_face(s, &x, false)).collect();
            let after = look(&m);
            match r {
                Ok(()) if after.layers == want => Ok(()),
                Ok(()) if n == whole.len() => Err("wrong network".into()),
                Ok(()) => Ok(()),
                Err(e) => {
                    need(after == before, || format!("{}: failed, and changed the network", what()))?;
                    Err(e)
                }
            }
        }
    };
    need(r.is_ok() == (n == whole.len()), || format!("{}: {:?}", what(), r))
}
/// Real paths that can't be opened, read or written.
fn paths(c: &mut Ctx) -> Result<(), String> {
    let ts = things(false);
    let th = c.pick(&ts);
    let dir = path(c, "dir");
    std::fs::create_dir_all(&dir).expect("harness: directory");
    let q = c.choose(8);
    let file = path(c, "plain");
    put(&file, b"x");
    let p = match q {
        0 => String::new(),
        1 => dir.clone(),
        2 => format!("{}/none/such", dir),
        3 => format!("{}/a\0b", dir),
        4 => format!("{}/{}", dir, "n".repeat(300)),
        5 => format!("{}/below", file),
        6 => format!("{}/absent", dir),
        _ => {
            let l = format!("{}/loop", dir);
            let _ = std::os::unix::fs::symlink(&l, &l);
            l
        }
    };
    let save = c.choose(2) == 1;
    c.log(|| format!("{} {} at {:?}", if save { "saving" } else { "loading" }, th.describe(), &p[p.len().saturating_sub(30)..]));
    c.step();
    let what = || format!("{} {} at {:?}", if save { "saving" } else { "loading" }, th.describe(), p);
    if save {
        let r = th.save(&p)?();
        // who puts a new file there need not mind the link
        let replaced = q == 7 && r.is_ok() && std::fs::symlink_metadata(&p).map(|m| m.is_file()).unwrap_or(false);
        let ok = q == 6 || replaced;
        need(r.is_ok() == ok, || format!("{}: {:?}", what(), r))?;
        if ok {
            need(th.held_by(&get(&p)), || format!("{}: the file does not hold the data", what()))?;
            std::fs::remove_file(&p).expect("harness: remove");
        }
        return Ok(());
    }
    match th {
        Thing::T(..) => need(Tensor::from_file(&p).is_err(), || format!("{}: reported success", what())),
        Thing::N(_) => {
            let mut n = Network::new(train(false));
            Lib::build(&Spec::Soft { shape: [2, 1, 1] }, "host")?.add_to(&mut n)?;
            n.infer(&lt(&RT::filled([2, 1, 1], 1.0)))?;
            let before = look(&n);
            need(n.load_from_file(&p).is_err(), || format!("{}: reported success", what()))?;
            need(look(&n) == before, || format!("{}: failed, and changed the network", what()))
        }
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (l, lb, lt_) = if t { (6, 4, 2) } else { (5, 3, 1) };
    let ks: Vec<usize> = if t { (1..=64).chain([100, 127, 128, 255, 256, 511, 512, 4095, 4096, 4097, 8191, 8192]).collect() } else { vec![1, 2, 3, 4, 7, 8, 31, 32, 33, 64, 4096] };
    (
        vec![
            Driver::new("saving", &format!("6 tensors and networks x file absent, shorter or longer x every pattern of up to {l} deviations (EINTR, short by 5 sizes, EIO, EAGAIN, ENOSPC, EDQUOT, EFBIG, 0, failing opens and syncs)"), saving(l, false)),
            Driver::new("loading", &format!("6 tensors and networks, into empty and non-empty networks, x every pattern of up to {l} deviations"), loading(l, false)),
            Driver::new("saving large data", &format!("3 large tensors and networks x every pattern of up to {lb} deviations"), saving(lb, true)),
            Driver::new("loading large data", &format!("3 large tensors and networks x every pattern of up to {lb} deviations"), loading(lb, true)),
            Driver::new("transfers in small pieces", &format!("{} sizes of piece x every other call interrupted or not, with up to {lt_} further deviation(s) where there are at most 200 pieces", ks.len()), trickle(ks, lt_)),
            Driver::new("paths over time", &format!("2 paths x every sequence of {} writes of 8 tensors and networks (some of equal length) by others or by the library, loads, removals and cuts, with up to 1 deviation", if t { 4 } else { 3 }), over_time(&[false, true], if t { 4 } else { 3 }, 1)).waiting(),
            Driver::new("paths over time, longer", &format!("the same with {} calls and without deviations", if t { 5 } else { 4 }), over_time(&[false, true], if t { 5 } else { 4 }, 0)).waiting(),
            Driver::new("pipes", "5 tensors and networks read from a pipe that holds all, a part or nothing of the file, by 2 paths", pipes),
            Driver::new("unusable paths", "empty, directory, missing directory, NUL, too long, file as directory, absent, symbolic link loop", paths),
        ],
        vec!["failures of close and of size hints (stat, seek) are not injected; crashes and allocation failures are outside the property", "a file cut short by the answer 0 before its end counts as truncated"],
    )
}
