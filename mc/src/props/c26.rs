//! C26: the program dies while it saves - between two system calls, or inside a write.
use super::c18::Thing;
use super::nets::*;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use crate::sys::*;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

type Disk = BTreeMap<PathBuf, Vec<u8>>;
fn disk(dir: &Path) -> Disk {
    let mut m = Disk::new();
    for e in std::fs::read_dir(dir).expect("HARNESS: scratch directory").flatten() {
        if let Ok(b) = std::fs::read(e.path()) {
            m.insert(e.path(), b);
        }
    }
    m
}
fn restore(dir: &Path, d: &Disk) {
    for e in std::fs::read_dir(dir).expect("HARNESS: scratch directory").flatten() {
        if !d.contains_key(&e.path()) {
            let _ = std::fs::remove_file(e.path());
        }
    }
    for (p, b) in d {
        put(&p.to_str().unwrap().to_string(), b);
    }
}
/// Where a write may be torn: everywhere if it is small.
fn torn(n: usize, fine: bool) -> Vec<usize> {
    if !fine {
        let mut v: Vec<usize> = [0, 8, n / 2, n.saturating_sub(1), n].into_iter().filter(|k| *k <= n).collect();
        v.sort();
        v.dedup();
        return v;
    }
    if n <= 600 {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = (0..=n).filter(|k| *k < 80 || n - k < 40 || k % 4096 == 0 || k % 512 == 0 && n < 65536).collect();
    v.extend([4095, 4097, n / 2, n / 2 + 1].into_iter().filter(|k| *k <= n));
    v.sort();
    v.dedup();
    v
}
fn round(p: usize) -> bool {
    p.is_power_of_two() || p % 3 == 0 && (p / 3).is_power_of_two()
}
#[derive(Default)]
struct Death {
    disk: Option<Disk>,
    armed: bool,
    calls: usize,
    story: Vec<String>,
}
/// Runs `f`; if `may_die`, the engine chooses the system call, and the byte of a write, at which it dies.
fn run<R>(c: &mut Ctx, dir: &Path, may_die: bool, fine: bool, f: impl FnOnce() -> R) -> (R, Death) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            disarm();
        }
    }
    let d = Rc::new(RefCell::new(Death::default()));
    let guard = Guard;
    {
        let d = d.clone();
        let dir = dir.to_path_buf();
        let ctx = c as *mut Ctx;
        arm(Box::new(move |call| {
            // the engine's context outlives the library call during which the plan is armed
            let c = unsafe { &mut *ctx };
            let mut s = d.borrow_mut();
            s.calls += 1;
            let nr = s.calls;
            if s.disk.is_some() {
                return Answer::Fail(EIO);
            }
            if s.armed {
                s.disk = Some(disk(&dir));
                return Answer::Fail(EIO);
            }
            if !may_die {
                return Answer::Real;
            }
            match call {
                // code that saves in many small writes dies in fewer ways in the later ones
                _ if nr > if fine { 1000 } else { 4 } && !round(nr) => Answer::Real,
                Call::Write(n) => {
                    let t = if nr > if fine { 40 } else { 4 } { vec![0] } else { torn(n, fine && nr <= 24) };
                    let q = c.choose(t.len() + 1);
                    if q == 0 {
                        return Answer::Real;
                    }
                    let k = t[q - 1];
                    c.deviations += 1;
                    s.story.push(format!("dies inside write {} of {} bytes, after {}", nr, n, k));
                    if k == 0 {
                        s.disk = Some(disk(&dir));
                        return Answer::Fail(EIO);
                    }
                    s.armed = true;
                    if k == n {
                        Answer::Real
                    } else {
                        Answer::Short(k)
                    }
                }
                other => {
                    if c.choose(2) == 0 {
                        return Answer::Real;
                    }
                    c.deviations += 1;
                    s.story.push(format!("dies before system call {} ({:?})", nr, other));
                    s.disk = Some(disk(&dir));
                    Answer::Fail(EIO)
                }
            }
        }));
    }
    let r = f();
    drop(guard);
    let mut s = std::mem::take(&mut *d.borrow_mut());
    if s.armed && s.disk.is_none() {
        // it died after its last system call
        s.disk = Some(disk(dir));
    }
    if let Some(d) = &s.disk {
        restore(dir, d);
    }
    c.step();
    c.log(|| s.story.first().cloned().unwrap_or("completes".into()));
    c.count("crashes", s.disk.is_some() as u64);
    c.count("system calls answered", s.calls as u64);
    (r, s)
}
/// The file on disk: absent or refused, or exactly one of `allowed`.
fn judge(c: &mut Ctx, p: &String, now: &Thing, untouched: Option<&Vec<u8>>, what: &dyn Fn() -> String) -> Result<(), String> {
    let bytes = std::fs::read(p).ok();
    let whole = bytes.as_ref().is_some_and(|b| now.held_by(b) || Some(b) == untouched);
    let loaded = match now {
        Thing::T(..) => match Tensor::from_file(p) {
            Ok(t) => Some(codec::tensor_bits(dim(&t.get_shape()), &bits(&t))),
            Err(_) => None,
        },
        Thing::N(_) => {
            let training = bytes.as_ref().map_or(0, |b| b.len()) % 2 == 1;
            let mut n = Network::new(train(training));
            let before = look(&n);
            match n.load_from_file(p) {
                Ok(()) => Some(bytes.clone().unwrap_or_default()),
                Err(_) => {
                    need(look(&n) == before, || format!("{}: loading what is left is refused, and changes the network", what()))?;
                    None
                }
            }
        }
    };
    c.step();
    c.count(if loaded.is_some() { "loaded afterwards" } else { "refused afterwards" }, 1);
    c.observe(mix(bytes.as_ref().map_or(7, |b| b.len()) as u64, loaded.is_some() as u64));
    need(std::fs::read(p).ok() == bytes, || format!("{}: loading changed the file", what()))?;
    need(loaded.is_none() || whole, || {
        format!("{}: the file of {} bytes left behind is accepted, but holds neither the old nor the new data", what(), bytes.as_ref().map_or(0, |b| b.len()))
    })?;
    if let (Some(l), Some(b)) = (&loaded, &bytes) {
        need(matches!(now, Thing::N(_)) || l == b, || format!("{}: what is loaded is not what the file holds", what()))?;
    }
    Ok(())
}
fn t(d: Dim, seed: u32) -> Thing {
    Thing::T(d, (0..total(d) as u32).map(|i| (i + seed).wrapping_mul(2654435761) ^ 0x40490fdb).collect())
}
/// Things to save; those of one group have files of the same length, or begin alike.
fn groups() -> Vec<Vec<Thing>> {
    let fc = |salt| Spec::Fc { w: dense([2, 2, 1], salt, -2, 3), b: dense([2, 1, 1], salt + 1, -2, 3) };
    let conv = |salt| Spec::Conv { ks: vec![dense([1, 1, 1], salt, 1, 4)], bs: vec![1.0], input: [2, 1, 1], stride: 1 };
    let soft = || Spec::Soft { shape: [2, 1, 1] };
    vec![
        vec![t([2, 3, 1], 1), t([2, 3, 1], 50), t([3, 2, 1], 7), t([2, 4, 1], 1), t([1, 1, 1], 1)],
        vec![
            Thing::N(vec![fc(1)]),
            Thing::N(vec![fc(9)]),
            Thing::N(vec![fc(1), soft()]),
            Thing::N(vec![fc(1), fc(9)]),
            Thing::N(vec![conv(3)]),
            Thing::N(vec![]),
        ],
    ]
}
/// One interrupted save over whatever was there, and the save after it.
fn one_crash(big: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let dir = PathBuf::from(path(c, "x")).parent().unwrap().to_path_buf();
        let p = path(c, "f");
        let (gs, large);
        let (new, olds): (&Thing, Vec<&Thing>) = if big {
            large = vec![t([1024, 20, 1], 1), t([1024, 20, 1], 5), t([30000, 1, 1], 1)];
            (c.pick(&large), large.iter().collect())
        } else {
            gs = groups();
            let g = c.pick(&gs);
            (c.pick(g), g.iter().collect())
        };
        let q = c.choose(olds.len() + 4);
        let old: Option<Vec<u8>> = match q {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![0; new.file().len()]),
            3 => Some(vec![0xff; new.file().len() + 100]),
            q => Some(olds[q - 4].file()),
        };
        restore(&dir, &old.iter().map(|b| (PathBuf::from(&p), b.clone())).collect());
        c.log(|| format!("saving {} over {}", new.describe(), old.as_ref().map_or("nothing".into(), |b| format!("{} bytes (previous contents {})", b.len(), q))));
        let go = new.save(&p)?;
        let (r, d) = run(c, &dir, true, true, go);
        let what = || format!("saving {} over previous contents {} ({:?} bytes): {}", new.describe(), q, old.as_ref().map(|b| b.len()), d.story.first().cloned().unwrap_or("completes".into()));
        if d.disk.is_none() {
            r.map_err(|e| format!("{}: failed: {}", what(), e))?;
            need(new.held_by(&get(&p)), || format!("{}: the file does not hold the data", what()))?;
        }
        judge(c, &p, new, old.as_ref(), &what)?;
        // the next one
        let next = if big { new } else { *c.pick(&olds) };
        let go = next.save(&p)?;
        let (r, _) = run(c, &dir, false, true, go);
        r.map_err(|e| format!("{}, and then saving {} fails: {}", what(), next.describe(), e))?;
        need(next.held_by(&get(&p)), || format!("{}, and then saving {}: the file does not hold the data", what(), next.describe()))?;
        judge(c, &p, next, None, &|| format!("{}, and then saving {}", what(), next.describe()))
    }
}
/// Several saves in a row, each completing or interrupted.
fn crash_histories(depth: usize, fine: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let dir = PathBuf::from(path(c, "x")).parent().unwrap().to_path_buf();
        let p = path(c, "f");
        restore(&dir, &Disk::new());
        let g = groups().swap_remove(c.choose(2));
        let g: Vec<&Thing> = g.iter().take(3).collect();
        for _ in 0..depth {
            let th = *c.pick(&g);
            let old = std::fs::read(&p).ok();
            c.log(|| format!("saving {}", th.describe()));
            let go = th.save(&p)?;
            let (r, d) = run(c, &dir, true, fine, go);
            let what = || format!("saving {} over {:?} bytes: {}", th.describe(), old.as_ref().map(|b| b.len()), d.story.first().cloned().unwrap_or("completes".into()));
            if d.disk.is_none() {
                r.map_err(|e| format!("{}: failed: {}", what(), e))?;
                need(th.held_by(&get(&p)), || format!("{}: the file does not hold the data", what()))?;
            }
            judge(c, &p, th, old.as_ref(), &what)?;
        }
        Ok(())
    }
}
/// Loading - complete or interrupted - leaves the file as it is.
fn loads() -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let dir = PathBuf::from(path(c, "x")).parent().unwrap().to_path_buf();
        let p = path(c, "f");
        let g = groups().swap_remove(c.choose(2));
        let th = c.pick(&g);
        let mut b = th.file();
        match c.choose(4) {
            1 => b.truncate(b.len() / 2),
            2 => b.push(0),
            3 => b[0] ^= 0x40,
            _ => {}
        }
        let as_tensor = c.choose(2) == 1;
        restore(&dir, &[(PathBuf::from(&p), b.clone())].into());
        c.log(|| format!("loading {} bytes as a {}", b.len(), if as_tensor { "tensor" } else { "network" }));
        let before = disk(&dir);
        let (q, d) = (p.clone(), dir.clone());
        let (_, s) = run(c, &dir, true, true, || {
            if as_tensor {
                Tensor::from_file(&q).map(|_| ()).map_err(|e| e.to_string())
            } else {
                Network::new(train(true)).load_from_file(&q).map_err(|e| e.to_string())
            }
        });
        c.observe(mix(s.calls as u64, b.len() as u64));
        need(disk(&d) == before, || format!("loading {} bytes as a {}: the files in the directory changed", b.len(), if as_tensor { "tensor" } else { "network" }))
    }
}
pub fn drivers(th: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let depth = if th { 5 } else { 4 };
    (
        vec![
            Driver::new("one crash", "11 tensors and networks, each over 4 kinds of other contents and every one of its group; dying before every system call and after every byte of every write; then another save", one_crash(false)).waiting(),
            Driver::new("one crash, large", "3 large tensors over 7 previous contents; dying before every system call and after some 250 numbers of bytes of every write", one_crash(true)).waiting(),
            Driver::new("two crashes", "every sequence of 2 saves of 3 tensors or networks, each dying anywhere or not at all", crash_histories(2, true)).waiting(),
            Driver::new("several crashes", &format!("every sequence of {depth} saves, each dying before any system call, or after 0, 8, half, all but one or all bytes of a write"), crash_histories(depth, false)).waiting(),
            Driver::new("loads", "11 files x 4 forms of damage x as tensor or network, dying before every system call", loads()),
        ],
        vec!["the process dies; what it had written stays (losing the machine's cache is not modelled)", "the crash is modelled by restoring the directory as it was at that moment"],
    )
}
