//! C21: two objects side by side. Every interleaving of two call scripts is run in a process of its own,
//! on one thread or with each object on its own thread, and each object must answer as it does alone.
use super::nets::*;
use super::steps::{self, lib};
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::network::Network;
use rusty_network::tensor::operations::convolution as cv;
use rusty_network::tensor::Tensor;
use std::collections::HashMap;
use std::os::raw::{c_int, c_void};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Mutex, OnceLock};

// ---- the objects ----
/// An object under test: answers call number `op` with everything the caller can see of it.
trait Object {
    fn call(&mut self, op: usize) -> String;
}
const KINDS: usize = 6;
const KIND_NAMES: [&str; KINDS] = ["convolutional layer", "fully connected layer", "max pool layer", "softmax layer", "tensors", "network"];
/// The size of each menu of calls.
const CALLS: [usize; KINDS] = [9, 9, 9, 9, 16, 9];
fn show(t: &Tensor) -> String {
    format!("{:?}{:x?}", dim(&t.get_shape()), bits(t))
}
fn spec(kind: usize, which: usize) -> Spec {
    // same shapes, different parameters
    let w = which as u64 * 50;
    match kind {
        0 => Spec::Conv { ks: vec![dense([2, 2, 2], 3 + w, -2, 3), dense([2, 2, 2], 9 + w, -2, 3)], bs: vec![1.0 + which as f64, -1.0], input: [4, 2, 2], stride: 1 },
        1 => Spec::Fc { w: dense([2, 3, 1], 5 + w, -2, 3), b: dense([2, 1, 1], 6 + w, -1, 3) },
        2 => Spec::Pool { input: [4, 2, 2], win: [2, 2], stride: 1 + which % 2 },
        _ => Spec::Soft { shape: [2, 1, 2] },
    }
}
struct LayerObject {
    kind: usize,
    which: usize,
    s: Spec,
    l: Lib,
    x: RT,
    y: Tensor,
    stored: Option<(u32, codec::Fields)>,
}
impl LayerObject {
    fn new(kind: usize, which: usize) -> LayerObject {
        let s = spec(kind, which);
        let mut l = Lib::build(&s, &name(which)).expect("harness: layer");
        l.l().switch_to_training();
        LayerObject { kind, which, x: RT::zeros(s.in_dim()), y: Tensor::new(shape(s.out_dim())), s, l, stored: None }
    }
    fn forward(&mut self, v: u64) -> String {
        self.x = dense(self.s.in_dim(), 40 + v + 7 * self.which as u64, -3, 4);
        self.y = Tensor::new(shape(self.s.out_dim()));
        let x = lt(&self.x);
        let r = lib(|| self.l.l().forward(&x, &mut self.y));
        format!("{:?} {}", r, show(&self.y))
    }
    fn backward(&mut self, v: u64) -> String {
        let mut o = Tensor::new(shape(self.s.in_dim()));
        let g = dense(self.s.out_dim(), 90 + v + 5 * self.which as u64, -2, 3);
        let (x, g) = (lt(&self.x), lt(&g));
        let r = lib(|| self.l.l().backward(&x, &self.y, &g, &mut o));
        format!("{:?} {}", r, show(&o))
    }
}
impl Object for LayerObject {
    fn call(&mut self, op: usize) -> String {
        let r = match op {
            0 => self.forward(0),
            1 => self.backward(0),
            2 => self.forward(1),
            3 => self.backward(1),
            4 => {
                lib(|| self.l.l().clear_gradients());
                String::new()
            }
            5 => {
                // there and back: what the last training pass left is gone either way, so go forward again
                lib(|| self.l.l().switch_to_inference());
                let a = self.forward(2);
                self.l.l().switch_to_training();
                a + &self.forward(2)
            }
            6 => {
                let stored = lib(|| self.l.lr().get_serialized());
                self.stored = codec::of_serialized(&stored);
                format!("{:x?}", self.stored)
            }
            7 => match &self.stored {
                // into a fresh layer of the kind
                Some((k, f)) => {
                    let mut o = Lib::empty(self.kind);
                    let f = codec::to_serialized(*k, f);
                    let r = lib(|| o.l().load_from_serialized(&f));
                    let mut y = Tensor::new(shape(self.s.out_dim()));
                    let q = o.l().forward(&lt(&dense(self.s.in_dim(), 77, -3, 4)), &mut y);
                    format!("{:?} {:?} {}", r, q, show(&y))
                }
                None => "nothing stored".into(),
            },
            _ => {
                // other parameters of the same shapes
                self.s = spec(self.kind, self.which + 2);
                let r = lib(|| self.l.fill(&self.s, "again"));
                format!("{:?}{}", r, self.forward(3))
            }
        };
        #[cfg(rn_mc)]
        let r = format!("{} {:?}", r, self.l.params());
        format!("{} / {:?}", r, face_of(self.l.lr()))
    }
}
struct TensorObject {
    which: usize,
    t: Tensor,
    u: Tensor,
    path: String,
}
impl TensorObject {
    fn new(which: usize, dir: &str) -> TensorObject {
        let v = |s: u64| lt(&dense([4, 4, 2], s + 31 * which as u64, -3, 4));
        TensorObject { which, t: v(1), u: v(2), path: format!("{}/tensor{}", dir, which) }
    }
    fn op(&mut self, op: usize) -> String {
        let sub = |s: u64, d: Dim| lt(&dense(d, s + 13 * self.which as u64, -2, 3));
        let (t, u) = (&mut self.t, &mut self.u);
        let s = t.get_shape();
        match op {
            0 => {
                let v = 7.0 + self.which as f32;
                lib(|| t.set_item(&ix(1, 2, 1), v));
                String::new()
            }
            1 => {
                lib(|| Tensor::add_to_self(t, u));
                String::new()
            }
            2 => {
                let mut r = Tensor::new(s);
                lib(|| Tensor::matrix_multiply(t, u, &mut r));
                lib(|| Tensor::multiply_elementwise(&r, t, u));
                show(&r)
            }
            3 => {
                let mut r = Tensor::new(s);
                let e = lib(|| Tensor::matrix_multiply_transpose_first(t, u, &mut r));
                let mut q = Tensor::new(s);
                let f = lib(|| Tensor::matrix_multiply_transpose_second(t, u, &mut q));
                format!("{:?} {} {:?} {}", e, show(&r), f, show(&q))
            }
            4 => {
                let mut r = Tensor::new(s);
                let e = lib(|| Tensor::transpose_ij(t, &mut r));
                lib(|| Tensor::scale(&r, 0.5, u));
                format!("{:?}", e)
            }
            5 => {
                let mut r = Tensor::new(shape([3, 3, 2]));
                let e = lib(|| cv::convolution_bias(t, &sub(5, [2, 2, 2]), &sub(6, [1, 1, 1]), 1, &mut r, 1));
                let f = lib(|| cv::convolution_bias_relu(t, &sub(7, [2, 2, 2]), &sub(8, [1, 1, 1]), 1, &mut r, 0));
                format!("{:?} {:?} {}", e, f, show(&r))
            }
            6 => {
                let mut r = Tensor::new(shape([2, 2, 2]));
                let e = lib(|| cv::convolution_backprop_kernel(&sub(9, [3, 3, 2]), t, 1, 1, &mut r));
                format!("{:?} {}", e, show(&r))
            }
            7 => {
                let e = lib(|| cv::convolution_backprop_outgoing_gradient(&sub(9, [3, 3, 2]), &vec![sub(3, [2, 2, 2]), sub(4, [2, 2, 2])], 1, u));
                format!("{:?}", e)
            }
            8 => {
                let mut r = Tensor::new(shape([2, 2, 2]));
                let mut o = vec![0u32; 8];
                let _ = lib(|| Tensor::max_pool_track_origin(t, &shape([2, 2, 1]), 2, &mut r, &mut o));
                let e = lib(|| Tensor::add_from_index_list(&r, u, &o));
                format!("{} {:?} {:?}", show(&r), o, e)
            }
            9 => {
                let mut r = Tensor::new(shape([2, 2, 2]));
                lib(|| Tensor::max_pool(t, &shape([2, 2, 1]), 2, &mut r));
                show(&r)
            }
            10 => {
                let mut r = Tensor::new(s);
                lib(|| Tensor::softmax(t, &mut r));
                show(&r)
            }
            11 => {
                let mut m = Tensor::new(s);
                let _ = lib(|| Tensor::relu_self_and_store_mask(t, &mut m));
                show(&m)
            }
            12 => {
                lib(|| Tensor::scale_self(t, -1.5));
                format!("{:x}", lib(|| t.get_norm()).to_bits())
            }
            13 => format!("{:?}", lib(|| t.save_to_file(&self.path)).map_err(|e| e.to_string())),
            14 => match lib(|| Tensor::from_file(&self.path)) {
                Ok(r) => show(&r),
                Err(_) => "no file".into(),
            },
            _ => {
                let mut c = lib(|| t.clone());
                lib(|| Tensor::multiply_elementwise_self(&mut c, u));
                lib(|| Tensor::scale_self(&mut c, 0.25));
                let r = format!("{} {}", show(&c), lib(|| c == *t));
                std::mem::swap(t, u);
                r
            }
        }
    }
}
impl Object for TensorObject {
    fn call(&mut self, op: usize) -> String {
        let r = self.op(op);
        format!("{} / {} {} {:?}", r, show(&self.t), show(&self.u), self.t.total_items())
    }
}
struct NetObject {
    which: usize,
    n: Network,
    path: String,
}
fn net_specs(which: usize) -> Vec<Spec> {
    let w = which as u64 * 50;
    vec![
        Spec::Conv { ks: vec![dense([2, 2, 1], 3 + w, -2, 3), dense([2, 2, 1], 9 + w, -2, 3)], bs: vec![1.0, -1.0 + which as f64], input: [4, 2, 1], stride: 1 },
        Spec::Pool { input: [3, 1, 2], win: [2, 1], stride: 1 },
        Spec::Fc { w: dense([3, 2, 2], 5 + w, -2, 3), b: dense([3, 1, 2], 6 + w, -1, 3) },
        Spec::Soft { shape: [3, 1, 2] },
    ]
}
impl NetObject {
    fn new(which: usize, dir: &str) -> NetObject {
        let n = build(&net_specs(which), &names(4), true).expect("harness: network");
        NetObject { which, n, path: format!("{}/network{}", dir, which) }
    }
    fn infer(&mut self, v: u64) -> String {
        let x = lt(&dense([4, 2, 1], 70 + v + self.which as u64, -2, 3));
        format!("{:?}", lib(|| self.n.infer(&x)))
    }
    fn backward(&mut self, v: u64) -> String {
        let g = lt(&dense([3, 1, 2], 60 + v + self.which as u64, -2, 3));
        format!("{:?}", lib(|| self.n.backward(&g)))
    }
}
impl Object for NetObject {
    fn call(&mut self, op: usize) -> String {
        let r = match op {
            0 => self.infer(0),
            1 => self.backward(0),
            2 => self.infer(1),
            3 => self.backward(1),
            4 => {
                lib(|| self.n.switch_to_inference());
                self.infer(2)
            }
            5 => {
                lib(|| self.n.switch_to_training());
                self.infer(3) + &self.backward(3)
            }
            6 => format!("{:?}", lib(|| self.n.save_to_file(&self.path)).map_err(|e| e.to_string())),
            7 => {
                // a fresh network from the own file takes the place of this one
                let mut n = Network::new(self.n.get_run_state());
                match lib(|| n.load_from_file(&self.path)) {
                    Ok(()) => {
                        self.n = n;
                        self.infer(1)
                    }
                    Err(_) => "no file".into(),
                }
            }
            _ => {
                let d = dim(&self.n.get_output_shape());
                let l = Lib::build(&Spec::Soft { shape: d }, "more").expect("harness: layer");
                let r = lib(|| l.add_to(&mut self.n));
                format!("{:?}", r)
            }
        };
        format!("{} / {:x?}", r, look(&self.n))
    }
}
fn object(kind: usize, which: usize, dir: &str) -> Box<dyn Object> {
    match kind {
        4 => Box::new(TensorObject::new(which, dir)),
        5 => Box::new(NetObject::new(which, dir)),
        _ => Box::new(LayerObject::new(kind, which)),
    }
}

// ---- a process per execution ----
extern "C" {
    fn fork() -> c_int;
    fn pipe(p: *mut c_int) -> c_int;
    fn close(p: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}
fn send(fd: c_int, b: &[u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { write(fd, b[at..].as_ptr() as *const c_void, b.len() - at) };
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}
fn receive(fd: c_int, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let k = unsafe { read(fd, b[at..].as_mut_ptr() as *mut c_void, n - at) };
        if k <= 0 {
            return None;
        }
        at += k as usize;
    }
    Some(b)
}
fn send_frame(fd: c_int, b: &[u8]) -> bool {
    send(fd, &(b.len() as u64).to_le_bytes()) && send(fd, b)
}
fn receive_frame(fd: c_int) -> Option<Vec<u8>> {
    let n = u64::from_le_bytes(receive(fd, 8)?.try_into().unwrap());
    receive(fd, n as usize)
}
fn pack(r: &Result<Vec<String>, String>) -> Vec<u8> {
    let mut o = vec![];
    let (tag, list) = match r {
        Ok(v) => (0u64, v.clone()),
        Err(m) => (1, vec![m.clone()]),
    };
    codec::u64b(&mut o, tag);
    for s in list {
        o.extend(codec::string(&s));
    }
    o
}
fn unpack(b: &[u8]) -> Option<Result<Vec<String>, String>> {
    let mut r = codec::Rd { b, p: 0 };
    let tag = r.u64()?;
    let mut v = vec![];
    while r.p < b.len() {
        let l = r.u64()? as usize;
        v.push(String::from_utf8_lossy(r.take(l)?).into_owned());
    }
    Some(if tag == 0 { Ok(v) } else { Err(v.pop()?) })
}
/// Forks a child that answers with one frame.
fn child(to: c_int, f: impl FnOnce() -> Vec<String>) -> c_int {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            let r = guarded(f);
            _exit(!send_frame(to, &pack(&r)) as c_int);
        }
        pid
    }
}
/// Runs f in a child process; a panic there comes back as an error.
fn apart(f: impl FnOnce() -> Vec<String>) -> Result<Vec<String>, String> {
    unsafe {
        let mut p = [0 as c_int; 2];
        assert!(pipe(p.as_mut_ptr()) == 0, "harness: pipe");
        let pid = child(p[1], f);
        close(p[1]);
        let got = receive_frame(p[0]);
        close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        got.and_then(|b| unpack(&b)).unwrap_or_else(|| Err(format!("the process ended with status {:#x}", st)))
    }
}
/// A request: what to run in a fresh process.
#[derive(Clone)]
struct Job {
    kinds: [usize; 2],
    scripts: [Vec<usize>; 2],
    order: Vec<usize>,
    threads: bool,
    /// stop inside the calls: the number of calls and whether the objects were used before
    steps: Option<(usize, bool)>,
    dir: String,
}
impl Job {
    fn pack(&self) -> Vec<u8> {
        let mut o = vec![];
        let mut list = |v: &[usize]| {
            codec::u64b(&mut o, v.len() as u64);
            v.iter().for_each(|x| codec::u64b(&mut o, *x as u64));
        };
        list(&self.kinds);
        list(&self.scripts[0]);
        list(&self.scripts[1]);
        list(&self.order);
        list(&[self.threads as usize]);
        list(&self.steps.map(|(m, w)| vec![m, w as usize]).unwrap_or_default());
        o.extend(codec::string(&self.dir));
        o
    }
    fn unpack(b: &[u8]) -> Job {
        let mut r = codec::Rd { b, p: 0 };
        let mut list = || -> Vec<usize> {
            let n = r.u64().unwrap();
            (0..n).map(|_| r.u64().unwrap() as usize).collect()
        };
        let (k, a, b2, o, t, st) = (list(), list(), list(), list(), list(), list());
        let n = r.u64().unwrap() as usize;
        Job { kinds: [k[0], k[1]], scripts: [a, b2], order: o, threads: t[0] == 1, steps: st.first().map(|m| (*m, st[1] == 1)), dir: String::from_utf8(r.take(n).unwrap().to_vec()).unwrap() }
    }
    fn run(&self) -> Vec<String> {
        if let Some((most, used)) = self.steps {
            return stopped(self.kinds, most, used, &self.dir);
        }
        together(self.kinds, &self.scripts, &self.order, self.threads, &self.dir)
    }
}
/// Each thread of the explorer has a small helper process that never runs library code itself and
/// forks a fresh process for every request.
struct Helper {
    to: c_int,
    from: c_int,
}
thread_local! {
    static HELPER: Helper = Helper::start();
}
impl Helper {
    fn start() -> Helper {
        unsafe {
            let (mut p, mut q) = ([0 as c_int; 2], [0 as c_int; 2]);
            assert!(pipe(p.as_mut_ptr()) == 0 && pipe(q.as_mut_ptr()) == 0, "harness: pipe");
            let pid = fork();
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                // ends with the thread that started it
                prctl(1, 9, 0, 0, 0);
                while let Some(b) = receive_frame(p[0]) {
                    let j = Job::unpack(&b);
                    let c = child(q[1], || j.run());
                    let mut st = 0;
                    waitpid(c, &mut st, 0);
                    if st != 0 {
                        send_frame(q[1], &pack(&Err(format!("the process ended with status {:#x}", st))));
                    }
                }
                _exit(0);
            }
            close(p[0]);
            close(q[1]);
            Helper { to: p[1], from: q[0] }
        }
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        unsafe {
            close(self.to);
            close(self.from);
        }
    }
}
fn fresh(j: &Job) -> Result<Vec<String>, String> {
    HELPER.with(|h| {
        assert!(send_frame(h.to, &j.pack()), "harness: helper");
        unpack(&receive_frame(h.from).expect("harness: helper")).expect("harness: helper")
    })
}
/// What an object answers when nothing else exists in its process.
fn alone(kind: usize, which: usize, script: &[usize], dir: &str) -> Result<Vec<String>, String> {
    type Key = (usize, usize, Vec<usize>);
    static KNOWN: OnceLock<Mutex<HashMap<Key, Result<Vec<String>, String>>>> = OnceLock::new();
    let known = KNOWN.get_or_init(Default::default);
    let key = (kind, which, script.to_vec());
    if let Some(r) = known.lock().unwrap().get(&key) {
        return r.clone();
    }
    let mut scripts = [vec![], vec![]];
    scripts[which] = script.to_vec();
    let mut kinds = [0; 2];
    kinds[which] = kind;
    let r = fresh(&Job { kinds, scripts, order: vec![which; script.len() + 1], threads: false, steps: None, dir: dir.into() });
    known.lock().unwrap().insert(key, r.clone());
    r
}
/// One interleaving; `order` says which of the two objects makes its next call (the first is its creation).
fn together(kinds: [usize; 2], scripts: &[Vec<usize>; 2], order: &[usize], threads: bool, dir: &str) -> Vec<String> {
    let step = |o: &mut Option<Box<dyn Object>>, which: usize, at: usize| -> Option<String> {
        match o {
            None => {
                *o = Some(object(kinds[which], which, dir));
                None
            }
            Some(o) => Some(o.call(scripts[which][at - 1])),
        }
    };
    let mut out = vec![];
    if !threads {
        let mut os: [Option<Box<dyn Object>>; 2] = [None, None];
        let mut at = [0; 2];
        for w in order {
            out.extend(step(&mut os[*w], *w, at[*w]));
            at[*w] += 1;
        }
        return out;
    }
    std::thread::scope(|s| {
        let mut go: Vec<Sender<()>> = vec![];
        let mut back: Vec<Receiver<Option<String>>> = vec![];
        for w in 0..2 {
            let (a, b) = channel::<()>();
            let (x, y) = channel::<Option<String>>();
            go.push(a);
            back.push(y);
            s.spawn(move || {
                let mut o = None;
                let mut at = 0;
                while b.recv().is_ok() {
                    let r = guarded(|| step(&mut o, w, at)).unwrap_or_else(|m| Some(m));
                    at += 1;
                    if x.send(r).is_err() {
                        break;
                    }
                }
            });
        }
        for w in order {
            go[*w].send(()).expect("harness: hand-off");
            out.extend(back[*w].recv().expect("harness: hand-off"));
        }
        drop(go);
    });
    out
}
fn told(m: String) -> String {
    if m.contains("harness") {
        format!("HARNESS:{}", m)
    } else {
        m
    }
}
fn title(kinds: [usize; 2], scripts: &[Vec<usize>; 2], order: &[usize], threads: bool) -> String {
    format!("A: {} {:?}, B: {} {:?}, order {:?}, {} thread(s)", KIND_NAMES[kinds[0]], scripts[0], KIND_NAMES[kinds[1]], scripts[1], order, 1 + threads as usize)
}
/// Compares the answers of one interleaving with those each object gives alone.
fn compare(kinds: [usize; 2], scripts: &[Vec<usize>; 2], order: &[usize], threads: bool, got: &[String], want: [&[String]; 2]) -> Result<(), String> {
    let mut at = [0; 2];
    let mut it = got.iter();
    for w in order {
        at[*w] += 1;
        if at[*w] == 1 {
            continue;
        }
        let q = at[*w] - 2;
        let g = it.next().ok_or("HARNESS:an answer is missing")?;
        need(*g == want[*w][q], || format!("{}: call {} of {} answers {}, alone it answers {}", title(kinds, scripts, order, threads), q, ["A", "B"][*w], g, want[*w][q]))?;
    }
    Ok(())
}
fn directory(c: &Ctx) -> String {
    c.scratch.as_ref().expect("harness: scratch").to_str().unwrap().to_string()
}
/// One interleaving, chosen call by call, in a process of its own.
fn run(c: &mut Ctx, kinds: [usize; 2], scripts: &[Vec<usize>; 2]) -> Result<(), String> {
    let dir = directory(c);
    let threads = c.choose(2) == 1;
    let mut left = [scripts[0].len() + 1, scripts[1].len() + 1];
    let mut order = vec![];
    while left[0] + left[1] > 0 {
        let w = if left[0] == 0 {
            1
        } else if left[1] == 0 {
            0
        } else {
            c.choose(2)
        };
        left[w] -= 1;
        order.push(w);
    }
    c.log(|| title(kinds, scripts, &order, threads));
    let mut want = vec![];
    for w in 0..2 {
        clean(&dir);
        want.push(alone(kinds[w], w, &scripts[w], &dir).map_err(|m| told(format!("{} {:?} alone: {}", KIND_NAMES[kinds[w]], scripts[w], m)))?);
    }
    clean(&dir);
    let got = fresh(&Job { kinds, scripts: scripts.clone(), order: order.clone(), threads, steps: None, dir: dir.clone() }).map_err(|m| told(format!("{}: {}", title(kinds, scripts, &order, threads), m)))?;
    c.steps(got.len() as u64);
    for g in &got {
        c.observe(hash_bytes(7, g.as_bytes()));
    }
    compare(kinds, scripts, &order, threads, &got, [&want[0], &want[1]])
}
/// All orders of n and m steps.
fn orders(n: usize, m: usize) -> Vec<Vec<usize>> {
    if n + m == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for (w, n, m) in [(0, n.wrapping_sub(1), m), (1, n, m.wrapping_sub(1))] {
        if n != usize::MAX && m != usize::MAX {
            for mut o in orders(n, m) {
                o.insert(0, w);
                v.push(o);
            }
        }
    }
    v
}
fn sequences(calls: usize, len: usize) -> Vec<Vec<usize>> {
    (0..calls.pow(len as u32)).map(|mut x| (0..len).map(|_| { let r = x % calls; x /= calls; r }).collect()).collect()
}
fn clean(dir: &str) {
    for n in ["tensor0", "tensor1", "network0", "network1"] {
        let _ = std::fs::remove_file(format!("{}/{}", dir, n));
    }
}
/// Whole lives.
const LIVES: [[&[usize]; 2]; KINDS] = [
    [&[0, 1, 6, 7, 5], &[2, 3, 4, 1, 8]],
    [&[0, 1, 6, 7, 5], &[2, 3, 4, 1, 8]],
    [&[0, 1, 6, 7, 5], &[2, 3, 4, 1, 8]],
    [&[0, 1, 6, 7, 5], &[2, 3, 4, 1, 8]],
    [&[2, 13, 8, 14, 10], &[5, 7, 3, 6, 12]],
    [&[0, 1, 6, 7, 3], &[8, 2, 3, 4, 5]],
];
fn lives(variants: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let a = c.choose(KINDS);
        let kinds = [a, a + c.choose(KINDS - a)];
        let v = [c.choose(variants), c.choose(variants)];
        run(c, kinds, &[LIVES[kinds[0]][v[0]].to_vec(), LIVES[kinds[1]][v[1]].to_vec()])
    }
}
/// Every script of A (one execution each, in a process of its own) against every script of B, all interleavings.
fn short_scripts(la: usize, lb: usize, same: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let a = c.choose(KINDS);
        let b = if same { a } else { c.choose(KINDS) };
        let sa: Vec<usize> = (0..la).map(|_| c.choose(CALLS[a])).collect();
        let first = c.choose(CALLS[b]);
        c.log(|| format!("A: {} {:?}, B: {}, any script of {} calls starting with {}", KIND_NAMES[a], sa, KIND_NAMES[b], lb, first));
        let dir = directory(c);
        let solo = |k: usize, w: usize, s: &[usize]| {
            clean(&dir);
            alone(k, w, s, &dir).map_err(|m| told(format!("{} {:?} alone: {}", KIND_NAMES[k], s, m)))
        };
        let want_a = solo(a, 0, &sa)?;
        let sbs: Vec<Vec<usize>> = sequences(CALLS[b], lb).into_iter().filter(|s| s[0] == first).collect();
        let mut want_b = vec![];
        for s in &sbs {
            want_b.push(solo(b, 1, s)?);
        }
        let os = orders(la + 1, lb + 1);
        let filed = a >= 4 || b >= 4;
        let r = apart(|| {
            let mut n = 0u64;
            let mut h = 0u64;
            for (sb, wb) in sbs.iter().zip(&want_b) {
                let scripts = [sa.clone(), sb.clone()];
                for o in &os {
                    for threads in [false, true] {
                        if filed {
                            clean(&dir);
                        }
                        let got = match guarded(|| together([a, b], &scripts, o, threads, &dir)) {
                            Ok(g) => g,
                            Err(m) => return vec![told(format!("{}: {}", title([a, b], &scripts, o, threads), m))],
                        };
                        if let Err(m) = compare([a, b], &scripts, o, threads, &got, [&want_a, wb]) {
                            return vec![m];
                        }
                        n += 1;
                        for g in got {
                            h = hash_bytes(h, g.as_bytes());
                        }
                    }
                }
            }
            vec![String::new(), n.to_string(), h.to_string()]
        })
        .map_err(told)?;
        if !r[0].is_empty() || r.len() < 3 {
            return Err(r[0].clone());
        }
        let n: u64 = r[1].parse().unwrap();
        c.steps(n * (la + lb) as u64);
        c.count("interleavings", n);
        c.observe(r[2].parse().unwrap());
        Ok(())
    }
}

// ---- one call in the middle of another ----
/// Pairs of objects that do interfere (or wait for each other), for the machinery itself.
const WITNESSES: usize = 5;
fn witness(which: usize) -> (Box<dyn FnMut(usize) -> String>, Box<dyn FnMut(usize) -> String>) {
    use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::SeqCst};
    static PLAIN: AtomicU32 = AtomicU32::new(0);
    static BEHIND: AtomicPtr<AtomicU32> = AtomicPtr::new(std::ptr::null_mut());
    static LOCKED: Mutex<(u32, u32)> = Mutex::new((0, 0));
    static WIDE: Mutex<[u32; 64]> = Mutex::new([0; 64]);
    if which == 1 {
        BEHIND.store(Box::leak(Box::new(AtomicU32::new(0))), SeqCst);
    }
    let f = move |id: u32| -> Box<dyn FnMut(usize) -> String> {
        Box::new(move |_| match which {
            0 => lib(|| {
                PLAIN.store(id, SeqCst);
                let a = std::hint::black_box(id) * 2 + 1;
                format!("{} {}", PLAIN.load(SeqCst), a)
            }),
            1 => lib(|| unsafe {
                let p = &*BEHIND.load(SeqCst);
                p.store(id, SeqCst);
                let a = std::hint::black_box(id) * 2 + 1;
                format!("{} {}", p.load(SeqCst), a)
            }),
            2 => lib(|| {
                // properly locked: no interference, but one has to wait
                let mut l = LOCKED.lock().unwrap();
                l.0 = id;
                l.1 = std::hint::black_box(id) + 1;
                format!("{} {}", l.0, l.1)
            }),
            3 => lib(|| {
                // threads of its own, and a lock
                let n = std::thread::scope(|s| {
                    let h: Vec<_> = (0..2).map(|i| s.spawn(move || std::hint::black_box(id) * 10 + i)).collect();
                    h.into_iter().map(|h| h.join().unwrap()).sum::<u32>()
                });
                let mut l = LOCKED.lock().unwrap();
                l.0 = n;
                format!("{} {}", l.0, n)
            }),
            _ => lib(|| {
                // each part is locked, the whole is not; written through the C library
                let v = vec![id; 64];
                WIDE.lock().unwrap().copy_from_slice(&v);
                let w = *WIDE.lock().unwrap();
                format!("{:?}", w)
            }),
        })
    };
    (f(1), f(2))
}
/// The menus of calls that are stopped, and what happened to the objects before.
fn stopped(kinds: [usize; 2], most: usize, used: bool, dir: &str) -> Vec<String> {
    let before = |k: usize| -> &[usize] {
        match (used, k) {
            (false, _) => &[],
            (_, 4) => &[13],
            (_, 5) => &[0, 6],
            _ => &[0, 1, 6],
        }
    };
    let title = format!("A: {}, B: {}, used before: {}", KIND_NAMES.get(kinds[0]).unwrap_or(&"witness"), KIND_NAMES.get(kinds[1]).unwrap_or(&"witness"), used);
    if kinds[0] >= KINDS {
        let (mut a, mut b) = witness(kinds[0] - KINDS);
        let o = steps::meet(&mut *a as steps::Handle, 1, &[], &mut *b as steps::Handle, 1, &title, most);
        let bad = o.available && o.message.is_some() != !matches!(kinds[0] - KINDS, 2 | 3) || o.available && (o.stops == 0 || o.unstepped > 0);
        let m = if bad { format!("HARNESS:a witness of interference is judged {:?} at {} places", o.message, o.stops) } else { String::new() };
        return vec![m, o.stops.to_string(), o.instructions.to_string(), o.left_out.to_string(), (o.available as u8).to_string(), o.unstepped.to_string()];
    }
    // each object comes from a thread of its own, and so does its memory
    let make = |w: usize| -> Box<dyn Object> {
        let d = dir.to_string();
        let kind = kinds[w];
        let calls = before(kind).to_vec();
        std::thread::spawn(move || {
            let mut o = object(kind, w, &d);
            for q in calls {
                o.call(q);
            }
            steps::AnyThread(o)
        })
        .join()
        .expect("harness: object")
        .0
    };
    let (mut a, mut b) = (make(0), make(1));
    let mut fa = move |q: usize| {
        let r = a.call(q);
        steps::disarm();
        format!("{} then {} then {}", r, a.call(0), a.call(1))
    };
    let mut fb = move |q: usize| {
        let r = b.call(q);
        steps::disarm();
        format!("{} then {} then {}", r, b.call(0), b.call(1))
    };
    let files: &[usize] = match kinds[0] {
        4 => &[13, 14],
        5 => &[6, 7],
        _ => &[],
    };
    let (ha, hb): (steps::Handle, steps::Handle) = (&mut fa as *mut _, &mut fb as *mut _);
    let o = steps::meet(ha, CALLS[kinds[0]], files, hb, CALLS[kinds[1]], &title, most);
    vec![o.message.unwrap_or_default(), o.stops.to_string(), o.instructions.to_string(), o.left_out.to_string(), (o.available as u8).to_string(), o.unstepped.to_string()]
}
fn inside(most: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let a = c.choose(KINDS + WITNESSES);
        let (b, used) = if a < KINDS { (c.choose(KINDS), c.choose(2) == 1) } else { (a, false) };
        let dir = directory(c);
        c.log(|| format!("A: {}, B: {}, used before: {}", KIND_NAMES.get(a).unwrap_or(&"witness"), KIND_NAMES.get(b).unwrap_or(&"witness"), used));
        clean(&dir);
        let r = fresh(&Job { kinds: [a, b], scripts: [vec![], vec![]], order: vec![], threads: true, steps: Some((most, used)), dir: dir.clone() }).map_err(told)?;
        let n = |i: usize| r[i].parse::<u64>().unwrap();
        if n(4) == 0 {
            c.count("stepping unavailable", 1);
            return Ok(());
        }
        c.steps((CALLS.get(a).unwrap_or(&1) * CALLS.get(b).unwrap_or(&1)) as u64);
        c.count("instructions stepped", n(2));
        c.count("stops inside a call", n(1));
        c.count("stops left out", n(3));
        c.count("calls not stepped through", n(5));
        c.observe(mix(a as u64 * 100 + b as u64, n(1)));
        if r[0].is_empty() { Ok(()) } else { Err(told(r[0].clone())) }
    }
}

// ---- file calls of two threads, interleaved at every system call ----
enum Event {
    At,
    Done(Result<String, String>),
}
fn job(which: usize, network: bool, load_first: bool, path: String) -> String {
    let mut r = vec![];
    let specs = [vec![spec(1, which), Spec::Soft { shape: [2, 1, 1] }], vec![spec(1, which)]][which % 2].clone();
    for step in 0..2 {
        let load = (step == 0) == load_first;
        r.push(match (network, load) {
            (true, false) => format!("{:?}", build(&specs, &names(specs.len()), false).expect("harness: network").save_to_file(&path).map_err(|e| e.to_string())),
            (true, true) => {
                let mut n = Network::new(train(false));
                let r = n.load_from_file(&path).map_err(|_| ());
                let _ = n.infer(&lt(&dense([3, 1, 1], 4, -2, 3)));
                format!("{:?} {:x?}", r, look(&n))
            }
            (false, false) => format!("{:?}", lt(&dense([3, 2, 1 + which], 8 + which as u64, -5, 5)).save_to_file(&path).map_err(|e| e.to_string())),
            (false, true) => match Tensor::from_file(&path) {
                Ok(t) => show(&t),
                Err(_) => "refused".into(),
            },
        });
    }
    r.join("; ")
}
fn place(c: &Ctx, how: usize) -> [String; 2] {
    let d = c.scratch.as_ref().expect("harness: scratch").join("side");
    let _ = std::fs::remove_dir_all(&d);
    for s in ["1", "2"] {
        std::fs::create_dir_all(d.join(s)).expect("harness: directory");
    }
    let p = |s: &str| d.join(s).to_str().unwrap().to_string();
    match how {
        0 => [p("a"), p("b")],
        1 => [p("model.one"), p("model.two")],
        2 => [p("1/f"), p("2/f")],
        _ => [p("x"), p("xx")],
    }
}
fn filing(c: &mut Ctx) -> Result<(), String> {
    let network = [c.choose(2) == 1, c.choose(2) == 1];
    let load_first = [c.choose(2) == 1, c.choose(2) == 1];
    let how = c.choose(4);
    let prepared = load_first;
    // what each does alone
    type Key = (usize, bool, bool, usize);
    static KNOWN: OnceLock<Mutex<HashMap<Key, String>>> = OnceLock::new();
    let mut want: Vec<String> = vec![];
    for w in 0..2 {
        let key = (w, network[w], load_first[w], how);
        let known = KNOWN.get_or_init(Default::default).lock().unwrap().get(&key).cloned();
        want.push(match known {
            Some(r) => r,
            None => {
                let p = place(c, how);
                if prepared[w] {
                    prepare(w, network[w], &p[w]);
                }
                let r = job(w, network[w], load_first[w], p[w].clone());
                KNOWN.get().unwrap().lock().unwrap().insert(key, r.clone());
                r
            }
        });
    }
    let p = place(c, how);
    for w in 0..2 {
        if prepared[w] {
            prepare(w, network[w], &p[w]);
        }
    }
    let what = format!(
        "{} at {:?} and {} at {:?}",
        describe(network[0], load_first[0]),
        p[0].rsplit("side/").next(),
        describe(network[1], load_first[1]),
        p[1].rsplit("side/").next()
    );
    c.log(|| what.clone());
    let (tx, rx) = channel::<(usize, Event)>();
    let mut go: Vec<Sender<()>> = vec![];
    let mut hands = vec![];
    for w in 0..2 {
        let (a, b) = channel::<()>();
        go.push(a);
        let (tx, path, net, lf) = (tx.clone(), p[w].clone(), network[w], load_first[w]);
        hands.push(std::thread::spawn(move || {
            if b.recv().is_err() {
                return;
            }
            let r = {
                let tx = tx.clone();
                crate::sys::arm(Box::new(move |_| {
                    let _ = tx.send((w, Event::At));
                    let _ = b.recv();
                    crate::sys::Answer::Real
                }));
                let r = guarded(|| job(w, net, lf, path));
                crate::sys::disarm();
                r
            };
            let _ = tx.send((w, Event::Done(r)));
        }));
    }
    let mut live = vec![0, 1];
    let mut answers: [Option<Result<String, String>>; 2] = [None, None];
    let mut order = vec![];
    let mut calls = 0;
    while !live.is_empty() {
        let w = live[c.choose(live.len())];
        order.push(w);
        go[w].send(()).expect("harness: hand-off");
        calls += 1;
        match rx.recv().expect("harness: hand-off") {
            (_, Event::At) => {}
            (q, Event::Done(r)) => {
                answers[q] = Some(r);
                live.retain(|x| *x != q);
            }
        }
    }
    for h in hands {
        h.join().expect("harness: join");
    }
    c.step();
    c.count("system calls scheduled", calls - 2);
    c.log(|| format!("schedule {:?}", order));
    need(calls > 6, || "HARNESS:the system calls were not intercepted".into())?;
    for w in 0..2 {
        let got = answers[w].take().unwrap().map_err(|m| if m.contains("harness") { format!("HARNESS:{}", m) } else { format!("{}, schedule {:?}: {}", what, order, m) })?;
        c.observe(hash_bytes(w as u64, got.as_bytes()));
        need(got == want[w], || format!("{}, schedule {:?}: number {} answers {}, alone it answers {}", what, order, w, got, want[w]))?;
    }
    Ok(())
}
fn describe(network: bool, load_first: bool) -> String {
    format!("{} a {}", if load_first { "loading, then saving," } else { "saving, then loading," }, if network { "network" } else { "tensor" })
}
fn prepare(w: usize, network: bool, p: &str) {
    let s = [spec(1, w + 4)];
    if network {
        put(p, &image(&s, &names(1)));
    } else {
        put(p, &codec::tensor(&dense([2, 2 + w, 2], 3 + w as u64, -5, 5)));
    }
}

// ---- clones ----
fn clones(depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&[[1usize, 1, 1], [2, 2, 1], [2, 2, 2], [3, 1, 2]]);
        let a = dense(d, 3, -3, 4);
        let mut ts = vec![lt(&a)];
        let mut ms = vec![a];
        let other = dense(d, 8, -3, 4);
        for step in 0..depth {
            let q = c.choose(ts.len());
            let op = c.choose(9);
            c.log(|| format!("operation {} on tensor {}", op, q));
            let o = lt(&other);
            let m = ms[q].clone();
            match op {
                0 => {
                    let t = ts[q].clone();
                    ts.push(t);
                    ms.push(m);
                }
                1 => {
                    ts[q].set_item(&ix(d[0] - 1, d[1] - 1, d[2] - 1), 9.0 + step as f32);
                    let n = ms[q].v.len();
                    ms[q].v[n - 1] = 9.0 + step as f64;
                }
                2 => {
                    ts[q].fill_with_value(step as f32 + 20.0);
                    ms[q] = RT::filled(d, step as f64 + 20.0);
                }
                3 => {
                    let v = dense(d, 50 + step as u64, -9, 9);
                    need(ts[q].fill_with_vec(v.v.iter().map(|x| *x as f32).collect()).is_ok(), || "a list of the right length was refused".into())?;
                    ms[q] = v;
                }
                4 => {
                    Tensor::add_to_self(&mut ts[q], &o);
                    ms[q] = m.zip(&other, |a, b| a + b);
                }
                5 => {
                    Tensor::scale_self(&mut ts[q], 2.0);
                    ms[q] = m.scaled(2.0);
                }
                6 => {
                    Tensor::multiply_elementwise_self(&mut ts[q], &o);
                    ms[q] = m.zip(&other, |a, b| a * b);
                }
                7 => {
                    let mut k = Tensor::new(shape(d));
                    let _ = Tensor::relu_self_and_store_mask(&mut ts[q], &mut k);
                    ms[q] = relu(&m);
                }
                _ => {
                    // the clone of one as the operand of an operation on the other
                    let t = ts[0].clone();
                    Tensor::add_to_self(&mut ts[q], &t);
                    ms[q] = m.zip(&ms[0].clone(), |a, b| a + b);
                }
            }
            c.step();
            for (i, (t, m)) in ts.iter().zip(&ms).enumerate() {
                expect_with(|| format!("after operation {} on tensor {}: tensor {}", op, q, i), t, m, 0.0)?;
                c.observe(hash_t(t));
            }
            for i in 0..ts.len() {
                for j in 0..ts.len() {
                    need((ts[i] == ts[j]) == (ms[i].v == ms[j].v), || format!("tensors {} and {} compare {}", i, j, ts[i] == ts[j]))?;
                }
            }
        }
        Ok(())
    }
}
/// Very many objects alive at once: each is used in turn, then each again in another order.
fn crowd(counts: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&counts);
        let kind = c.choose(5);
        let backwards = c.choose(2) == 1;
        let dropped = c.choose(2) == 1;
        c.log(|| format!("{} of {}{}{}", n, KIND_NAMES[kind], if backwards { ", the second round in reverse" } else { "" }, if dropped { ", every third dropped in between" } else { "" }));
        let order: Vec<usize> = if backwards { (0..n).rev().collect() } else { (0..n).collect() };
        let gone = |i: usize| dropped && i % 3 == 1;
        let v = |i: usize, salt: usize| ((i * 7 + salt * 3) % 11) as f64 - 5.0;
        if kind == 4 {
            let mut ts: Vec<Option<Tensor>> = (0..n).map(|i| Some(lt(&RT::new([2, 1, 1], vec![v(i, 0), v(i, 1)])))).collect();
            for i in 0..n {
                if gone(i) {
                    ts[i] = None;
                }
            }
            for (r, i) in order.iter().enumerate() {
                let Some(t) = ts[*i].as_mut() else { continue };
                expect_with(|| format!("tensor {} of {}", i, n), t, &RT::new([2, 1, 1], vec![v(*i, 0), v(*i, 1)]), 0.0)?;
                if r % 2 == 0 {
                    let t = t.clone();
                    ts[*i] = Some(t);
                }
                c.step();
            }
            return Ok(());
        }
        let of = |i: usize| match kind {
            0 => Spec::Conv { ks: vec![RT::new([1, 1, 1], vec![v(i, 0)])], bs: vec![v(i, 1)], input: [2, 1, 1], stride: 1 },
            1 => Spec::Fc { w: RT::new([2, 2, 1], vec![v(i, 0), 1.0, v(i, 1), -1.0]), b: RT::new([2, 1, 1], vec![v(i, 2), 0.0]) },
            2 => Spec::Pool { input: [2, 1, 1], win: [2, 1], stride: 1 },
            _ => Spec::Soft { shape: [2, 1, 1] },
        };
        // distinct elements, and where the maximum is differs from one to the next
        let x = |i: usize| RT::new([2, 1, 1], vec![v(i, 4) + 0.5 * (i % 2) as f64, v(i, 4) + 0.25 + 0.5 * ((i / 2) % 2) as f64 - 0.25 * (i % 2) as f64]);
        let mut ls = vec![];
        for i in 0..n {
            let s = of(i);
            let mut l = Lib::build(&s, &format!("{}", i % 5))?;
            l.l().switch_to_training();
            ls.push(Some((s, l, Tensor::empty())));
        }
        for i in 0..n {
            let (s, l, y) = ls[i].as_mut().unwrap();
            *y = Tensor::new(shape(s.out_dim()));
            l.l().forward(&lt(&x(i)), y).map_err(|e| format!("layer {} of {}: {}", i, n, e))?;
            expect_with(|| format!("layer {} of {} ({}): output", i, n, s.describe()), y, &s.forward(&x(i)), if kind == 3 { 2e-6 } else { 0.0 })?;
            c.step();
        }
        for i in 0..n {
            if gone(i) {
                ls[i] = None;
            }
        }
        for i in order {
            let Some((s, l, y)) = ls[i].as_mut() else { continue };
            let g = RT::from_fn(s.out_dim(), |a, _, _| v(i, 5 + a));
            let mut o = Tensor::new(shape([2, 1, 1]));
            l.l().backward(&lt(&x(i)), y, &lt(&g), &mut o).map_err(|e| format!("layer {} of {}: {}", i, n, e))?;
            if let Some(w) = s.vjp(&x(i), &g) {
                expect_with(|| format!("layer {} of {} ({}): gradient at {:?}", i, n, s.describe(), x(i).v), &o, &w, if kind == 3 { 2e-5 } else { 0.0 })?;
            }
            let want = codec::layer_fields(s, &format!("{}", i % 5));
            if i % 7 == 0 {
                need(codec::of_serialized(&l.lr().get_serialized()) == Some(want), || format!("layer {} of {} ({}): serializes as another", i, n, s.describe()))?;
            }
            c.step();
        }
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (variants, la, lb, cd) = if t { (2, 2, 2, 6) } else { (1, 1, 2, 5) };
    let mut v = vec![
        Driver::new("two lives", &format!("every pair of kinds of object (4 layers, tensors, network) x {} pair(s) of scripts of creation and 5 calls x all 924 interleavings x one or two threads, each in a process of its own", variants * variants), lives(variants)).waiting(),
        Driver::new("all short scripts", &format!("every pair of kinds x all scripts of creation and {la} and {lb} calls out of 9 (tensors: 16) x all interleavings x one or two threads, each in a process of its own"), short_scripts(la, lb, false)).waiting(),
        Driver::new("one call inside another", "every pair of kinds of object x unused or used before x every call of one stopped before (and after) each machine instruction that touches memory a call of the other touches too, one of them writing, where the other then makes its call on another thread; 5 witnesses of the machinery", inside(if t { 2000 } else { 100 })).waiting(),
        Driver::new("file calls of two threads", "save and load of a tensor or network each x 4 placements of the two files x every interleaving of their system calls", filing).waiting(),
        Driver::new("crowds", &format!("up to {} objects of each kind alive at once, used in turn and then again, forwards or backwards, some dropped in between", if t { 140_000 } else { 66_000 }), crowd(if t { vec![40, 300, 1100, 5000, 66_000, 140_000] } else { vec![40, 300, 1100, 66_000] })),
        Driver::new("clones", &format!("every sequence of {cd} operations (clone included) on up to {} tensors", cd + 1), clones(cd)),
    ];
    if t {
        v.push(Driver::new("longer scripts of one kind", "two objects of the same kind x all scripts of 2 and 3 calls x all interleavings x one or two threads", short_scripts(2, 3, true)).waiting());
    }
    (
        v,
        vec![
            "a call is stopped at most once, before or after an access to memory that the other call touches when it is made first; compiled as in the release profile, so interleavings are those of the machine code",
            "random fills share the generator of their thread and are left out",
        ],
    )
}
