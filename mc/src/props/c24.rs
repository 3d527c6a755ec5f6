//! C24: use gives back what it takes. Every cycle of calls is repeated; memory held must stop growing,
//! files must be closed again and no stray file may be left.
use crate::engine::*;
use crate::glue::*;
use crate::props::c18::{things, Thing};
use crate::props::nets;
use crate::props::steps;
use crate::props::net::{fitting, in_value, FIRST};
use crate::refmodel::*;
use crate::sys;
use rusty_network::layer::SerializedLayer;
use rusty_network::network::Network;
use rusty_network::tensor::operations::convolution;
use rusty_network::tensor::Tensor;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        match steps::alloc(l.size(), l.align()) {
            Some(p) => p,
            None => System.alloc(l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        match steps::alloc(l.size(), l.align()) {
            Some(p) => p, // never used before
            None => System.alloc_zeroed(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        if !steps::keep(p) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        if !steps::keep(p) {
            return System.realloc(p, l, n);
        }
        let q = match steps::alloc(n, l.align()) {
            Some(q) => q,
            None => System.alloc(Layout::from_size_align_unchecked(n, l.align())),
        };
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        }
        q
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Repeats `round`; an error if memory or open files keep growing.
fn repeated(what: impl Fn() -> String, reps: [usize; 3], mut round: impl FnMut() -> Result<(), String>) -> Result<(i64, u64), String> {
    let mut at = [0i64; 3];
    let mut open = [0i64; 3];
    let mut done = 0;
    for (q, n) in reps.into_iter().enumerate() {
        while done < n {
            round()?;
            done += 1;
        }
        at[q] = LIVE.with(|l| l.get());
        open[q] = sys::open_files();
    }
    need(!(at[0] < at[1] && at[1] < at[2]), || {
        format!("{}: memory held grows by {} bytes from repetition {} to {} and by {} more to {}", what(), at[1] - at[0], reps[0], reps[1], at[2] - at[1], reps[2])
    })?;
    need(!(open[0] < open[1] && open[1] < open[2]), || format!("{}: {} files were opened and not closed again between repetitions {} and {}", what(), open[2] - open[0], reps[0], reps[2]))?;
    Ok((at[2] - at[0], done as u64))
}
fn directory(c: &Ctx) -> std::path::PathBuf {
    let d = c.scratch.clone().expect("harness: scratch").join("c24");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("harness: directory");
    d
}
fn only(d: &std::path::Path, names: &[&str], what: impl Fn() -> String) -> Result<(), String> {
    let mut v: Vec<String> = std::fs::read_dir(d).expect("harness: list").map(|e| e.expect("harness: entry").file_name().to_string_lossy().into_owned()).collect();
    v.sort();
    need(v == names, || format!("{}: the directory holds {:?}, should hold {:?}", what(), v, names))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum NOp {
    Infer(usize),
    Backward(usize),
    BadInput,
    BadGradient,
    ToTraining,
    ToInference,
    Look,
    Save,
    /// loading a file whose first layer does not fit
    LoadRefused,
    LoadMissing,
    /// files cut short, and one with an unknown kind of layer
    LoadDamaged,
    AddRefused,
    /// a second network: loaded, used, dropped
    Fresh,
}
const NOPS: [NOp; 14] = [
    NOp::Infer(0), NOp::Infer(1), NOp::Backward(0), NOp::BadInput, NOp::BadGradient, NOp::ToTraining, NOp::ToInference, NOp::Look, NOp::Save, NOp::LoadRefused, NOp::LoadMissing, NOp::LoadDamaged, NOp::AddRefused,
    NOp::Fresh,
];
fn networks(stack: usize, len: usize, reps: [usize; 3]) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let training = c.choose(2) == 1;
        let mut net = Network::new(train(training));
        let first = FIRST[c.choose(if stack > 1 { 3 } else { FIRST.len() })];
        let mut d = first;
        let mut specs = vec![];
        for i in 0..stack {
            let f = fitting(d, i as u64);
            let s = if i < 2 { c.pick(&f).clone() } else { f[(i + 1) % f.len()].clone() };
            Lib::build(&s, "layer").map_err(|e| format!("HARNESS:{}", e))?.add_to(&mut net).map_err(|e| format!("adding {}: {}", s.describe(), e))?;
            d = s.out_dim();
            specs.push(s);
        }
        let n = c.range(1, len);
        let cyc: Vec<NOp> = (0..n).map(|_| *c.pick(&NOPS)).collect();
        let what = || format!("network {:?}, cycle {:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>(), cyc);
        c.log(&what);
        let files = cyc.iter().any(|o| matches!(o, NOp::Save | NOp::LoadRefused | NOp::LoadMissing | NOp::LoadDamaged | NOp::Fresh));
        let dir = if files { directory(c) } else { Default::default() };
        let path = |n: &str| dir.join(n).to_string_lossy().into_owned();
        let cuts = ["cut0", "cut1", "cut2", "cut3"].map(path);
        let (saved, unfit, own, missing) = (path("saved"), path("unfit"), path("own"), path("missing"));
        if files {
            let odd = Spec::Soft { shape: [d[0] + 1, d[1], d[2]] };
            let (k, f) = codec::layer_fields(&odd, "odd");
            std::fs::write(&unfit, codec::network(&[(k, f)])).expect("harness: write");
            let ls: Vec<_> = specs.iter().map(|s| codec::layer_fields(s, "layer")).collect();
            std::fs::write(&own, codec::network(&ls)).expect("harness: write");
            std::fs::write(&saved, b"").expect("harness: write");
            let whole = codec::network(&ls);
            let (k, f) = codec::layer_fields(&Spec::Soft { shape: d }, "unknown");
            let unknown = codec::network(&[(k + 40, f)]);
            for (p, b) in cuts.iter().zip([&whole[..whole.len() / 2], &whole[..whole.len() - 1], &whole[..4], &unknown[..]]) {
                std::fs::write(p, b).expect("harness: write");
            }
        }
        let mut xs = [lt(&in_value(first, 0)), lt(&in_value(first, 1))];
        let mut g = lt(&dense(d, 19, -2, 3));
        let mut turn = 0;
        let (badx, badg) = (Tensor::new(shape([first[0] + 1, first[1], first[2]])), Tensor::new(shape([d[0], d[1] + 1, d[2]])));
        let odd = [d[0], d[1], d[2] + 1];
        let _ = net.infer(&xs[1]);
        let r = repeated(&what, reps, || {
            // every two rounds have inputs, gradients, names and paths of their own
            turn += 1;
            let now = (turn / 2) as f32 / 8.0;
            xs[0].set_item(&ix(0, 0, 0), now);
            xs[1].set_item(&ix(0, 0, 0), -now);
            g.set_item(&ix(0, 0, 0), now);
            for op in &cyc {
                match op {
                    NOp::Infer(w) => {
                        let _ = net.infer(&xs[*w]);
                    }
                    NOp::Backward(_) => {
                        let _ = net.backward(&g);
                    }
                    NOp::BadInput => {
                        let _ = net.infer(&badx);
                    }
                    NOp::BadGradient => {
                        let _ = net.backward(&badg);
                    }
                    NOp::ToTraining => net.switch_to_training(),
                    NOp::ToInference => net.switch_to_inference(),
                    NOp::Look => {
                        let _ = net.get_output().map(|t| t.get_norm());
                        let _ = net.get_intermediate_state(0).map(|t| t.clone());
                        let _ = net.get_layers().iter().map(|l| l.get_name()).count();
                        let _ = net.get_layers().iter().map(|l| l.get_serialized()).count();
                    }
                    NOp::Save => {
                        let _ = net.save_to_file(&saved);
                    }
                    NOp::LoadRefused => {
                        let _ = net.load_from_file(&unfit);
                    }
                    NOp::LoadDamaged => {
                        for p in &cuts {
                            let _ = net.load_from_file(p);
                        }
                    }
                    NOp::LoadMissing => {
                        let _ = net.load_from_file(&missing);
                        let _ = net.load_from_file(&format!("{}{:05}", missing, turn / 2));
                    }
                    NOp::AddRefused => {
                        if let Ok(s) = rusty_network::layer::softmax::SoftmaxLayer::new(shape(odd), &format!("odd {:05}", turn / 2)) {
                            let _ = net.add_layer(s);
                        }
                    }
                    NOp::Fresh => {
                        let mut other = Network::new(train(true));
                        let _ = other.load_from_file(&own);
                        let _ = other.infer(&xs[0]);
                        let _ = other.backward(&g);
                    }
                }
            }
            Ok(())
        })?;
        if files {
            only(&dir, &["cut0", "cut1", "cut2", "cut3", "own", "saved", "unfit"], &what)?;
        }
        c.steps(r.1 * n as u64);
        c.observe(mix(r.0 as u64, n as u64));
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum LOp {
    Forward,
    Backward,
    BadForward,
    Clear,
    ToTraining,
    ToInference,
    Serialize,
    Load,
    LoadForeign,
    Refill,
    RefillRefused,
    Fresh,
    /// a layer of a shape not seen before
    FreshShape,
}
const LOPS: [LOp; 13] = [
    LOp::Forward, LOp::Backward, LOp::BadForward, LOp::Clear, LOp::ToTraining, LOp::ToInference, LOp::Serialize, LOp::Load, LOp::LoadForeign, LOp::Refill, LOp::RefillRefused, LOp::Fresh, LOp::FreshShape,
];
fn layers(len: usize, reps: [usize; 3]) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let first = *c.pick(&FIRST);
        let f = fitting(first, 2);
        let s = c.pick(&f).clone();
        let other = f.iter().filter(|o| o.kind() == s.kind()).last().unwrap().clone();
        let bad = match &s {
            Spec::Conv { ks, bs, input, .. } => Some(Spec::Conv { ks: ks.clone(), bs: bs.clone(), input: *input, stride: 0 }),
            Spec::Pool { input, win, .. } => Some(Spec::Pool { input: *input, win: [win[0] + input[0], win[1]], stride: 1 }),
            Spec::Fc { w, b } => Some(Spec::Fc { w: w.clone(), b: RT::zeros([b.d[0] + 1, 1, 1]) }),
            Spec::Soft { .. } => None,
        };
        let n = c.range(1, len);
        let cyc: Vec<LOp> = (0..n).map(|_| *c.pick(&LOPS)).collect();
        let what = || format!("layer {}, cycle {:?}", s.describe(), cyc);
        c.log(&what);
        let mut l = Lib::build(&s, "layer").map_err(|e| format!("HARNESS:{}", e))?;
        l.l().switch_to_training();
        let mut x = lt(&in_value(first, 0));
        let mut turn = 0;
        let mut o = Tensor::new(shape(s.out_dim()));
        let mut g = lt(&dense(s.out_dim(), 19, -2, 3));
        let mut out = Tensor::new(shape(first));
        let mut odd = Tensor::new(shape([first[0] + 1, first[1], first[2]]));
        let (k, fl) = codec::layer_fields(&s, "loaded");
        let own: SerializedLayer = codec::to_serialized(k, &fl);
        let (k, fl) = codec::layer_fields(if s.kind() == 3 { &Spec::Pool { input: [2, 2, 1], win: [1, 1], stride: 1 } } else { &Spec::Soft { shape: [2, 1, 1] } }, "foreign");
        let foreign = codec::to_serialized(k, &fl);
        let r = repeated(&what, reps, || {
            turn += 1;
            let now = (turn / 2) as f32 / 8.0;
            x.set_item(&ix(0, 0, 0), now);
            g.set_item(&ix(0, 0, 0), now);
            for op in &cyc {
                match op {
                    LOp::Forward => {
                        let _ = l.l().forward(&x, &mut o);
                    }
                    LOp::Backward => {
                        let _ = l.l().backward(&x, &o, &g, &mut out);
                    }
                    LOp::BadForward => {
                        let _ = l.l().forward(&odd, &mut o);
                        let _ = l.l().forward(&x, &mut odd);
                    }
                    LOp::Clear => l.l().clear_gradients(),
                    LOp::ToTraining => l.l().switch_to_training(),
                    LOp::ToInference => l.l().switch_to_inference(),
                    LOp::Serialize => drop(l.lr().get_serialized()),
                    LOp::Load => {
                        let _ = l.l().load_from_serialized(&own);
                    }
                    LOp::LoadForeign => {
                        let _ = l.l().load_from_serialized(&foreign);
                    }
                    LOp::Refill => {
                        let _ = l.fill(&other, &format!("refilled {:05}", turn / 2));
                        let _ = l.fill(&s, &format!("back {:05}", turn / 2));
                    }
                    LOp::RefillRefused => {
                        if let Some(b) = &bad {
                            let _ = l.fill(b, &format!("refused {:05}", turn / 2));
                        }
                    }
                    LOp::FreshShape => {
                        let w = 1 + turn / 2;
                        let q = match s.kind() {
                            0 => Spec::Conv { ks: vec![RT::filled([1, 2, 1], 1.0); 2], bs: vec![1.0; 2], input: [w, 2, 1], stride: 1 },
                            1 => Spec::Fc { w: RT::filled([2, w, 1], 1.0), b: RT::filled([2, 1, 1], 0.0) },
                            2 => Spec::Pool { input: [w, 2, 1], win: [1, 2], stride: 1 },
                            _ => Spec::Soft { shape: [w, 2, 1] },
                        };
                        let mut n = Network::new(train(true));
                        if Lib::build(&q, "new").is_ok_and(|l| l.add_to(&mut n).is_ok()) {
                            let _ = n.infer(&Tensor::new(shape(q.in_dim())));
                            let _ = n.backward(&Tensor::new(shape(q.out_dim())));
                            drop(n.get_layers()[0].get_serialized());
                        }
                    }
                    LOp::Fresh => {
                        let mut q = Lib::empty(s.kind());
                        let _ = q.fill(&s, &format!("fresh {:05}", turn / 2));
                        q.l().switch_to_training();
                        let _ = q.l().forward(&x, &mut o);
                        let _ = q.l().backward(&x, &o, &g, &mut out);
                    }
                }
            }
            Ok(())
        })?;
        c.steps(r.1 * n as u64);
        c.observe(mix(r.0 as u64, s.kind() as u64));
        Ok(())
    }
}
const TOPS: usize = 22;
fn tensors(len: usize, reps: [usize; 3]) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&[[1, 1, 1], [3, 1, 1], [2, 2, 1], [2, 2, 3]]);
        let n = c.range(1, len);
        let cyc: Vec<usize> = (0..n).map(|_| c.choose(TOPS)).collect();
        let what = || format!("tensor of shape {:?}, cycle {:?}", d, cyc);
        c.log(&what);
        let files = cyc.iter().any(|o| (17..20).contains(o));
        let dir = if files { directory(c) } else { Default::default() };
        let path = |n: &str| dir.join(n).to_string_lossy().into_owned();
        let (saved, broken, missing) = (path("saved"), path("broken"), path("missing"));
        if files {
            std::fs::write(&saved, codec::tensor(&dense(d, 1, 0, 3))).expect("harness: write");
            std::fs::write(&broken, &codec::tensor(&dense(d, 1, 0, 3))[..30]).expect("harness: write");
        }
        let (mut a, mut b) = (lt(&dense(d, 1, -2, 2)), lt(&dense(d, 2, -2, 2)));
        let mut turn = 0;
        let mut r = Tensor::new(shape(d));
        let mut m = Tensor::new(shape(d));
        let mut t = Tensor::new(shape([d[1], d[0], d[2]]));
        let mut gram = Tensor::new(shape([d[1], d[1], d[2]]));
        let mut outer = Tensor::new(shape([d[0], d[0], d[2]]));
        let items = vec![0.5f32; total(d)];
        let list: Vec<u32> = (0..total(d) as u32).rev().collect();
        let mut origins = vec![0u32; total(d)];
        let one = shape([1, 1, 1]);
        let kernel = Tensor::new(shape([1, 1, d[2]]));
        let bias = Tensor::empty();
        let kernels = vec![kernel.clone(); d[2]];
        let mut kg = kernel.clone();
        let q = repeated(&what, reps, || {
            turn += 1;
            a.set_item(&ix(0, 0, 0), (turn / 2) as f32 / 8.0);
            b.set_item(&ix(0, 0, 0), 1.0 + (turn / 2) as f32 / 8.0);
            for op in &cyc {
                match op {
                    0 => {
                        Tensor::add(&a, &b, &mut r);
                        Tensor::add_to_self(&mut a, &b);
                    }
                    1 => {
                        Tensor::scale(&a, 0.5, &mut r);
                        Tensor::scale_self(&mut a, 0.5);
                    }
                    2 => Tensor::multiply_elementwise(&a, &b, &mut r),
                    3 => Tensor::multiply_elementwise_self(&mut a, &b),
                    4 => drop(Tensor::relu_self_and_store_mask(&mut a, &mut m)),
                    5 => drop(Tensor::transpose_ij(&a, &mut t)),
                    6 => drop(Tensor::matrix_multiply_transpose_first(&a, &b, &mut gram)),
                    7 => drop(Tensor::matrix_multiply_transpose_second(&a, &b, &mut outer)),
                    8 => Tensor::matrix_multiply(&a, &t, &mut outer),
                    9 => drop(Tensor::add_from_index_list(&b, &mut r, &list)),
                    10 => Tensor::max_pool(&a, &one, 1, &mut r),
                    11 => drop(Tensor::max_pool_track_origin(&a, &one, 1, &mut r, &mut origins)),
                    12 => Tensor::softmax(&b, &mut r),
                    13 => drop(convolution::convolution_bias(&b, &kernel, &bias, 1, &mut r, 0)),
                    14 => drop(convolution::convolution_backprop_outgoing_gradient(&b, &kernels, 1, &mut r)),
                    15 => drop(convolution::convolution_backprop_kernel(&b, &a, 1, 0, &mut kg)),
                    16 => {
                        let _ = a.fill_with_vec(items.clone());
                        let _ = a.fill_with_vec(vec![]);
                        a.fill_with_value(2.0);
                        a.set_item(&ix(0, 0, 0), 1.0);
                        a.set_item(&ix(9, 9, 9), 1.0);
                    }
                    17 => {
                        let _ = a.save_to_file(&saved);
                    }
                    18 => drop(Tensor::from_file(&saved)),
                    21 => {
                        // tensors of a shape not seen before
                        let w = 1 + turn / 2;
                        let (s, st) = (shape([w, 2, 1]), shape([2, w, 1]));
                        let (x, y) = (Tensor::new(s), Tensor::new(s));
                        let (mut u, mut ut, mut o, mut oo) = (Tensor::new(s), Tensor::new(st), Tensor::new(shape([w, w, 1])), Tensor::new(shape([2, 2, 1])));
                        Tensor::add(&x, &y, &mut u);
                        Tensor::scale(&x, 0.5, &mut u);
                        Tensor::multiply_elementwise(&x, &y, &mut u);
                        Tensor::softmax(&x, &mut u);
                        let _ = Tensor::transpose_ij(&x, &mut ut);
                        if w < 32 {
                            Tensor::matrix_multiply(&x, &ut, &mut o);
                            let _ = Tensor::matrix_multiply_transpose_second(&x, &y, &mut o);
                        }
                        let _ = Tensor::matrix_multiply_transpose_first(&x, &y, &mut oo);
                        let mut v = Tensor::new(shape([w, 1, 1]));
                        Tensor::max_pool(&x, &shape([1, 2, 1]), 1, &mut v);
                        let _ = convolution::convolution_bias(&x, &Tensor::new(shape([1, 2, 1])), &bias, 1, &mut v, 0);
                        let _ = x == y;
                        let _ = (x.get_norm(), x.clone());
                    }
                    20 => {
                        a.fill_with_uniform(-1.0, 1.0);
                        a.fill_with_gaussian(0.0, 1.0);
                        let copy = a.clone();
                        a = copy;
                    }
                    _ => {
                        drop(Tensor::from_file(&broken));
                        drop(Tensor::from_file(&missing));
                        drop(Tensor::from_file(&format!("{}{:05}", missing, turn / 2)));
                    }
                }
            }
            Ok(())
        })?;
        if files {
            only(&dir, &["broken", "saved"], &what)?;
        }
        c.steps(q.1 * n as u64);
        c.observe(mix(q.0 as u64, total(d) as u64));
        Ok(())
    }
}
struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        sys::disarm();
    }
}
/// Saves and loads in which the system refuses or shortens some of the calls, the same ones every time.
fn refused(left: usize, calls: usize, reps: [usize; 3]) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let ts = things(false);
        let th = c.pick(&ts);
        let save = c.choose(2) == 1;
        let menu = [
            sys::Answer::Fail(sys::EINTR),
            sys::Answer::Short(1),
            sys::Answer::Fail(sys::EIO),
            sys::Answer::Fail(if save { sys::ENOSPC } else { sys::EAGAIN }),
            sys::Answer::Fail(sys::EACCES),
            sys::Answer::Fail(sys::EMFILE),
            sys::Answer::Zero,
        ];
        let mut pattern = vec![];
        let mut from = 0;
        for _ in 0..c.range(1, left) {
            if from == calls {
                break;
            }
            let at = c.range(from, calls - 1);
            pattern.push((at, *c.pick(&menu)));
            from = at + 1;
        }
        let what = || format!("{} {} when the system answers {:?}", if save { "saving" } else { "loading" }, th.describe(), pattern);
        c.log(&what);
        let dir = directory(c);
        let p = dir.join("f").to_string_lossy().into_owned();
        std::fs::write(&p, th.file()).expect("harness: write");
        let tensor = match th {
            Thing::T(d, v) => Some(nets::tensor_of_bits(*d, v)),
            _ => None,
        };
        let net = match th {
            Thing::N(s) => Some(nets::build(s, &nets::names(s.len()), false)?),
            _ => None,
        };
        let mut entries = vec![];
        let (mut turn, mut failures) = (0, 0u64);
        let r = repeated(&what, reps, || {
            turn += 1;
            let answers = pattern.clone();
            let mut n = 0;
            let guard = Disarm;
            sys::arm(Box::new(move |_| {
                n += 1;
                answers.iter().find(|(at, _)| *at == n - 1).map(|(_, a)| *a).unwrap_or(sys::Answer::Real)
            }));
            let failed = match (&tensor, &net, save) {
                (Some(t), _, true) => t.save_to_file(&p).is_err(),
                (Some(_), _, false) => Tensor::from_file(&p).is_err(),
                (_, Some(n), true) => n.save_to_file(&p).is_err(),
                _ => Network::new(train(true)).load_from_file(&p).is_err(),
            };
            drop(guard);
            failures += failed as u64;
            if reps.contains(&turn) {
                entries.push(std::fs::read_dir(&dir).expect("harness: list").count());
            }
            Ok(())
        })?;
        c.count("refused saves and loads", failures);
        need(!(entries[0] < entries[1] && entries[1] < entries[2]), || format!("{}: the directory holds {:?} files after {:?} repetitions", what(), entries, reps))?;
        c.steps(r.1);
        c.observe(mix(r.0 as u64, failures));
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let reps = if t { [32, 200, 2000] } else { [8, 40, 200] };
    let (n1, n3, l) = if t { (3, 2, 4) } else { (2, 2, 3) };
    let (rl, rc) = if t { (3, 8) } else { (2, 6) };
    let what = format!("{} repetitions, growth judged between repetitions {:?}", reps[2], reps);
    (
        vec![
            Driver::new("networks of one layer", &format!("every layer of the menus x modes x every cycle of up to {n1} calls out of 14, {what}"), networks(1, n1, reps)),
            Driver::new("networks of three layers", &format!("stacks x modes x every cycle of up to {n3} calls out of 14, {what}"), networks(3, n3, reps)),
            Driver::new("layers", &format!("every layer of the menus x every cycle of up to {l} calls out of 13, {what}"), layers(l, reps)),
            Driver::new("tensors", &format!("4 shapes x every cycle of up to {l} operations out of {TOPS}, {what}"), tensors(l, reps)),
            Driver::new("refused files", &format!("saves and loads of 6 tensors and networks, every pattern of up to {rl} of the first {rc} system calls refused, interrupted or cut short in 7 ways, {what}"), refused(rl, rc, reps)),
        ],
        vec!["memory is counted per thread at the allocator, files at open and close", "growth that stops within the repetitions (caches, reserved capacity) is allowed"],
    )
}
