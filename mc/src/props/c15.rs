//! C15: saving and loading preserves a network, and serializing a layer preserves the layer.
use super::net::{fitting, in_value, FIRST};
use super::nets::*;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;

fn nan_eq(a: &[u32], b: &[u32]) -> bool {
    let nan = |x: u32| x & 0x7fffffff > 0x7f800000;
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (nan(*x) && nan(*y)))
}
fn set_mode(n: &mut Network, training: bool) {
    if training {
        n.switch_to_training()
    } else {
        n.switch_to_inference()
    }
}
/// Saves n, loads the file into an empty network of the given mode and compares.
fn round_trip(c: &mut Ctx, n: &mut Network, want: &[Face], to_training: bool, what: &str) -> Result<Network, String> {
    let p = path(c, "net");
    let before = look(n);
    need(before.layers == want, || format!("{}: the network holds {:?}, should hold {:?}", what, before.layers, want))?;
    n.save_to_file(&p).map_err(|e| format!("{}: saving failed: {}", what, e))?;
    c.step();
    let after = look(n);
    need(after == before, || format!("{}: saving changed the network: {:?} became {:?}", what, before, after))?;
    let mut m = Network::new(train(to_training));
    m.load_from_file(&p).map_err(|e| format!("{}: loading what was saved failed: {}", what, e))?;
    c.step();
    let got = look(&m);
    let want: Vec<Face> = want.iter().map(|f| Face { mode: train(to_training), ..f.clone() }).collect();
    need(got.layers == want, || format!("{}: loaded layers {:?}, saved were {:?}", what, got.layers, want))?;
    need(got.mode == train(to_training), || format!("{}: loaded network is in mode {:?}", what, got.mode))?;
    need(got.input == before.input && got.output == before.output && got.states.len() == before.states.len(), || format!("{}: loaded network is {:?} -> {:?}", what, got.input, got.output))?;
    c.observe(hash_bytes(3, format!("{:?}{:?}", got.layers.len(), got.layers.last().map(|l| l.output)).as_bytes()));
    Ok(m)
}
/// Both networks give the same outputs for the inputs, and train alike.
fn alike(c: &mut Ctx, a: &mut Network, b: &mut Network, training: bool, inputs: &[Tensor], grads: &[Tensor], what: &str) -> Result<(), String> {
    set_mode(a, training);
    set_mode(b, training);
    for x in inputs {
        let (ra, rb) = (a.infer(x), b.infer(x));
        c.steps(2);
        need(ra.is_ok() && rb.is_ok(), || format!("{}: inference: original {:?}, loaded {:?}", what, ra, rb))?;
        let (la, lb) = (look(a), look(b));
        for (i, (p, q)) in la.states.iter().zip(&lb.states).enumerate() {
            need(p.0 == q.0 && nan_eq(&p.1, &q.1), || format!("{}: state {} is {:?} in the original and {:?} in the loaded network", what, i, p, q))?;
        }
        for s in &la.states {
            c.observe(mix(s.1.len() as u64, s.1.last().cloned().unwrap_or(0) as u64));
        }
        if training {
            for g in grads {
                let (ra, rb) = (a.backward(g), b.backward(g));
                c.steps(2);
                need(ra.is_ok() && rb.is_ok(), || format!("{}: backpropagation: original {:?}, loaded {:?}", what, ra, rb))?;
            }
            let (fa, fb) = (look(a), look(b));
            need(fa.layers == fb.layers, || format!("{}: after training the layers differ: {:?} / {:?}", what, fa.layers, fb.layers))?;
        }
    }
    Ok(())
}
fn stacks(len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let specs = choose_stack(c, &FIRST, 0, len);
        let (from, to, used) = (c.choose(2) == 1, c.choose(2) == 1, c.choose(2) == 1);
        c.log(|| format!("saved in training={}, loaded in training={}, used before={}", from, to, used));
        let nm = names(specs.len());
        let mut n = build(&specs, &nm, from)?;
        let what = format!("network {:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>());
        let inputs: Vec<Tensor> = specs.first().map(|s| (0..2).map(|w| lt(&in_value(s.in_dim(), w))).collect()).unwrap_or_default();
        let grads: Vec<Tensor> = specs.last().map(|s| (0..2).map(|w| lt(&dense(s.out_dim(), 9 + w, -2, 3))).collect()).unwrap_or_default();
        if used && !specs.is_empty() {
            n.infer(&inputs[0]).map_err(|e| format!("{}: {}", what, e))?;
            if from {
                n.backward(&grads[0]).map_err(|e| format!("{}: {}", what, e))?;
            }
        }
        let want: Vec<Face> = specs.iter().zip(&nm).map(|(s, x)| want_face(s, x, from)).collect();
        let mut m = round_trip(c, &mut n, &want, to, &what)?;
        for t in [to, !to] {
            alike(c, &mut n, &mut m, t, &inputs, &grads, &what)?;
        }
        // a second generation, saved by the used copy
        let want: Vec<Face> = specs.iter().zip(&nm).map(|(s, x)| want_face(s, x, !to)).collect();
        let mut k = round_trip(c, &mut m, &want, from, &format!("second generation of {}", what))?;
        alike(c, &mut n, &mut k, from, &inputs[..inputs.len().min(1)], &grads, &what)
    }
}
/// Arbitrary float bits, through a file and through another layer.
fn bits_trip(c: &mut Ctx, s: &Spec, v: &[u32]) -> Result<(), String> {
    let what = format!("{} with parameter bits {:x?}{}", s.describe().chars().take(300).collect::<String>(), &v[..v.len().min(60)], if v.len() > 60 { "..." } else { "" });
    let want = with_bits(s, "b", v);
    let l = lib_with_bits(s, "b", v)?;
    let got = codec::of_serialized(&l.lr().get_serialized());
    need(got.as_ref() == Some(&want), || format!("{}: serialized as {:x?}, should be {:x?}", what, got, want))?;
    let mut other = Lib::empty(s.kind());
    other.l().load_from_serialized(&l.lr().get_serialized()).map_err(|e| format!("{}: loading a serialized layer failed: {}", what, e))?;
    c.steps(2);
    let got = face_of(other.lr());
    need(got.data.as_ref() == Some(&want) && got.name == "b", || format!("{}: became {:x?}", what, got))?;
    let face = Face { input: s.in_dim(), output: s.out_dim(), name: "b".into(), mode: train(false), data: Some(want) };
    let mut n = Network::new(train(false));
    l.add_to(&mut n).map_err(|e| format!("{}: refused by a network: {}", what, e))?;
    let mut m = round_trip(c, &mut n, &[face], false, &what)?;
    let x = [lt(&dense(s.in_dim(), 4, -1, 2))];
    alike(c, &mut n, &mut m, false, &x, &[], &what)
}
fn special_positions(c: &mut Ctx) -> Result<(), String> {
    let s = c.pick(&singles()[..2]).clone();
    let n = parameters(&s);
    let p = c.choose(n + 1);
    let x = *c.pick(&SPECIAL);
    let mut v: Vec<u32> = (0..n).map(|i| (i as f32 - 1.5).to_bits()).collect();
    if p < n {
        v[p] = x;
    } else {
        v = vec![x; n];
    }
    c.log(|| format!("{} bits {:x?}", s.describe(), v));
    bits_trip(c, &s, &v)
}
/// Large layers with contents that repeat or say little, and networks that do.
fn repetition(c: &mut Ctx) -> Result<(), String> {
    if c.choose(2) == 0 {
        let s = c
            .pick(&[
                Spec::Fc { w: RT::zeros([32, 32, 1]), b: RT::zeros([32, 1, 1]) },
                Spec::Fc { w: RT::zeros([2, 600, 1]), b: RT::zeros([2, 1, 1]) },
                Spec::Fc { w: RT::zeros([70, 71, 1]), b: RT::zeros([70, 1, 1]) },
                Spec::Fc { w: RT::zeros([1, 66000, 1]), b: RT::zeros([1, 1, 1]) },
                Spec::Conv { ks: vec![RT::zeros([2, 2, 1]); 300], bs: vec![0.0; 300], input: [3, 3, 1], stride: 1 },
                Spec::Conv { ks: vec![RT::zeros([16, 17, 4]); 2], bs: vec![0.0; 2], input: [16, 18, 4], stride: 1 },
            ])
            .clone();
        let how = c.choose(PATTERNS);
        c.log(|| format!("{:?} -> {:?}, pattern {}", s.in_dim(), s.out_dim(), how));
        return bits_trip(c, &s, &pattern(how, parameters(&s)));
    }
    let (what, specs, nm) = c.pick(&repetitive()).clone();
    c.log(|| what.clone());
    let (from, to) = (c.choose(2) == 1, c.choose(2) == 1);
    let mut n = build(&specs, &nm, from)?;
    let want: Vec<Face> = specs.iter().zip(&nm).map(|(s, x)| want_face(s, x, from)).collect();
    let mut m = round_trip(c, &mut n, &want, to, &what)?;
    let x = [lt(&dense(specs[0].in_dim(), 3, -1, 2))];
    let g = [lt(&dense(specs.last().unwrap().out_dim(), 3, -1, 2))];
    alike(c, &mut n, &mut m, to, &x, &g, &what)?;
    alike(c, &mut n, &mut m, !to, &x, &g, &what)
}
fn special_assignments(alphabet: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let k = c.choose(2);
        let s = if k == 0 {
            Spec::Fc { w: RT::zeros([2, 1, 1]), b: RT::zeros([2, 1, 1]) }
        } else {
            Spec::Conv { ks: vec![RT::zeros([1, 2, 1])], bs: vec![0.0], input: [1, 2, 1], stride: 1 }
        };
        let v: Vec<u32> = (0..parameters(&s)).map(|_| *c.pick(&SPECIAL[..alphabet])).collect();
        c.log(|| format!("{} bits {:x?}", s.describe(), v));
        bits_trip(c, &s, &v)
    }
}
fn naming(c: &mut Ctx) -> Result<(), String> {
    let menu: Vec<String> = vec![
        "".into(), " ".into(), "a".into(), "\0".into(), "a\0b".into(), "\n".into(), "näme".into(), "層".into(), "🦀".into(), "\u{feff}x".into(), "\u{301}e".into(),
        "Empty".into(), "x".repeat(7), "x".repeat(8), "x".repeat(9), "w".repeat(63), "w".repeat(64), "w".repeat(65), "v".repeat(127), "v".repeat(128), "y".repeat(255), "y".repeat(256), "y".repeat(257), "u".repeat(1000), "u".repeat(4096), "z".repeat(65536), "é".repeat(40000), "  padded  ".into(), "../../x".into(), "%s%n{}".into(),
    ];
    let s = c.pick(&singles()).clone();
    let x = c.pick(&menu).clone();
    c.log(|| format!("{} named {:?}", s.describe(), &x.chars().take(20).collect::<String>()));
    let (from, to) = (c.choose(2) == 1, c.choose(2) == 1);
    let mut n = build(&[s.clone()], &[x.clone()], from)?;
    round_trip(c, &mut n, &[want_face(&s, &x, from)], to, &format!("name of {} bytes", x.len()))?;
    let l = Lib::build(&s, &x)?;
    let mut o = Lib::build(&s, "other")?;
    o.l().load_from_serialized(&l.lr().get_serialized()).map_err(|e| format!("name of {} bytes: {}", x.len(), e))?;
    need(o.lr().get_name() == x, || format!("name of {} bytes: became {:?}", x.len(), o.lr().get_name()))
}
fn variants(kind: usize) -> Vec<Spec> {
    let conv = |ker: Dim, n: usize, input: Dim, stride: usize| Spec::Conv { ks: (0..n).map(|q| dense(ker, 31 + q as u64, -2, 3)).collect(), bs: (0..n).map(|q| q as f64 - 1.0).collect(), input, stride };
    match kind {
        0 => vec![conv([2, 1, 1], 2, [3, 2, 1], 1), conv([1, 1, 1], 1, [1, 1, 1], 1), conv([3, 2, 2], 3, [5, 4, 2], 2), conv([2, 2, 1], 1, [2, 2, 1], 7), conv([1, 3, 2], 2, [2, 3, 2], 1)],
        1 => [[2usize, 3, 1], [3, 2, 1], [1, 1, 1], [2, 2, 3], [4, 1, 2]].iter().map(|d| Spec::Fc { w: dense(*d, 8, -2, 3), b: dense([d[0], 1, d[2]], 9, -2, 3) }).collect(),
        2 => vec![([4, 2, 2], [2, 2], 2), ([1, 1, 1], [1, 1], 1), ([3, 3, 1], [2, 2], 1), ([5, 2, 1], [1, 2], 2), ([2, 3, 2], [2, 3], 5)].into_iter().map(|(input, win, stride)| Spec::Pool { input, win, stride }).collect(),
        _ => [[2usize, 1, 2], [1, 1, 1], [3, 2, 1], [1, 4, 1], [2, 2, 2]].iter().map(|d| Spec::Soft { shape: *d }).collect(),
    }
}
/// What a layer has been through before.
fn use_layer(l: &mut Lib, s: &Spec, life: usize) -> Result<(), String> {
    let x = lt(&dense(s.in_dim(), 3, -2, 3));
    let g = lt(&dense(s.out_dim(), 4, -2, 3));
    let mut o = Tensor::new(shape(s.out_dim()));
    let mut og = Tensor::new(shape(s.in_dim()));
    if life >= 1 {
        l.l().switch_to_training();
    }
    if life >= 2 {
        l.l().forward(&x, &mut o).map_err(|e| e.to_string())?;
    }
    if life >= 3 {
        l.l().backward(&x, &o, &g, &mut og).map_err(|e| e.to_string())?;
    }
    if life >= 4 {
        l.l().switch_to_inference();
        l.l().forward(&x, &mut o).map_err(|e| e.to_string())?;
    }
    Ok(())
}
fn layer_to_layer(c: &mut Ctx) -> Result<(), String> {
    let kind = c.choose(4);
    let vs = variants(kind);
    let s = c.pick(&vs).clone();
    let target = c.choose(vs.len() + 1);
    let (ls, lt_) = (c.choose(5), if target == 0 { 0 } else { c.choose(5) });
    let mut a = Lib::build(&s, "source")?;
    use_layer(&mut a, &s, ls)?;
    let mut b = Lib::empty(kind);
    if target > 0 {
        b.fill(&vs[target - 1], "target").map_err(|e| e.to_string())?;
        use_layer(&mut b, &vs[target - 1], lt_)?;
    }
    let mode = b.lr().get_run_mode();
    c.log(|| format!("{} (use {}) into {:?} (use {})", s.describe(), ls, if target > 0 { vs[target - 1].describe() } else { "empty".into() }, lt_));
    let what = format!("{} loaded into another layer", s.describe());
    let before = face_of(a.lr());
    need(before == Face { mode: a.lr().get_run_mode(), ..want_face(&s, "source", false) }, || format!("{}: source is {:?}", what, before))?;
    b.l().load_from_serialized(&a.lr().get_serialized()).map_err(|e| format!("{}: refused: {}", what, e))?;
    c.step();
    need(face_of(a.lr()) == before, || format!("{}: serializing changed the source", what))?;
    let got = face_of(b.lr());
    need(got == Face { mode, ..before.clone() }, || format!("{}: it became {:?}", what, got))?;
    // it computes and trains like the source
    let first = mode == train(true);
    for t in [first, true, false, true] {
        if t != (b.lr().get_run_mode() == train(true)) {
            if t {
                b.l().switch_to_training()
            } else {
                b.l().switch_to_inference()
            }
        }
        let x = distinct(s.in_dim(), 6);
        let mut o = lt(&RT::filled(s.out_dim(), 9.0));
        b.l().forward(&lt(&x), &mut o).map_err(|e| format!("{}: forward (training={}): {}", what, t, e))?;
        c.step();
        let tol = if kind == 3 { 1e-5 } else { 0.0 };
        expect_with(|| format!("{}: forward (training={})", what, t), &o, &s.forward(&x), tol)?;
        c.observe(hash_t(&o));
        if t {
            let g = dense(s.out_dim(), 12, -2, 3);
            let mut og = lt(&RT::filled(s.in_dim(), 9.0));
            b.l().backward(&lt(&x), &o, &lt(&g), &mut og).map_err(|e| format!("{}: backward: {}", what, e))?;
            c.step();
            if let Some(w) = s.vjp(&x, &g) {
                expect_with(|| format!("{}: backward", what), &og, &w, if kind == 3 { 1e-4 } else { 0.0 })?;
            }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Infer(usize),
    Backward,
    ToTraining,
    ToInference,
    Save(usize),
    LoadFresh(usize, bool),
    Add,
    Swap,
}
/// Two networks and two files.
fn histories(depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let ops = [Op::Save(0), Op::LoadFresh(0, false), Op::LoadFresh(0, true), Op::Add, Op::Swap, Op::Infer(1), Op::Backward, Op::ToTraining, Op::ToInference, Op::Save(1), Op::LoadFresh(1, true)];
    move |c| {
        struct M {
            n: Network,
            specs: Vec<Spec>,
            training: bool,
            x: Option<usize>,
        }
        let first = [[3, 1, 1], [2, 2, 1]];
        let mut ms: Vec<M> = vec![];
        for w in 0..2 {
            let mut specs = vec![];
            let mut d = first[w];
            for i in 0..[2, 1][w] {
                let f = fitting(d, i as u64);
                let s = f[(w + i) % f.len()].clone();
                d = s.out_dim();
                specs.push(s);
            }
            ms.push(M { n: build(&specs, &names(specs.len()), w == 1)?, specs, training: w == 1, x: None });
        }
        let mut files: [Option<Vec<Spec>>; 2] = [None, None];
        let paths = [path(c, "a"), path(c, "b")];
        for p in &paths {
            let _ = std::fs::remove_file(p);
        }
        let mut hist = vec![];
        for _ in 0..depth {
            let op = *c.pick(&ops);
            hist.push(op);
            c.log(|| format!("{:?}", op));
            c.step();
            let m = &mut ms[0];
            let e = |t: &str| format!("after {:?}: {}", hist, t);
            match op {
                Op::Infer(w) => {
                    m.n.infer(&lt(&in_value(m.specs[0].in_dim(), w))).map_err(&e)?;
                    m.x = Some(w);
                }
                Op::Backward => {
                    let g = dense(m.specs.last().unwrap().out_dim(), 3, -1, 2);
                    if m.training && m.x.is_some() {
                        m.n.backward(&lt(&g)).map_err(&e)?;
                    }
                }
                Op::ToTraining => {
                    m.n.switch_to_training();
                    m.training = true;
                    m.x = None;
                }
                Op::ToInference => {
                    m.n.switch_to_inference();
                    m.training = false;
                    m.x = None;
                }
                Op::Save(f) => {
                    let before = look(&m.n);
                    m.n.save_to_file(&paths[f]).map_err(|x| e(&x.to_string()))?;
                    need(look(&m.n) == before, || e("saving changed the network"))?;
                    files[f] = Some(m.specs.clone());
                }
                Op::LoadFresh(f, t) => {
                    let mut n = Network::new(train(t));
                    let r = n.load_from_file(&paths[f]);
                    match &files[f] {
                        None => {
                            need(r.is_err(), || e("loading a file that does not exist reports success"))?;
                        }
                        Some(s) => {
                            r.map_err(|x| e(&format!("loading a saved file: {}", x)))?;
                            *m = M { n, specs: s.clone(), training: t, x: None };
                        }
                    }
                }
                Op::Add => {
                    if m.specs.len() < 4 {
                        let k = m.specs.len();
                        let fs = fitting(m.specs[k - 1].out_dim(), k as u64);
                        let s = fs[k % fs.len()].clone();
                        Lib::build(&s, &name(k))?.add_to(&mut m.n).map_err(&e)?;
                        m.specs.push(s);
                        m.x = None;
                    }
                }
                Op::Swap => ms.swap(0, 1),
            }
            let m = &ms[0];
            let l = look(&m.n);
            let want: Vec<Face> = m.specs.iter().enumerate().map(|(i, s)| want_face(s, &name(i), m.training)).collect();
            need(l.layers == want && l.mode == train(m.training), || format!("after {:?}: the network is {:?}, should be {:?}", hist, l, want))?;
            c.observe(hash_bytes(m.training as u64, format!("{}{:?}", m.specs.len(), files.iter().map(|f| f.as_ref().map(|x| x.len())).collect::<Vec<_>>()).as_bytes()));
        }
        for m in &mut ms {
            let x = in_value(m.specs[0].in_dim(), 1);
            m.n.infer(&lt(&x)).map_err(|e| format!("after {:?}: {}", hist, e))?;
            let mut v = x;
            for (i, s) in m.specs.iter().enumerate() {
                v = s.forward(&v);
                expect_with(|| format!("after {:?}: state {}", hist, i + 1), m.n.get_intermediate_state(i + 1)?, &v, 1e-3)?;
            }
        }
        Ok(())
    }
}
fn large(t: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (what, specs): (String, Vec<Spec>) = match c.choose(5) {
            4 => {
                let d = *c.pick(&[[4097usize, if t { 20_000 } else { 4100 }, 1], [1, (1 << 24) + 3, 1]]);
                (format!("weights {:?}", d), vec![Spec::Fc { w: dense(d, 5, -1, 1), b: dense([d[0], 1, d[2]], 6, -1, 1) }])
            }
            0 => {
                let n = *c.pick(&[16usize, 17, 64, 255, 256, 257, 300]);
                (format!("{} layers", n), (0..n).map(|i| Spec::Fc { w: dense([2, 2, 1], i as u64, -1, 1), b: dense([2, 1, 1], i as u64, 0, 2) }).collect())
            }
            1 => {
                let d = *c.pick(&[[255usize, 1, 1], [256, 1, 1], [257, 2, 1], [1, 300, 1], [300, 1, 1], [40, 41, 3], [500, if t { 500 } else { 140 }, 1]]);
                (format!("weights {:?}", d), vec![Spec::Fc { w: dense(d, 5, -1, 1), b: dense([d[0], 1, d[2]], 6, -1, 1) }])
            }
            2 => {
                let n = *c.pick(&[16usize, 255, 256, 257, 300]);
                (format!("{} kernels", n), vec![Spec::Conv { ks: (0..n).map(|q| dense([2, 1, 1], q as u64, -1, 2)).collect(), bs: (0..n).map(|q| (q % 3) as f64).collect(), input: [3, 1, 1], stride: 1 }])
            }
            _ => {
                let (input, win, stride) = *c.pick(&[([300usize, 1, 1], [2usize, 1usize], 1usize), ([256, 2, 3], [256, 1], 1), ([65, 65, 2], [1, 1], 64), ([1, 70000, 1], [1, 2], 2), ([2, 2, 300], [2, 2], 1)]);
                (format!("pool {:?} {:?} {}", input, win, stride), vec![Spec::Pool { input, win, stride }])
            }
        };
        c.log(|| what.clone());
        let nm = names(specs.len());
        let huge = specs.first().map(|s| parameters(s) > 1 << 20).unwrap_or(false);
        let (from, to) = if huge { (true, false) } else { (c.choose(2) == 1, c.choose(2) == 1) };
        let mut n = build(&specs, &nm, from)?;
        let want: Vec<Face> = specs.iter().zip(&nm).map(|(s, x)| want_face(s, x, from)).collect();
        let mut m = round_trip(c, &mut n, &want, to, &what)?;
        let x = [lt(&dense(specs[0].in_dim(), 3, -1, 2))];
        let g = [lt(&dense(specs.last().unwrap().out_dim(), 3, -1, 2))];
        if huge {
            // products of that length are not exact
            return Ok(());
        }
        alike(c, &mut n, &mut m, to, &x, &g, &what)?;
        alike(c, &mut n, &mut m, true, &x, &g, &what)
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (ls, hd, al) = if t { (5, 7, 14) } else { (4, 6, 10) };
    (
        vec![
            Driver::new("all stacks", &format!("6 input shapes x every stack of 0..={ls} layers from a menu of up to 7 fitting layers x saver mode x loader mode x saver used or not; outputs and training compared, two generations"), stacks(ls)),
            Driver::new("special floats at every position", "14 special floats x every parameter position (and all at once) of a convolutional and a fully connected layer, through a file and through another layer", special_positions),
            Driver::new("special float assignments", &format!("every assignment of {al} special floats to all parameters of two small layers"), special_assignments(al)),
            Driver::new("names", "30 names (empty, NUL, unicode, up to 80000 bytes) x 4 kinds x saver and loader mode", naming),
            Driver::new("layer into layer", "4 kinds x 5 configurations x 5 stages of use, loaded into an empty layer or into 5 configurations x 5 stages of use; forward and backward compared with the reference in every mode", layer_to_layer),
            Driver::new("save and load histories", &format!("two networks, two files, every sequence of {hd} calls out of 11"), histories(hd)),
            Driver::new("file names", "every ordered pair of 68 unusual file names, and each name under 6 spellings of its path", named_files(
                |i| {
                    let s = singles();
                    let n = names(1);
                    let s = [s[1].clone(), s[0].clone(), Spec::Fc { w: dense([2, 3, 1], 8, -2, 2), b: dense([2, 1, 1], 9, -2, 2) }];
                    look(&build(&s[i..i + 1], &n, false).expect("harness: network"))
                },
                |w, p| {
                    let s = w.layers[0].data.clone().expect("harness: fields");
                    let mut n = Network::new(train(false));
                    codec::to_serialized(s.0, &s.1).add_to_network(&mut n)?;
                    n.save_to_file(p).map_err(|e| e.to_string())
                },
                |p, w| {
                    let mut n = Network::new(train(false));
                    n.load_from_file(p).map_err(|e| e.to_string())?;
                    Ok(look(&n) == *w)
                },
            )),
            Driver::new("paths over time", &format!("2 paths x every sequence of {} writes of 4 networks (some of equal length) by others or by the library, loads, removals and cuts", if t { 6 } else { 5 }), super::c18::over_time(&[true], if t { 6 } else { 5 }, 0)).waiting(),
            Driver::new("repetition", "6 larger layers x 20 forms of contents that say little (constant, mostly zero, few values, few bits), 80 networks of equal or alternating layers, kernels and names", repetition),
            Driver::new("very many layers", &format!("{:?} layers of one element, of one kind or of three in turn, in a thread with 2 MB of stack", super::net::many(t)), super::net::very_many(super::net::Deep::File, super::net::many(t))),
            Driver::new("large networks", "up to 300 layers or kernels and tensors across the 2^8 and 2^16 boundaries", large(t)),
        ],
        vec!["networks are built from the four library layers, with positive dimensions", "inputs and parameters other than the special floats are small integers"],
    )
}
