//! C08: layers accept exactly the geometries they can run.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::Layer;
use rusty_network::tensor::Tensor;

/// Everything observable about a layer without running it.
pub fn face(l: &dyn Layer) -> String {
    let f = codec::of_serialized(&l.get_serialized());
    format!("{:?} {:?} {:?} {:?} {:?}", l.get_input_shape(), l.get_output_shape(), l.get_name(), l.get_run_mode(), f)
}
/// The layer consumes and produces what it reports, and computes `s`.
fn runs(c: &mut Ctx, l: &mut dyn Layer, s: &Spec, what: &str) -> Result<(), String> {
    need(dim(&l.get_input_shape()) == s.in_dim(), || format!("{}: reports input {:?}, should be {:?}", what, l.get_input_shape(), s.in_dim()))?;
    need(dim(&l.get_output_shape()) == s.out_dim(), || format!("{}: reports output {:?}, should be {:?}", what, l.get_output_shape(), s.out_dim()))?;
    let x = dense(s.in_dim(), 17, -3, 3);
    for t in [false, true] {
        if t {
            l.switch_to_training();
        }
        let mut o = lt(&RT::filled(s.out_dim(), 77.0));
        l.forward(&lt(&x), &mut o).map_err(|e| format!("{}: forward on the reported shapes refused (training={}): {}", what, t, e))?;
        expect_with(|| format!("{} forward, training={}", what, t), &o, &s.forward(&x), if s.kind() == 3 { 1e-5 } else { 0.0 })?;
        c.step();
    }
    let mut o = lt(&RT::filled(s.in_dim(), 77.0));
    let g = dense(s.out_dim(), 5, 1, 3);
    l.backward(&lt(&x), &lt_lossy(&s.forward(&x)), &lt(&g), &mut o)
        .map_err(|e| format!("{}: backward on the reported shapes refused: {}", what, e))?;
    c.step();
    l.switch_to_inference();
    Ok(())
}
fn conv_spec(ker: Dim, n: usize, input: Dim, stride: usize) -> Spec {
    Spec::Conv {
        ks: (0..n).map(|q| dense(ker, 3 + q as u64, -2, 2)).collect(),
        bs: (0..n).map(|q| q as f64 - 1.0).collect(),
        input,
        stride,
    }
}
fn conv_new(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let input = [c.range(1, max), c.range(1, max), c.range(1, 3)];
        let ker = [c.range(1, max + 1), c.range(1, max + 1), c.range(1, 3)];
        c.log(|| format!("convolutional layer, input {:?}, kernel {:?}", input, ker));
        for stride in 0..=max_stride {
            for n in 0..=3usize {
                let ok = n >= 1 && ker[2] == input[2] && fits([input[0], input[1]], [ker[0], ker[1]], stride);
                let what = format!("convolutional layer: {} kernel(s) {:?}, input {:?}, stride {}", n, ker, input, stride);
                let r = ConvolutionalLayer::new(shape(ker), shape(input), stride as u32, n as u32, &"n".to_string());
                c.step();
                need(r.is_ok() == ok, || format!("{}: new() says {:?}, should be accepted: {}", what, r.as_ref().map(|_| ()), ok))?;
                if let Ok(mut l) = r {
                    let z = Spec::Conv { ks: vec![RT::zeros(ker); n], bs: vec![0.0; n], input, stride };
                    need(l.get_name() == "n", || format!("{}: name {:?}", what, l.get_name()))?;
                    runs(c, &mut l, &z, &what)?;
                }
                let mut l = Lib::empty(0);
                let before = face(l.lr());
                if n == 0 && !ok {
                    if let Lib::Conv(x) = &mut l {
                        let r = x.fill_from_state(vec![], vec![], shape(input), stride as u32, &"n".to_string());
                        need(r.is_err(), || format!("{}: no kernels were accepted", what))?;
                    }
                } else {
                    let s = conv_spec(ker, n.max(1), input, stride);
                    let r = l.fill(&s, "f");
                    c.step();
                    need(r.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what, r, ok))?;
                    if ok {
                        runs(c, l.l(), &s, &what)?;
                    }
                }
                if !ok {
                    need(face(l.lr()) == before, || format!("{}: refused, but the layer changed", what))?;
                }
                c.observe(mix(ok as u64, (total(input) * 1000 + total(ker) * 10 + stride) as u64));
            }
        }
        Ok(())
    }
}
fn pool_new(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let input = [c.range(1, max), c.range(1, max), c.range(1, 3)];
        let win = [c.range(1, max + 1), c.range(1, max + 1)];
        c.log(|| format!("max pool layer, input {:?}, window {:?}", input, win));
        for stride in 0..=max_stride {
            let ok = fits([input[0], input[1]], win, stride);
            let s = Spec::Pool { input, win, stride };
            let what = s.describe();
            let r = MaxPoolLayer::new(shape([win[0], win[1], 1]), shape(input), stride as u32, &"n".to_string());
            c.step();
            need(r.is_ok() == ok, || format!("{}: new() says {:?}, should be accepted: {}", what, r.as_ref().map(|_| ()), ok))?;
            if let Ok(mut l) = r {
                need(l.get_name() == "n", || format!("{}: name {:?}", what, l.get_name()))?;
                runs(c, &mut l, &s, &what)?;
            }
            let mut l = Lib::empty(2);
            let before = face(l.lr());
            let r = l.fill(&s, "f");
            need(r.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what, r, ok))?;
            if ok {
                runs(c, l.l(), &s, &what)?;
            } else {
                need(face(l.lr()) == before, || format!("{}: refused, but the layer changed", what))?;
            }
            c.observe(mix(ok as u64, (total(input) * 1000 + win[0] * 100 + win[1] * 10 + stride) as u64));
        }
        Ok(())
    }
}
/// Shapes whose dimensions are large; nothing of that size is allocated by a layer in inference mode.
fn pool_large() -> impl Fn(&mut Ctx) -> Result<(), String> {
    const M: usize = u32::MAX as usize;
    let sizes = [1usize, 2, 3, 5, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, M - 1, M];
    move |c| {
        let (a, b) = (*c.pick(&sizes), *c.pick(&sizes));
        let (wa, wb) = (*c.pick(&sizes), *c.pick(&sizes));
        c.log(|| format!("max pool layer, input [{}, {}, 1], window [{}, {}]", a, b, wa, wb));
        if a * b > M {
            return Ok(());
        }
        let sizes0 = [0usize, 1, 2, 4, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, M - 1, M];
        for stride in sizes0 {
            let ok = fits([a, b], [wa, wb], stride);
            let r = MaxPoolLayer::new(shape([wa, wb, 1]), shape([a, b, 1]), stride as u32, &"n".to_string());
            c.step();
            let what = || format!("max pool layer: input [{}, {}, 1], window [{}, {}], stride {}", a, b, wa, wb, stride);
            need(r.is_ok() == ok, || format!("{}: new() says {:?}, should be accepted: {}", what(), r.as_ref().map(|_| ()), ok))?;
            if let Ok(l) = r {
                let o = windows([a, b], [wa, wb], stride);
                need(dim(&l.get_input_shape()) == [a, b, 1] && dim(&l.get_output_shape()) == [o[0], o[1], 1], || {
                    format!("{}: reports {:?} -> {:?}", what(), l.get_input_shape(), l.get_output_shape())
                })?;
            }
            c.observe(mix(ok as u64, (a ^ (b << 7) ^ (wa << 13) ^ (wb << 19) ^ (stride << 23)) as u64));
        }
        Ok(())
    }
}
fn fc_new(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let w = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let b = [c.range(1, max), c.range(1, max), c.range(1, max)];
        c.log(|| format!("fully connected layer, weights {:?}, bias {:?}", w, b));
        let ok = w[0] == b[0] && b[1] == 1 && w[2] == b[2];
        let s = Spec::Fc { w: dense(w, 1, -2, 2), b: dense(b, 2, -2, 2) };
        let what = format!("fully connected layer: weights {:?}, bias {:?}", w, b);
        let mut l = Lib::empty(1);
        let before = face(l.lr());
        let r = l.fill(&s, "f");
        c.step();
        need(r.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what, r, ok))?;
        if ok {
            runs(c, l.l(), &s, &what)?;
            if w[2] == 1 {
                let mut l = FullyConnectedLayer::new(w[1] as u32, w[0] as u32, &"n".to_string());
                need(l.get_name() == "n", || format!("{}: name {:?}", what, l.get_name()))?;
                runs(c, &mut l, &Spec::Fc { w: RT::zeros(w), b: RT::zeros(b) }, &format!("{} (new)", what))?;
                l.fill_weights_with_value(2.0);
                l.fill_bias_with_value(-1.0);
                runs(c, &mut l, &Spec::Fc { w: RT::filled(w, 2.0), b: RT::filled(b, -1.0) }, &format!("{} (new, filled)", what))?;
            }
        } else {
            need(face(l.lr()) == before, || format!("{}: refused, but the layer changed", what))?;
        }
        let mut s = SoftmaxLayer::new(shape(w), &"n".to_string()).map_err(|e| format!("softmax layer {:?} refused: {}", w, e))?;
        need(s.get_name() == "n", || format!("softmax name {:?}", s.get_name()))?;
        runs(c, &mut s, &Spec::Soft { shape: w }, &format!("softmax layer {:?}", w))?;
        c.observe(mix(ok as u64, (total(w) * 100 + total(b)) as u64));
        Ok(())
    }
}
/// Kernel lists of mixed shapes and wrong bias lists.
fn conv_lists() -> impl Fn(&mut Ctx) -> Result<(), String> {
    let shapes: Vec<Dim> = vec![[1, 1, 1], [2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 2], [2, 2, 2]];
    let bias: Vec<Dim> = vec![[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]];
    move |c| {
        let input = *c.pick(&[[2, 2, 1], [2, 2, 2], [3, 3, 1]]);
        let nk = c.range(0, 3);
        let ks: Vec<Dim> = (0..nk).map(|_| *c.pick(&shapes)).collect();
        let nb = c.range(0, 4);
        let bs: Vec<Dim> = (0..nb).map(|_| *c.pick(&bias)).collect();
        c.log(|| format!("convolutional layer, input {:?}, kernels {:?}, biases {:?}", input, ks, bs));
        let ok = nk >= 1
            && ks.iter().all(|k| *k == ks[0])
            && ks[0][2] == input[2]
            && fits([input[0], input[1]], [ks[0][0], ks[0][1]], 1)
            && nb == nk
            && bs.iter().all(|b| *b == [1, 1, 1]);
        let mut l = ConvolutionalLayer::empty();
        let before = face(&l);
        let r = l.fill_from_state(
            ks.iter().map(|k| lt(&RT::filled(*k, 1.0))).collect(),
            bs.iter().map(|b| lt(&RT::filled(*b, 1.0))).collect(),
            shape(input),
            1,
            &"f".to_string(),
        );
        c.step();
        c.observe(mix(ok as u64, (nk * 10 + nb) as u64));
        let what = format!("convolutional layer, input {:?}, kernels {:?}, biases {:?}", input, ks, bs);
        need(r.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what, r, ok))?;
        if ok {
            let s = Spec::Conv { ks: ks.iter().map(|k| RT::filled(*k, 1.0)).collect(), bs: vec![1.0; nk], input, stride: 1 };
            runs(c, &mut l, &s, &what)
        } else {
            need(face(&l) == before, || format!("{}: refused, but the layer changed", what))
        }
    }
}

/// Long lists of kernels and biases in which one is of another shape, or one is missing or too many.
fn long_lists(lens: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&lens);
        let how = c.choose(9);
        let p = if how < 6 { c.choose(n) } else { 0 };
        let input = [3, 3, 1];
        let mut ks: Vec<Dim> = vec![[2, 2, 1]; n];
        let mut bs: Vec<Dim> = vec![[1, 1, 1]; n];
        match how {
            0 => ks[p] = [1, 2, 1],
            1 => ks[p] = [4, 1, 1],
            2 => ks[p] = [2, 2, 2],
            3 => bs[p] = [2, 1, 1],
            4 => bs[p] = [1, 2, 1],
            5 => bs[p] = [1, 1, 3],
            6 => {
                bs.pop();
            }
            7 => bs.push([1, 1, 1]),
            _ => {}
        }
        let ok = how == 8 || n == 1 && how == 0;
        c.log(|| format!("{} kernels, change {} at {}", n, how, p));
        let mut l = ConvolutionalLayer::empty();
        let before = face(&l);
        let kv = |k: &Dim, q: usize| lt(&dense(*k, q as u64, -2, 2));
        let r = l.fill_from_state(ks.iter().enumerate().map(|(q, k)| kv(k, q)).collect(), bs.iter().map(|b| lt(&RT::filled(*b, 1.0))).collect(), shape(input), 1, &"f".to_string());
        c.step();
        c.observe(mix(ok as u64, (n * 1000 + p * 10 + how) as u64));
        let what = format!("convolutional layer, input {:?}, {} kernels and {} biases of which number {} is {:?} and {:?}", input, n, bs.len(), p, ks[p], bs.get(p));
        need(r.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what, r, ok))?;
        if ok {
            let s = Spec::Conv { ks: ks.iter().enumerate().map(|(q, k)| dense(*k, q as u64, -2, 2)).collect(), bs: vec![1.0; n], input, stride: 1 };
            runs(c, &mut l, &s, &what)
        } else {
            need(face(&l) == before, || format!("{}: refused, but the layer changed", what))
        }
    }
}
/// Convolutional and fully connected layers of large sizes, right and off by one.
fn large_sizes(c: &mut Ctx) -> Result<(), String> {
    let e = [8usize, 15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300];
    let (a, b) = (*c.pick(&e), *c.pick(&e));
    if c.choose(2) == 0 {
        c.log(|| format!("convolutional layers on [{}, {}, 2]", a, b));
        for ka in [1, 2, 3, 8, 16, 17, a - 1, a, a + 1] {
            for kb in [1, 2, 3, 8, 16, 17, b - 1, b, b + 1] {
                for stride in [1, 2, 3, 4, 7, 8, 16, 17, 64, 255, 256, 65536] {
                    let ok = fits([a, b], [ka, kb], stride);
                    let what = || format!("convolutional layer: kernel [{}, {}, 2], input [{}, {}, 2], stride {}", ka, kb, a, b, stride);
                    let r = ConvolutionalLayer::new(shape([ka, kb, 2]), shape([a, b, 2]), stride as u32, 2, &"n".to_string());
                    c.step();
                    need(r.is_ok() == ok, || format!("{}: new() says {:?}, should be accepted: {}", what(), r.as_ref().map(|_| ()), ok))?;
                    let s = Spec::Conv { ks: vec![RT::filled([ka, kb, 2], 1.0); 2], bs: vec![0.0; 2], input: [a, b, 2], stride };
                    let mut l = Lib::empty(0);
                    let r2 = l.fill(&s, "n");
                    need(r2.is_ok() == ok, || format!("{}: fill_from_state says {:?}, should be accepted: {}", what(), r2, ok))?;
                    if let Ok(n) = r {
                        for l in [&n as &dyn Layer, l.lr()] {
                            need(dim(&l.get_input_shape()) == s.in_dim() && dim(&l.get_output_shape()) == s.out_dim(), || format!("{}: reports {:?} -> {:?}", what(), l.get_input_shape(), l.get_output_shape()))?;
                        }
                    }
                }
            }
        }
    } else {
        c.log(|| format!("fully connected layers of {} rows and {} columns", a, b));
        for k in [1, 2, 17] {
            for (i, w) in [[a, 1, k], [a + 1, 1, k], [a - 1, 1, k], [b, 1, k], [1, a, k], [a, b, k], [a, 1, k + 1], [1, 1, k], [1, 1, a * k]].into_iter().enumerate() {
                let ok = w == [a, 1, k];
                let s = Spec::Fc { w: dense([a, b, k], 1, -2, 2), b: dense(w, 2, -2, 2) };
                let mut l = Lib::empty(1);
                let r = l.fill(&s, "n");
                c.step();
                need(r.is_ok() == ok, || format!("fully connected layer: weights {:?}, bias {:?}: fill_from_state says {:?}, should be accepted: {}", [a, b, k], w, r, ok))?;
                if ok && i == 0 {
                    runs(c, l.l(), &s, &format!("fully connected layer: weights {:?}", [a, b, k]))?;
                }
            }
        }
    }
    c.observe((a * 1000 + b) as u64);
    Ok(())
}
/// One refused reconfiguration of a live layer of each kind.
fn bad_refill(l: &mut Lib, how: usize) -> Option<(String, Result<(), &'static str>)> {
    let t = |d: Dim| lt(&RT::filled(d, 9.0));
    let nm = "other".to_string();
    Some(match l {
        Lib::Conv(x) => {
            let (k, b, i, s): (Vec<Tensor>, Vec<Tensor>, Dim, u32) = match how {
                0 => (vec![], vec![], [2, 2, 1], 1),
                1 => (vec![t([2, 2, 1]), t([1, 2, 1])], vec![t([1, 1, 1]); 2], [2, 2, 1], 1),
                2 => (vec![t([2, 2, 1])], vec![t([1, 1, 1])], [2, 2, 1], 0),
                3 => (vec![t([3, 2, 1])], vec![t([1, 1, 1])], [2, 2, 1], 1),
                4 => (vec![t([2, 3, 1])], vec![t([1, 1, 1])], [2, 2, 1], 1),
                5 => (vec![t([1, 1, 1])], vec![t([1, 1, 1])], [4, 4, 1], 2),
                6 => (vec![t([1, 1, 2])], vec![t([1, 1, 1])], [2, 2, 1], 1),
                7 => (vec![t([1, 1, 1])], vec![t([1, 1, 1]); 2], [2, 2, 1], 1),
                8 => (vec![t([1, 1, 1]); 2], vec![t([1, 1, 1])], [2, 2, 1], 1),
                9 => (vec![t([1, 1, 1])], vec![t([2, 1, 1])], [2, 2, 1], 1),
                10 => (vec![t([1, 1, 1])], vec![t([1, 1, 1])], [3, 2, 1], 5),
                _ => return None,
            };
            (format!("kernels {:?} biases {} input {:?} stride {}", k.iter().map(|k| k.get_shape()).collect::<Vec<_>>(), b.len(), i, s), x.fill_from_state(k, b, shape(i), s, &nm))
        }
        Lib::Fc(x) => {
            let (w, b) = match how {
                0 => ([2, 3, 1], [3, 1, 1]),
                1 => ([2, 3, 1], [2, 2, 1]),
                2 => ([2, 3, 2], [2, 1, 1]),
                3 => ([2, 3, 1], [2, 1, 2]),
                4 => ([3, 2, 1], [1, 1, 3]),
                5 => ([2, 2, 1], [1, 2, 1]),
                _ => return None,
            };
            (format!("weights {:?} bias {:?}", w, b), x.fill_from_state(t(w), t(b), &nm))
        }
        Lib::Pool(x) => {
            let (i, w, s): (Dim, Dim, u32) = match how {
                0 => ([2, 2, 1], [2, 2, 1], 0),
                1 => ([2, 2, 1], [3, 2, 1], 1),
                2 => ([2, 2, 1], [2, 3, 1], 1),
                3 => ([4, 4, 1], [1, 1, 1], 2),
                4 => ([4, 3, 1], [2, 2, 1], 2),
                5 => ([3, 4, 1], [2, 2, 1], 2),
                _ => return None,
            };
            (format!("input {:?} window {:?} stride {}", i, w, s), x.fill_from_state(shape(i), shape(w), s, &nm))
        }
        Lib::Soft(_) => return None,
    })
}
fn refused_refill() -> impl Fn(&mut Ctx) -> Result<(), String> {
    let menu = menu();
    move |c| {
        let s = c.pick(&menu).clone();
        if s.kind() == 3 {
            return Ok(());
        }
        let training = c.choose(2) == 1;
        let how1 = c.choose(11);
        let twice = c.choose(2) == 1;
        let mut l = Lib::build(&s, "name")?;
        if training {
            l.l().switch_to_training();
        }
        let x = distinct(s.in_dim(), 9);
        let mut o = lt(&RT::filled(s.out_dim(), 77.0));
        let e = |e: &str| format!("{}: forward refused: {}", s.describe(), e);
        l.l().forward(&lt(&x), &mut o).map_err(e)?;
        let before = face(l.lr());
        for k in 0..(1 + twice as usize) {
            let (what, r) = match bad_refill(&mut l, (how1 + 3 * k) % 11) {
                Some(x) => x,
                None => return Ok(()),
            };
            c.log(|| format!("{} training={} refill with {}", s.describe(), training, what));
            c.step();
            need(r.is_err(), || format!("{} refilled with {}: accepted", s.describe(), what))?;
            need(face(l.lr()) == before, || format!("{} refused {}, but changed:\n before {}\n after {}", s.describe(), what, before, face(l.lr())))?;
        }
        c.observe(mix(how1 as u64, hash_rt(&x)));
        if training {
            let g = dense(s.out_dim(), 8, 1, 3);
            let mut og = lt(&RT::filled(s.in_dim(), 77.0));
            l.l().backward(&lt(&x), &o, &lt(&g), &mut og).map_err(|e| format!("{}: backward after a refused refill: {}", s.describe(), e))?;
            if let Some(w) = s.vjp(&x, &g) {
                expect_with(|| format!("{}: gradient after a refused refill", s.describe()), &og, &w, 0.0)?;
            }
        }
        let mut o = lt(&RT::filled(s.out_dim(), 77.0));
        l.l().forward(&lt(&x), &mut o).map_err(e)?;
        expect_with(|| format!("{}: forward after a refused refill", s.describe()), &o, &s.forward(&x), 0.0)
    }
}
/// A layer in use is given another valid configuration: it becomes exactly that, in the mode it was in.
fn accepted_refill() -> impl Fn(&mut Ctx) -> Result<(), String> {
    let fams: Vec<Vec<Spec>> = (0..4).map(super::hist::family).collect();
    move |c| {
        let f = c.pick(&fams);
        let (x, y) = (c.pick(f), c.pick(f));
        let (training, used) = (c.choose(2) == 1, c.choose(2) == 1);
        let name = *c.pick(&["name", "other"]);
        c.log(|| format!("{} then {}, training={} used={}", x.describe(), y.describe(), training, used));
        let mut l = Lib::build(x, "name")?;
        if training {
            l.l().switch_to_training();
        }
        if used {
            let i = lt(&distinct(x.in_dim(), 9));
            let mut o = lt(&RT::filled(x.out_dim(), 77.0));
            l.l().forward(&i, &mut o).map_err(|e| format!("{}: forward refused: {}", x.describe(), e))?;
            if training {
                let mut og = lt(&RT::filled(x.in_dim(), 77.0));
                l.l().backward(&i, &o, &lt(&RT::filled(x.out_dim(), 1.0)), &mut og).map_err(|e| format!("{}: backward refused: {}", x.describe(), e))?;
            }
        }
        let what = format!("{} refilled with {} (training={}, used={})", x.describe(), y.describe(), training, used);
        l.fill(y, name).map_err(|e| format!("{}: refused: {}", what, e))?;
        c.step();
        let fields = codec::layer_fields(y, name);
        need(l.lr().get_name() == name && l.lr().get_run_mode() == train(training) && codec::of_serialized(&l.lr().get_serialized()) == Some(fields), || format!("{}: it became {}", what, face(l.lr())))?;
        if training {
            // first of all in the mode it is in
            let i = lt(&dense(y.in_dim(), 3, -3, 3));
            let mut o = lt(&RT::filled(y.out_dim(), 77.0));
            l.l().forward(&i, &mut o).map_err(|e| format!("{}: forward refused: {}", what, e))?;
            let mut og = lt(&RT::filled(y.in_dim(), 77.0));
            l.l().backward(&i, &o, &lt(&RT::filled(y.out_dim(), 1.0)), &mut og).map_err(|e| format!("{}: backward refused: {}", what, e))?;
        }
        c.observe(mix(training as u64, hash_bytes(7, what.as_bytes())));
        runs(c, l.l(), y, &what)
    }
}
/// A few configured layers of every kind, small enough for history exploration.
pub fn menu() -> Vec<Spec> {
    vec![
        Spec::Fc { w: dense([2, 3, 1], 1, -2, 2), b: dense([2, 1, 1], 2, -1, 1) },
        Spec::Fc { w: dense([2, 2, 2], 3, -2, 2), b: dense([2, 1, 2], 4, -1, 1) },
        conv_spec([2, 2, 1], 2, [3, 3, 1], 1),
        conv_spec([1, 2, 2], 3, [3, 2, 2], 2),
        Spec::Pool { input: [4, 4, 1], win: [2, 2], stride: 2 },
        Spec::Pool { input: [3, 2, 2], win: [2, 1], stride: 1 },
        Spec::Soft { shape: [3, 1, 1] },
        Spec::Soft { shape: [2, 1, 2] },
    ]
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let m = if t { 6 } else { 5 };
    let st = if t { 7 } else { 6 };
    (
        vec![
            Driver::new("convolutional geometries", &format!("inputs 1..={m} squared x 1..=3, kernels 1..={} squared x 1..=3, strides 0..={st}, 0..=3 kernels; new() and fill_from_state; every accepted layer is run in both modes", m + 1), conv_new(m, st)),
            Driver::new("max pool geometries", &format!("inputs 1..={} squared x 1..=3, windows 1..={} squared, strides 0..={}", m + 2, m + 3, st + 2), pool_new(m + 2, st + 2)),
            Driver::new("max pool, large dimensions", "12 sizes from 1 to 2^32-1 in every input/window dimension, 12 strides", pool_large()),
            Driver::new("fully connected and softmax shapes", &format!("weights and bias shapes 1..={} cubed each", if t { 6 } else { 5 }), fc_new(if t { 6 } else { 5 })),
            Driver::new("kernel and bias lists", "0..=3 kernels from 6 shapes, 0..=4 biases from 4 shapes, 3 inputs", conv_lists()),
            Driver::new("long kernel and bias lists", &format!("lists of up to {} kernels and biases: one of another shape at every place, one missing or too many", if t { 1025 } else { 257 }), long_lists(if t { vec![1, 2, 4, 5, 8, 16, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 512, 1025] } else { vec![1, 2, 4, 5, 8, 16, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257] })),
            Driver::new("large sizes", "convolutional layers of 14 x 14 image sizes up to 300, 9 x 9 kernel sizes and 12 strides; fully connected layers of 14 x 14 x 3 sizes with 9 bias shapes", large_sizes),
            Driver::new("refused refill of a live layer", "8 layers x both modes x up to 11 bad reconfigurations, alone and in pairs", refused_refill()),
            Driver::new("accepted refill of a layer in use", "every ordered pair of up to 12 configurations of each kind that differ in single respects x both modes x used or not x same or new name", accepted_refill()),
        ],
        vec!["dimensions are positive and element counts fit 32 bits"],
    )
}
