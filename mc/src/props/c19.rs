//! C19: the on-disk format, against an independent codec.
use super::net::{fitting, in_value, FIRST};
use super::nets::*;
use crate::engine::*;
use crate::glue::codec::Fields;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::Layer;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;

/// The file loads to the network the layers describe: structure, parameters and function.
fn describes(c: &mut Ctx, bytes: &[u8], specs: &[Spec], nm: &[String], training: bool, what: &dyn Fn() -> String) -> Result<Network, String> {
    let p = path(c, "in");
    put(&p, bytes);
    let mut n = Network::new(train(training));
    n.load_from_file(&p).map_err(|e| format!("{}: refused: {}", what(), e))?;
    c.step();
    let l = look(&n);
    need(l.layers.len() == specs.len(), || format!("{}: gives {} layers", what(), l.layers.len()))?;
    for (i, s) in specs.iter().enumerate() {
        let f = &l.layers[i];
        need(f.input == s.in_dim() && f.output == s.out_dim() && f.name == nm[i], || format!("{}: layer {} is {:?} {:?} -> {:?}", what(), i, f.name, f.input, f.output))?;
    }
    if specs.is_empty() {
        return Ok(n);
    }
    let kinds = l.layers.iter().map(|f| f.data.as_ref().map(|d| d.0)).collect::<Vec<_>>();
    for w in 0..2 {
        let x = in_value(specs[0].in_dim(), w);
        n.infer(&lt(&x)).map_err(|e| format!("{}: inference fails: {}", what(), e))?;
        c.step();
        let mut xi = x;
        for (i, s) in specs.iter().enumerate() {
            let st = n.get_intermediate_state(i + 1)?;
            expect_with(|| format!("{}: output of layer {} ({})", what(), i, s.describe()), st, &s.forward(&xi), if s.kind() == 3 || xi.v.iter().any(|v| v.fract() != 0.0) { 1e-4 } else { 0.0 })?;
            xi = rd(st);
        }
        c.observe(hash_rt(&xi));
    }
    c.observe(hash_bytes(2, format!("{:?}", kinds).as_bytes()));
    Ok(n)
}
/// The network is saved in the format, field by field.
fn written(c: &mut Ctx, n: &Network, want: &[(u32, Fields)], what: &dyn Fn() -> String) -> Result<(), String> {
    let p = path(c, "out");
    n.save_to_file(&p).map_err(|e| format!("{}: saving failed: {}", what(), e))?;
    c.step();
    let b = get(&p);
    let got = codec::parse_network(&b);
    need(got.as_deref() == Some(want), || format!("{}: the file saved is {:?} (bytes {:?}), should be {:?}", what(), got, &b[..b.len().min(200)], want))
}
fn permute(c: &mut Ctx, f: &Fields) -> Fields {
    let mut left = f.clone();
    let mut v = vec![];
    while !left.is_empty() {
        let i = c.choose(left.len());
        v.push(left.remove(i));
    }
    v
}
fn want(specs: &[Spec], nm: &[String]) -> Vec<(u32, Fields)> {
    specs.iter().zip(nm).map(|(s, n)| codec::layer_fields(s, n)).collect()
}
/// Every field order of the first layer, then of the second, of every stack of up to two layers.
fn field_orders(both: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let specs = choose_stack(c, &FIRST, 0, 2);
        let nm = names(specs.len());
        let mut fs = want(&specs, &nm);
        let permuted = if both || specs.len() < 2 { 0..specs.len() } else { let q = c.choose(2); q..q + 1 };
        for i in permuted {
            fs[i].1 = permute(c, &fs[i].1);
        }
        let training = c.choose(2) == 1;
        c.log(|| format!("field orders {:?}", fs.iter().map(|f| f.1.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()));
        let what = || format!("file of {:?} with field orders {:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>(), fs.iter().map(|f| f.1.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>());
        let n = describes(c, &codec::network(&fs), &specs, &nm, training, &what)?;
        written(c, &n, &want(&specs, &nm), &what)
    }
}
fn stacks(len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let specs = choose_stack(c, &FIRST, 0, len);
        let nm = names(specs.len());
        let training = c.choose(2) == 1;
        let what = || format!("stack {:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>());
        let n = build(&specs, &nm, training)?;
        written(c, &n, &want(&specs, &nm), &what)?;
        // fields in descending order
        let mut fs = want(&specs, &nm);
        fs.iter_mut().for_each(|f| f.1.reverse());
        let n = describes(c, &codec::network(&fs), &specs, &nm, training, &what)?;
        written(c, &n, &want(&specs, &nm), &what)
    }
}
fn geometries(c: &mut Ctx) -> Result<(), String> {
    // every field takes every value of a small range, one layer at a time
    let s = match c.choose(4) {
        0 => {
            let input = [c.range(1, 4), c.range(1, 4), c.range(1, 2)];
            let ker = [c.range(1, 4), c.range(1, 4), input[2]];
            let stride = c.range(1, 3);
            let n = c.range(1, 3);
            if !fits([input[0], input[1]], [ker[0], ker[1]], stride) {
                return Ok(());
            }
            Spec::Conv { ks: (0..n).map(|q| dense(ker, 3 + q as u64, -2, 3)).collect(), bs: (0..n).map(|q| q as f64 - 1.0).collect(), input, stride }
        }
        1 => {
            let d = [c.range(1, 4), c.range(1, 4), c.range(1, 3)];
            Spec::Fc { w: dense(d, 3, -2, 3), b: dense([d[0], 1, d[2]], 4, -2, 3) }
        }
        2 => {
            let input = [c.range(1, 5), c.range(1, 5), c.range(1, 3)];
            let (win, stride) = ([c.range(1, 5), c.range(1, 5)], c.range(1, 4));
            if !fits([input[0], input[1]], win, stride) {
                return Ok(());
            }
            Spec::Pool { input, win, stride }
        }
        _ => Spec::Soft { shape: [c.range(1, 4), c.range(1, 4), c.range(1, 3)] },
    };
    c.log(|| s.describe());
    let nm = vec!["g".to_string()];
    let what = || format!("file of {}", s.describe());
    let n = describes(c, &codec::network(&want(&[s.clone()], &nm)), &[s.clone()], &nm, false, &what)?;
    written(c, &n, &want(&[s.clone()], &nm), &what)?;
    let n = build(&[s.clone()], &nm, true)?;
    written(c, &n, &want(&[s.clone()], &nm), &what)
}
/// Parameters with arbitrary bits are stored as they are.
fn float_bits(c: &mut Ctx) -> Result<(), String> {
    let s = c.pick(&singles()[..2]).clone();
    let n = parameters(&s);
    let p = c.choose(n);
    let mut v: Vec<u32> = (0..n).map(|i| (0.1f32 * i as f32).to_bits()).collect();
    v[p] = *c.pick(&SPECIAL);
    c.log(|| format!("{} bits {:x?}", s.describe(), v));
    let want = with_bits(&s, "f", &v);
    let what = || format!("{} with bits {:x?}", s.describe(), v);
    let l = lib_with_bits(&s, "f", &v)?;
    let mut net = Network::new(train(false));
    l.add_to(&mut net).map_err(|e| e.to_string())?;
    written(c, &net, &[want.clone()], &what)?;
    let p = path(c, "in");
    put(&p, &codec::network(&[want.clone()]));
    let mut n = Network::new(train(true));
    n.load_from_file(&p).map_err(|e| format!("{}: refused: {}", what(), e))?;
    written(c, &n, &[want], &what)
}
fn named(c: &mut Ctx) -> Result<(), String> {
    let s = c.pick(&singles()).clone();
    let x = c.pick(&["".to_string(), "a".into(), "é".into(), "\0".into(), "🦀🦀".into(), "x".repeat(255), "x".repeat(256), "x".repeat(70000)]).clone();
    let nm = vec![x.clone()];
    let what = || format!("{} with a name of {} bytes", s.describe(), x.len());
    c.log(what);
    let n = describes(c, &codec::network(&want(&[s.clone()], &nm)), &[s.clone()], &nm, false, &what)?;
    written(c, &n, &want(&[s.clone()], &nm), &what)
}
/// A single serialized layer, without a network.
fn layers_alone(c: &mut Ctx) -> Result<(), String> {
    let specs: Vec<Spec> = FIRST.iter().flat_map(|d| fitting(*d, 2)).collect();
    let s = c.pick(&specs).clone();
    c.log(|| s.describe());
    let w = codec::layer_fields(&s, "alone");
    let l = Lib::build(&s, "alone")?;
    let got = codec::of_serialized(&l.lr().get_serialized());
    c.step();
    need(got.as_ref() == Some(&w), || format!("{}: serialized as {:?}, should be {:?}", s.describe(), got, w))?;
    let mut o = Lib::empty(s.kind());
    o.l().load_from_serialized(&codec::to_serialized(w.0, &permute(c, &w.1))).map_err(|e| format!("{}: data in the format refused: {}", s.describe(), e))?;
    c.step();
    let got = codec::of_serialized(&o.lr().get_serialized());
    c.observe(hash_bytes(1, s.describe().as_bytes()));
    need(got.as_ref() == Some(&w), || format!("{}: loaded and serialized as {:?}, should be {:?}", s.describe(), got, w))
}
/// The zero-initialised layers of the constructors.
fn constructed(c: &mut Ctx) -> Result<(), String> {
    let stride = c.range(1, 3);
    let (a, n) = (c.range(1, 3), c.range(1, 3));
    let ker = [a, 1, 2];
    let input = [a + stride, 1, 2];
    let l = ConvolutionalLayer::new(shape(ker), shape(input), stride as u32, n as u32, &"c".to_string()).map_err(|e| e.to_string())?;
    let s = Spec::Conv { ks: vec![RT::zeros(ker); n], bs: vec![0.0; n], input, stride };
    c.log(|| s.describe());
    let got = codec::of_serialized(&l.get_serialized());
    c.step();
    need(got == Some(codec::layer_fields(&s, "c")), || format!("{}: serialized as {:?}", s.describe(), got))
}
fn tensors(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let s = c.choose(SPECIAL.len() + 1);
        let mut v: Vec<u32> = (0..total(d)).map(|i| (i as f32 * 0.3 - 1.0).to_bits()).collect();
        if s < SPECIAL.len() {
            let p = c.choose(v.len());
            v[p] = SPECIAL[s];
        }
        c.log(|| format!("{:?} {:x?}", d, v));
        tensor_case(c, d, &v)
    }
}
fn tensor_case(c: &mut Ctx, d: Dim, v: &[u32]) -> Result<(), String> {
    let p = path(c, "t");
    let b = codec::tensor_bits(d, v);
    tensor_of_bits(d, v).save_to_file(&p).map_err(|e| format!("tensor {:?}: saving failed: {}", d, e))?;
    let got = get(&p);
    let at = (0..b.len()).find(|i| got.get(*i) != Some(&b[*i]));
    need(got == b, || format!("tensor {:?}: the file has {} bytes, should have {}; first difference at byte {:?}", d, got.len(), b.len(), at))?;
    put(&p, &b);
    let t = Tensor::from_file(&p).map_err(|e| format!("tensor {:?}: a file in the format is refused: {}", d, e))?;
    c.steps(2);
    c.observe(hash_bytes(7, &b));
    need(dim(&t.get_shape()) == d && bits(&t) == v, || format!("tensor {:?}: a file in the format is read as {:?}", d, t.get_shape()))
}
fn large(c: &mut Ctx) -> Result<(), String> {
    match c.choose(3) {
        0 => {
            let d = *c.pick(&[[256usize, 1, 1], [1, 257, 1], [1, 1, 300], [65536, 1, 1], [1, 65537, 1], [300, 300, 1], [2, 3, 70000]]);
            c.log(|| format!("{:?}", d));
            let v: Vec<u32> = (0..total(d) as u32).map(|i| i.wrapping_mul(2654435761)).collect();
            tensor_case(c, d, &v)
        }
        1 => {
            let n = *c.pick(&[10usize, 255, 256, 257, 1000]);
            c.log(|| format!("{} layers", n));
            // a permutation, so that the numbers stay small
            let specs: Vec<Spec> = (0..n).map(|i| Spec::Fc { w: RT::from_fn([3, 3, 1], |r, q, _| if (r + i) % 3 == q { 1.0 } else { 0.0 }), b: RT::new([3, 1, 1], vec![(i % 3) as f64 - 1.0, 0.0, ((i + 1) % 3) as f64 - 1.0]) }).collect();
            let nm = names(n);
            let what = || format!("file of {} layers", n);
            let net = describes(c, &codec::network(&want(&specs, &nm)), &specs, &nm, false, &what)?;
            written(c, &net, &want(&specs, &nm), &what)
        }
        _ => {
            let n = *c.pick(&[255usize, 256, 257, 1000]);
            c.log(|| format!("{} kernels", n));
            let specs = vec![Spec::Conv { ks: (0..n).map(|q| dense([1, 2, 1], q as u64, -1, 2)).collect(), bs: (0..n).map(|q| (q % 5) as f64).collect(), input: [1, 3, 1], stride: 1 }];
            let nm = names(1);
            let what = || format!("file with {} kernels", n);
            let net = describes(c, &codec::network(&want(&specs, &nm)), &specs, &nm, false, &what)?;
            written(c, &net, &want(&specs, &nm), &what)
        }
    }
}
const FORMS: [Dim; 9] = [[600, 1, 1], [32, 32, 1], [1, 1025, 1], [1, 1, 2048], [64, 64, 1], [100, 10, 5], [255, 65, 1], [1, 66000, 1], [300, 300, 3]];
/// Contents that repeat or say little are stored like any other.
fn repetition(c: &mut Ctx) -> Result<(), String> {
    match c.choose(3) {
        0 => {
            let d = *c.pick(&FORMS);
            let how = c.choose(PATTERNS);
            c.log(|| format!("tensor {:?}, pattern {}", d, how));
            tensor_case(c, d, &pattern(how, total(d)))
        }
        1 => {
            let s = c
                .pick(&[
                    Spec::Fc { w: RT::zeros([32, 32, 1]), b: RT::zeros([32, 1, 1]) },
                    Spec::Fc { w: RT::zeros([2, 600, 1]), b: RT::zeros([2, 1, 1]) },
                    Spec::Fc { w: RT::zeros([1, 66000, 1]), b: RT::zeros([1, 1, 1]) },
                    Spec::Conv { ks: vec![RT::zeros([2, 2, 1]); 300], bs: vec![0.0; 300], input: [3, 3, 1], stride: 1 },
                    Spec::Conv { ks: vec![RT::zeros([16, 17, 4]); 2], bs: vec![0.0; 2], input: [16, 18, 4], stride: 1 },
                ])
                .clone();
            let how = c.choose(PATTERNS);
            let v = pattern(how, parameters(&s));
            let what = || format!("layer {:?} -> {:?} with contents of pattern {}", s.in_dim(), s.out_dim(), how);
            c.log(what);
            let want = with_bits(&s, "r", &v);
            let l = lib_with_bits(&s, "r", &v)?;
            let mut net = Network::new(train(false));
            l.add_to(&mut net).map_err(|e| e.to_string())?;
            written(c, &net, &[want.clone()], &what)?;
            let p = path(c, "in");
            put(&p, &codec::network(&[want.clone()]));
            let mut n = Network::new(train(true));
            n.load_from_file(&p).map_err(|e| format!("{}: refused: {}", what(), e))?;
            written(c, &n, &[want], &what)
        }
        _ => {
            let (title, specs, nm) = c.pick(&repetitive()).clone();
            let training = c.choose(2) == 1;
            let what = || format!("network of {}", title);
            c.log(what);
            let n = build(&specs, &nm, training)?;
            written(c, &n, &want(&specs, &nm), &what)?;
            let n = describes(c, &codec::network(&want(&specs, &nm)), &specs, &nm, training, &what)?;
            written(c, &n, &want(&specs, &nm), &what)
        }
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (sl, m) = if t { (6, 6) } else { (5, 4) };
    (
        vec![
            Driver::new("field orders", &format!("6 input shapes x every stack of 0..=2 layers x every order of the fields of both layers x both modes: loaded, run and saved again"), field_orders(true)),
            Driver::new("all stacks", &format!("6 input shapes x every stack of 0..={sl} layers x both modes: saved as built, loaded from the independent codec's bytes, saved again"), stacks(sl)),
            Driver::new("geometries", "every convolution up to 4x4x2 / 3 kernels / stride 3, fully connected layer up to 4x4x3, pooling up to 5x5x3 / stride 4, softmax up to 4x4x3", geometries),
            Driver::new("float bits", "14 special floats at every parameter position of two layers, both directions", float_bits),
            Driver::new("names", "4 kinds x 8 names", named),
            Driver::new("layers alone", "38 layers x every field order, serialized and loaded without a network", layers_alone),
            Driver::new("constructed layers", "27 convolutional layers straight from the constructor", constructed),
            Driver::new("tensors", &format!("every shape up to {m}x{m}x{m} x 14 special floats at every position, both directions"), tensors(m)),
            Driver::new("repetition", "9 larger tensors and 5 layers x 20 forms of contents that say little (constant, mostly zero, few values, few bits), 80 networks of equal or alternating layers, kernels and names, both directions", repetition),
            Driver::new("large files", "7 tensors, up to 1000 layers, up to 1000 kernels", large),
        ],
        vec!["what follows a complete network or tensor in a file is not asserted"],
    )
}
