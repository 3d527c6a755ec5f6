//! C16: damaged or inconsistent network data.
use super::net::fitting;
use super::nets::*;
use crate::engine::*;
use crate::glue::codec::Fields;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::network::Network;
use rusty_network::tensor::Tensor;
use std::collections::BTreeMap;

/// Networks with tensors of this many elements or more are left out (see `too_big`), per layer kind.
const BIG: [u128; 4] = [1 << 13, 1 << 18, 1 << 13, 1 << 16];

fn nan_free(b: &[u32]) -> Vec<u32> {
    b.iter().map(|x| if x & 0x7fffffff > 0x7f800000 { 0x7fc00000 } else { *x }).collect()
}
/// Could a loader that accepts this file be entitled to build a huge layer? Then running it here is
/// not feasible. Shapes whose element count does not even fit 32 bits can't be accepted and are kept.
fn too_big(b: &[u8]) -> bool {
    let mut r = codec::Rd { b, p: 0 };
    let triple = |kind: u32, p: &[u8]| -> bool {
        if p.len() < 12 {
            return false;
        }
        let w = |i: usize| u32::from_le_bytes(p[4 * i..4 * i + 4].try_into().unwrap()) as u128;
        let t = (0..3).map(|i| w(i).max(1)).product::<u128>();
        t >= BIG[kind as usize] && (t < 1 << 32 || w(0) * w(1) * w(2) == 0)
    };
    let n = match r.u64() {
        Some(n) => n,
        None => return false,
    };
    for _ in 0..n {
        let kind = match r.u32() {
            Some(k) if k < 4 => k,
            _ => return false,
        };
        let m = match r.u64() {
            Some(m) => m,
            None => return false,
        };
        for _ in 0..m {
            let (key, len) = match (r.u32(), r.u64()) {
                (Some(k), Some(l)) => (k, l),
                _ => return false,
            };
            if len as usize > b.len() {
                return false;
            }
            let p = match r.take(len as usize) {
                Some(p) => p,
                None => return false,
            };
            let shape_key = matches!((kind, key), (0, 2) | (2, 0) | (3, 0));
            if shape_key && triple(kind, p) {
                return true;
            }
            // the weights' second dimension is the input size
            if kind == 1 && key == 0 && p.len() >= 24 && triple(kind, &p[12..]) {
                return true;
            }
        }
    }
    false
}
/// The network can infer and train on inputs of the shape it reports.
fn well_formed(c: &mut Ctx, n: &mut Network, training: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    let l = look(n);
    need(l.mode == train(training), || format!("{}: accepted, but the network is in mode {:?}", what(), l.mode))?;
    if l.layers.is_empty() {
        need(n.infer(&Tensor::empty()).is_err() && n.get_output().is_err(), || format!("{}: accepted without layers, but it infers", what()))?;
        return Ok(());
    }
    need(l.states.len() == l.layers.len() + 1 && !l.beyond, || format!("{}: accepted with {} layers and {} states", what(), l.layers.len(), l.states.len()))?;
    need(l.input == l.layers[0].input && l.output == l.layers.last().unwrap().output, || format!("{}: accepted, but reports {:?} -> {:?} for layers {:?}", what(), l.input, l.output, l.layers))?;
    for (i, f) in l.layers.iter().enumerate() {
        need(f.mode == train(training), || format!("{}: accepted, but layer {} is in mode {:?}", what(), i, f.mode))?;
        need(l.states[i].0 == f.input && l.states[i + 1].0 == f.output, || format!("{}: accepted, but layer {} maps {:?} -> {:?} between states {:?} and {:?}", what(), i, f.input, f.output, l.states[i].0, l.states[i + 1].0))?;
    }
    for d in [l.input, l.output] {
        let t = d.iter().map(|x| *x as u128).product::<u128>();
        need(t < 1 << 32, || format!("{}: accepted, but reports a shape {:?} no tensor can have", what(), d))?;
        if t > 1 << 22 {
            return Err(format!("HARNESS:{}: a huge shape {:?} was not filtered", what(), d));
        }
    }
    let x = lt(&dense(l.input, 5, -2, 3));
    let g = lt(&dense(l.output, 7, -2, 3));
    let run = |n: &mut Network| -> Result<Vec<Vec<u32>>, String> {
        n.infer(&x).map_err(|e| format!("{}: accepted, but inference on the reported shape fails: {}", what(), e))?;
        let s = look(n).states;
        for (i, f) in s.iter().enumerate() {
            let d = if i == 0 { l.input } else { l.layers[i - 1].output };
            need(f.0 == d, || format!("{}: accepted, but after an inference state {} has shape {:?}", what(), i, f.0))?;
        }
        Ok(s.into_iter().map(|s| nan_free(&s.1)).collect())
    };
    let train_once = |n: &mut Network| -> Result<(), String> {
        n.backward(&g).map_err(|e| format!("{}: accepted, but backpropagation on the reported shape fails: {}", what(), e))
    };
    let a = run(n)?;
    if training {
        train_once(n)?;
        train_once(n)?;
    } else {
        n.switch_to_training();
        run(n)?;
        train_once(n)?;
        n.switch_to_inference();
    }
    let b = run(n)?;
    need(a == b, || format!("{}: accepted, but inference is not repeatable", what()))?;
    c.steps(6);
    c.observe(hash_bytes(9, format!("{:?}", l.layers.iter().map(|f| (f.input, f.output)).collect::<Vec<_>>()).as_bytes()));
    Ok(())
}
/// Networks the damaged files are loaded into.
pub fn host(which: usize) -> Result<(Network, Option<Spec>, bool), String> {
    let training = which % 2 == 1;
    let mut n = Network::new(train(training));
    if which < 2 {
        return Ok((n, None, training));
    }
    let s = [
        Spec::Fc { w: dense([3, 2, 1], 41, -1, 2), b: RT::new([3, 1, 1], vec![1.0, 0.0, -1.0]) },
        Spec::Conv { ks: vec![dense([1, 1, 1], 4, 1, 2)], bs: vec![1.0], input: [3, 2, 1], stride: 1 },
    ][(which / 2 - 1) % 2]
        .clone();
    Lib::build(&s, "host")?.add_to(&mut n).map_err(|e| e.to_string())?;
    n.infer(&lt(&dense(s.in_dim(), 2, -2, 2))).map_err(|e| e.to_string())?;
    Ok((n, Some(s), training))
}
pub const HOSTS: usize = 6;

/// Loads the bytes; `must_refuse`: nothing else is acceptable.
fn judge(c: &mut Ctx, bytes: &[u8], which: usize, must_refuse: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    if too_big(bytes) {
        c.count("huge shapes skipped", 1);
        return Ok(());
    }
    let p = path(c, "net");
    put(&p, bytes);
    let (mut n, s, training) = host(which)?;
    let what = &|| format!("{} loaded into host {}", what(), which);
    let before = look(&n);
    let r = n.load_from_file(&p).map_err(|e| e.to_string());
    c.step();
    match r {
        Ok(()) => {
            need(!must_refuse, || format!("{}: accepted", what()))?;
            c.count("accepted", 1);
            well_formed(c, &mut n, training, what)
        }
        Err(_) => {
            c.count("refused", 1);
            let after = look(&n);
            need(after == before, || format!("{}: refused, but the network changed from {:?} to {:?}", what(), before, after))?;
            // what it was doing goes on: the gradient of the inference in effect, then everything else
            if let (Some(s), true) = (&s, training) {
                let g = dense(s.out_dim(), 3, 1, 2);
                n.backward(&lt(&g)).map_err(|e| format!("{}: refused, and backpropagation then fails: {}", what(), e))?;
                c.step();
            }
            well_formed(c, &mut n, training, what)?;
            // and it still takes a fitting layer
            let d = s.map(|s| s.out_dim()).unwrap_or([2, 1, 1]);
            Lib::build(&Spec::Soft { shape: d }, "next")?.add_to(&mut n).map_err(|e| format!("{}: refused, and a fitting layer is then refused: {}", what(), e))?;
            well_formed(c, &mut n, training, what)
        }
    }
}
/// The stacks whose files are damaged.
fn stacks() -> Vec<Vec<Spec>> {
    let s = singles();
    vec![
        vec![s[0].clone()],
        vec![s[1].clone()],
        vec![s[2].clone()],
        vec![s[3].clone()],
        vec![Spec::Conv { ks: vec![dense([2, 1, 1], 7, -1, 2)], bs: vec![1.0], input: [3, 2, 1], stride: 1 }, Spec::Pool { input: [2, 2, 1], win: [1, 2], stride: 1 }, Spec::Fc { w: dense([2, 2, 1], 8, -1, 2), b: dense([2, 1, 1], 9, -1, 2) }, Spec::Soft { shape: [2, 1, 1] }],
        vec![Spec::Fc { w: dense([3, 3, 1], 2, -1, 2), b: dense([3, 1, 1], 3, -1, 2) }, Spec::Conv { ks: vec![dense([1, 1, 1], 4, 1, 2); 2], bs: vec![0.0, 1.0], input: [3, 1, 1], stride: 2 }],
        vec![],
    ]
}
fn short_names(n: usize) -> Vec<String> {
    (0..n).map(|i| ["n", "", "xy"][i % 3].to_string()).collect()
}
fn img(v: &[Spec]) -> Vec<u8> {
    image(v, &short_names(v.len()))
}
fn truncation(c: &mut Ctx) -> Result<(), String> {
    let v = c.pick(&stacks()).clone();
    let b = img(&v);
    let n = c.choose(b.len());
    let which = c.choose(HOSTS);
    c.log(|| format!("{} layers, {} of {} bytes, host {}", v.len(), n, b.len(), which));
    judge(c, &b[..n], which, true, &|| format!("file of {} layers truncated to {} of {} bytes", v.len(), n, b.len()))
}
fn intact(c: &mut Ctx) -> Result<(), String> {
    // the undamaged file loads (otherwise everything below would be vacuous)
    let v = c.pick(&stacks()).clone();
    let b = img(&v);
    let which = c.choose(2);
    let p = path(c, "net");
    put(&p, &b);
    let (mut n, _, training) = host(which)?;
    n.load_from_file(&p).map_err(|e| format!("an intact file of {} layers is refused: {}", v.len(), e))?;
    c.step();
    need(n.get_layers().len() == v.len(), || "an intact file gives another number of layers".into())?;
    well_formed(c, &mut n, training, &|| "intact file".into())
}
fn one_byte(hosts: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let v = c.pick(&stacks()).clone();
        let mut b = img(&v);
        let p = c.choose(b.len());
        let d = c.range(1, 255);
        let which = c.choose(hosts);
        c.log(|| format!("{} layers, byte {} of {} ^ {}, host {}", v.len(), p, b.len(), d, which));
        b[p] ^= d as u8;
        judge(c, &b, which, false, &|| format!("file of {:?} with byte {} changed by ^{}", v.iter().map(|s| s.describe()).collect::<Vec<_>>(), p, d))
    }
}
fn two_bytes(c: &mut Ctx) -> Result<(), String> {
    let v = c.pick(&stacks()[..4]).clone();
    let b0 = img(&v);
    let mut b = b0.clone();
    let p = c.choose(b.len());
    let q = p + 1 + c.choose(b.len() - p);
    let vals = |x: u8| [x.wrapping_add(1), x.wrapping_sub(1), 0, 2, 255];
    b[p] = *c.pick(&vals(b0[p]));
    if q < b.len() {
        b[q] = *c.pick(&vals(b0[q]));
    }
    if b == b0 {
        return Ok(());
    }
    let which = (p + q) % 2;
    c.log(|| format!("bytes {} and {} := {}, {:?}, host {}", p, q, b[p], b.get(q), which));
    judge(c, &b, which, false, &|| format!("file of {:?} with bytes {} and {} set to {} and {:?}", v.iter().map(|s| s.describe()).collect::<Vec<_>>(), p, q, b[p], b.get(q)))
}
fn inserted(c: &mut Ctx) -> Result<(), String> {
    let v = c.pick(&stacks()).clone();
    let mut b = img(&v);
    let p = c.choose(b.len() + 1);
    let k = *c.pick(&[1usize, 4, 8]);
    let x = *c.pick(&[0u8, 1, 2, 255]);
    let del = c.choose(2) == 1;
    let which = c.choose(3);
    if del {
        let e = (p + k).min(b.len());
        b.drain(p..e);
    } else {
        for _ in 0..k {
            b.insert(p, x);
        }
    }
    c.log(|| format!("{} {} bytes at {}", if del { "deleted" } else { "inserted" }, k, p));
    judge(c, &b, which, false, &|| format!("file of {} layers with {} bytes {} at {}", v.len(), k, if del { "deleted" } else { "inserted" }, p))
}
fn words(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn raw_tensor(strides: [u32; 3], d: [u32; 3], n: u64, data: usize) -> Vec<u8> {
    let mut o = words(&strides);
    o.extend(words(&d));
    o.extend(n.to_le_bytes());
    for i in 0..data {
        o.extend((i as f32 - 1.0).to_le_bytes());
    }
    o
}
/// Payloads a field is replaced with.
fn pool_of_payloads() -> Vec<Vec<u8>> {
    let t = |d: Dim| codec::tensor(&dense(d, 4, -1, 2));
    let ts = |v: &[Dim]| codec::tensors(&v.iter().map(|d| dense(*d, 4, -1, 2)).collect::<Vec<_>>());
    let sh = |d: [u32; 3]| words(&d);
    vec![
        vec![],
        vec![0],
        vec![255; 4],
        vec![255; 8],
        vec![0; 8],
        vec![0; 12],
        vec![0; 40],
        vec![255; 12],
        // names
        codec::string("q"),
        codec::string(""),
        { let mut s = codec::string("ab"); s[8] = 0xff; s },
        { let mut s = codec::string("ab"); s[0] = 3; s },
        // numbers (strides)
        words(&[0]), words(&[1]), words(&[2]), words(&[3]), words(&[u32::MAX]), words(&[1 << 31]),
        // shapes
        sh([1, 1, 1]), sh([2, 2, 1]), sh([3, 2, 1]), sh([2, 1, 2]), sh([4, 2, 2]), sh([0, 2, 2]), sh([2, 0, 2]), sh([2, 2, 0]), sh([0, 0, 0]), sh([5, 5, 1]),
        sh([u32::MAX, 1, 1]), sh([u32::MAX, u32::MAX, u32::MAX]), sh([65536, 65536, 1]), sh([65537, 65537, 1]), sh([1 << 31, 2, 1]), sh([0, u32::MAX, u32::MAX]),
        // tensors
        t([2, 3, 1]), t([2, 1, 1]), t([3, 3, 1]), t([2, 3, 2]), t([2, 1, 2]), t([1, 1, 1]), t([2, 2, 1]), t([1, 3, 1]),
        raw_tensor([1, 2, 6], [2, 3, 1], 5, 5), raw_tensor([1, 2, 6], [2, 3, 1], 7, 7), raw_tensor([1, 2, 6], [2, 3, 1], 6, 5), raw_tensor([1, 1, 1], [2, 3, 1], 6, 6), raw_tensor([3, 1, 6], [2, 3, 1], 6, 6),
        raw_tensor([1, 2, 6], [2, 3, 1], 0, 0), raw_tensor([1, 0, 0], [0, 3, 1], 0, 0), raw_tensor([1, 2, 0], [2, 0, 1], 0, 0), raw_tensor([1, 2, 6], [2, 3, 0], 0, 0), raw_tensor([1, 65536, 0], [65536, 65536, 1], 0, 0), raw_tensor([1, 2, 6], [2, 3, 1], u64::MAX, 6),
        raw_tensor([1, 2, 2], [2, 1, 1], 1, 1), raw_tensor([1, 2, 2], [2, 1, 1], 3, 3), raw_tensor([1, 0, 0], [0, 1, 1], 0, 0), raw_tensor([1, 2, 4], [2, 2, 1], 4, 4),
        // lists of tensors
        ts(&[]), ts(&[[2, 1, 1]]), ts(&[[2, 1, 1], [2, 1, 1]]), ts(&[[2, 1, 1], [1, 2, 1]]), ts(&[[2, 1, 2], [2, 1, 2]]), ts(&[[1, 1, 1], [1, 1, 1]]), ts(&[[1, 1, 1]]), ts(&[[1, 1, 1], [2, 1, 1]]), ts(&[[1, 1, 1]; 3]), ts(&[[2, 1, 1]; 3]), ts(&[[4, 1, 1], [4, 1, 1]]), ts(&[[3, 2, 1], [3, 2, 1]]),
        { let mut o = vec![]; codec::u64b(&mut o, 2); o.extend(raw_tensor([1, 0, 0], [0, 1, 1], 0, 0)); o.extend(raw_tensor([1, 0, 0], [0, 1, 1], 0, 0)); o },
        { let mut o = vec![]; codec::u64b(&mut o, 2); o.extend(raw_tensor([1, 2, 2], [2, 1, 1], 1, 1)); o.extend(raw_tensor([1, 2, 2], [2, 1, 1], 3, 3)); o },
        { let mut o = vec![]; codec::u64b(&mut o, u64::MAX); o.extend(t([2, 1, 1])); o },
        { let mut o = vec![]; codec::u64b(&mut o, 2); o.extend(raw_tensor([1, 2, 0], [2, 1, 0], 0, 0)); o.extend(raw_tensor([1, 2, 0], [2, 1, 0], 0, 0)); o },
    ]
}
fn fields(s: &Spec) -> (u32, Fields) {
    codec::layer_fields(s, "n")
}
/// One or two fields hold something else.
fn fields_replaced(c: &mut Ctx) -> Result<(), String> {
    let s = c.pick(&singles()).clone();
    let (kind, mut fs) = fields(&s);
    let pool = pool_of_payloads();
    let i = c.choose(fs.len());
    let j = i + c.choose(fs.len() - i);
    fs[i].1 = c.pick(&pool).clone();
    if j > i {
        fs[j].1 = c.pick(&pool).clone();
    }
    let which = c.choose(2);
    c.log(|| format!("{} with fields {} and {} replaced by {:?} and {:?}", s.describe(), i, j, fs[i].1, fs[j].1));
    judge(c, &codec::network(&[(kind, fs.clone())]), which, false, &|| format!("{} with fields {} and {} replaced by {:?} and {:?}", s.describe(), i, j, fs[i].1, fs[j].1))
}
/// Fields missing, repeated, renamed, exchanged.
fn fields_moved(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
    let s = c.pick(&singles()).clone();
    let (kind, fs) = fields(&s);
    let m = c.range(0, fs.len().min(max));
    let all = fs.len();
    // every sequence of m (key, payload) pairs
    let v: Fields = (0..m).map(|_| (c.choose(all + 1) as u32, c.choose(all))).map(|(k, p)| (k, fs[p].1.clone())).collect();
    let whole = v.iter().map(|f| f.0).collect::<std::collections::BTreeSet<_>>();
    let which = 0;
    c.log(|| format!("{} with fields {:?}", s.describe(), v));
    judge(c, &codec::network(&[(kind, v.clone())]), which, (0..all as u32).any(|k| !whole.contains(&k)), &|| format!("{} with fields {:?}", s.describe(), v))
    }
}
fn missing(c: &mut Ctx) -> Result<(), String> {
    let v = c.pick(&stacks()).clone();
    let mut ls: Vec<(u32, Fields)> = v.iter().map(fields).collect();
    if ls.is_empty() {
        return Ok(());
    }
    let l = c.choose(ls.len());
    let n = ls[l].1.len();
    let keep = c.choose((1 << n) - 1);
    ls[l].1 = ls[l].1.iter().enumerate().filter(|(i, _)| keep >> i & 1 == 1).map(|(_, f)| f.clone()).collect();
    let which = c.choose(HOSTS);
    c.log(|| format!("layer {} of {} keeps fields {:b}", l, v.len(), keep));
    judge(c, &codec::network(&ls), which, true, &|| format!("layer {} of {} without some of its fields (kept {:b})", l, v.len(), keep))
}
/// Any fields under any kind.
fn kinds_exchanged(c: &mut Ctx) -> Result<(), String> {
    let v = c.pick(&stacks()[..4]).clone();
    let (kind, fs) = fields(&v[0]);
    let k = c.choose(6) as u32;
    if k == kind {
        return Ok(());
    }
    let which = c.choose(HOSTS);
    c.log(|| format!("{} under kind {}", v[0].describe(), k));
    judge(c, &codec::network(&[(k, fs)]), which, false, &|| format!("{} under kind {}", v[0].describe(), k))
}
/// Every sequence of layers, fitting or not.
fn sequences(len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let menu = vec![
            Spec::Fc { w: dense([2, 2, 1], 1, -1, 2), b: dense([2, 1, 1], 2, -1, 2) },
            Spec::Fc { w: dense([3, 2, 1], 3, -1, 2), b: dense([3, 1, 1], 4, -1, 2) },
            Spec::Soft { shape: [2, 1, 1] },
            Spec::Soft { shape: [1, 2, 1] },
            Spec::Conv { ks: vec![dense([1, 1, 1], 5, -1, 2); 2], bs: vec![0.0, 1.0], input: [2, 1, 1], stride: 1 },
            Spec::Pool { input: [2, 1, 2], win: [2, 1], stride: 1 },
            Spec::Conv { ks: vec![dense([1, 1, 2], 6, -1, 2)], bs: vec![1.0], input: [1, 1, 2], stride: 1 },
            Spec::Fc { w: dense([2, 1, 1], 7, -1, 2), b: dense([2, 1, 1], 8, -1, 2) },
            Spec::Pool { input: [3, 2, 1], win: [2, 2], stride: 1 },
        ];
        let n = c.range(1, len);
        let v: Vec<Spec> = (0..n).map(|_| c.pick(&menu).clone()).collect();
        let which = c.choose(HOSTS);
        let (_, s, _) = host(which)?;
        let fits = v.windows(2).all(|w| w[0].out_dim() == w[1].in_dim()) && s.map(|s| s.out_dim() == v[0].in_dim()).unwrap_or(true);
        c.log(|| format!("{:?} into host {}, fits: {}", v.iter().map(|s| s.describe()).collect::<Vec<_>>(), which, fits));
        judge(c, &img(&v), which, !fits, &|| format!("file of layers {:?}", v.iter().map(|s| s.describe()).collect::<Vec<_>>()))?;
        if fits && which < 2 {
            let (mut n, _, _) = host(which)?;
            n.load_from_file(&path(c, "net")).map_err(|e| format!("layers that fit together are refused: {:?}: {}", v.iter().map(|s| s.describe()).collect::<Vec<_>>(), e))?;
        }
        Ok(())
    }
}
/// Long files with one layer that does not fit, or cut short behind a layer.
fn long_files(lens: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&lens);
        // where the misfit is; n: nowhere
        let at = c.choose(n + 1);
        let kind = c.choose(4);
        let which = c.choose(HOSTS);
        let (_, s, _) = host(which)?;
        let d = s.map(|s| s.out_dim()).unwrap_or([2, 1, 1]);
        let mut v: Vec<Spec> = (0..n).map(|_| Spec::Soft { shape: d }).collect();
        if at < n && kind < 2 {
            v[at] = if kind == 0 { Spec::Soft { shape: [d[0] + 1, d[1], d[2]] } } else { Spec::Pool { input: [d[0], d[1] + 1, d[2]], win: [1, 1], stride: 1 } };
        }
        let mut b = img(&v);
        if at < n && kind >= 2 {
            // everything up to some byte of the layer; or a kind of layer that does not exist
            let upto = img(&v[..at]).len();
            if kind == 2 {
                b.truncate(upto + 2);
            } else {
                b[upto] = 9;
            }
        }
        c.log(|| format!("{} layers, the damage of kind {} at {}, into host {}", n, kind, at, which));
        if n == 1 && at == 0 && kind < 2 && which < 2 {
            // a single layer always fits an empty network
            return Ok(());
        }
        judge(c, &b, which, at < n, &|| format!("file of {} layers, damage {} at layer {}", n, kind, at))?;
        if at == n && kind == 0 {
            let (mut m, _, _) = host(which)?;
            let before = m.get_layers().len();
            m.load_from_file(&path(c, "net")).map_err(|e| format!("a file of {} layers that fit is refused: {}", n, e))?;
            need(m.get_layers().len() == before + n, || format!("a file of {} layers was loaded as {}", n, m.get_layers().len() - before))?;
        }
        Ok(())
    }
}
/// Shapes at and beyond the limits, in consistent files.
fn extreme_shapes(c: &mut Ctx) -> Result<(), String> {
    let dims: [u32; 8] = [1, 2, 3, 0, 65536, 65537, 1 << 31, u32::MAX];
    let d = [*c.pick(&dims), *c.pick(&dims), *c.pick(&dims)];
    let which = c.choose(3);
    let form = c.choose(6);
    let m = [*c.pick(&[1u32, 0, 2, u32::MAX]), *c.pick(&[1u32, 0, 2, 1 << 31]), *c.pick(&[1u32, 0])];
    let small = |d: [u32; 3]| (d[0] as u64).checked_mul(d[1] as u64).and_then(|x| x.checked_mul(d[2] as u64)).map(|t| t < 64).unwrap_or(false);
    let (kind, fs): (u32, Fields) = match form {
        0 => (3, vec![(0, words(&d)), (1, codec::string("n"))]),
        1 | 2 => (2, vec![(0, words(&d)), (1, words(&m)), (2, words(&[form as u32 - 1])), (3, codec::string("n"))]),
        3 | 4 => {
            if !small(m) {
                return Ok(());
            }
            let t = m[0] as u64 * m[1] as u64 * m[2] as u64;
            let k = raw_tensor([1, m[0], m[0].wrapping_mul(m[1])], m, t, t as usize);
            let n = form as u64 - 2;
            let mut ks = n.to_le_bytes().to_vec();
            let mut bs = n.to_le_bytes().to_vec();
            for _ in 0..n {
                ks.extend(&k);
                bs.extend(raw_tensor([1, 1, 1], [1, 1, 1], 1, 1));
            }
            (0, vec![(0, ks), (1, bs), (2, words(&d)), (3, words(&[1])), (4, codec::string("n"))])
        }
        _ => {
            // weights and bias of degenerate shapes
            if !small(d) || !small(m) {
                return Ok(());
            }
            let t = |d: [u32; 3]| {
                let n = d[0] as u64 * d[1] as u64 * d[2] as u64;
                raw_tensor([1, d[0], d[0].wrapping_mul(d[1])], d, n, n as usize)
            };
            (1, vec![(0, t(d)), (1, t(m)), (2, codec::string("n"))])
        }
    };
    c.log(|| format!("kind {} shape {:?} mask/kernel/bias {:?} form {}", kind, d, m, form));
    judge(c, &codec::network(&[(kind, fs)]), which, false, &|| format!("kind {} with shape {:?} and {:?} (form {})", kind, d, m, form))
}
/// Serialized data of another kind, or damaged data of its own kind, loaded into a layer.
fn into_layer(c: &mut Ctx) -> Result<(), String> {
    let target = c.pick(&singles()).clone();
    let other = c.pick(&singles()).clone();
    let (kind, mut fs) = fields(&other);
    let life = c.choose(4);
    let own = other.kind() == target.kind();
    let n = fs.len();
    let what;
    if own {
        // leave out a field, or break one
        let f = c.choose(n);
        match c.choose(3) {
            0 => {
                fs.remove(f);
                what = format!("without field {}", f);
            }
            1 => {
                fs[f].1.pop();
                what = format!("with field {} cut short", f);
            }
            _ => {
                fs[f].1 = vec![];
                what = format!("with field {} empty", f);
            }
        }
    } else {
        what = "of another kind".into();
    }
    c.log(|| format!("{} (use {}) is given {} {}", target.describe(), life, other.describe(), what));
    let make = || -> Result<(Lib, Tensor, Tensor), String> {
        let mut l = Lib::build(&target, "t")?;
        let x = lt(&distinct(target.in_dim(), 3));
        let mut o = Tensor::new(shape(target.out_dim()));
        if life & 1 == 1 {
            l.l().switch_to_training();
        }
        if life & 2 == 2 {
            l.l().forward(&x, &mut o)?;
        }
        Ok((l, x, o))
    };
    let (mut a, x, o) = make()?;
    let (mut b, _, _) = make()?;
    let before = face_of(a.lr());
    let data = codec::to_serialized(kind, &fs);
    let r = a.l().load_from_serialized(&data);
    c.step();
    let w = || format!("{} (use {}) given data of {} {}", target.describe(), life, other.describe(), what);
    need(r.is_err(), || format!("{}: accepted", w()))?;
    let after = face_of(a.lr());
    need(after == before, || format!("{}: refused, but the layer changed from {:?} to {:?}", w(), before, after))?;
    // and it goes on exactly like a twin that was not given anything
    let g = lt(&dense(target.out_dim(), 4, -2, 3));
    for step in 0..3 {
        let (mut ga, mut gb) = (lt(&RT::filled(target.in_dim(), 5.0)), lt(&RT::filled(target.in_dim(), 5.0)));
        if life & 2 == 2 || step > 0 {
            let (ra, rb) = (a.l().backward(&x, &o, &g, &mut ga), b.l().backward(&x, &o, &g, &mut gb));
            c.steps(2);
            need(ra == rb && bits(&ga) == bits(&gb), || format!("{}: refused, but backpropagation then gives {:?} {:?} instead of {:?} {:?}", w(), ra, rd(&ga), rb, rd(&gb)))?;
        }
        let (mut oa, mut ob) = (lt(&RT::filled(target.out_dim(), 5.0)), lt(&RT::filled(target.out_dim(), 5.0)));
        let (ra, rb) = (a.l().forward(&x, &mut oa), b.l().forward(&x, &mut ob));
        c.steps(2);
        need(ra == rb && bits(&oa) == bits(&ob), || format!("{}: refused, but the forward pass then gives {:?} {:?} instead of {:?} {:?}", w(), ra, rd(&oa), rb, rd(&ob)))?;
        c.observe(hash_t(&oa));
        if step == 1 {
            a.l().switch_to_training();
            b.l().switch_to_training();
        }
    }
    Ok(())
}
/// Failing loads in the middle of a network's life.
fn load_histories(depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Bad(usize),
        Add,
        Infer,
        Backward,
        ToTraining,
        ToInference,
    }
    let ops = [Op::Bad(0), Op::Bad(1), Op::Bad(2), Op::Bad(3), Op::Add, Op::Infer, Op::Backward, Op::ToTraining, Op::ToInference];
    // a network with failing loads goes through the same life as its twin without them
    move |c| {
        let training = c.choose(2) == 1;
        let mut twins = [Network::new(train(training)), Network::new(train(training))];
        let mut specs: Vec<Spec> = vec![];
        let mut hist = vec![];
        let p = path(c, "bad");
        for _ in 0..depth {
            let op = *c.pick(&ops);
            hist.push(op);
            c.log(|| format!("{:?}", op));
            c.step();
            let d = specs.last().map(|s| s.out_dim()).unwrap_or([3, 1, 1]);
            match op {
                Op::Bad(k) => {
                    let f = fitting(d, 1);
                    let good = f[0].clone();
                    let misfit = Spec::Soft { shape: [7, 1, 1] };
                    let b = match k {
                        0 => img(&[good, misfit]),
                        1 => {
                            let mut b = img(&[good]);
                            b.pop();
                            b
                        }
                        2 => {
                            let (k, mut fs) = fields(&good);
                            fs.pop();
                            codec::network(&[fields(&f[f.len() - 1]), (k, fs)])
                        }
                        _ => img(&[good.clone(), Spec::Soft { shape: good.out_dim() }, misfit]),
                    };
                    put(&p, &b);
                    need(twins[0].load_from_file(&p).is_err(), || format!("after {:?}: damaged file accepted", hist))?;
                }
                Op::Add => {
                    if specs.len() < 3 {
                        let f = fitting(d, specs.len() as u64);
                        let s = f[(specs.len() * 2 + 1) % f.len()].clone();
                        for n in &mut twins {
                            Lib::build(&s, "l")?.add_to(n).map_err(|e| format!("after {:?}: {}", hist, e))?;
                        }
                        specs.push(s);
                    }
                }
                Op::Infer => {
                    let d = specs.first().map(|s| s.in_dim()).unwrap_or([1, 1, 1]);
                    let x = lt(&dense(d, 3, -1, 3));
                    let r = [twins[0].infer(&x), twins[1].infer(&x)];
                    need(r[0] == r[1], || format!("after {:?}: inference gives {:?}, without the failed loads {:?}", hist, r[0], r[1]))?;
                }
                Op::Backward => {
                    let g = lt(&dense(d, 4, -1, 3));
                    let r = [twins[0].backward(&g), twins[1].backward(&g)];
                    need(r[0] == r[1], || format!("after {:?}: backpropagation gives {:?}, without the failed loads {:?}", hist, r[0], r[1]))?;
                }
                Op::ToTraining => twins.iter_mut().for_each(|n| n.switch_to_training()),
                Op::ToInference => twins.iter_mut().for_each(|n| n.switch_to_inference()),
            }
            let (a, b) = (look(&twins[0]), look(&twins[1]));
            need(a == b, || format!("after {:?}: the network is {:?}, without the failed loads it is {:?}", hist, a, b))?;
            c.observe(hash_bytes(4, format!("{:?}{:?}{}", a.mode, a.output, specs.len()).as_bytes()));
        }
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let _: BTreeMap<u32, u32> = BTreeMap::new();
    let (h, sl, hd) = if t { (HOSTS, 4, 7) } else { (3, 3, 6) };
    (
        vec![
            Driver::new("intact files", "7 files x both modes: accepted and well-formed", intact),
            Driver::new("truncation", "7 files (every kind alone, stacks of 2 and 4, no layers) x every shorter length x 6 hosts (empty or not, both modes)", truncation),
            Driver::new("one byte altered", &format!("7 files x every byte x all 255 other values x {h} hosts"), one_byte(h)),
            Driver::new("two bytes altered", "4 files x every pair of bytes x 5 x 5 values, modes alternating", two_bytes),
            Driver::new("bytes inserted or deleted", "7 files x every position x 1, 4 or 8 bytes x 4 values x 3 hosts", inserted),
            Driver::new("fields missing", "7 files x every layer x every proper subset of its fields x 6 hosts", missing),
            Driver::new("fields repeated, renamed and exchanged", &format!("4 kinds x every sequence of up to {} (key, payload) pairs", if t { 5 } else { 4 }), fields_moved(if t { 5 } else { 4 })),
            Driver::new("fields replaced", "4 kinds x every one or two fields x 70-odd inconsistent payloads each x both modes", fields_replaced),
            Driver::new("kinds exchanged", "the fields of every kind under 5 other kind numbers x 6 hosts", kinds_exchanged),
            Driver::new("layer sequences", &format!("every sequence of up to {sl} layers out of 9, fitting or not, x 6 hosts"), sequences(sl)),
            Driver::new("long files", "files of up to 300 layers with a layer that does not fit, is cut short or of no known kind at any position x 6 hosts", long_files(if t { vec![5, 9, 17, 33, 65, 127, 128, 129, 200, 255, 256, 257, 300] } else { vec![9, 33, 129, 257] })),
            Driver::new("extreme shapes", "8^3 input shapes with dimensions up to 2^32-1 x window/kernel/bias shapes x 6 forms x 3 hosts", extreme_shapes),
            Driver::new("into a layer", "4 target layers x 4 stages of use x data of the other kinds, and damaged data of its own kind", into_layer),
            Driver::new("failed loads in a history", &format!("both modes x every sequence of {hd} calls out of 9 (4 failing loads), compared with a twin without the loads"), load_histories(hd)),
        ],
        vec![
            "files whose layers would need tensors of 2^13 (convolution, pooling), 2^16 (softmax) or 2^18 (fully connected) elements or more, but less than 2^32, or shapes with a dimension 0 beside such dimensions, are not loaded: running out of memory or time is outside the property",
            "what an accepted file means when loaded into a network that already has layers is not asserted beyond being well-formed",
        ],
    )
}
