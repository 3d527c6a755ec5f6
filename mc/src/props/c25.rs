//! C25: nothing a caller passes crashes the library - dimensions of 0, layers not yet configured, any stride,
//! channel, window or list.
use super::nets::*;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::Layer;
use rusty_network::network::Network;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

const MAX: u32 = u32::MAX;

/// Every shape with dimensions below `n`.
fn cube(n: usize) -> Vec<Dim> {
    (0..n * n * n).map(|x| [x % n, x / n % n, x / n / n]).collect()
}
fn val(d: Dim, salt: u64) -> RT {
    dense(d, salt, -3, 3)
}
/// A destination is what the definition says, or untouched where the operation refused or had nothing to work on.
fn dest(what: impl Fn() -> String, said: Option<bool>, got: &Tensor, start: &RT, want: Option<RT>, degenerate: bool) -> Result<(), String> {
    let g = rd(got);
    let untouched = g == *start;
    let right = want.as_ref().is_some_and(|w| same(&g, w, 0.0));
    let ok = match said {
        Some(false) => untouched,
        Some(true) => right || (degenerate && untouched),
        None if want.is_some() => right || (degenerate && untouched),
        None => untouched,
    };
    need(ok, || {
        format!(
            "{}{}: the destination was {:?} and is {:?}, {}",
            what(),
            match said {
                Some(true) => " (accepted)",
                Some(false) => " (refused)",
                None => "",
            },
            short(&start.v),
            short(&g.v),
            match &want {
                Some(w) => format!("should be {:?}", short(&w.v)),
                None => "should be untouched".to_string(),
            }
        )
    })
}
fn kept(what: impl Fn() -> String, t: &Tensor, r: &RT) -> Result<(), String> {
    need(rd(t) == *r, || format!("{}: an operand changed from {:?} to {:?}", what(), short(&r.v), short(&rd(t).v)))
}
/// Every tensor operation on every three shapes.
fn operations(n: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    move |c| {
        let (da, db) = (*c.pick(&all), *c.pick(&all));
        c.log(|| format!("operands {:?} and {:?}", da, db));
        let (a, b) = (val(da, 1), val(db, 2));
        let (ta, tb) = (lt(&a), lt(&b));
        for dr in &all {
            let start = val(*dr, 3);
            let empty = [da, db, *dr].iter().any(|d| total(*d) == 0);
            let w = |op: &'static str| move || format!("{} of {:?} and {:?} into {:?}", op, da, db, dr);
            let same3 = da == db && db == *dr;
            let mut r = lt(&start);
            Tensor::add(&ta, &tb, &mut r);
            dest(w("sum"), None, &r, &start, same3.then(|| a.zip(&b, |x, y| x + y)), empty)?;
            let mut r = lt(&start);
            Tensor::multiply_elementwise(&ta, &tb, &mut r);
            dest(w("elementwise product"), None, &r, &start, same3.then(|| a.zip(&b, |x, y| x * y)), empty)?;
            let mm = |x: Dim, y: Dim| x[1] == y[0] && x[2] == y[2] && *dr == [x[0], y[1], x[2]];
            let mut r = lt(&start);
            Tensor::matrix_multiply(&ta, &tb, &mut r);
            dest(w("matrix product"), None, &r, &start, mm(da, db).then(|| matmul(&a, &b)), empty)?;
            let (at, bt) = (a.transpose(), b.transpose());
            let mut r = lt(&start);
            let s = Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut r).is_ok();
            dest(w("product, first transposed"), Some(s), &r, &start, mm(at.d, db).then(|| matmul(&at, &b)), empty)?;
            let mut r = lt(&start);
            let s = Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut r).is_ok();
            dest(w("product, second transposed"), Some(s), &r, &start, mm(da, bt.d).then(|| matmul(&a, &bt)), empty)?;
            // the third shape as the bias
            for (bd, out) in [(*dr, [db[0], da[1], da[2]]), ([db[0], da[1], da[2]], *dr)] {
                let (bias, start) = (val(bd, 4), val(out, 5));
                let mut r = lt(&start);
                Tensor::matrix_multiply_add_relu(&ta, &tb, &lt(&bias), &mut r);
                let fits = db[1] == da[0] && db[2] == da[2] && out == [db[0], da[1], da[2]] && bd == out;
                dest(w("fused product"), None, &r, &start, fits.then(|| relu(&matmul(&b, &a).zip(&bias, |x, y| x + y))), empty || total(bd) == 0)?;
            }
            c.steps(7);
        }
        // operations on two tensors
        let empty = total(da) == 0 || total(db) == 0;
        let w = |op: &'static str| move || format!("{} of {:?} and {:?}", op, da, db);
        let eq = da == db;
        let mut r = lt(&b);
        Tensor::add_to_self(&mut r, &ta);
        dest(w("sum in place"), None, &r, &b, eq.then(|| a.zip(&b, |x, y| x + y)), empty)?;
        let mut r = lt(&b);
        Tensor::multiply_elementwise_self(&mut r, &ta);
        dest(w("product in place"), None, &r, &b, eq.then(|| a.zip(&b, |x, y| x * y)), empty)?;
        let mut r = lt(&b);
        Tensor::scale(&ta, -2.0, &mut r);
        dest(w("scaling"), None, &r, &b, eq.then(|| a.scaled(-2.0)), empty)?;
        let mut r = lt(&b);
        let s = Tensor::transpose_ij(&ta, &mut r).is_ok();
        dest(w("transposition"), Some(s), &r, &b, (a.transpose().d == db).then(|| a.transpose()), empty)?;
        let mut r = lt(&b);
        Tensor::softmax(&ta, &mut r);
        if !eq {
            kept(w("softmax"), &r, &b)?;
        }
        let (mut x, mut m) = (lt(&a), lt(&b));
        let s = Tensor::relu_self_and_store_mask(&mut x, &mut m).is_ok();
        dest(w("rectification"), Some(s), &x, &a, eq.then(|| relu(&a)), empty)?;
        dest(w("rectification mask"), Some(s), &m, &b, eq.then(|| a.map(|v| if v > 0.0 { 1.0 } else { 0.0 })), empty)?;
        need((ta == tb) == (a == b), || format!("{:?} and {:?} compare equal: {}", da, db, ta == tb))?;
        for l in 0..=(total(da) + 1).min(4) {
            for p in [0u32, 1, MAX] {
                let list: Vec<u32> = (0..l as u32).map(|q| if q == 0 { p } else { q - 1 }).collect();
                let ok = l <= total(da) && list.iter().all(|x| (*x as usize) < total(db));
                let mut r = lt(&b);
                let s = Tensor::add_from_index_list(&ta, &mut r, &list).is_ok();
                let want = ok.then(|| {
                    let mut v = b.clone();
                    list.iter().enumerate().for_each(|(q, x)| v.v[*x as usize] += a.v[q]);
                    v
                });
                dest(|| format!("{}, list {:?}", w("scatter")(), list), Some(s), &r, &b, want, empty)?;
                c.step();
            }
        }
        c.steps(7);
        kept(w("an operation"), &ta, &a)?;
        kept(w("an operation"), &tb, &b)?;
        c.observe(mix(hash_rt(&a), hash_rt(&b)));
        Ok(())
    }
}
/// One tensor: every shape.
fn single(n: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    move |c| {
        let d = *c.pick(&all);
        c.log(|| format!("shape {:?}", d));
        let a = val(d, 1);
        let mut t = Tensor::new(shape(d));
        need(dim(&t.get_shape()) == d && t.total_items() as usize == total(d), || format!("a tensor of {:?} reports {:?} and {} elements", d, t.get_shape(), t.total_items()))?;
        for l in 0..=total(d) + 2 {
            let mut u = t.clone();
            let r = u.fill_with_vec(vec![1.0; l]);
            need(r.is_ok() == (l == total(d)), || format!("shape {:?}: a list of {} elements: {:?}", d, l, r))?;
            need(rd(&u) == if r.is_ok() { RT::filled(d, 1.0) } else { RT::zeros(d) }, || format!("shape {:?}: a list of {} elements leaves {:?}", d, l, rd(&u).v))?;
        }
        t.fill_with_vec(a.v.iter().map(|x| *x as f32).collect()).map_err(|e| e.to_string())?;
        let words = [0u32, 1, 2, 3, MAX - 1, MAX];
        for i in words {
            for j in words {
                for k in words {
                    let at = rusty_network::tensor::helper::TensorIndex { i, j, k };
                    let inside = (i as usize) < d[0] && (j as usize) < d[1] && (k as usize) < d[2];
                    need(t.get_shape().fits_index(&at) == inside, || format!("shape {:?}: index ({},{},{}) fits: {}", d, i, j, k, !inside))?;
                    let want = if inside { a.at(i as usize, j as usize, k as usize) } else { 0.0 };
                    need(t.get_item(&at) as f64 == want, || format!("shape {:?}: element ({},{},{}) reads {}, should be {}", d, i, j, k, t.get_item(&at), want))?;
                    let mut u = t.clone();
                    u.set_item(&at, 9.0);
                    let mut w = a.clone();
                    if inside {
                        w.set(i as usize, j as usize, k as usize, 9.0);
                    }
                    need(rd(&u) == w, || format!("shape {:?}: writing ({},{},{}) leaves {:?}", d, i, j, k, rd(&u).v))?;
                    c.step();
                }
            }
        }
        let n: f64 = a.v.iter().map(|x| x * x).sum::<f64>().sqrt();
        need((t.get_norm() as f64 - n).abs() < 1e-4 * (1.0 + n), || format!("shape {:?}: norm {}, should be {}", d, t.get_norm(), n))?;
        let mut u = t.clone();
        u.fill_with_value(4.0);
        need(rd(&u) == RT::filled(d, 4.0), || format!("shape {:?}: fill leaves {:?}", d, rd(&u).v))?;
        Tensor::scale_self(&mut u, 0.5);
        need(rd(&u) == RT::filled(d, 2.0), || format!("shape {:?}: scaling leaves {:?}", d, rd(&u).v))?;
        u.fill_with_uniform(-1.0, 1.0);
        need(dim(&u.get_shape()) == d && bits(&u).iter().all(|b| f32::from_bits(*b).abs() <= 1.0), || format!("shape {:?}: a uniform fill leaves {:?}", d, rd(&u)))?;
        u.fill_with_gaussian(0.0, 1.0);
        need(dim(&u.get_shape()) == d, || format!("shape {:?}: a gaussian fill makes {:?}", d, u.get_shape()))?;
        let mut u = lt(&RT::filled(d, 3.0));
        Tensor::softmax(&t, &mut u);
        let s: f64 = rd(&u).v.iter().sum();
        need(total(d) == 0 || (s - 1.0).abs() < 1e-5, || format!("shape {:?}: softmax adds up to {}", d, s))?;
        // files
        let p = path(c, "t");
        t.save_to_file(&p).map_err(|e| format!("shape {:?}: saving failed: {}", d, e))?;
        let u = Tensor::from_file(&p).map_err(|e| format!("shape {:?}: its own file is refused: {}", d, e))?;
        need(rd(&u) == a && u == t, || format!("shape {:?}: read back as {:?}", d, rd(&u)))?;
        c.steps(9);
        c.observe(hash_rt(&a));
        Ok(())
    }
}
/// Pooling with any window, stride, destination and origin list.
fn pooling(n: usize, dk: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let di = [c.range(0, n), c.range(0, n), c.range(0, dk)];
        let dr = [c.range(0, n), c.range(0, n), c.range(0, dk)];
        c.log(|| format!("image {:?}, destination {:?}", di, dr));
        let (a, start) = (val(di, 1), val(dr, 2));
        let ta = lt(&a);
        for w in 0..(n + 2) * (n + 2) * 2 {
            let win = [w % (n + 2), w / (n + 2) % (n + 2), w / (n + 2) / (n + 2)];
            for st in [0u32, 1, 2, 3, 1 << 31, MAX] {
                let fit = win[0] > 0 && win[1] > 0 && fits([di[0], di[1]], [win[0], win[1]], st as usize) && {
                    let o = windows([di[0], di[1]], [win[0], win[1]], st as usize);
                    dr == [o[0], o[1], di[2]]
                };
                let empty = [di, dr].iter().any(|d| total(*d) == 0);
                let what = || format!("pooling {:?} with window {:?} and stride {} into {:?}", di, win, st, dr);
                let p = Tensor::check_max_pooling_dimensions(&shape(di), &shape(win), st, &shape(dr));
                need(p == fit || empty, || format!("{}: fits: {}", what(), p))?;
                let want = || max_pool(&a, [win[0], win[1]], st as usize);
                let mut r = lt(&start);
                Tensor::max_pool(&ta, &shape(win), st, &mut r);
                dest(what, None, &r, &start, fit.then(want), empty)?;
                let t = total(dr);
                for l in [0, t.saturating_sub(1), t, t + 1] {
                    let mut r = lt(&start);
                    let mut org = vec![77u32; l];
                    let s = Tensor::max_pool_track_origin(&ta, &shape(win), st, &mut r, &mut org).is_ok();
                    let what = || format!("{}, with {} origins", what(), l);
                    dest(what, Some(s), &r, &start, (fit && l == t).then(want), empty)?;
                    need(org.len() == l, || format!("{}: the origin list has {} entries", what(), org.len()))?;
                    need(s || org.iter().all(|x| *x == 77), || format!("{}: refused, with origins {:?}", what(), org))?;
                    need(!s || org.iter().all(|x| (*x as usize) < total(di)), || format!("{}: origins {:?}", what(), org))?;
                    c.step();
                }
                kept(what, &ta, &a)?;
            }
        }
        c.observe(mix(hash_rt(&a), hash_rt(&start)));
        Ok(())
    }
}
fn tile(img: Dim, ker: Dim, st: u32, out: Dim) -> bool {
    img[2] == ker[2] && fits([img[0], img[1]], [ker[0], ker[1]], st as usize) && {
        let o = windows([img[0], img[1]], [ker[0], ker[1]], st as usize);
        out[0] == o[0] && out[1] == o[1]
    }
}
/// Convolution and its kernel gradient with any kernel, bias, stride, channel and destination.
fn convolutions(n: usize, biases: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    move |c| {
        let (di, dk) = (*c.pick(&all), *c.pick(&all));
        c.log(|| format!("image {:?}, kernel {:?}", di, dk));
        let (a, k) = (val(di, 1), val(dk, 2));
        let (ta, tk) = (lt(&a), lt(&k));
        for dr in &all {
            let start = val(*dr, 3);
            let g = lt(&start);
            for st in [0u32, 1, 2, MAX] {
                for ch in [0u32, 1, 2, MAX] {
                    let fit = tile(di, dk, st, *dr) && (ch as usize) < dr[2];
                    let what = || format!("image {:?}, kernel {:?}, stride {}, into channel {} of {:?}", di, dk, st, ch, dr);
                    let chk = check_convolution_dimensions(&shape(di), &shape(dk), st, &shape(*dr), ch).is_ok();
                    let empty = [di, dk, *dr].iter().any(|d| total(*d) == 0);
                    need(chk == fit || empty, || format!("{}: fits: {}", what(), chk))?;
                    for db in &biases {
                        let b = val(*db, 4);
                        let tb = lt(&b);
                        let bv = if total(*db) > 0 { b.v[0] } else { 0.0 };
                        let good = fit && db.iter().all(|x| *x <= 1);
                        for rect in [false, true] {
                            let mut r = lt(&start);
                            let f = if rect { convolution_bias_relu } else { convolution_bias };
                            let s = f(&ta, &tk, &tb, st, &mut r, ch).is_ok();
                            let want = || {
                                let one = conv(&a, &k, bv, st as usize);
                                RT::from_fn(*dr, |i, j, q| match q == ch as usize {
                                    false => start.at(i, j, q),
                                    true if rect => one.at(i, j, 0).max(0.0),
                                    true => one.at(i, j, 0),
                                })
                            };
                            dest(|| format!("convolution, rectified {}, bias {:?}, {}", rect, db, what()), Some(s), &r, &start, good.then(want), empty || total(*db) == 0)?;
                            c.step();
                        }
                    }
                    let s0 = val(dk, 5);
                    let mut r = lt(&s0);
                    let s = convolution_backprop_kernel(&g, &ta, st, ch, &mut r).is_ok();
                    dest(|| format!("kernel gradient, {}", what()), Some(s), &r, &s0, fit.then(|| conv_grad_kernel(&start, &a, dk, ch as usize, st as usize)), empty)?;
                    c.step();
                }
            }
        }
        kept(|| "a convolution".into(), &ta, &a)?;
        kept(|| "a convolution".into(), &tk, &k)?;
        c.observe(mix(hash_rt(&a), hash_rt(&k)));
        Ok(())
    }
}
/// The input gradient for any list of kernels.
fn input_gradients(n: usize, lists: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    move |c| {
        let len = c.range(0, lists);
        let dks: Vec<Dim> = (0..len).map(|_| *c.pick(&all)).collect();
        c.log(|| format!("kernels {:?}", dks));
        let ks: Vec<RT> = dks.iter().enumerate().map(|(q, d)| val(*d, 7 + q as u64)).collect();
        let tks: Vec<Tensor> = ks.iter().map(lt).collect();
        for dg in &all {
            let g = val(*dg, 1);
            let tg = lt(&g);
            for dr in &all {
                let start = val(*dr, 3);
                for st in [0u32, 1, 2, MAX] {
                    let fit = len == dg[2] && dks.iter().all(|k| tile(*dr, *k, st, *dg));
                    let empty = len == 0 || [*dg, *dr].iter().chain(&dks).any(|d| total(*d) == 0);
                    let what = || format!("input gradient of {:?} for kernels {:?} with stride {} into {:?}", dg, dks, st, dr);
                    let mut r = lt(&start);
                    let s = convolution_backprop_outgoing_gradient(&tg, &tks, st, &mut r).is_ok();
                    dest(what, Some(s), &r, &start, fit.then(|| conv_grad_input(&g, &ks, *dr, st as usize)), empty)?;
                    c.step();
                }
            }
            kept(|| "an input gradient".into(), &tg, &g)?;
        }
        c.observe(dks.iter().fold(len as u64, |h, d| mix(h, (d[0] + 10 * d[1] + 100 * d[2]) as u64)));
        Ok(())
    }
}
/// What an accepted layer says it is.
fn is_one_by_one(kind: usize) -> Spec {
    match kind {
        0 => Spec::Conv { ks: vec![RT::zeros([1, 1, 1])], bs: vec![0.0], input: [1, 1, 1], stride: 1 },
        1 => Spec::Fc { w: RT::zeros([1, 1, 1]), b: RT::zeros([1, 1, 1]) },
        2 => Spec::Pool { input: [1, 1, 1], win: [1, 1], stride: 1 },
        _ => Spec::Soft { shape: [1, 1, 1] },
    }
}
/// Layers fresh from empty(), and configured with small shapes out of everything.
fn candidates() -> Vec<Spec> {
    let mut v = vec![];
    for d in [[0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 0, 0], [2, 0, 1], [0, 2, 1], [2, 2, 0], [2, 1, 1], [1, 2, 2]] {
        v.push(Spec::Soft { shape: d });
        v.push(Spec::Fc { w: val(d, 1), b: val([d[0], 1, d[2]], 2) });
        v.push(Spec::Pool { input: d, win: [1, 1], stride: 1 });
        v.push(Spec::Pool { input: d, win: [d[0], d[1]], stride: 2 });
        for k in [[1, 1, d[2]], d] {
            v.push(Spec::Conv { ks: vec![val(k, 3)], bs: vec![1.0], input: d, stride: 1 });
            v.push(Spec::Conv { ks: vec![val(k, 3), val(k, 4)], bs: vec![1.0, -1.0], input: d, stride: 1 });
        }
    }
    v
}
/// A layer, empty or configured with `candidates`; None where the configuration is refused.
fn some_layer(c: &mut Ctx, cs: &[Spec]) -> Option<(Lib, Spec, bool)> {
    let q = c.choose(cs.len() + 4);
    if q < 4 {
        c.log(|| format!("layer of kind {} as created by empty()", q));
        return Some((Lib::empty(q), is_one_by_one(q), true));
    }
    let s = cs[q - 4].clone();
    c.log(|| s.describe());
    let mut l = Lib::empty(s.kind());
    let before = super::c08::face(l.lr());
    match l.fill(&s, "f") {
        Ok(()) => Some((l, s, false)),
        Err(_) => {
            c.count("refused", 1);
            assert!(super::c08::face(l.lr()) == before, "{}: refused, but the layer changed", s.describe());
            None
        }
    }
}
/// Any tensors handed to any layer in either mode.
fn layers(n: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    let cs = candidates();
    move |c| {
        let training = c.choose(2) == 1;
        let ops = c.choose(3);
        let Some((mut l, s, fresh)) = some_layer(c, &cs) else { return Ok(()) };
        let name = if fresh { format!("layer of kind {} as created by empty()", s.kind()) } else { s.describe() };
        if training {
            l.l().switch_to_training();
        }
        need(dim(&l.lr().get_input_shape()) == s.in_dim(), || format!("{}: reports input {:?}", name, l.lr().get_input_shape()))?;
        need(dim(&l.lr().get_output_shape()) == s.out_dim(), || format!("{}: reports output {:?}", name, l.lr().get_output_shape()))?;
        let (di, dout) = (s.in_dim(), s.out_dim());
        let x = val(di, 11);
        let y = s.forward(&x);
        let tol = if s.kind() == 3 { 1e-5 } else { 0.0 };
        let good = |l: &mut dyn Layer, when: &str| -> Result<Tensor, String> {
            let mut o = lt(&RT::filled(dout, 77.0));
            l.forward(&lt(&x), &mut o).map_err(|e| format!("{}: a forward pass on its own shapes {} is refused: {}", name, when, e))?;
            expect_with(|| format!("{}: forward pass {}", name, when), &o, &y, tol)?;
            Ok(o)
        };
        let o = good(l.l(), "at first")?;
        match ops {
            // forward with any input and output
            0 => {
                for a in &all {
                    for b in &all {
                        let (ta, tb) = (val(*a, 1), val(*b, 2));
                        let mut r = lt(&tb);
                        let inp = lt(&ta);
                        let ok = l.l().forward(&inp, &mut r).is_ok();
                        let what = || format!("{}: a forward pass from {:?} into {:?}, training={}", name, a, b, training);
                        kept(what, &inp, &ta)?;
                        need(!ok || (*a == di && *b == dout) || total(*b) == 0, || format!("{} succeeds", what()))?;
                        c.step();
                    }
                }
            }
            // backward with any input, gradient and destination
            1 => {
                for a in &all {
                    for b in &all {
                        for r in &all {
                            let (ta, tg, tr) = (lt(&val(*a, 1)), lt(&val(*b, 2)), &mut lt(&val(*r, 3)));
                            let ok = l.l().backward(&ta, &o, &tg, tr).is_ok();
                            let what = || format!("{}: a backward pass from {:?}, gradient {:?}, into {:?}, training={}", name, a, b, r, training);
                            need(!ok || (training && (*b == dout && *r == di) || total(*r) == 0), || format!("{} succeeds", what()))?;
                            c.step();
                        }
                    }
                }
            }
            // backward with any output, and a second look at everything else
            _ => {
                for b in &all {
                    let mut r = lt(&val(di, 3));
                    let _ = l.l().backward(&lt(&x), &lt(&val(*b, 1)), &lt(&val(dout, 2)), &mut r);
                    c.step();
                }
                l.l().clear_gradients();
                l.l().apply_gradients();
                let g = val(dout, 5);
                let mut og = lt(&RT::filled(di, 55.0));
                let ok = l.l().backward(&lt(&x), &o, &lt(&g), &mut og);
                need(ok.is_ok() == training || total(di) == 0, || format!("{}: a backward pass, training={}: {:?}", name, training, ok))?;
                // a copy through its serialized form, into a layer of every stage
                let ser = l.lr().get_serialized();
                let mut m = Lib::empty(s.kind());
                if c.choose(2) == 1 {
                    m.l().switch_to_training();
                }
                m.l().load_from_serialized(&ser).map_err(|e| format!("{}: its own data is refused: {}", name, e))?;
                need(m.lr().get_name() == l.lr().get_name(), || format!("{}: the copy is called {}", name, m.lr().get_name()))?;
                good(m.l(), "of a copy")?;
                c.steps(6);
            }
        }
        good(l.l(), "after all that")?;
        // an empty layer takes a configuration afterwards, in the mode it is in
        if fresh {
            let kind = kind_of(&l);
            for s in cs.iter().filter(|s| s.kind() == kind) {
                if l.fill(s, "g").is_ok() {
                    let x = val(s.in_dim(), 4);
                    let mut o = lt(&RT::filled(s.out_dim(), 77.0));
                    l.l().forward(&lt(&x), &mut o).map_err(|e| format!("{}, configured as {}: forward refused: {}", name, s.describe(), e))?;
                    expect_with(|| format!("{}, configured as {}", name, s.describe()), &o, &s.forward(&x), tol)?;
                    need(l.lr().get_run_mode() == train(training), || format!("{}: configuring changed the mode", name))?;
                    c.step();
                }
            }
        }
        c.observe(mix(ops as u64 * 2 + training as u64, hash_rt(&x)));
        Ok(())
    }
}
/// Networks of empty and odd layers: every operation, and files.
fn networks(len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let cs: Vec<Spec> = candidates().into_iter().filter(|s| total(s.in_dim()) == 0 || s.in_dim() == [2, 1, 1]).collect();
    let shapes = cube(3);
    move |c| {
        let mut training = c.choose(2) == 1;
        let mut n = Network::new(train(training));
        let mut specs: Vec<Spec> = vec![];
        for _ in 0..c.range(0, len) {
            let Some((l, s, _)) = some_layer(c, &cs) else { return Ok(()) };
            let fit = specs.last().is_none_or(|p| p.out_dim() == s.in_dim());
            let r = l.add_to(&mut n);
            c.step();
            need(r.is_ok() == fit, || format!("adding {} to {:?}: {:?}", s.describe(), specs.iter().map(|s| s.describe()).collect::<Vec<_>>(), r))?;
            if !fit {
                return Ok(());
            }
            specs.push(s);
        }
        let what = format!("network of {:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>());
        for round in 0..2 {
            for d in &shapes {
                let x = val(*d, 5);
                let r = n.infer(&lt(&x));
                let fit = specs.first().is_some_and(|s| s.in_dim() == *d);
                need(r.is_ok() == fit, || format!("{}: inference on {:?}: {:?}", what, d, r))?;
                if fit {
                    let want = specs.iter().fold(x.clone(), |v, s| s.forward(&v));
                    expect_with(|| format!("{}: output for {:?}", what, d), n.get_output().map_err(|e| e.to_string())?, &want, 1e-5)?;
                }
                let g = n.backward(&lt(&x));
                let fit = training && specs.last().is_some_and(|s| s.out_dim() == *d);
                need(g.is_ok() == fit, || format!("{}: backpropagation of {:?}, training={}: {:?}", what, d, training, g))?;
                c.steps(2);
            }
            for id in [0, 1, 2, 3, 7, usize::MAX - 1, usize::MAX] {
                let r = n.get_intermediate_state(id).is_ok();
                need(r == (!specs.is_empty() && id <= specs.len()), || format!("{}: state {} exists: {}", what, id, r))?;
            }
            need(n.get_output().is_ok() == !specs.is_empty(), || format!("{}: has an output: {}", what, specs.is_empty()))?;
            // files
            let p = path(c, "n");
            n.save_to_file(&p).map_err(|e| format!("{}: saving failed: {}", what, e))?;
            let mut m = Network::new(train(!training));
            m.load_from_file(&p).map_err(|e| format!("{}: its own file is refused: {}", what, e))?;
            need(m.get_layers().len() == specs.len(), || format!("{}: {} layers read back", what, m.get_layers().len()))?;
            for (a, b) in n.get_layers().iter().zip(m.get_layers()) {
                need(codec::of_serialized(&a.get_serialized()) == codec::of_serialized(&b.get_serialized()), || format!("{}: read back differently", what))?;
            }
            if let Some(s) = specs.first() {
                let x = val(s.in_dim(), 8);
                m.infer(&lt(&x)).map_err(|e| format!("{}: read back, inference refused: {}", what, e))?;
                let want = specs.iter().fold(x.clone(), |v, s| s.forward(&v));
                expect_with(|| format!("{}: read back, output", what), m.get_output().map_err(|e| e.to_string())?, &want, 1e-5)?;
            }
            training = !training;
            if training {
                n.switch_to_training();
            } else {
                n.switch_to_inference();
            }
            c.steps(4);
            c.observe(mix(round, specs.iter().fold(training as u64, |h, s| mix(h, hash_bytes(7, s.describe().as_bytes())))));
        }
        Ok(())
    }
}
/// Configuring layers of every kind with every shape, used right away and after a round trip.
fn configured(n: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let all = cube(n);
    move |c| {
        let kind = c.choose(4);
        let training = c.choose(2) == 1;
        let (p, q) = (*c.pick(&all), *c.pick(&all));
        c.log(|| format!("kind {}, shapes {:?} and {:?}, training={}", kind, p, q, training));
        let mut specs: Vec<Spec> = vec![];
        let strides = [0usize, 1, 2, 3, MAX as usize];
        match kind {
            0 => {
                for stride in strides {
                    for bs in 0..3usize {
                        for ks in 0..3u64 {
                            specs.push(Spec::Conv { ks: (0..ks).map(|x| val(q, x)).collect(), bs: vec![1.0; bs], input: p, stride });
                        }
                    }
                }
            }
            1 => specs.push(Spec::Fc { w: val(p, 1), b: val(q, 2) }),
            2 => specs.extend(strides.map(|stride| Spec::Pool { input: p, win: [q[0], q[1]], stride })),
            _ => specs.push(Spec::Soft { shape: p }),
        }
        for s in specs {
            let mut l = Lib::empty(kind);
            if training {
                l.l().switch_to_training();
            }
            let before = super::c08::face(l.lr());
            c.step();
            if l.fill(&s, "f").is_err() {
                need(super::c08::face(l.lr()) == before, || format!("{}: refused, but the layer changed", s.describe()))?;
                let d = is_one_by_one(kind);
                let mut o = lt(&RT::filled([1, 1, 1], 5.0));
                l.l().forward(&lt(&RT::filled([1, 1, 1], 2.0)), &mut o).map_err(|e| format!("empty layer that refused {}: forward refused: {}", s.describe(), e))?;
                expect_with(|| format!("empty layer that refused {}", s.describe()), &o, &d.forward(&RT::filled([1, 1, 1], 2.0)), 1e-6)?;
                c.count("refused", 1);
                continue;
            }
            let mut m = Lib::empty(kind);
            m.l().load_from_serialized(&l.lr().get_serialized()).map_err(|e| format!("{}: its own data is refused: {}", s.describe(), e))?;
            if training {
                m.l().switch_to_training();
            }
            for (l, which) in [(&mut l, "configured"), (&mut m, "copied")] {
                need(dim(&l.lr().get_input_shape()) == s.in_dim() && dim(&l.lr().get_output_shape()) == s.out_dim(), || format!("{}, {}: reports {:?} -> {:?}", s.describe(), which, l.lr().get_input_shape(), l.lr().get_output_shape()))?;
                let x = val(s.in_dim(), 6);
                let mut o = lt(&RT::filled(s.out_dim(), 77.0));
                l.l().forward(&lt(&x), &mut o).map_err(|e| format!("{}, {}: forward refused: {}", s.describe(), which, e))?;
                expect_with(|| format!("{}, {}: forward", s.describe(), which), &o, &s.forward(&x), if kind == 3 { 1e-5 } else { 0.0 })?;
                let g = val(s.out_dim(), 9);
                let mut og = lt(&RT::filled(s.in_dim(), 55.0));
                let r = l.l().backward(&lt(&x), &o, &lt(&g), &mut og);
                need(r.is_ok() == training || total(s.in_dim()) == 0, || format!("{}, {}: backward, training={}: {:?}", s.describe(), which, training, r))?;
                if let (Some(w), true) = (s.vjp(&x, &g), r.is_ok()) {
                    expect_with(|| format!("{}, {}: gradient", s.describe(), which), &og, &w, 1e-4)?;
                }
                l.l().clear_gradients();
                c.steps(4);
            }
            c.observe(mix(kind as u64, hash_rt(&val(p, 1)) ^ hash_rt(&val(q, 2))));
        }
        Ok(())
    }
}
/// The fully connected constructor with sizes of 0.
fn sizes() -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (a, b) = (c.range(0, 4), c.range(0, 4));
        let l = FullyConnectedLayer::new(a as u32, b as u32, &"n".to_string());
        // a size of 0 counts as 1, as in TensorShape::new
        let (u, v) = (a.max(1), b.max(1));
        need(dim(&l.get_input_shape()) == [u, 1, 1] && dim(&l.get_output_shape()) == [v, 1, 1], || {
            format!("fully connected layer {} -> {}: reports {:?} -> {:?}", a, b, l.get_input_shape(), l.get_output_shape())
        })?;
        let mut l = Lib::Fc(l);
        for t in [false, true] {
            if t {
                l.l().switch_to_training();
            }
            let mut o = lt(&RT::filled([v, 1, 1], 5.0));
            l.l().forward(&lt(&val([u, 1, 1], 1)), &mut o).map_err(|e| format!("fully connected layer {} -> {}: {}", a, b, e))?;
            expect_with(|| format!("fully connected layer {} -> {}", a, b), &o, &RT::zeros([v, 1, 1]), 0.0)?;
            c.steps(2);
        }
        c.observe((a * 10 + b) as u64);
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let n = if t { 5 } else { 4 };
    (
        vec![
            Driver::new("one tensor", "every shape with dimensions 0..=4, every operation, index words up to 2^32-1, files", single(5)),
            Driver::new("tensor operations", &format!("every three shapes with dimensions below {n}, fitting or not"), operations(n)),
            Driver::new("pooling", &format!("images and destinations with dimensions 0 to {m} (depth to 2), windows to {n}, strides 0 to 3, 2^31 and 2^32-1, 4 lengths of origin list", m = n - 1), pooling(n - 1, 2)),
            Driver::new("convolution", &format!("every image, kernel and destination with dimensions below 3, strides and channels 0, 1, 2 and 2^32-1, {} shapes of bias", if t { 27 } else { 6 }), convolutions(3, if t { cube(3) } else { vec![[1, 1, 1], [0, 0, 0], [1, 1, 0], [2, 1, 1], [1, 2, 1], [0, 1, 2]] })),
            Driver::new("convolution, larger", "the same with dimensions below 4 and 2 shapes of bias", convolutions(4, vec![[1, 1, 1], [0, 1, 1]])),
            Driver::new("input gradient", &format!("lists of up to {} kernels, gradient and destination with dimensions below 3", if t { 3 } else { 2 }), input_gradients(3, if t { 3 } else { 2 })),
            Driver::new("layers", &format!("layers created empty, and 72 configurations with dimensions of 0, in both modes; tensors of every shape with dimensions below {n} handed to every call"), layers(n)),
            Driver::new("configurations", &format!("every kind of layer configured with every two shapes with dimensions below {n}, strides 0 to 3 and 2^32-1, up to 2 kernels and biases; run, trained and copied"), configured(n)),
            Driver::new("networks", &format!("every stack of up to {} such layers, both modes, every call, files", if t { 4 } else { 3 }), networks(if t { 4 } else { 3 })),
            Driver::new("sizes of 0", "fully connected layers of 0 to 4 inputs and outputs", sizes()),
        ],
        vec!["element counts fit 32 bits", "indices given to get_data_index are in range, and get_convolution_dim_fit is asked only about windows that fit", "random fills get an ordered interval and a finite non-negative deviation"],
    )
}
fn kind_of(l: &Lib) -> usize {
    match l {
        Lib::Conv(_) => 0,
        Lib::Fc(_) => 1,
        Lib::Pool(_) => 2,
        Lib::Soft(_) => 3,
    }
}
