//! C06: max pooling.
use super::c04::{boundary_list, geometry};
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;

fn check(c: &mut Ctx, img: &RT, win: [usize; 2], stride: usize, layer: bool) -> Result<(), String> {
    let want = max_pool(img, win, stride);
    let w = |op: &str| format!("{}: image {:?}{:?} window {:?} stride {}", op, img.d, short(&img.v), win, stride);
    let ti = lt_lossy(img);
    let ws = shape([win[0], win[1], 1]);
    let mut r = lt(&RT::filled(want.d, 55.0));
    Tensor::max_pool(&ti, &ws, stride as u32, &mut r);
    eq(&w("pooled"), &r, &want)?;
    let mut r = lt(&RT::filled(want.d, 55.0));
    let n = total(want.d);
    let mut org = vec![u32::MAX; n];
    Tensor::max_pool_track_origin(&ti, &ws, stride as u32, &mut r, &mut org).map_err(|e| format!("{} refused: {}", w("tracked pooling"), e))?;
    eq(&w("pooled with tracking"), &r, &want)?;
    need(org.len() == n, || format!("{}: origin list length {}", w("tracked"), org.len()))?;
    for k in 0..want.d[2] {
        for j in 0..want.d[1] {
            for i in 0..want.d[0] {
                let o = org[want.pos(i, j, k)] as usize;
                let ps = window_positions(img.d, win, stride, i, j, k);
                need(ps.contains(&o), || format!("{}: origin of output ({},{},{}) is {}, outside its window {:?}", w("tracked"), i, j, k, o, ps))?;
                need(img.v[o] == want.at(i, j, k), || format!("{}: origin of output ({},{},{}) is {} holding {}, not the maximum", w("tracked"), i, j, k, o, img.v[o]))?;
            }
        }
    }
    eq("image", &ti, img)?;
    c.steps(2);
    c.observe(mix(hash_rt(&want), hash_bytes(1, &org.iter().map(|x| *x as u8).collect::<Vec<_>>())));
    if layer {
        // through the layer, gradients 2^w so that the share of every window can be read off
        let s = Spec::Pool { input: img.d, win, stride };
        let mut l = Lib::build(&s, "p")?;
        l.l().switch_to_training();
        let mut out = lt(&RT::filled(want.d, 55.0));
        l.l().forward(&ti, &mut out).map_err(|e| format!("{} layer forward refused: {}", w("layer"), e))?;
        eq(&w("layer output"), &out, &want)?;
        // blocks of at most 20 windows so that sums of 2^w stay exact
        let mut base = 0;
        let mut credited = vec![0usize; n];
        while base < n {
            let hi = (base + 20).min(n);
            let mut g = RT::zeros(want.d);
            for x in base..hi {
                g.v[x] = (1u32 << (x - base)) as f64;
            }
            let mut og = lt(&RT::filled(img.d, 55.0));
            l.l().backward(&ti, &out, &lt(&g), &mut og).map_err(|e| format!("{} layer backward refused: {}", w("layer"), e))?;
            let got = rd(&og);
            let mut seen = vec![0; hi - base];
            for (p, v) in got.v.iter().enumerate() {
                need(v.fract() == 0.0 && *v >= 0.0 && *v < (1u32 << 20) as f64, || format!("{}: outgoing gradient at {} is {}", w("layer"), p, v))?;
                let bits = *v as u32;
                for x in base..hi {
                    if bits & (1 << (x - base)) != 0 {
                        seen[x - base] += 1;
                        credited[x] = p;
                        let (i, j, k) = (x % want.d[0], x / want.d[0] % want.d[1], x / want.d[0] / want.d[1]);
                        let ps = window_positions(img.d, win, stride, i, j, k);
                        need(ps.contains(&p) && img.v[p] == want.v[x], || format!("{}: gradient of output ({},{},{}) went to flat position {}", w("layer"), i, j, k, p))?;
                    }
                }
            }
            need(seen.iter().all(|x| *x == 1), || format!("{}: gradients were credited {:?} times", w("layer"), seen))?;
            c.step();
            base = hi;
        }
        // then gradients of any sign and size, which the same elements must receive
        for salt in 0..3 {
            let g = if salt == 0 { RT::filled(want.d, -1.0) } else { dense(want.d, 31 + salt, -3, 3) };
            let mut sum = RT::zeros(img.d);
            for x in 0..n {
                sum.v[credited[x]] += g.v[x];
            }
            let mut og = lt(&RT::filled(img.d, 55.0));
            l.l().backward(&ti, &out, &lt(&g), &mut og).map_err(|e| format!("{} layer backward refused: {}", w("layer"), e))?;
            expect_with(|| format!("{}: outgoing gradient for {:?}", w("layer"), short(&g.v)), &og, &sum, 0.0)?;
            c.step();
        }
        c.step();
    }
    Ok(())
}
fn eq(what: &str, t: &Tensor, want: &RT) -> Result<(), String> {
    // -inf allowed, so compare directly
    let g = rd(t);
    need(g.d == want.d && g.v.iter().zip(&want.v).all(|(a, b)| *a == *b as f32 as f64), || format!("{}: got {:?} want {:?}", what, short(&g.v), short(&want.v)))
}

fn values(cases: Vec<(Dim, [usize; 2], usize)>, alpha: Vec<f64>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, win, stride) = *c.pick(&cases);
        let a = RT { d: img, v: (0..total(img)).map(|_| *c.pick(&alpha)).collect() };
        c.log(|| format!("image {:?} {:?} window {:?} stride {}", img, a.v, win, stride));
        check(c, &a, win, stride, true)
    }
}
fn all_geometry(max: usize, max_stride: usize, max_depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, max_depth);
        let win = [ker[0], ker[1]];
        c.log(|| format!("image {:?} window {:?} stride {}", img, win, stride));
        for salt in 0..3 {
            check(c, &distinct(img, salt), win, stride, true)?;
        }
        let n = total(img);
        check(c, &distinct(img, 5).map(|x| x - n as f64), win, stride, false)?; // all negative
        check(c, &distinct(img, 6).map(|x| (x * 1e3) * 1e30 / n as f64), win, stride, false)?; // huge
        check(c, &distinct(img, 7).map(|x| x * 1e-41), win, stride, false)?; // subnormal
        check(c, &dense(img, 8, 0, 2), win, stride, true)?; // many ties
        check(c, &RT::filled(img, -4.0), win, stride, true)?;
        check(c, &RT::filled(img, f64::NEG_INFINITY), win, stride, false)?;
        // one peak / one pit at every position
        for p in 0..n {
            let mut a = RT::filled(img, -2.0);
            a.v[p] = -1.0;
            check(c, &a, win, stride, false)?;
            let mut a = distinct(img, 9);
            a.v[p] = f64::NEG_INFINITY;
            check(c, &a, win, stride, false)?;
        }
        Ok(())
    }
}
fn boundary(list: Vec<(Dim, [usize; 2], usize)>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, win, stride) = *c.pick(&list);
        c.log(|| format!("image {:?} window {:?} stride {}", img, win, stride));
        let o = windows([img[0], img[1]], win, stride);
        check(c, &distinct(img, 3), win, stride, o[0] * o[1] * img[2] < 600)?;
        check(c, &distinct(img, 4).map(|x| -x - total(img) as f64), win, stride, false)
    }
}
fn misfits(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let img = [c.range(1, max), c.range(1, max), c.range(1, 2)];
        let win = [c.range(1, max + 1), c.range(1, max + 1)];
        let stride = c.range(0, max_stride);
        c.log(|| format!("image {:?} window {:?} stride {}", img, win, stride));
        let fit = fits([img[0], img[1]], win, stride);
        let o = if fit { windows([img[0], img[1]], win, stride) } else { [1, 1] };
        let a = distinct(img, 2);
        let ti = lt(&a);
        let ws = shape([win[0], win[1], 1]);
        for ri in [o[0], o[0] + 1, o[0].max(2) - 1, img[0]] {
            for rj in [o[1], o[1] + 1, o[1].max(2) - 1, img[1]] {
                for rk in 1..=3 {
                    let d = [ri, rj, rk];
                    let ok = fit && d == [o[0], o[1], img[2]];
                    let w = || format!("image {:?} window {:?} stride {} result {:?}", img, win, stride, d);
                    let chk = Tensor::check_max_pooling_dimensions(&shape(img), &ws, stride as u32, &shape(d));
                    need(chk == ok, || format!("dimension check of {} says {}", w(), chk))?;
                    let start = RT::filled(d, 55.0);
                    let mut r = lt(&start);
                    Tensor::max_pool(&ti, &ws, stride as u32, &mut r);
                    let want = if ok { max_pool(&a, win, stride) } else { start.clone() };
                    expect_with(|| format!("pooling, {}", w()), &r, &want, 0.0)?;
                    for len in [total(d), total(d) + 1, total(d) - 1, 0] {
                        let mut r = lt(&start);
                        let mut org = vec![77u32; len];
                        let okl = ok && len == total(d);
                        let s = Tensor::max_pool_track_origin(&ti, &ws, stride as u32, &mut r, &mut org);
                        need(s.is_ok() == okl, || format!("tracked pooling, {}, origin list of {}: reported {:?}", w(), len, s))?;
                        if !okl {
                            expect("refused tracked pooling", &r, &start, 0.0)?;
                            need(org.iter().all(|x| *x == 77), || "refused tracked pooling changed the origin list".into())?;
                        }
                        c.step();
                    }
                    c.steps(2);
                    c.observe(mix(ok as u64, hash_t(&r)));
                }
            }
        }
        expect("image", &ti, &a, 0.0)
    }
}

pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let mut cases: Vec<(Dim, [usize; 2], usize)> = vec![];
    for img in [[1, 1, 1], [2, 1, 1], [1, 2, 1], [3, 1, 1], [2, 2, 1], [1, 4, 1], [3, 2, 1], [2, 3, 1], [2, 1, 2], [1, 2, 3], [2, 2, 2]] {
        for stride in 1..=3 {
            for wi in 1..=img[0] {
                for wj in 1..=img[1] {
                    if fits([img[0], img[1]], [wi, wj], stride) && (stride == 1 || [wi, wj] != [img[0], img[1]]) {
                        cases.push((img, [wi, wj], stride));
                    }
                }
            }
        }
    }
    let big: Vec<(Dim, [usize; 2], usize)> = super::big::planes(if t { 3_000_000 } else { 600_000 }).into_iter().filter(|g| g.3 == 1).map(|(i, k, s, _)| (i, [k[0], k[1]], s)).collect();
    let mut v = vec![
        Driver::new("all value assignments", "every assignment of {-1,0,1,-inf} to images of up to 8 elements, all windows and strides 1..=3", values(cases, vec![-1.0, 0.0, 1.0, f64::NEG_INFINITY])),
        Driver::new(
            "all geometries",
            if t { "images up to 9x9x3, all windows and strides 1..=4; permutations, negatives, huge, subnormal, ties, a peak and a -inf pit at every position" } else { "images up to 7x7x3, all windows and strides 1..=4; permutations, negatives, huge, subnormal, ties, a peak and a -inf pit at every position" },
            all_geometry(if t { 9 } else { 7 }, 4, 3),
        ),
        Driver::new("boundary sizes", "geometries with one size around 2^3..2^16", boundary(boundary_list().into_iter().filter(|g| total(g.0) < 70000).map(|(i, k, s, _)| (i, [k[0], k[1]], s)).collect())),
        Driver::new("several large dimensions", &format!("{} geometries of which 2 or more of image, window, depth and stride are large together", big.len()), boundary(big)),
        Driver::new("fitting and misfitting dimensions", "images 1..=4 squared x 1..=2, windows 1..=5 squared, strides 0..=4, 48 result shapes, 4 origin-list lengths", misfits(if t { 6 } else { 4 }, 4)),
    ];
    use super::hist::{self, Aspect};
    for (a, what) in [(Aspect::Forward, "forward"), (Aspect::Gradient, "backward")] {
        let depth = if t { 6 } else { 4 };
        v.push(Driver::new(
            &format!("pooling layer in use, {}", what),
            &format!("every sequence of {depth} calls out of {} on a pooling layer, both initial modes, 2 configurations; ties-free inputs", hist::ALL.len()),
            hist::history_of(a, hist::ALL.to_vec(), depth, |s| s.kind() == 2),
        ));
        v.push(Driver::new(&format!("reconfigured pooling layer, {}", what), "every ordered pair of 12 configurations, up to 2 calls before and after", hist::reconfigure(a, vec![2], 2)));
    }
    {
        let mut c3: Vec<(Dim, [usize; 2], usize)> = vec![];
        for wi in 1..=3 {
            for wj in 1..=3 {
                for s in 1..=2 {
                    if fits([3, 3], [wi, wj], s) {
                        c3.push(([3, 3, 1], [wi, wj], s));
                    }
                }
            }
        }
        v.push(Driver::new("all value assignments 3x3", "every assignment of {-1,0,2} to a 3x3 image, all windows, strides 1..=2", values(c3, vec![-1.0, 0.0, 2.0])));
    }
    (v, vec!["windows have positive size and depth 1; images contain no NaN"])
}
