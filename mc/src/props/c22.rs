//! C22: shapes, strides, indices and the geometry predicates agree with each other.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::Tensor;

/// Element counts around every power of two that matters to a 32-bit product.
fn words() -> Vec<u32> {
    let mut v = vec![1, 2, 3, 5, 7, 641, 6700417, 1625, 2642245, 274177, 131071];
    for p in [8, 10, 11, 15, 16, 17, 21, 22, 24, 30, 31] {
        v.extend([(1u32 << p) - 1, 1 << p, (1u32 << p) + 1]);
    }
    v.extend([u32::MAX - 1, u32::MAX]);
    v
}
fn small(max: usize, with_tensor: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let s = shape(d);
        c.log(|| format!("shape {:?}", d));
        let n = total(d);
        need(s.total_size() as usize == n && s.checked_total_size() == Some(n as u32), || format!("{:?}: {} elements ({:?} checked), should be {}", d, s.total_size(), s.checked_total_size(), n))?;
        need(s.get() == (d[0] as u32, d[1] as u32, d[2] as u32), || format!("{:?}: get gives {:?}", d, s.get()))?;
        let t = s.transpose_ij();
        need(dim(&t) == [d[1], d[0], d[2]] && t.transpose_ij() == s, || format!("{:?}: transposed is {:?}", d, t))?;
        need(dim(&s) == d, || format!("{:?}: transposing changed the shape to {:?}", d, s))?;
        for q in 0..max * max * max {
            let e = [q % max + 1, q / max % max + 1, q / max / max + 1];
            need((shape(e) == s) == (e == d), || format!("{:?} equals {:?}: {}", s, e, shape(e) == s))?;
        }
        let st = TensorStride::new_from_shape(&s);
        let tensor = if with_tensor { Some(Tensor::new(s)) } else { None };
        if let Some(t) = &tensor {
            need(t.total_items() as usize == n && t.get_shape() == s, || format!("a tensor of shape {:?} has {} items, shape {:?}", d, t.total_items(), t.get_shape()))?;
        }
        let mut next = 0u32;
        for k in 0..d[2] + 2 {
            for j in 0..d[1] + 2 {
                for i in 0..d[0] + 2 {
                    let x = ix(i, j, k);
                    let inside = i < d[0] && j < d[1] && k < d[2];
                    need(s.fits_index(&x) == inside, || format!("{:?}: index ({},{},{}) fits: {}", d, i, j, k, s.fits_index(&x)))?;
                    if inside {
                        let p = &st * &x;
                        need(p == next, || format!("{:?}: position of ({},{},{}) is {}, should be {}", d, i, j, k, p, next))?;
                        if let Some(t) = &tensor {
                            need(t.get_data_index(&x) == next, || format!("{:?}: data index of ({},{},{}) is {}, should be {}", d, i, j, k, t.get_data_index(&x), next))?;
                        }
                        next += 1;
                    }
                    c.step();
                }
            }
        }
        for w in words().into_iter().filter(|w| *w as usize >= max + 2) {
            for axis in 0..3 {
                for rest in 0..2u32 {
                    let mut x = [rest.min(d[0] as u32 - 1), rest.min(d[1] as u32 - 1), rest.min(d[2] as u32 - 1)];
                    x[axis] = w;
                    let x = TensorIndex { i: x[0], j: x[1], k: x[2] };
                    need(!s.fits_index(&x), || format!("{:?}: index ({},{},{}) fits", d, x.i, x.j, x.k))?;
                }
            }
        }
        c.observe(mix(next as u64, total([st.i as usize, st.j as usize, st.k as usize]) as u64));
        Ok(())
    }
}
fn large() -> impl Fn(&mut Ctx) -> Result<(), String> {
    let w = words();
    move |c| {
        let (a, b, k) = (*c.pick(&w), *c.pick(&w), *c.pick(&w));
        c.log(|| format!("shape {} x {} x {}", a, b, k));
        let s = TensorShape { di: a, dj: b, dk: k };
        let n = a as u128 * b as u128 * k as u128;
        let want = if n <= u32::MAX as u128 { Some(n as u32) } else { None };
        let got = s.checked_total_size();
        need(got == want, || format!("{:?}: checked element count is {:?}, should be {:?}", s, got, want))?;
        c.step();
        need(dim(&TensorShape::new(a, b, k)) == dim(&s), || format!("new makes {:?} of {:?}", TensorShape::new(a, b, k), s))?;
        need(s.transpose_ij() == TensorShape { di: b, dj: a, dk: k }, || format!("{:?}: transposed is {:?}", s, s.transpose_ij()))?;
        if want.is_some() {
            need(Some(s.total_size()) == want, || format!("{:?}: {} elements", s, s.total_size()))?;
            let st = TensorStride::new_from_shape(&s);
            let last = TensorIndex { i: a - 1, j: b - 1, k: k - 1 };
            let p = &st * &last;
            need(p as u128 == n - 1, || format!("{:?}: the last position is {}", s, p))?;
            need(s.fits_index(&last) && s.fits_index(&TensorIndex::zero()), || format!("{:?}: its first or last index does not fit", s))?;
            for (i, j, q) in [(a, b - 1, k - 1), (a - 1, b, k - 1), (a - 1, b - 1, k)] {
                need(!s.fits_index(&TensorIndex { i, j, k: q }), || format!("{:?}: index ({},{},{}) fits", s, i, j, q))?;
            }
            let (q, r) = ((a - 1) / 2, (b - 1) / 3);
            let p = &st * &TensorIndex { i: q, j: r, k: k / 2 };
            need(p as u128 == q as u128 + a as u128 * (r as u128 + b as u128 * (k / 2) as u128), || format!("{:?}: position of ({},{},{}) is {}", s, q, r, k / 2, p))?;
        }
        c.observe(got.map_or(u64::MAX, |x| x as u64));
        Ok(())
    }
}
fn constructors() -> impl Fn(&mut Ctx) -> Result<(), String> {
    let mut w = words();
    w.push(0);
    move |c| {
        let (a, b, k) = (*c.pick(&w), *c.pick(&w), c.choose(3) as u32);
        c.log(|| format!("{} {} {}", a, b, k));
        let s = TensorShape::new(a, b, k);
        need((s.di, s.dj, s.dk) == (a.max(1), b.max(1), k.max(1)), || format!("new({},{},{}) is {:?}", a, b, k, s))?;
        let x = TensorIndex::index_2d(a, b);
        need((x.i, x.j, x.k) == (a, b, 0), || format!("index_2d({},{})", a, b))?;
        let x = TensorIndex::index_1d(a);
        need((x.i, x.j, x.k) == (a, 0, 0), || format!("index_1d({})", a))?;
        let x = TensorIndex::zero();
        need((x.i, x.j, x.k) == (0, 0, 0), || "the zero index".into())?;
        if a > 0 && b > 0 {
            let s = TensorShape::new_2d(a, b);
            need((s.di, s.dj, s.dk) == (a, b, 1), || format!("new_2d({},{}) is {:?}", a, b, s))?;
            let s = TensorShape::new_1d(a);
            need((s.di, s.dj, s.dk) == (a, 1, 1), || format!("new_1d({}) is {:?}", a, s))?;
        }
        let e = Tensor::empty();
        need(dim(&e.get_shape()) == [1, 1, 1] && e.get_item(&TensorIndex::zero()) == 0.0, || format!("the empty tensor has shape {:?}", e.get_shape()))?;
        c.steps(6);
        c.observe(mix(a as u64, b as u64));
        Ok(())
    }
}
/// The predicates that decide whether a window fits, against the definition.
fn geometry(sizes: Vec<u32>, strides: Vec<u32>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (i0, i1, w0) = (*c.pick(&sizes), *c.pick(&sizes), *c.pick(&sizes));
        for w1 in sizes.iter().copied() {
            for st in strides.iter().copied() {
                let img = TensorShape { di: i0, dj: i1, dk: 2 };
                let win = TensorShape { di: w0, dj: w1, dk: 1 };
                let fit = |i: u32, w: u32| st > 0 && w <= i && (i - w) % st == 0;
                let want = fit(i0, w0) && fit(i1, w1);
                let got = Tensor::does_kernel_stride_fit_image(&img, &win, st);
                let what = || format!("a {}x{} window on {}x{} with stride {}", w0, w1, i0, i1, st);
                need(got == want, || format!("{}: fits: {}", what(), got))?;
                c.step();
                if want {
                    let n = Tensor::get_convolution_dim_fit(&img, &win, st);
                    let m = ((i0 - w0) / st + 1, (i1 - w1) / st + 1);
                    need(n == m, || format!("{}: {:?} windows, should be {:?}", what(), n, m))?;
                    c.observe(mix(n.0 as u64, n.1 as u64));
                    for (r, ok) in [([m.0, m.1, 2], true), ([m.0 % u32::MAX + 1, m.1, 2], false), ([m.0, m.1 % u32::MAX + 1, 2], false), ([m.0, m.1, 3], false), ([m.0, m.1, 1], false), ([m.1, m.0, 2], m.0 == m.1)] {
                        let rs = TensorShape { di: r[0], dj: r[1], dk: r[2] };
                        let p = Tensor::check_max_pooling_dimensions(&img, &win, st, &rs);
                        need(p == ok, || format!("{}: pooling into {:?} fits: {}", what(), r, p))?;
                        c.step();
                    }
                } else {
                    for r in [[1, 1, 2], [2, 1, 2], [i0, i1, 2], [w0, w1, 2]] {
                        let rs = TensorShape { di: r[0], dj: r[1], dk: r[2] };
                        need(!Tensor::check_max_pooling_dimensions(&img, &win, st, &rs), || format!("{}: pooling into {:?} fits", what(), r))?;
                        c.step();
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let m = if t { 48 } else { 24 };
    let edge = vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 255, 256, 257, 65535, 65536, 65537, 1 << 31, u32::MAX - 1, u32::MAX];
    let st: Vec<u32> = (0..=8).chain([255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX]).collect();
    (
        vec![
            Driver::new("small shapes", &format!("every shape up to {m}^3, every index in it and up to two beyond each axis, far indices along each axis"), small(m, true)),
            Driver::new("large shapes", &format!("every triple of {} words around powers of two and factors of 2^32-1 and 2^64+1", words().len()), large()),
            Driver::new("constructors", "every pair of words, with and without 0", constructors()),
            Driver::new("window geometry", &format!("every image and window of up to {0}x{0}, strides 0..=8 and extremes", if t { 24 } else { 12 }), geometry((1..=if t { 24 } else { 12 }).collect(), st.clone())),
            Driver::new("extreme window geometry", "every image and window with sides out of 19 words up to 2^32-1, strides 0..=8 and extremes", geometry(edge, st)),
        ],
        vec!["dimensions are positive", "element counts above 2^32-1 only have to be detected by checked_total_size"],
    )
}
