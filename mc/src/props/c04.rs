//! C04: convolution forward.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

pub fn both(c: &mut Ctx, img: &RT, ker: &RT, bias: f64, stride: usize, outc: usize, ch: usize) -> Result<(), String> {
    both_tol(c, img, ker, bias, stride, outc, ch, 0.0)
}
fn both_tol(c: &mut Ctx, img: &RT, ker: &RT, bias: f64, stride: usize, outc: usize, ch: usize, tol: f64) -> Result<(), String> {
    let o = windows([img.d[0], img.d[1]], [ker.d[0], ker.d[1]], stride);
    let rd_ = [o[0], o[1], outc];
    let w = |op: &str| {
        format!("{} image {:?}{:?} kernel {:?}{:?} bias {} stride {} channel {}/{}", op, img.d, short(&img.v), ker.d, short(&ker.v), bias, stride, ch, outc)
    };
    let one = conv(img, ker, bias, stride);
    let (ti, tk, tb) = (lt(img), lt(ker), lt(&RT::new([1, 1, 1], vec![bias])));
    for rel in [false, true] {
        let start = dense(rd_, 31, 100, 200);
        let mut want = start.clone();
        let n = o[0] * o[1];
        let vals = if rel { relu(&one) } else { one.clone() };
        want.v[ch * n..(ch + 1) * n].copy_from_slice(&vals.v);
        let mut r = lt(&start);
        let s = if rel {
            convolution_bias_relu(&ti, &tk, &tb, stride as u32, &mut r, ch as u32)
        } else {
            convolution_bias(&ti, &tk, &tb, stride as u32, &mut r, ch as u32)
        };
        let op = if rel { "rectified convolution" } else { "convolution" };
        s.map_err(|e| format!("{} refused: {}", w(op), e))?;
        expect_with(|| w(op), &r, &want, tol)?;
        c.step();
        c.observe(hash_t(&r));
    }
    expect("image", &ti, img, 0.0)?;
    expect("kernel", &tk, ker, 0.0)?;
    expect("bias", &tb, &RT::new([1, 1, 1], vec![bias]), 0.0)
}

const SCALES: [f64; 3] = [1.0, 1073741824.0, 9.313225746154785e-10];

/// Chooses an image, kernel and stride that fit.
pub fn geometry(c: &mut Ctx, max: usize, max_stride: usize, max_depth: usize) -> (Dim, Dim, usize) {
    let (ii, ij) = (c.range(1, max), c.range(1, max));
    let stride = c.range(1, max_stride);
    let ks: Vec<usize> = (1..=ii).filter(|k| (ii - k) % stride == 0).collect();
    let ki = *c.pick(&ks);
    let ks: Vec<usize> = (1..=ij).filter(|k| (ij - k) % stride == 0).collect();
    let kj = *c.pick(&ks);
    let d = c.range(1, max_depth);
    ([ii, ij, d], [ki, kj, d], stride)
}
fn dense_geometry(max: usize, max_stride: usize, max_depth: usize, max_out: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, max_depth);
        let outc = c.range(1, max_out);
        c.log(|| format!("image {:?} kernel {:?} stride {} channels {}", img, ker, stride, outc));
        for ch in 0..outc {
            for (salt, s) in SCALES.iter().enumerate() {
                let a = dense(img, salt as u64, -4, 4).scaled(*s);
                let k = dense(ker, salt as u64 + 40, -4, 4).scaled(*s);
                both(c, &a, &k, [3.0, -7.0, 0.0][salt] * s * s, stride, outc, ch)?;
            }
        }
        Ok(())
    }
}
/// Operands of very different magnitudes, and operands with full mantissas.
fn magnitudes(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, 2);
        let how = c.choose(SCALE_PAIRS.len() + 1);
        c.log(|| format!("image {:?} kernel {:?} stride {} {:?}", img, ker, stride, SCALE_PAIRS.get(how)));
        for salt in 0..2u64 {
            match SCALE_PAIRS.get(how) {
                Some((x, y)) => {
                    let (a, k) = (dense(img, salt + 5, -4, 4).scaled(pow2(*x)), dense(ker, salt + 45, -4, 4).scaled(pow2(*y)));
                    both(c, &a, &k, 0.0, stride, 2, 1)?;
                    both(c, &a, &k, [3.0, -7.0][salt as usize] * pow2(x + y), stride, 1, 0)?;
                }
                None => both_tol(c, &rough(img, salt), &rough(ker, salt + 9), [0.0, rough([1, 1, 1], 3).v[0]][salt as usize], stride, 1, 0, rough_tol(total(ker)))?,
            }
        }
        Ok(())
    }
}
fn basis_pairs(max: usize, max_stride: usize, max_depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, max_depth);
        let p = c.choose(total(img));
        c.log(|| format!("image {:?} basis {} kernel {:?} stride {}", img, p, ker, stride));
        for q in 0..total(ker) {
            both(c, &basis(img, p), &basis(ker, q).scaled(2.0), -1.0, stride, 2, (p + q) % 2)?;
        }
        Ok(())
    }
}
fn values(cases: Vec<(Dim, Dim, usize)>, alpha: Vec<f64>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = *c.pick(&cases);
        let a = RT { d: img, v: (0..total(img)).map(|_| *c.pick(&alpha)).collect() };
        c.log(|| format!("image {:?} {:?} kernel {:?} stride {}", img, a.v, ker, stride));
        let (l, n) = (alpha.len(), total(ker));
        for code in 0..l.pow(n as u32) {
            let mut x = code;
            let k = RT { d: ker, v: (0..n).map(|_| { let y = alpha[x % l]; x /= l; y }).collect() };
            for b in [0.0, -1.0, 1.5] {
                both(c, &a, &k, b, stride, 1, 0)?;
            }
        }
        Ok(())
    }
}
fn boundary(list: Vec<(Dim, Dim, usize, usize)>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride, outc) = *c.pick(&list);
        assert!(fits([img[0], img[1]], [ker[0], ker[1]], stride), "case does not fit");
        c.log(|| format!("image {:?} kernel {:?} stride {} channels {}", img, ker, stride, outc));
        for ch in [0, outc / 2, outc - 1] {
            both(c, &dense(img, 3, -2, 2), &dense(ker, 4, -2, 2), 1.0, stride, outc, ch)?;
        }
        Ok(())
    }
}
pub fn boundary_list() -> Vec<(Dim, Dim, usize, usize)> {
    let mut v = vec![];
    for e in [9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 256, 257] {
        v.push(([e, 3, 1], [3, 1, 1], if (e - 3) % 2 == 0 { 2 } else { 1 }, 2));
        v.push(([3, e, 2], [2, 3, 2], 1, 2));
        v.push(([e, e.min(40), 1], [e, e.min(40), 1], 5, 1));
        v.push(([2, 2, e], [2, 1, e], 1, 3));
        v.push(([3, 3, 1], [2, 2, 1], 1, e));
        v.push(([e, 1, 1], [1, 1, 1], e - 1, 1));
        v.push(([1, e + 2, 2], [1, 2, 2], e, 1));
    }
    v.extend([
        ([65537, 1, 1], [3, 1, 1], 2, 1),
        ([1, 65537, 1], [1, 3, 1], 2, 1),
        ([65539, 2, 1], [3, 2, 1], 65536, 2),
        ([1, 1, 65537], [1, 1, 65537], 1, 1),
        ([28, 28, 3], [5, 5, 3], 1, 4),
        ([33, 17, 2], [5, 3, 2], 7, 3),
    ]);
    v
}

/// Every combination, fitting or not: refused exactly when it does not fit.
fn misfits(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let img = [c.range(1, max), c.range(1, max), c.range(1, 2)];
        let ker = [c.range(1, max + 1), c.range(1, max + 1), c.range(1, 2)];
        let stride = c.range(0, max_stride);
        c.log(|| format!("image {:?} kernel {:?} stride {}", img, ker, stride));
        let fit = img[2] == ker[2] && fits([img[0], img[1]], [ker[0], ker[1]], stride);
        let o = if fits([img[0], img[1]], [ker[0], ker[1]], stride) {
            windows([img[0], img[1]], [ker[0], ker[1]], stride)
        } else {
            [1, 1]
        };
        let (a, k) = (dense(img, 1, 1, 3), dense(ker, 2, 1, 3));
        let (ti, tk) = (lt(&a), lt(&k));
        for ri in [o[0], o[0] + 1, o[0].max(2) - 1, img[0], ker[0]] {
            for rj in [o[1], o[1] + 1, o[1].max(2) - 1, img[1]] {
                for (rk, ch) in [(1, 0), (2, 1), (1, 1), (2, 2), (2, usize::MAX)] {
                    for bd in [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]] {
                        let ch = if ch == usize::MAX { u32::MAX as usize } else { ch };
                        let dims_ok = fit && [ri, rj] == o && ch < rk;
                        let ok = dims_ok && bd == [1, 1, 1];
                        let start = RT::filled([ri, rj, rk], 55.0);
                        let tb = lt(&RT::filled(bd, 2.0));
                        let what = || format!("image {:?} kernel {:?} stride {} result {:?} channel {} bias shape {:?}", img, ker, stride, start.d, ch, bd);
                        let chk = check_convolution_dimensions(&shape(img), &shape(ker), stride as u32, &shape(start.d), ch as u32).is_ok();
                        need(chk == dims_ok, || format!("dimension check of {} says {}", what(), chk))?;
                        for rel in [false, true] {
                            let mut r = lt(&start);
                            let s = if rel {
                                convolution_bias_relu(&ti, &tk, &tb, stride as u32, &mut r, ch as u32)
                            } else {
                                convolution_bias(&ti, &tk, &tb, stride as u32, &mut r, ch as u32)
                            };
                            need(s.is_ok() == ok, || format!("{}: reported {:?}", what(), s))?;
                            if !ok {
                                expect_with(|| format!("refused convolution, {}", what()), &r, &start, 0.0)?;
                            }
                            c.step();
                        }
                        c.observe(mix(ok as u64, hash_rt(&start)));
                    }
                }
            }
        }
        expect("image", &ti, &a, 0.0)?;
        expect("kernel", &tk, &k, 0.0)
    }
}

pub fn drivers(thorough: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let alpha = vec![-1.0, 0.0, 2.0];
    let cases = vec![
        ([1, 1, 1], [1, 1, 1], 1), ([2, 1, 1], [1, 1, 1], 1), ([1, 2, 1], [1, 2, 1], 1), ([1, 1, 2], [1, 1, 2], 1),
        ([2, 2, 1], [2, 1, 1], 1), ([2, 2, 1], [1, 2, 1], 1), ([3, 1, 1], [1, 1, 1], 2), ([1, 3, 1], [1, 2, 1], 1), ([2, 2, 1], [2, 2, 1], 1),
        ([3, 1, 1], [2, 1, 1], 1), ([2, 1, 2], [1, 1, 2], 1),
    ];
    let _ = Tensor::empty();
    let t = thorough;
    let big = super::big::planes(if t { 10_000_000 } else { 2_000_000 });
    (
        vec![
            Driver::new(
                "dense values on all geometries",
                if t { "all fitting images 1..=12 x 1..=12, kernels, strides 1..=7, depth 1..=3, channels 1..=3; 3 patterns/scales" } else { "all fitting images 1..=9 x 1..=9, kernels, strides 1..=5, depth 1..=3, channels 1..=3; 3 patterns/scales" },
                dense_geometry(if t { 12 } else { 9 }, if t { 7 } else { 5 }, 3, 3),
            ),
            Driver::new(
                "basis pairs",
                if t { "images up to 7x7x2, all kernels and strides 1..=5, every image/kernel basis pair" } else { "images up to 5x5x2, all kernels and strides 1..=4, every image/kernel basis pair" },
                basis_pairs(if t { 7 } else { 5 }, if t { 5 } else { 4 }, 2),
            ),
            Driver::new(
                "magnitudes",
                &format!("all fitting images up to {0}x{0}x2, kernels, strides 1..=3; operands scaled by 10 pairs of powers of two between 2^-110 and 2^100, and operands with 24-bit mantissas (tolerance 16 units in the last place per product)", if t { 8 } else { 5 }),
                magnitudes(if t { 8 } else { 5 }, 3),
            ),
            Driver::new("small-alphabet values", "every assignment of {-1,0,2} to image and kernel for 11 small geometries, 3 biases", values(cases, alpha)),
            Driver::new("boundary sizes", "111 geometries with one size around 2^3..2^16, including 257 channels and 65537-element images", boundary(boundary_list())),
            Driver::new("several large dimensions", &format!("{} geometries of which 2 or more of image, kernel, depth, stride and channels are large together", big.len()), boundary(big)),
            Driver::new(
                "fitting and misfitting dimensions",
                if t { "images 1..=7 squared x 1..=2, kernels 1..=8 squared x 1..=2, strides 0..=7, 20 result shapes x 5 channels x 4 bias shapes each" } else { "images 1..=5 squared x 1..=2, kernels 1..=6 squared x 1..=2, strides 0..=5, 20 result shapes x 5 channels x 4 bias shapes each" },
                misfits(if t { 7 } else { 5 }, if t { 7 } else { 5 }),
            ),
        ],
        vec!["dimensions are positive; values are exactly representable, or a tolerance covers every order of summation"],
    )
}
