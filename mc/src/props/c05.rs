//! C05: convolution gradients.
use super::c04::{boundary_list, geometry};
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

fn both(c: &mut Ctx, img: &RT, kers: &[RT], grad: &RT, stride: usize, chs: &[usize]) -> Result<(), String> {
    both_tol(c, img, kers, grad, stride, chs, 0.0)
}
fn both_tol(c: &mut Ctx, img: &RT, kers: &[RT], grad: &RT, stride: usize, chs: &[usize], tol: f64) -> Result<(), String> {
    let w = |op: &str| {
        format!(
            "{}: image {:?}{:?}, {} kernel(s) {:?}{:?}, gradient {:?}{:?}, stride {}",
            op, img.d, short(&img.v), kers.len(), kers[0].d, short(&kers[0].v), grad.d, short(&grad.v), stride
        )
    };
    let (ti, tg) = (lt(img), lt(grad));
    let tks: Vec<Tensor> = kers.iter().map(lt).collect();
    let mut r = lt(&RT::filled(img.d, 55.0));
    convolution_backprop_outgoing_gradient(&tg, &tks, stride as u32, &mut r).map_err(|e| format!("{} refused: {}", w("input gradient"), e))?;
    expect_with(|| w("input gradient"), &r, &conv_grad_input(grad, kers, img.d, stride), tol)?;
    c.step();
    c.observe(hash_t(&r));
    for ch in chs {
        let mut r = lt(&RT::filled(kers[0].d, 55.0));
        convolution_backprop_kernel(&tg, &ti, stride as u32, *ch as u32, &mut r).map_err(|e| format!("{} channel {} refused: {}", w("kernel gradient"), ch, e))?;
        expect_with(|| format!("{} channel {}", w("kernel gradient"), ch), &r, &conv_grad_kernel(grad, img, kers[0].d, *ch, stride), tol)?;
        c.step();
        c.observe(hash_t(&r));
    }
    expect("image", &ti, img, 0.0)?;
    expect("incoming gradient", &tg, grad, 0.0)?;
    for (t, k) in tks.iter().zip(kers) {
        expect("kernel", t, k, 0.0)?;
    }
    Ok(())
}
fn out_dim(img: Dim, ker: Dim, stride: usize, n: usize) -> Dim {
    let o = windows([img[0], img[1]], [ker[0], ker[1]], stride);
    [o[0], o[1], n]
}
const SCALES: [f64; 3] = [1.0, 1073741824.0, 9.313225746154785e-10];

fn dense_geometry(max: usize, max_stride: usize, max_depth: usize, max_out: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, max_depth);
        let n = c.range(1, max_out);
        c.log(|| format!("image {:?} kernel {:?} stride {} kernels {}", img, ker, stride, n));
        let all: Vec<usize> = (0..n).collect();
        for (salt, s) in SCALES.iter().enumerate() {
            let kers: Vec<RT> = (0..n).map(|x| dense(ker, 60 + (salt * 7 + x) as u64, -4, 4).scaled(*s)).collect();
            both(c, &dense(img, salt as u64, -4, 4).scaled(*s), &kers, &dense(out_dim(img, ker, stride, n), 90 + salt as u64, -4, 4).scaled(*s), stride, &all)?;
        }
        Ok(())
    }
}
/// Operands of very different magnitudes, and operands with full mantissas.
fn magnitudes(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, 2);
        let how = c.choose(SCALE_PAIRS.len() + 1);
        c.log(|| format!("image {:?} kernel {:?} stride {} {:?}", img, ker, stride, SCALE_PAIRS.get(how)));
        let gd = out_dim(img, ker, stride, 2);
        match SCALE_PAIRS.get(how) {
            // the gradient meets the kernels and the image
            Some((x, y)) => {
                let kers: Vec<RT> = (0..2).map(|q| dense(ker, 60 + q, -4, 4).scaled(pow2(*y))).collect();
                both(c, &dense(img, 5, -4, 4).scaled(pow2(*y)), &kers, &dense(gd, 90, -4, 4).scaled(pow2(*x)), stride, &[0, 1])
            }
            None => both_tol(c, &rough(img, 1), &[rough(ker, 2), rough(ker, 3)], &rough(gd, 4), stride, &[0, 1], rough_tol(total(gd).max(2 * total(ker)))),
        }
    }
}
fn basis_pairs(max: usize, max_stride: usize, max_depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride) = geometry(c, max, max_stride, max_depth);
        let n = 2;
        let gd = out_dim(img, ker, stride, n);
        let p = c.choose(total(gd));
        c.log(|| format!("image {:?} kernel {:?} stride {} gradient basis {}", img, ker, stride, p));
        let g = basis(gd, p).scaled(3.0);
        for q in 0..total(img).max(total(ker)) {
            let mut kers = vec![RT::zeros(ker); n];
            kers[p / (gd[0] * gd[1])] = basis(ker, q % total(ker));
            // the other kernel must not contribute
            kers[1 - p / (gd[0] * gd[1])] = RT::filled(ker, 1.0);
            both(c, &basis(img, q % total(img)), &kers, &g, stride, &[0, 1])?;
        }
        Ok(())
    }
}
fn boundary(list: Vec<(Dim, Dim, usize, usize)>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (img, ker, stride, n) = *c.pick(&list);
        c.log(|| format!("image {:?} kernel {:?} stride {} kernels {}", img, ker, stride, n));
        let kers: Vec<RT> = (0..n).map(|x| dense(ker, 60 + x as u64, -2, 2)).collect();
        both(c, &dense(img, 3, -2, 2), &kers, &dense(out_dim(img, ker, stride, n), 9, -2, 2), stride, &[0, n / 2, n - 1])
    }
}
fn misfits(max: usize, max_stride: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let img = [c.range(1, max), c.range(1, max), c.range(1, 2)];
        let ker = [c.range(1, max + 1), c.range(1, max + 1), c.range(1, 2)];
        let stride = c.range(0, max_stride);
        c.log(|| format!("image {:?} kernel {:?} stride {}", img, ker, stride));
        let plane = fits([img[0], img[1]], [ker[0], ker[1]], stride);
        let fit = img[2] == ker[2] && plane;
        let o = if plane { windows([img[0], img[1]], [ker[0], ker[1]], stride) } else { [1, 1] };
        let (a, k) = (dense(img, 1, 1, 3), dense(ker, 2, 1, 3));
        for ri in [o[0], o[0] + 1, o[0].max(2) - 1, img[0]] {
            for rj in [o[1], o[1] + 1, o[1].max(2) - 1, img[1]] {
                for gk in 1..=3 {
                    let gd = [ri, rj, gk];
                    let g = dense(gd, 5, 1, 3);
                    let what = || format!("image {:?} kernel {:?} stride {} gradient {:?}", img, ker, stride, gd);
                    for ch in [0, 1, 2, 3, u32::MAX] {
                        let start = RT::filled(ker, 55.0);
                        let mut r = lt(&start);
                        let ok = fit && [ri, rj] == o && (ch as usize) < gk;
                        let s = convolution_backprop_kernel(&lt(&g), &lt(&a), stride as u32, ch, &mut r);
                        need(s.is_ok() == ok, || format!("kernel gradient channel {}, {}: reported {:?}", ch, what(), s))?;
                        let want = if ok { conv_grad_kernel(&g, &a, ker, ch as usize, stride) } else { start };
                        expect_with(|| format!("kernel gradient channel {}, {}", ch, what()), &r, &want, 0.0)?;
                        c.step();
                    }
                    for n in 0..=3 {
                        let start = RT::filled(img, 55.0);
                        let mut r = lt(&start);
                        let ok = fit && [ri, rj] == o && n == gk;
                        let kers = vec![k.clone(); n];
                        let s = convolution_backprop_outgoing_gradient(&lt(&g), &kers.iter().map(lt).collect(), stride as u32, &mut r);
                        need(s.is_ok() == ok, || format!("input gradient with {} kernels, {}: reported {:?}", n, what(), s))?;
                        let want = if ok { conv_grad_input(&g, &kers, img, stride) } else { start };
                        expect_with(|| format!("input gradient with {} kernels, {}", n, what()), &r, &want, 0.0)?;
                        c.step();
                        c.observe(mix(ok as u64, hash_t(&r)));
                    }
                    // one kernel of a different shape among fitting ones
                    if fit && [ri, rj] == o && gk >= 2 {
                        for odd in [[ker[0] + 1, ker[1], ker[2]], [ker[0], ker[1] + 1, ker[2]], [ker[0], ker[1], ker[2] + 1]] {
                            let mut kers = vec![lt(&k); gk];
                            kers[gk - 1] = lt(&dense(odd, 7, 1, 3));
                            let start = RT::filled(img, 55.0);
                            let mut r = lt(&start);
                            let s = convolution_backprop_outgoing_gradient(&lt(&g), &kers, stride as u32, &mut r);
                            need(s.is_err(), || format!("input gradient accepted a kernel of shape {:?} among {:?}, {}", odd, ker, what()))?;
                            expect("refused input gradient", &r, &start, 0.0)?;
                            c.step();
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let big = super::big::planes(if t { 10_000_000 } else { 1_000_000 });
    (
        vec![
            Driver::new(
                "dense values on all geometries",
                if t { "all fitting images 1..=12 x 1..=12, kernels, strides 1..=7, depth 1..=3, kernels 1..=3; 3 patterns/scales" } else { "all fitting images 1..=9 x 1..=9, kernels, strides 1..=5, depth 1..=3, kernels 1..=3; 3 patterns/scales" },
                dense_geometry(if t { 12 } else { 9 }, if t { 7 } else { 5 }, 3, 3),
            ),
            Driver::new(
                "basis pairs",
                if t { "images up to 8x8x2, all kernels and strides 1..=5, every gradient/image and gradient/kernel basis pair" } else { "images up to 6x6x2, all kernels and strides 1..=4, every gradient/image and gradient/kernel basis pair" },
                basis_pairs(if t { 8 } else { 6 }, if t { 5 } else { 4 }, 2),
            ),
            Driver::new(
                "magnitudes",
                &format!("all fitting images up to {0}x{0}x2, kernels, strides 1..=3; gradient and other operand scaled by 10 pairs of powers of two between 2^-110 and 2^100, and operands with 24-bit mantissas (tolerance 16 units in the last place per product)", if t { 8 } else { 6 }),
                magnitudes(if t { 8 } else { 6 }, 3),
            ),
            Driver::new("boundary sizes", "geometries with one size around 2^3..2^16", boundary(boundary_list())),
            Driver::new("several large dimensions", &format!("{} geometries of which 2 or more of image, kernel, depth, stride and channels are large together", big.len()), boundary(big)),
            Driver::new(
                "fitting and misfitting dimensions",
                if t { "images 1..=7 squared x 1..=2, kernels 1..=8 squared x 1..=2, strides 0..=7, 16 gradient planes x 3 depths, 5 channels, 0..=3 kernels" } else { "images 1..=5 squared x 1..=2, kernels 1..=6 squared x 1..=2, strides 0..=5, 16 gradient planes x 3 depths, 5 channels, 0..=3 kernels" },
                misfits(if t { 7 } else { 5 }, if t { 7 } else { 5 }),
            ),
        ],
        vec!["dimensions are positive; values are exactly representable, or a tolerance covers every order of summation"],
    )
}
