//! C20: random fills under a scripted generator. The harness is linked with a copy of rand whose
//! thread-local generator returns the answers chosen here.

use crate::engine::*;
use crate::glue::{bits, need, rd, shape};
use crate::refmodel::*;
use rand::distributions::Distribution;
use rand::rngs::mc;
use rusty_network::tensor::Tensor;
use std::cell::Cell;
use std::rc::Rc;

/// Runs f with the given answers (repeating); returns f's result and the number of draws it made.
fn scripted<R>(answers: Rc<Vec<u64>>, f: impl FnOnce() -> R) -> (R, u64) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            mc::set_script(None);
        }
    }
    let guard = Guard;
    let at = Rc::new(Cell::new(0usize));
    let n = answers.len();
    mc::set_script(Some(Box::new(move || {
        let i = at.get();
        at.set(i + 1);
        answers[i % n]
    })));
    let r = f();
    let d = mc::draws();
    drop(guard);
    (r, d)
}
fn sorted(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
fn fill_uniform(d: Dim, lo: f32, hi: f32, answers: Rc<Vec<u64>>) -> (Tensor, u64) {
    let mut t = Tensor::new(shape(d));
    t.fill_with_value(1e30);
    let ((), n) = scripted(answers, || t.fill_with_uniform(lo, hi));
    (t, n)
}
const INTERVALS: [(f32, f32); 14] = [
    (0.0, 1.0),
    (-1.0, 1.0),
    (-0.1, 0.1),
    (2.0, 3.0),
    (-7.0, -5.5),
    (0.0, 1e-30),
    (-1e30, 1e30),
    (1.0, 1.0),
    (-2.5, -2.5),
    (0.1, 0.3),
    (1.0, 1.0000001),
    (-16777216.0, 16777216.0),
    (-0.0, 0.0),
    (0.0, 1e38),
];
/// Every answer the uniform sampler distinguishes (2^23, the top bits of a draw), in chunks.
fn uniform_answers(chunk: usize, low_forms: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (lo, hi) = *c.pick(&INTERVALS);
        let low = [0u64, (1 << 41) - 1, 0x0123456789 << 1][c.choose(low_forms)];
        let part = c.choose((1 << 23) / chunk);
        c.log(|| format!("interval [{:?},{:?}], answers {}..{}, low bits {:x}", lo, hi, part * chunk, (part + 1) * chunk, low));
        let us: Vec<u64> = (part * chunk..(part + 1) * chunk).map(|u| u as u64).collect();
        let answers: Vec<u64> = us.iter().map(|u| u << 41 | low).collect();
        // three-dimensional, so that every stride is involved
        let d = [8, chunk / 64, 8];
        let (t, n) = fill_uniform(d, lo, hi, Rc::new(answers));
        c.steps(chunk as u64);
        let what = || format!("uniform fill of {:?} in [{:?},{:?}] with answers {}..{}", d, lo, hi, part * chunk, (part + 1) * chunk);
        let got = rd(&t);
        need(got.d == d, || format!("{}: the shape became {:?}", what(), got.d))?;
        if let Some(p) = got.v.iter().position(|x| !(*x >= lo as f64 && *x <= hi as f64)) {
            return Err(format!("{}: element {} (answer {:?}) is {}", what(), p, us.get(p), got.v[p]));
        }
        c.observe(hash_bytes(4, &(got.v.iter().sum::<f64>() as f32).to_le_bytes()));
        c.count("answers", chunk as u64);
        if n == chunk as u64 {
            // one draw per element: the elements are the images of the answers
            c.count("compared with the definition", chunk as u64);
            let w = hi as f64 - lo as f64;
            let tol = 8.0 * w / (1 << 23) as f64 + 4e-7 * (lo as f64).abs().max((hi as f64).abs());
            let got = sorted(got.v);
            for (u, x) in us.iter().zip(&got) {
                let e = lo as f64 + w * *u as f64 / ((1 << 23) - 1) as f64;
                if (x - e).abs() > tol {
                    return Err(format!("{}: the answer {} should give {}, found {} among the elements in its place", what(), u, e, x));
                }
            }
        } else {
            c.count("drawn in another way", 1);
        }
        Ok(())
    }
}
/// Each element has a draw of its own: changing one answer changes one element.
fn own_draw(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let n = total(d);
        let gauss = c.choose(2) == 1;
        c.log(|| format!("{:?}, gaussian: {}", d, gauss));
        // well inside the ziggurat's common case: one draw per normal value
        let base: Vec<u64> = (0..n as u64).map(|i| (0x4000_0000_0000_0000 + i * 0x0080_0000_0000_0000 / n as u64) & !0xff | 3).collect();
        let fill = |a: Vec<u64>| {
            let mut t = Tensor::new(shape(d));
            t.fill_with_value(1e30);
            let ((), draws) = scripted(Rc::new(a), || if gauss { t.fill_with_gaussian(1.0, 2.0) } else { t.fill_with_uniform(-3.0, 5.0) });
            (t, draws)
        };
        let (t, draws) = fill(base.clone());
        c.step();
        let what = || format!("{} fill of {:?}", if gauss { "gaussian" } else { "uniform" }, d);
        let first = bits_of(&t);
        need(t.get_shape() == shape(d), || format!("{}: the shape became {:?}", what(), t.get_shape()))?;
        if draws == 0 {
            c.count("drawn in another way", 1);
            return need(first.iter().all(|x| f32::from_bits(*x).abs() < 1e3), || format!("{}: an element was not filled", what()));
        }
        let mut u = first.clone();
        u.sort();
        u.dedup();
        need(u.len() == n, || format!("{}: {} different draws give {} different values {:?}", what(), n, u.len(), rd(&t).v))?;
        for q in 0..n {
            let mut a = base.clone();
            a[q] ^= 0x2000_0000_0000_0000;
            let (t, _) = fill(a);
            c.step();
            let b = bits_of(&t);
            let changed = (0..n).filter(|p| b[*p] != first[*p]).count();
            need(changed == 1, || format!("{}: changing draw {} changes {} elements", what(), q, changed))?;
            c.observe(hash_bytes(b[q % n] as u64, &[q as u8]));
        }
        // a second fill starts from nothing the first one left
        Ok(())
    }
}
fn bits_of(t: &Tensor) -> Vec<u32> {
    bits(t)
}
/// The parameters given, on a refill and on odd values.
fn refill(c: &mut Ctx) -> Result<(), String> {
    let d = [3usize, 2, 2];
    let n = total(d);
    let ops: Vec<usize> = (0..3).map(|_| c.choose(6)).collect();
    c.log(|| format!("fills {:?}", ops));
    let answers = Rc::new((0..n as u64).map(|i| (i * 0x1111_1111_1111_1111) & !0xff | 9).collect::<Vec<_>>());
    let par = [(0.0f32, 1.0f32), (-4.0, -3.0), (10.0, 20.0)];
    let fill = |t: &mut Tensor, o: usize| {
        scripted(answers.clone(), || if o < 3 { t.fill_with_uniform(par[o].0, par[o].1) } else { t.fill_with_gaussian(par[o - 3].0, par[o - 3].1) });
    };
    let mut t = Tensor::new(shape(d));
    for o in &ops {
        fill(&mut t, *o);
        c.step();
        let mut fresh = Tensor::new(shape(d));
        fill(&mut fresh, *o);
        need(bits_of(&t) == bits_of(&fresh), || format!("fills {:?}: {:?} on the used tensor, {:?} on a fresh one", ops, rd(&t).v, rd(&fresh).v))?;
        c.observe(hash_bytes(1, &bits_of(&t).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
    }
    Ok(())
}
/// The normal values the sampler makes of every layer of its table and a grid of positions in it.
fn gaussian_answers(grid: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let pars = [(0.0f32, 1.0f32), (3.0, 0.5), (-100.0, 1e-3), (0.0, 1e10), (5.0, 0.0)];
        let (mean, sd) = *c.pick(&pars);
        let layer = c.choose(256) as u64;
        c.log(|| format!("mean {:?}, standard deviation {:?}, table layer {}", mean, sd, layer));
        // the table index in the low 8 bits, the position in the top bits
        let answers: Vec<u64> = (0..grid as u64).map(|g| ((g * ((1u64 << 52) / grid as u64) + ((g * 2654435761) % 1000)) << 12) | layer).collect();
        let d = [4, grid / 16, 4];
        let answers = Rc::new(answers);
        let (want, want_draws) = scripted(answers.clone(), || {
            let mut r = rand::thread_rng();
            (0..grid).map(|_| <rand_distr::StandardNormal as Distribution<f32>>::sample(&rand_distr::StandardNormal, &mut r)).collect::<Vec<f32>>()
        });
        let mut t = Tensor::new(shape(d));
        t.fill_with_value(f32::NAN);
        let ((), draws) = scripted(answers.clone(), || t.fill_with_gaussian(mean, sd));
        c.steps(grid as u64);
        let what = || format!("gaussian fill of {:?} with mean {:?} and standard deviation {:?}, answers in table layer {}", d, mean, sd, layer);
        let got = rd(&t);
        need(got.d == d, || format!("{}: the shape became {:?}", what(), got.d))?;
        if let Some(p) = got.v.iter().position(|x| !x.is_finite()) {
            return Err(format!("{}: element {} is {}", what(), p, got.v[p]));
        }
        c.observe(hash_bytes(8, &(got.v.iter().map(|x| x.abs()).sum::<f64>() as f32).to_le_bytes()));
        let want: Vec<f64> = if draws == want_draws {
            c.count("compared with the definition", grid as u64);
            want.iter().map(|z| mean as f64 + sd as f64 * *z as f64).collect()
        } else {
            // drawn in another way: at least an affine image of what it makes of mean 0 and deviation 1
            c.count("drawn in another way", 1);
            let mut z = Tensor::new(shape(d));
            scripted(answers.clone(), || z.fill_with_gaussian(0.0, 1.0));
            if draws == 0 {
                return Ok(());
            }
            rd(&z).v.iter().map(|z| mean as f64 + sd as f64 * z).collect()
        };
        for (x, e) in sorted(got.v).iter().zip(sorted(want)) {
            if (x - e).abs() > 4e-6 * (mean.abs() as f64 + 5.0 * sd as f64 + 1e-30) {
                return Err(format!("{}: an element that should be {} is {}", what(), e, x));
            }
        }
        Ok(())
    }
}
/// More elements than a 20-bit count, draws spread over the whole range.
fn huge(list: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&list);
        let n = total(d);
        let gauss = c.choose(2) == 1;
        c.log(|| format!("{:?}, gaussian: {}", d, gauss));
        let answers: Vec<u64> = (0..n as u64).map(|i| if gauss { (0x3000_0000_0000_0000 + i * (0x2000_0000_0000_0000 / n as u64)) & !0xff | 5 } else { i * (u64::MAX / n as u64) + i % 255 }).collect();
        let mut t = Tensor::new(shape(d));
        t.fill_with_value(1e30);
        let ((), draws) = scripted(Rc::new(answers), || if gauss { t.fill_with_gaussian(0.0, 1.0) } else { t.fill_with_uniform(-4.0, 4.0) });
        c.steps(n as u64);
        let b = bits_of(&t);
        let what = || format!("{} fill of {:?}", if gauss { "gaussian" } else { "uniform" }, d);
        need(b.len() == n, || format!("{}: the shape became {:?}", what(), t.get_shape()))?;
        if let Some(p) = b.iter().position(|x| !(f32::from_bits(*x).abs() < 50.0)) {
            return Err(format!("{}: element {} is {}", what(), p, f32::from_bits(b[p])));
        }
        let mut u = b.clone();
        u.sort();
        u.dedup();
        c.observe(u.len() as u64);
        need(draws == 0 || u.len() >= (if gauss { n.min(1 << 20) } else { n.min(1 << 23) }) * 8 / 10, || format!("{}: {} different draws give {} different values", what(), n, u.len()))?;
        // no stretch of the tensor repeats another
        for at in [n / 2, n - 64, 1 << 20, 1 << 16].into_iter().filter(|a| a + 64 <= n && draws > 0) {
            let (run, mut hits) = (&b[at..at + 64], 0);
            for p in 0..=n - 64 {
                if b[p] == run[0] && &b[p..p + 64] == run {
                    hits += 1;
                }
            }
            let flat = run.iter().all(|x| *x == run[0]);
            need(hits <= 1 || flat && gauss, || format!("{}: 64 consecutive elements from {} on occur {} times", what(), at, hits))?;
        }
        Ok(())
    }
}
fn large(c: &mut Ctx) -> Result<(), String> {
    let d = *c.pick(&[[255usize, 1, 1], [256, 1, 1], [257, 1, 1], [1, 1, 1000], [1, 4097, 1], [65, 64, 63], [65536, 1, 1], [1, 65537, 1], [700, 301, 2]]);
    let n = total(d);
    let gauss = c.choose(2) == 1;
    c.log(|| format!("{:?}, gaussian: {}", d, gauss));
    let answers: Vec<u64> = (0..n as u64).map(|i| (0x3000_0000_0000_0000 + i * (0x2000_0000_0000_0000 / n as u64)) & !0xff | 5).collect();
    let mut t = Tensor::new(shape(d));
    t.fill_with_value(1e30);
    let ((), draws) = scripted(Rc::new(answers), || if gauss { t.fill_with_gaussian(0.0, 1.0) } else { t.fill_with_uniform(0.0, 1.0) });
    c.steps(n as u64);
    let b = bits_of(&t);
    let what = || format!("{} fill of {:?}", if gauss { "gaussian" } else { "uniform" }, d);
    need(b.iter().all(|x| f32::from_bits(*x).abs() < 50.0), || format!("{}: an element was not filled", what()))?;
    let mut u = b.clone();
    u.sort();
    u.dedup();
    c.observe(u.len() as u64);
    // 2^23 answers are told apart, the script uses an eighth of them
    need(draws == 0 || u.len() >= n.min(1 << 20) * 9 / 10, || format!("{}: {} different draws give {} different values", what(), n, u.len()))
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (lf, grid, m) = if t { (3, 1 << 14, 5) } else { (2, 1 << 11, 4) };
    (
        vec![
            Driver::new("uniform answers", &format!("14 intervals x all 2^23 answers the sampler distinguishes x {lf} forms of the remaining bits"), uniform_answers(1 << 16, lf)),
            Driver::new("every element has its own draw", &format!("every shape up to {m}x{m}x{m} x uniform and gaussian x every single draw changed"), own_draw(m)),
            Driver::new("gaussian answers", &format!("5 parameter pairs x all 256 table layers x {grid} positions (tails and rejections included)"), gaussian_answers(grid)),
            Driver::new("refills", "every sequence of 3 fills out of 6", refill),
            Driver::new("large tensors", "9 shapes across the 2^8, 2^12 and 2^16 boundaries", large),
            Driver::new("huge tensors", if t { "7 shapes of 2^20 to 2^24+1 elements: every element filled, draws not repeated" } else { "3 shapes of 2^20 to 2.25 million elements: every element filled, draws not repeated" }, huge(if t { vec![[1 << 20, 1, 1], [1500, 1500, 1], [130, 128, 129], [1, (1 << 22) + 1, 1], [1 << 23, 1, 1], [3001, 1, 3001], [1, 1, (1 << 24) + 1]] } else { vec![[1 << 20, 1, 1], [1500, 1500, 1], [130, 128, 129]] })),
        ],
        vec!["bounds are finite with finite width, standard deviations finite and not negative", "the gaussian fill is compared with rand_distr's standard normal sampler under the same answers"],
    )
}
