//! C07: softmax.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;

pub fn check(x: &RT, got: &RT) -> Result<(), String> {
    let w = || format!("softmax of {:?} {:?}", x.d, short(&x.v));
    let want = softmax(x);
    need(got.d == x.d, || format!("{}: shape {:?}", w(), got.d))?;
    let n = x.v.len() as f64;
    let tol = 3e-6 + 1e-7 * n;
    let max = x.v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mut sum = 0.0;
    for (p, g) in got.v.iter().enumerate() {
        need(g.is_finite() && *g >= 0.0 && *g <= 1.0, || format!("{}: element {} is {}", w(), p, g))?;
        sum += g;
        need((g - want.v[p]).abs() <= (tol + 2e-7 * (max - x.v[p]).min(110.0)) * want.v[p] + 1e-37, || format!("{}: element {} is {:e}, should be {:e}", w(), p, g, want.v[p]))?;
    }
    need((sum - 1.0).abs() <= tol, || format!("{}: sums to {}", w(), sum))?;
    if x.v.len() <= 64 {
        for a in 0..x.v.len() {
            for b in 0..x.v.len() {
                if x.v[a] > x.v[b] {
                    need(got.v[a] >= got.v[b] * (1.0 - 1e-6), || format!("{}: element {} has the larger input but the smaller probability", w(), a))?;
                }
            }
        }
    }
    Ok(())
}
fn run(c: &mut Ctx, x: &RT, layer: bool) -> Result<(), String> {
    let tx = lt_lossy(x);
    let x = &rd(&tx); // the values as stored
    let mut r = lt(&RT::filled(x.d, 55.0));
    Tensor::softmax(&tx, &mut r);
    check(x, &rd(&r))?;
    need(same_bits(&rd(&tx), x), || "softmax changed its input".into())?;
    c.step();
    c.observe(hash_t(&r));
    if layer {
        let mut l = Lib::build(&Spec::Soft { shape: x.d }, "s")?;
        for train in [false, true] {
            if train {
                l.l().switch_to_training();
            }
            let mut r = lt(&RT::filled(x.d, 55.0));
            l.l().forward(&tx, &mut r).map_err(|e| format!("softmax layer refused {:?}: {}", x.d, e))?;
            check(x, &rd(&r)).map_err(|e| format!("layer, training={}: {}", train, e))?;
            c.step();
        }
    }
    Ok(())
}
fn same_bits(a: &RT, b: &RT) -> bool {
    a.d == b.d && a.v.iter().zip(&b.v).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub const ALPHA: [f64; 17] = [
    0.0, 1.0, -1.0, 0.5, 10.0, -20.0, 87.0, 88.5, -87.5, 89.0, -104.0, 110.0, -110.0, 1e4, -1e4, 3.4028234663852886e38, -3.4028234663852886e38,
];
fn values(shapes: Vec<Dim>, alpha: Vec<f64>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&shapes);
        let x = RT { d, v: (0..total(d)).map(|_| *c.pick(&alpha)).collect() };
        c.log(|| format!("softmax {:?} {:?}", d, x.v));
        run(c, &x, true)
    }
}
fn shapes(max: usize, extra: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = max * max * max;
        let p = c.choose(n + extra.len());
        let d = if p < n { [1 + p % max, 1 + p / max % max, 1 + p / max / max] } else { extra[p - n] };
        let shift = *c.pick(&[0.0, 50.0, 88.0, 90.0, 500.0, -50.0, -95.0, -103.0, -500.0, 1e30, -1e30]);
        let spread = *c.pick(&[0.0, 0.125, 1.0, 8.0]);
        c.log(|| format!("softmax {:?} values {} + {} * pattern", d, shift, spread));
        let x = dense(d, 5, -6, 6).map(|v| shift + spread * v);
        run(c, &x, true)
    }
}
fn large(list: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&list);
        for shift in [0.0, 80.0, -300.0] {
            for spread in [0.125, 1.0] {
                c.log(|| format!("softmax {:?} values {} + {} * pattern", d, shift, spread));
                run(c, &dense(d, 5, -6, 6).map(|v| shift + spread * v), true)?;
            }
        }
        Ok(())
    }
}
/// Long inputs with one or two outstanding values, steps and ramps at every place where a blocked
/// implementation could treat an element differently.
fn peaks(list: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&list);
        let n = total(d);
        let mut at = vec![0, 1, 7, 8, n / 2, n - n % 8, n - 2, n - 1];
        at.retain(|p| *p < n);
        at.dedup();
        let p = *c.pick(&at);
        let how = c.choose(6);
        c.log(|| format!("softmax {:?}: form {} at element {}", d, how, p));
        let base = dense(d, 5, -6, 6);
        for h in [12.0, 30.0, 60.0, 87.0, 103.0, 200.0] {
            let x = match how {
                0 => RT { d, v: (0..n).map(|q| base.v[q] * 0.125 + if q == p { h } else { 0.0 }).collect() },
                1 => RT { d, v: (0..n).map(|q| base.v[q] * 0.125 - if q == p { h } else { 0.0 }).collect() },
                2 => RT { d, v: (0..n).map(|q| if q < p { 0.0 } else { h }).collect() },
                3 => RT { d, v: (0..n).map(|q| if q <= p { 0.0 } else { -h }).collect() },
                4 => RT { d, v: (0..n).map(|q| (h * q as f64 / n as f64 + if q == p { 2.0 } else { 0.0 }) as f32 as f64).collect() },
                _ => RT { d, v: (0..n).map(|q| (-h * q as f64 / n as f64 + base.v[(q + p) % n]) as f32 as f64).collect() },
            };
            run(c, &x, false)?;
        }
        Ok(())
    }
}
fn mismatched(shapes: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (a, b) = (*c.pick(&shapes), *c.pick(&shapes));
        c.log(|| format!("softmax {:?} into {:?}", a, b));
        let x = dense(a, 3, -3, 3);
        let start = RT::filled(b, 55.0);
        let mut r = lt(&start);
        Tensor::softmax(&lt(&x), &mut r);
        c.step();
        c.observe(hash_t(&r));
        if a == b {
            check(&x, &rd(&r))
        } else {
            expect_with(|| format!("softmax of {:?} into {:?}", a, b), &r, &start, 0.0)
        }
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let s1 = vec![[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [3, 1, 1], [1, 3, 1], [1, 1, 3]];
    let extra: Vec<Dim> = vec![[16, 1, 1], [17, 1, 1], [65, 1, 1], [129, 2, 1], [256, 1, 1], [257, 1, 1], [10, 10, 10], [1, 1, 1025], [2000, 1, 1]];
    let all27: Vec<Dim> = (0..27).map(|p| [1 + p % 3, 1 + p / 3 % 3, 1 + p / 9]).collect();
    let big = super::big::shapes(if t { 300_000 } else { 70_000 });
    let mut long: Vec<Dim> = vec![[9, 1, 1], [17, 1, 1], [1, 64, 1], [1, 1, 65], [128, 1, 1], [255, 1, 1], [16, 16, 1], [1000, 1, 1], [1024, 1, 1], [1, 1025, 1], [3, 5, 137], [4096, 1, 1], [4097, 1, 1], [10000, 1, 1], [65537, 1, 1], [250, 28, 10]];
    if t {
        long.extend([[300_000, 1, 1], [1 << 20, 1, 1], [1025, 1025, 1]]);
    }
    let mut v = vec![
        Driver::new("extreme values", "every assignment of 17 values spanning the finite f32 range to tensors of 1..=3 elements in all orientations; tensor operation and layer in both modes", values(s1, ALPHA.to_vec())),
        Driver::new("shapes and shifts", "all shapes 1..=6 (thorough 9) cubed and 9 boundary shapes, 11 shifts x 4 spreads", shapes(if t { 9 } else { 6 }, extra)),
        Driver::new("several large dimensions", &format!("{} shapes of 2 or 3 dimensions of 16..=300 together, 3 shifts x 2 spreads", big.len()), large(big)),
        Driver::new("outstanding elements", &format!("{} shapes of 9 to 70000 (thorough 2^20 and more) elements, 6 forms (one value far above or below the rest, steps, ramps) x 6 heights 12..=200 at up to 8 places", long.len()), peaks(long)),
        Driver::new("shape pairs", "all pairs of shapes 1..=3 cubed", mismatched(all27)),
    ];
    use super::hist::{self, Aspect};
    let depth = if t { 6 } else { 4 };
    v.push(Driver::new("softmax layer in use", &format!("every sequence of {depth} calls out of {} on a softmax layer, both initial modes, 2 configurations", hist::ALL.len()), hist::history_of(Aspect::Forward, hist::ALL.to_vec(), depth, |s| s.kind() == 3)));
    v.push(Driver::new("reconfigured softmax layer", "every ordered pair of 7 shapes, up to 2 calls before and after", hist::reconfigure(Aspect::Forward, vec![3], 2)));
    if t {
        v.push(Driver::new("extreme values, 5 elements", "every assignment of 17 values to 5 elements in 2 shapes", values(vec![[5, 1, 1], [1, 1, 5]], ALPHA.to_vec())));
    }
    {
        v.push(Driver::new("extreme values, 4 elements", "every assignment of 17 values to 4 elements in 2 shapes", values(vec![[4, 1, 1], [2, 2, 1]], ALPHA.to_vec())));
    }
    (v, vec!["compared with an f64 evaluation; relative tolerance 3e-6 plus 1e-7 per element plus 2e-7 times the distance from the largest input"])
}
