//! C02: elementwise arithmetic.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;

/// Runs every elementwise operation on (a, b) and compares everything with the definition.
fn all_ops(c: &mut Ctx, a: &RT, b: &RT, s: f64, scale2: f64) -> Result<(), String> {
    let (ta, tb) = (lt(a), lt(b));
    let junk = RT::filled(a.d, 55.0);
    let ctx = |op: &str| format!("{} on {:?} and {:?}", op, short(&a.v), short(&b.v));
    let unchanged = |x: &Tensor, want: &RT, op: &str| expect_with(|| format!("operand of {}", ctx(op)), x, want, 0.0);

    let mut r = lt(&junk);
    Tensor::add(&ta, &tb, &mut r);
    expect_with(|| ctx("sum"), &r, &a.zip(b, |x, y| x + y), 0.0)?;
    let mut x = ta.clone();
    Tensor::add_to_self(&mut x, &tb);
    expect_with(|| ctx("in-place sum"), &x, &a.zip(b, |x, y| x + y), 0.0)?;
    let mut r = lt(&junk);
    Tensor::multiply_elementwise(&ta, &tb, &mut r);
    let prod = a.zip(b, |x, y| x * y);
    expect_with(|| ctx("product"), &r, &prod, 0.0)?;
    let mut x = ta.clone();
    Tensor::multiply_elementwise_self(&mut x, &tb);
    expect_with(|| ctx("in-place product"), &x, &prod, 0.0)?;
    let mut r = lt(&junk);
    Tensor::scale(&ta, s as f32, &mut r);
    expect_with(|| format!("{} by {}", ctx("scale"), s), &r, &a.scaled(s), 0.0)?;
    let mut x = ta.clone();
    Tensor::scale_self(&mut x, s as f32);
    expect_with(|| format!("{} by {}", ctx("in-place scale"), s), &x, &a.scaled(s), 0.0)?;
    let mut x = ta.clone();
    let mut mask = lt(&junk);
    Tensor::relu_self_and_store_mask(&mut x, &mut mask).map_err(|e| format!("{} refused: {}", ctx("rectify"), e))?;
    expect_with(|| ctx("rectification"), &x, &relu(a), 0.0)?;
    expect_with(|| ctx("rectification mask"), &mask, &a.map(|v| if v > 0.0 { 1.0 } else { 0.0 }), 0.0)?;
    if scale2 == 1.0 {
        let want = (a.v.iter().map(|v| v * v).sum::<f64>()).sqrt();
        let got = ta.get_norm() as f64;
        need((got - want).abs() <= 1e-5 * want + 1e-30, || format!("{}: norm is {}, should be {}", ctx("norm"), got, want))?;
    }
    unchanged(&ta, a, "all")?;
    unchanged(&tb, b, "all")?;
    c.steps(8);
    c.observe(hash_t(&r));
    Ok(())
}

const SCALES: [f64; 3] = [1.0, 1.152921504606847e18, 8.673617379884035e-19]; // 1, 2^60, 2^-60

fn exhaustive_values(alpha: Vec<f64>, shapes: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&shapes);
        let n = total(d);
        let a = RT { d, v: (0..n).map(|_| *c.pick(&alpha)).collect() };
        // the second operand is enumerated inside one execution
        let s = *c.pick(&[0.0, 1.0, -1.0, 2.0, -0.5]);
        c.log(|| format!("shape {:?} a={:?} scalar={}", d, a.v, s));
        let m = alpha.len();
        for code in 0..m.pow(n as u32) {
            let mut x = code;
            let b = RT {
                d,
                v: (0..n)
                    .map(|_| {
                        let y = alpha[x % m];
                        x /= m;
                        y
                    })
                    .collect(),
            };
            all_ops(c, &a, &b, s, 1.0)?;
        }
        Ok(())
    }
}
fn dense_shapes(max: usize, extra: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = max * max * max;
        let p = c.choose(n + extra.len());
        let d = if p < n { [1 + p % max, 1 + p / max % max, 1 + p / max / max] } else { extra[p - n] };
        let si = c.choose(SCALES.len());
        let s = SCALES[si];
        let salt = c.choose(3) as u64;
        c.log(|| format!("shape {:?} scale {:e} pattern {}", d, s, salt));
        let a = dense(d, salt, -6, 6).scaled(s);
        let b = dense(d, salt + 100, -6, 6).scaled(s);
        all_ops(c, &a, &b, [2.0, -1.0, 0.25][salt as usize], s)
    }
}

/// Every pair of special or rounded values: the IEEE result, NaN standing for any NaN, either zero for zero.
fn special(c: &mut Ctx) -> Result<(), String> {
    let mut all: Vec<f32> = super::nets::SPECIAL.iter().map(|x| f32::from_bits(*x)).collect();
    all.extend(rough([14, 1, 1], 1).v.iter().map(|x| *x as f32));
    all.extend([1.0, -1.0, 3.0e38, -3.0e38, 1.0e-38, 1.5e-45, 16777216.0, 1.0e-20, 1.0e20]);
    let d = *c.pick(&[[1, 1, 1], [4, 1, 1], [3, 3, 2], [17, 1, 1]]);
    let (x, y) = (*c.pick(&all), *c.pick(&all));
    c.log(|| format!("shape {:?}: {:?} and {:?}", d, x, y));
    let n = total(d);
    // the pair in every cell, and in every other cell only
    for every in [1, 2] {
        let fill = |v: f32| -> Tensor {
            let mut t = Tensor::new(shape(d));
            t.fill_with_vec((0..n).map(|p| if p % every == 0 { v } else { 1.0 }).collect()).expect("harness: fill");
            t
        };
        let (a, b) = (fill(x), fill(y));
        let cmp = |op: &str, t: &Tensor, f: &dyn Fn(f32, f32) -> f32| -> Result<(), String> {
            for p in 0..n {
                let g = t.get_item(&ix(p % d[0], p / d[0] % d[1], p / d[0] / d[1]));
                let w = if p % every == 0 { f(x, y) } else { f(1.0, 1.0) };
                need(g == w || g.is_nan() && w.is_nan(), || format!("{} of {:?} and {:?} in cell {} of {:?} is {:?}, should be {:?}", op, x, y, p, d, g, w))?;
            }
            Ok(())
        };
        let mut r = Tensor::new(shape(d));
        Tensor::add(&a, &b, &mut r);
        cmp("sum", &r, &|x, y| x + y)?;
        let mut r = a.clone();
        Tensor::add_to_self(&mut r, &b);
        cmp("in-place sum", &r, &|x, y| x + y)?;
        let mut r = Tensor::new(shape(d));
        Tensor::multiply_elementwise(&a, &b, &mut r);
        cmp("product", &r, &|x, y| x * y)?;
        let mut r = a.clone();
        Tensor::multiply_elementwise_self(&mut r, &b);
        cmp("in-place product", &r, &|x, y| x * y)?;
        if every == 1 {
            let mut r = Tensor::new(shape(d));
            Tensor::scale(&a, y, &mut r);
            cmp("scaling", &r, &|x, y| x * y)?;
            let mut r = a.clone();
            Tensor::scale_self(&mut r, y);
            cmp("in-place scaling", &r, &|x, y| x * y)?;
        }
        if !x.is_nan() {
            let (mut r, mut m) = (a.clone(), fill(7.0));
            Tensor::relu_self_and_store_mask(&mut r, &mut m).map_err(|e| e.to_string())?;
            cmp("rectification", &r, &|x, _| if x > 0.0 { x } else { 0.0 })?;
            cmp("rectification mask", &m, &|x, _| if x > 0.0 { 1.0 } else { 0.0 })?;
        }
        cmp("first operand", &a, &|x, _| x)?;
        cmp("second operand", &b, &|_, y| y)?;
        c.steps(7);
        c.observe(mix(x.to_bits() as u64, y.to_bits() as u64));
    }
    Ok(())
}
/// Every operation on every combination of shapes: only matching ones may have an effect.
fn mismatched(shapes: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (da, db, dr) = (*c.pick(&shapes), *c.pick(&shapes), *c.pick(&shapes));
        c.log(|| format!("operands {:?} {:?} result {:?}", da, db, dr));
        let (a, b, r) = (dense(da, 1, 1, 5), dense(db, 2, 1, 5), RT::filled(dr, 55.0));
        let (ta, tb) = (lt(&a), lt(&b));
        let all = da == db && da == dr;
        let what = |op: &str| format!("{} of {:?} and {:?} into {:?}", op, da, db, dr);
        let mut t = lt(&r);
        Tensor::add(&ta, &tb, &mut t);
        expect_with(|| what("sum"), &t, &if all { a.zip(&b, |x, y| x + y) } else { r.clone() }, 0.0)?;
        let mut t = lt(&r);
        Tensor::multiply_elementwise(&ta, &tb, &mut t);
        expect_with(|| what("product"), &t, &if all { a.zip(&b, |x, y| x * y) } else { r.clone() }, 0.0)?;
        let mut t = lt(&r);
        Tensor::scale(&ta, 2.0, &mut t);
        expect_with(|| what("scale"), &t, &if da == dr { a.scaled(2.0) } else { r.clone() }, 0.0)?;
        let two = da == db;
        let mut t = lt(&a);
        Tensor::add_to_self(&mut t, &tb);
        expect_with(|| what("in-place sum"), &t, &if two { a.zip(&b, |x, y| x + y) } else { a.clone() }, 0.0)?;
        let mut t = lt(&a);
        Tensor::multiply_elementwise_self(&mut t, &tb);
        expect_with(|| what("in-place product"), &t, &if two { a.zip(&b, |x, y| x * y) } else { a.clone() }, 0.0)?;
        let neg = a.scaled(-1.0);
        let mut t = lt(&neg);
        let mut mask = lt(&b);
        let ok = Tensor::relu_self_and_store_mask(&mut t, &mut mask).is_ok();
        need(ok == two, || format!("{}: reported {}", what("rectify"), ok))?;
        expect_with(|| what("rectified"), &t, &if two { RT::zeros(da) } else { neg.clone() }, 0.0)?;
        expect_with(|| what("mask"), &mask, &if two { RT::zeros(da) } else { b.clone() }, 0.0)?;
        expect("operand a", &ta, &a, 0.0)?;
        expect("operand b", &tb, &b, 0.0)?;
        c.steps(6);
        c.observe(mix(hash_t(&t), hash_t(&mask)));
        Ok(())
    }
}

fn scatter(src: Vec<Dim>, dst: Vec<Dim>, max_len_over: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (d1, d2) = (*c.pick(&src), *c.pick(&dst));
        let (n1, n2) = (total(d1), total(d2));
        let len = c.range(0, n1 + max_len_over);
        let list: Vec<u32> = (0..len)
            .map(|_| {
                let x = c.choose(n2 + 2);
                if x == n2 + 1 {
                    u32::MAX
                } else {
                    x as u32
                }
            })
            .collect();
        c.log(|| format!("source {:?} destination {:?} list {:?}", d1, d2, list));
        let a = RT { d: d1, v: (0..n1).map(|x| (1 << x) as f64).collect() };
        let start = dense(d2, 9, -3, 3);
        let mut t = lt(&start);
        let ta = lt(&a);
        let r = Tensor::add_from_index_list(&ta, &mut t, &list);
        let bad = len > n1 || list.iter().any(|x| *x as usize >= n2);
        need(r.is_err() == bad, || format!("index list {:?} for {} sources and {} destinations: reported {:?}", list, n1, n2, r))?;
        let mut want = start.clone();
        if !bad {
            for (i, p) in list.iter().enumerate() {
                want.v[*p as usize] += a.v[i];
            }
        }
        expect_with(|| format!("scatter-add with list {:?}", list), &t, &want, 0.0)?;
        expect("scatter-add source", &ta, &a, 0.0)?;
        c.step();
        c.observe(hash_t(&t));
        Ok(())
    }
}
fn scatter_big() -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d1 = *c.pick(&[[5, 4, 3], [257, 1, 1], [64, 64, 2], [1, 1, 70000]]);
        let d2 = *c.pick(&[[7, 3, 5], [256, 2, 1], [300, 300, 1], [1, 70000, 1]]);
        let (n1, n2) = (total(d1), total(d2));
        let mode = c.choose(4);
        let list: Vec<u32> = (0..n1)
            .map(|i| match mode {
                0 => i % n2,
                1 => (i * 7919 + 3) % n2,
                2 => n2 - 1 - i % n2,
                _ => {
                    if i + 1 == n1 {
                        n2
                    } else {
                        i % n2
                    }
                }
            } as u32)
            .collect();
        let a = dense(d1, 3, -4, 4);
        let start = dense(d2, 9, -3, 3);
        let mut t = lt(&start);
        let r = Tensor::add_from_index_list(&lt(&a), &mut t, &list);
        need(r.is_ok() == (mode != 3), || format!("mode {}: {:?}", mode, r))?;
        let mut want = start.clone();
        if mode != 3 {
            for (i, p) in list.iter().enumerate() {
                want.v[*p as usize] += a.v[i];
            }
        }
        c.step();
        c.observe(hash_rt(&want));
        c.log(|| format!("source {:?} destination {:?} mode {}", d1, d2, mode));
        expect("large scatter-add", &t, &want, 0.0)
    }
}

pub fn drivers(thorough: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let extra: Vec<Dim> = vec![
        [16, 1, 1], [17, 1, 1], [1, 31, 1], [1, 1, 33], [64, 1, 1], [65, 3, 1], [127, 1, 2], [256, 1, 1], [257, 3, 3], [1, 1025, 1],
        [65537, 1, 1], [1, 65537, 1], [1, 1, 65537], [300, 300, 1],
    ];
    let all27: Vec<Dim> = (0..27).map(|p| [1 + p % 3, 1 + p / 3 % 3, 1 + p / 9]).collect();
    let mut mm = all27;
    mm.extend([[4, 1, 1], [1, 4, 1], [1, 1, 4], [6, 1, 1], [1, 6, 1]]);
    let mut v = vec![
        Driver::new(
            "small-alphabet values",
            "every assignment of {-2,-1,0,1,3} to two operands of 1..=3 elements (shapes in all orientations), every scalar of 5, all 8 operations",
            exhaustive_values(vec![-2.0, -1.0, 0.0, 1.0, 3.0], vec![[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [3, 1, 1], [1, 3, 1], [1, 1, 3]]),
        ),
        Driver::new(
            "dense values on all shapes",
            if thorough { "all shapes 1..=14 cubed and 14 boundary shapes, 3 patterns at scales 1, 2^60, 2^-60" } else { "all shapes 1..=8 cubed and 14 boundary shapes, 3 patterns at scales 1, 2^60, 2^-60" },
            dense_shapes(if thorough { 14 } else { 8 }, extra),
        ),
        Driver::new("special values", "every pair of 37 values (signed zeros, subnormals, infinities, NaNs, extremes, 24-bit mantissas) x 4 shapes, in every or every other cell", special),
        Driver::new("shape triples", "all triples of 32 shapes (27 of 1..=3 cubed, 5 rearrangements)", mismatched(mm)),
        Driver::new(
            "index lists",
            "all index lists of every length 0..=n+1 over every in-range index, one past and u32::MAX, for sources of 1..=3 and destinations of 1..=4 elements",
            scatter(vec![[1, 1, 1], [2, 1, 1], [3, 1, 1], [1, 3, 1]], vec![[1, 1, 1], [2, 1, 1], [1, 3, 1], [2, 2, 1]], 1),
        ),
        Driver::new("large index lists", "16 large source/destination pairs, 4 list patterns including a bad last entry", scatter_big()),
    ];
    let list = super::big::shapes(if thorough { 1_000_000 } else { 200_000 });
    v.push(Driver::new("several large dimensions", &format!("{} shapes of 2 or 3 dimensions of 16..=300 together", list.len()), move |c| {
        let d = *c.pick(&list);
        c.log(|| format!("shape {:?}", d));
        all_ops(c, &dense(d, 11, -6, 6), &dense(d, 12, -6, 6), -2.0, 1.0)
    }));
    let vast: Vec<Dim> = if thorough { vec![[1 << 20, 1, 1], [1500, 1500, 1], [(1 << 24) + 1, 1, 1], [1, (1 << 24) + 3, 1], [257, 256, 257], [3, 1, 7_000_001]] } else { vec![[1500, 1500, 1], [(1 << 24) + 1, 1, 1]] };
    v.push(Driver::new("huge tensors", &format!("{} shapes of 2^20 to 2^24+3 (thorough 21 million) elements", vast.len()), move |c| {
        let d = *c.pick(&vast);
        c.log(|| format!("shape {:?}", d));
        all_ops(c, &dense(d, 11, -6, 6), &dense(d, 12, -6, 6), -2.0, 0.0)
    }));
    {
        v.push(Driver::new(
            "small-alphabet values, 4 elements",
            if thorough { "every assignment of {-2,-1,0,1,3} to two operands of 4 elements in 4 shapes" } else { "every assignment of {-1,0,2} to two operands of 4 elements in 4 shapes" },
            exhaustive_values(if thorough { vec![-2.0, -1.0, 0.0, 1.0, 3.0] } else { vec![-1.0, 0.0, 2.0] }, vec![[4, 1, 1], [2, 2, 1], [1, 2, 2], [2, 1, 2]]),
        ));
        v.push(Driver::new(
            "index lists, larger",
            "all index lists of length 0..=5 for 4 sources and 4 destinations",
            scatter(vec![[4, 1, 1], [2, 2, 1]], vec![[2, 2, 1], [1, 1, 4]], 1),
        ));
    }
    (v, vec!["values are finite and exactly representable; NaN and overflow are outside the alphabet"])
}
