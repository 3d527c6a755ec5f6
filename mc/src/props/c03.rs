//! C03: matrix products.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;

/// All operations on a (m,k,d) and b (k,n,d).
fn all_ops(c: &mut Ctx, a: &RT, b: &RT, bias: &RT) -> Result<(), String> {
    all_ops_tol(c, a, b, bias, 0.0)
}
fn all_ops_tol(c: &mut Ctx, a: &RT, b: &RT, bias: &RT, tol: f64) -> Result<(), String> {
    let w = |op: &str| format!("{} of {:?}{:?} and {:?}{:?}", op, a.d, short(&a.v), b.d, short(&b.v));
    let want = matmul(a, b);
    let (ta, tb, tbias) = (lt(a), lt(b), lt(bias));
    let junk = lt(&RT::filled(want.d, 55.0));

    let mut r = junk.clone();
    Tensor::matrix_multiply(&ta, &tb, &mut r);
    expect_with(|| w("product"), &r, &want, tol)?;

    // first operand stored transposed
    let mut at = lt(&RT::filled([a.d[1], a.d[0], a.d[2]], 55.0));
    Tensor::transpose_ij(&ta, &mut at).map_err(|e| format!("{} refused: {}", w("transposition"), e))?;
    expect_with(|| w("transposition"), &at, &a.transpose(), 0.0)?;
    let tat = lt(&a.transpose());
    let mut r = junk.clone();
    Tensor::matrix_multiply_transpose_first(&tat, &tb, &mut r).map_err(|e| format!("{} refused: {}", w("product, first transposed"), e))?;
    expect_with(|| w("product, first transposed"), &r, &want, tol)?;
    expect("operand", &tat, &a.transpose(), 0.0)?;

    let tbt = lt(&b.transpose());
    let mut r = junk.clone();
    Tensor::matrix_multiply_transpose_second(&ta, &tbt, &mut r).map_err(|e| format!("{} refused: {}", w("product, second transposed"), e))?;
    expect_with(|| w("product, second transposed"), &r, &want, tol)?;
    expect("operand", &tbt, &b.transpose(), 0.0)?;

    let mut r = junk.clone();
    Tensor::matrix_multiply_add_relu(&tb, &ta, &tbias, &mut r);
    let full = relu(&want.zip(bias, |x, y| x + y));
    expect_with(|| format!("{} bias {:?}", w("fused multiply-add-rectify"), short(&bias.v)), &r, &full, tol)?;

    expect("operand a", &ta, a, 0.0)?;
    expect("operand b", &tb, b, 0.0)?;
    expect("bias", &tbias, bias, 0.0)?;
    c.steps(5);
    c.observe(hash_t(&r));
    Ok(())
}
/// Operands of very different magnitudes, and operands with full mantissas.
fn magnitudes(max: usize, maxd: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (m, k, n, d) = (c.range(1, max), c.range(1, max), c.range(1, max), c.range(1, maxd));
        let how = c.choose(SCALE_PAIRS.len() + 1);
        c.log(|| format!("m={} k={} n={} depth={} {:?}", m, k, n, d, SCALE_PAIRS.get(how)));
        for salt in 0..2 {
            match SCALE_PAIRS.get(how) {
                Some((x, y)) => {
                    let (a, b) = (dense([m, k, d], salt + 3, -4, 4).scaled(pow2(*x)), dense([k, n, d], salt + 53, -4, 4).scaled(pow2(*y)));
                    all_ops(c, &a, &b, &dense([m, n, d], salt + 73, -9, 9).scaled(pow2(x + y)))?;
                    all_ops(c, &a, &b, &RT::zeros([m, n, d]))?;
                }
                None => all_ops_tol(c, &rough([m, k, d], salt), &rough([k, n, d], salt + 20), &rough([m, n, d], salt + 40), rough_tol(k))?,
            }
        }
        Ok(())
    }
}

const SCALES: [f64; 3] = [1.0, 1073741824.0, 9.313225746154785e-10];

fn dense_dims(max: usize, maxd: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (m, k, n, d) = (c.range(1, max), c.range(1, max), c.range(1, max), c.range(1, maxd));
        c.log(|| format!("m={} k={} n={} depth={}", m, k, n, d));
        for salt in 0..2 {
            for s in SCALES {
                let a = dense([m, k, d], salt, -4, 4).scaled(s);
                let b = dense([k, n, d], salt + 50, -4, 4).scaled(s);
                let bias = dense([m, n, d], salt + 70, -9, 9).scaled(s * s);
                all_ops(c, &a, &b, &bias)?;
            }
        }
        Ok(())
    }
}
fn basis_pairs(max: usize, maxd: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (m, k, n, d) = (c.range(1, max), c.range(1, max), c.range(1, max), c.range(1, maxd));
        let p = c.choose(m * k * d);
        c.log(|| format!("m={} k={} n={} depth={} basis element {}", m, k, n, d, p));
        let a = basis([m, k, d], p);
        for q in 0..k * n * d {
            let b = basis([k, n, d], q);
            all_ops(c, &a, &b, &RT::zeros([m, n, d]))?;
            all_ops(c, &a.scaled(-3.0), &b, &basis([m, n, d], q % (m * n * d)))?;
        }
        Ok(())
    }
}
fn values(alpha: Vec<f64>, dims: Vec<(usize, usize, usize, usize)>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (m, k, n, d) = *c.pick(&dims);
        let na = m * k * d;
        let a = RT { d: [m, k, d], v: (0..na).map(|_| *c.pick(&alpha)).collect() };
        c.log(|| format!("m={} k={} n={} depth={} a={:?}", m, k, n, d, a.v));
        let nb = k * n * d;
        let l = alpha.len();
        for code in 0..l.pow(nb as u32) {
            let mut x = code;
            let b = RT {
                d: [k, n, d],
                v: (0..nb)
                    .map(|_| {
                        let y = alpha[x % l];
                        x /= l;
                        y
                    })
                    .collect(),
            };
            for bias in [0.0, -1.0, 2.0] {
                all_ops(c, &a, &b, &RT::filled([m, n, d], bias))?;
            }
        }
        Ok(())
    }
}
fn outliers(list: Vec<(usize, usize, usize, usize)>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (m, k, n, d) = *c.pick(&list);
        c.log(|| format!("m={} k={} n={} depth={}", m, k, n, d));
        let a = dense([m, k, d], 5, -3, 3);
        let b = dense([k, n, d], 6, -3, 3);
        all_ops(c, &a, &b, &dense([m, n, d], 7, -9, 9))
    }
}
fn shape_triples(shapes: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let (da, db, dr) = (*c.pick(&shapes), *c.pick(&shapes), *c.pick(&shapes));
        c.log(|| format!("shapes {:?} {:?} -> {:?}", da, db, dr));
        let (a, b) = (dense(da, 1, 1, 4), dense(db, 2, 1, 4));
        let (ta, tb) = (lt(&a), lt(&b));
        let r0 = RT::filled(dr, 55.0);
        let w = |op: &str| format!("{} of shapes {:?} {:?} into {:?}", op, da, db, dr);
        let ok = da[1] == db[0] && da[0] == dr[0] && db[1] == dr[1] && da[2] == db[2] && da[2] == dr[2];
        let mut r = lt(&r0);
        Tensor::matrix_multiply(&ta, &tb, &mut r);
        expect_with(|| w("product"), &r, &if ok { matmul(&a, &b) } else { r0.clone() }, 0.0)?;

        let okf = da[0] == db[0] && da[1] == dr[0] && db[1] == dr[1] && da[2] == db[2] && da[2] == dr[2];
        let mut r = lt(&r0);
        let s = Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut r);
        need(s.is_ok() == okf, || format!("{}: reported {:?}", w("product, first transposed"), s))?;
        expect_with(|| w("product, first transposed"), &r, &if okf { matmul(&a.transpose(), &b) } else { r0.clone() }, 0.0)?;

        let oks = da[1] == db[1] && da[0] == dr[0] && db[0] == dr[1] && da[2] == db[2] && da[2] == dr[2];
        let mut r = lt(&r0);
        let s = Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut r);
        need(s.is_ok() == oks, || format!("{}: reported {:?}", w("product, second transposed"), s))?;
        expect_with(|| w("product, second transposed"), &r, &if oks { matmul(&a, &b.transpose()) } else { r0.clone() }, 0.0)?;

        let okt = da[0] == dr[1] && da[1] == dr[0] && da[2] == dr[2];
        let mut r = lt(&r0);
        let s = Tensor::transpose_ij(&ta, &mut r);
        need(s.is_ok() == okt, || format!("{}: reported {:?}", w("transposition"), s))?;
        expect_with(|| w("transposition"), &r, &if okt { a.transpose() } else { r0.clone() }, 0.0)?;

        for &dbias in &shapes {
            let bias = dense(dbias, 3, -8, 2);
            let okm = ok && dbias == dr;
            let mut r = lt(&r0);
            Tensor::matrix_multiply_add_relu(&tb, &ta, &lt(&bias), &mut r);
            let want = if okm { relu(&matmul(&a, &b).zip(&bias, |x, y| x + y)) } else { r0.clone() };
            expect_with(|| format!("{} with bias {:?}", w("fused multiply-add-rectify"), dbias), &r, &want, 0.0)?;
            c.step();
        }
        expect("operand a", &ta, &a, 0.0)?;
        expect("operand b", &tb, &b, 0.0)?;
        c.steps(4);
        c.observe(hash_t(&r));
        Ok(())
    }
}

pub fn drivers(thorough: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let mut out = vec![];
    let edge = [9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025];
    for e in edge {
        for (x, y, z) in [(2, 3, 1), (1, 1, 2)] {
            out.push((e, x, y, z));
            out.push((x, e, y, z));
            out.push((x, y, e, z));
            out.push((x, z, y, e));
        }
    }
    out.extend([(65537, 1, 1, 1), (1, 65537, 1, 1), (1, 1, 65537, 1), (1, 1, 1, 65537), (70, 70, 70, 1), (33, 65, 17, 3), (300, 2, 300, 1)]);
    let shapes: Vec<Dim> = (0..18).map(|p| [1 + p % 3, 1 + p / 3 % 3, 1 + p / 9]).collect();
    let dims = vec![(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 2, 1), (1, 1, 1, 2), (1, 2, 2, 1), (2, 2, 1, 1), (1, 3, 1, 1), (2, 1, 1, 2)];
    let mut v = vec![
        Driver::new(
            "dense values",
            if thorough { "all m,k,n 1..=18, depth 1..=3; 2 patterns at scales 1, 2^30, 2^-30" } else { "all m,k,n 1..=11, depth 1..=3; 2 patterns at scales 1, 2^30, 2^-30" },
            dense_dims(if thorough { 18 } else { 11 }, 3),
        ),
        Driver::new(
            "magnitudes",
            &format!("all m,k,n 1..={}, depth 1..=2; operands scaled by 10 pairs of powers of two between 2^-110 and 2^100, and operands with 24-bit mantissas (tolerance 16 units in the last place per product)", if thorough { 9 } else { 5 }),
            magnitudes(if thorough { 9 } else { 5 }, 2),
        ),
        Driver::new("basis pairs", "all m,k,n 1..=3, depth 1..=2, every pair of basis elements", basis_pairs(3, 2)),
        Driver::new("small-alphabet values", "every assignment of {-1,0,1,2} to both operands of 8 small shapes, 3 biases", values(vec![-1.0, 0.0, 1.0, 2.0], dims)),
        Driver::new("boundary sizes", "one of rows/inner/columns/depth in {9..1025} around powers of two, plus 65537", outliers(out)),
        Driver::new("shape triples", "all triples (and bias quadruples) of the 18 shapes 1..=3 x 1..=3 x 1..=2", shape_triples(shapes)),
    ];
    let list = super::big::matrices(if thorough { 6_000_000 } else { 1_000_000 });
    v.push(Driver::new("several large dimensions", &format!("{} combinations of rows, inner size, columns and depth, 2 or 3 of the first three 16..=257 together", list.len()), outliers(list)));
    {
        v.push(Driver::new(
            "small-alphabet values 2x2x2",
            "every assignment of {-1,0,2} to 2x2 times 2x2 at depth 1, and 2x3 times 3x1",
            values(vec![-1.0, 0.0, 2.0], vec![(2, 2, 2, 1), (2, 3, 1, 1), (1, 3, 2, 1), (1, 2, 1, 2)]),
        ));
        v.push(Driver::new("basis pairs, larger", if thorough { "all m,k,n 1..=7, depth 1..=2" } else { "all m,k,n 1..=4, depth 1..=2" }, basis_pairs(if thorough { 7 } else { 4 }, 2)));
    }
    (v, vec!["values are exactly representable, so any summation order gives the same result, or a tolerance covers every order"])
}
