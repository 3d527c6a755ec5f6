//! C01: a tensor is a faithful indexed store.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::helper::TensorIndex;
use rusty_network::tensor::Tensor;

fn read_all(t: &Tensor, m: &RT, far: bool) -> Result<(), String> {
    let d = m.d;
    if dim(&t.get_shape()) != d {
        return Err(format!("shape changed to {:?} from {:?}", dim(&t.get_shape()), d));
    }
    if t.total_items() as usize != total(d) {
        return Err(format!("total_items is {} for shape {:?}", t.total_items(), d));
    }
    for k in 0..=d[2] {
        for j in 0..=d[1] {
            for i in 0..=d[0] {
                let inside = i < d[0] && j < d[1] && k < d[2];
                let want = if inside { m.at(i, j, k) } else { 0.0 };
                let got = t.get_item(&ix(i, j, k));
                if got as f64 != want {
                    return Err(format!("reading ({},{},{}) of shape {:?} gives {}, should be {}", i, j, k, d, got, want));
                }
            }
        }
    }
    if far {
        for e in FAR {
            for a in 0..7usize {
                let x = |b: usize| if a + 1 & (1 << b) != 0 { e } else { 0 };
                let (i, j, k) = (x(0), x(1), x(2));
                if (i as usize) < d[0] && (j as usize) < d[1] && (k as usize) < d[2] {
                    continue;
                }
                let got = t.get_item(&TensorIndex { i, j, k });
                if got != 0.0 {
                    return Err(format!("reading out of range ({},{},{}) of {:?} gives {}", i, j, k, d, got));
                }
            }
        }
    }
    Ok(())
}
const FAR: [u32; 8] = [7, 64, 255, 256, 65535, 65536, 1 << 31, u32::MAX];

fn sequences(max: usize, depth: usize, max_items: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        if total(d) > max_items {
            return Ok(());
        }
        let mut t = Tensor::new(shape(d));
        let mut m = RT::zeros(d);
        c.log(|| format!("Tensor::new({:?})", d));
        read_all(&t, &m, true)?;
        let cells = (d[0] + 1) * (d[1] + 1) * (d[2] + 1);
        for step in 0..depth {
            let val = (step + 2) as f64;
            let op = c.choose(cells + 6);
            c.step();
            if op < cells {
                let (i, j, k) = (op % (d[0] + 1), op / (d[0] + 1) % (d[1] + 1), op / (d[0] + 1) / (d[1] + 1));
                c.log(|| format!("set ({},{},{}) := {}", i, j, k, val));
                t.set_item(&ix(i, j, k), val as f32);
                if i < d[0] && j < d[1] && k < d[2] {
                    m.set(i, j, k, val);
                }
            } else {
                match op - cells {
                    0 => {
                        c.log(|| format!("fill_with_value {}", -val));
                        t.fill_with_value(-val as f32);
                        m = RT::filled(d, -val);
                    }
                    1 => {
                        c.log(|| "fill_with_vec, right length".into());
                        let v = distinct(d, step);
                        if let Err(e) = t.fill_with_vec(v.v.iter().map(|x| *x as f32).collect()) {
                            return Err(format!("a list of the right length was refused: {}", e));
                        }
                        m = v;
                    }
                    2 => {
                        // far out-of-range writes
                        c.log(|| "far out-of-range writes".into());
                        for e in FAR {
                            for a in 1..8u32 {
                                let x = |b: u32| if a & (1 << b) != 0 { e } else { 0 };
                                if (x(0) as usize) < d[0] && (x(1) as usize) < d[1] && (x(2) as usize) < d[2] {
                                    continue;
                                }
                                t.set_item(&TensorIndex { i: x(0), j: x(1), k: x(2) }, 99.0);
                            }
                        }
                    }
                    w => {
                        let n = total(d);
                        let len = [n - 1, n + 1, 2 * n + 3][w - 3];
                        c.log(|| format!("fill_with_vec, wrong length {}", len));
                        if t.fill_with_vec(vec![77.0; len]).is_ok() {
                            return Err(format!("a list of {} items was accepted for shape {:?}", len, d));
                        }
                    }
                }
            }
            read_all(&t, &m, step + 1 == depth)?;
            c.observe(hash_rt(&m));
        }
        Ok(())
    }
}

fn large(shapes: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&shapes);
        let mode = c.choose(3);
        c.log(|| format!("shape {:?} mode {}", d, mode));
        let mut m = RT::zeros(d);
        let mut t = Tensor::new(shape(d));
        let n = total(d);
        if mode == 0 {
            // every cell its own value, one write at a time
            let mut x = 1.0;
            for k in 0..d[2] {
                for j in 0..d[1] {
                    for i in 0..d[0] {
                        t.set_item(&ix(i, j, k), x as f32);
                        m.set(i, j, k, x);
                        x += 1.0;
                    }
                }
            }
            c.steps(n as u64);
        } else if mode == 1 {
            m = RT { d, v: (0..n).map(|x| x as f64 + 1.0).collect() };
            t.fill_with_vec((0..n).map(|x| x as f32 + 1.0).collect()).map_err(|e| e.to_string())?;
            c.step();
        } else {
            t.fill_with_value(-3.5);
            m = RT::filled(d, -3.5);
            // then one write at each corner
            for a in 0..8 {
                let p = |b: usize| if a & (1 << b) != 0 { d[b] - 1 } else { 0 };
                t.set_item(&ix(p(0), p(1), p(2)), a as f32 + 10.0);
                m.set(p(0), p(1), p(2), a as f64 + 10.0);
            }
            c.steps(9);
        }
        c.observe(hash_rt(&m));
        read_all(&t, &m, true)
    }
}

fn equality(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let e = [c.range(1, max), c.range(1, max), c.range(1, max)];
        let a = lt(&distinct(d, 1));
        if d != e {
            let mut b = Tensor::new(shape(e));
            c.steps(4);
            for fill in [0.0f32, 2.0] {
                let mut a = a.clone();
                a.fill_with_value(fill);
                b.fill_with_value(fill);
                if a == b || !(a != b) {
                    return Err(format!("tensors of shapes {:?} and {:?} compare equal", d, e));
                }
            }
            if total(d) == total(e) {
                b.fill_with_vec(distinct(d, 1).v.iter().map(|x| *x as f32).collect()).map_err(|e| e.to_string())?;
                let a = lt(&distinct(d, 1));
                if a == b || !(a != b) {
                    return Err(format!("tensors of shapes {:?} and {:?} with the same items compare equal", d, e));
                }
            }
            c.observe(hash_t(&b));
        } else {
            let b = lt(&distinct(d, 1));
            if a != b || !(a == b) {
                return Err(format!("equal tensors of shape {:?} compare unequal", d));
            }
            for p in 0..total(d) {
                let mut r = distinct(d, 1);
                r.v[p] += 0.5;
                c.steps(2);
                let b = lt(&r);
                if a == b || !(a != b) || b == a {
                    return Err(format!("tensors of shape {:?} differing at flat position {} compare equal", d, p));
                }
            }
            c.observe(hash_t(&a));
        }
        Ok(())
    }
}

/// Large tensors that differ in one element (every one, or those at and around the edges of blocks),
/// in two exchanged elements, or in two elements with the same total.
fn large_equality(list: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&list);
        let n = total(d);
        let m = RT { d, v: (0..n).map(|p| ((p * 37 + 11) % 251) as f64).collect() };
        let a = lt(&m);
        let b = lt(&m);
        need(a == b && !(a != b), || format!("equal tensors of shape {:?} compare unequal", d))?;
        let mut at: Vec<usize> = if n <= 600 {
            (0..n).collect()
        } else {
            (0..20).chain(n - 70..n).chain([31, 32, 63, 64, 127, 128, 255, 256, 511, 512]).chain([1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536].into_iter().filter(|p| *p < n)).chain((0..40).map(|p| n / 41 * p)).chain((0..d[2]).map(|k| (k + 1) * d[0] * d[1] - 1).take(50)).collect()
        };
        at.sort();
        at.dedup();
        c.log(|| format!("shape {:?}, {} places", d, at.len()));
        let cell = |p: usize| ix(p % d[0], p / d[0] % d[1], p / d[0] / d[1]);
        let mut b = b;
        for p in at {
            let q = (p + n / 2 + 1) % n;
            for how in 0..5 {
                let (x, y) = match how {
                    0 => (m.v[p] + 0.5, m.v[q]),
                    1 => (-m.v[p] - 1.0, m.v[q]),
                    2 => (m.v[p] + 2.0, m.v[q] - 2.0),
                    3 => (m.v[q], m.v[p]),
                    _ => (m.v[p] * (1.0 + f64::powi(2.0, -15)) + f64::powi(2.0, -16), m.v[q]),
                };
                b.set_item(&cell(q), y as f32);
                b.set_item(&cell(p), x as f32);
                let differs = p != q && y as f32 as f64 != m.v[q] || x as f32 as f64 != m.v[p];
                need((a == b) != differs && (b == a) != differs && (a != b) == differs, || format!("tensors of shape {:?} with elements {} and {} being {} and {} in one, {} and {} in the other compare {}", d, p, q, m.v[p], m.v[q], x, y, if a == b { "equal" } else { "unequal" }))?;
                b.set_item(&cell(q), m.v[q] as f32);
                b.set_item(&cell(p), m.v[p] as f32);
                c.steps(3);
            }
        }
        need(a == b, || "tensors compare unequal after the differences were undone".into())?;
        c.observe(hash_t(&b));
        Ok(())
    }
}
/// Sizes beyond what a 16-, 20- or 24-bit count holds.
fn huge(list: Vec<Dim>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&list);
        let n = total(d);
        let how = c.choose(3);
        c.log(|| format!("shape {:?}, way {}", d, how));
        let val = |p: usize| ((p * 7 + p / 1021 * 13 + 3) % 65521) as f32;
        let mut t = Tensor::new(shape(d));
        let all = |t: &Tensor, want: &dyn Fn(usize) -> f32| -> Result<(), String> {
            need(dim(&t.get_shape()) == d && t.total_items() as usize == n, || format!("shape {:?} with {} items", t.get_shape().di, t.total_items()))?;
            let mut p = 0;
            for k in 0..d[2] {
                for j in 0..d[1] {
                    for i in 0..d[0] {
                        let g = t.get_item(&ix(i, j, k));
                        need(g == want(p), || format!("reading ({},{},{}) of shape {:?} gives {}, should be {}", i, j, k, d, g, want(p)))?;
                        p += 1;
                    }
                }
            }
            need(t.get_item(&ix(d[0], 0, 0)) == 0.0 && t.get_item(&ix(0, d[1], 0)) == 0.0 && t.get_item(&ix(0, 0, d[2])) == 0.0, || "out of range does not read 0".into())
        };
        all(&t, &|_| 0.0)?;
        match how {
            0 => {
                t.fill_with_vec((0..n).map(val).collect()).map_err(|e| e.to_string())?;
                all(&t, &val)?;
                need(t.fill_with_vec(vec![1.0; n - 1]).is_err() && t.fill_with_vec(vec![1.0; n + 1]).is_err(), || format!("a list of the wrong length was accepted for {} items", n))?;
                all(&t, &val)?;
                let mut copy = t.clone();
                all(&copy, &val)?;
                need(copy == t, || "a copy compares unequal".into())?;
                for p in [0, 1, n / 2, n - 4, n - 3, n - 2, n - 1] {
                    let at = ix(p % d[0], p / d[0] % d[1], p / d[0] / d[1]);
                    copy.set_item(&at, -5.0);
                    need(copy != t && t != copy, || format!("tensors of {} elements differing in element {} compare equal", n, p))?;
                    copy.set_item(&at, val(p));
                }
                need(copy == t, || "a restored copy compares unequal".into())?;
            }
            1 => {
                t.fill_with_value(3.5);
                all(&t, &|_| 3.5)?;
            }
            _ => {
                let mut p = 0;
                for k in 0..d[2] {
                    for j in 0..d[1] {
                        for i in 0..d[0] {
                            t.set_item(&ix(i, j, k), val(p));
                            p += 1;
                        }
                    }
                }
                all(&t, &val)?;
            }
        }
        c.steps(4);
        c.observe(n as u64 * 3 + how as u64);
        Ok(())
    }
}
fn reads_as(t: &Tensor, p: (usize, usize, usize), want: u32) -> Result<(), String> {
    let got = t.get_item(&ix(p.0, p.1, p.2)).to_bits();
    let (g, w) = (f32::from_bits(got), f32::from_bits(want));
    need(got == want || g.is_nan() && w.is_nan(), || format!("reading {:?} gives {} ({:08x}), last stored was {} ({:08x})", p, g, got, w, want))
}
/// Every overwrite of one special value by another, by every way of storing.
fn special(c: &mut Ctx) -> Result<(), String> {
    let all = super::nets::SPECIAL;
    let d = *c.pick(&[[1, 1, 1], [2, 1, 1], [1, 2, 2], [3, 2, 1]]);
    let (a, b) = (*c.pick(&all), *c.pick(&all));
    let (how1, how2) = (c.choose(3), c.choose(3));
    c.log(|| format!("shape {:?}: {:08x} by way {}, then {:08x} by way {}", d, a, how1, b, how2));
    let mut t = Tensor::new(shape(d));
    let n = total(d);
    let mut m = vec![0u32; n];
    for (v, how) in [(a, how1), (b, how2)] {
        let x = f32::from_bits(v);
        match how {
            0 => {
                // every other cell
                for p in (0..n).step_by(2) {
                    t.set_item(&ix(p % d[0], p / d[0] % d[1], p / d[0] / d[1]), x);
                    m[p] = v;
                }
            }
            1 => {
                t.fill_with_value(x);
                m = vec![v; n];
            }
            _ => {
                t.fill_with_vec((0..n).map(|p| if p % 2 == 0 { x } else { 1.0 }).collect()).map_err(|e| e.to_string())?;
                m = (0..n).map(|p| if p % 2 == 0 { v } else { 1f32.to_bits() }).collect();
            }
        }
        c.step();
        let copy = t.clone();
        for p in 0..n {
            let at = (p % d[0], p / d[0] % d[1], p / d[0] / d[1]);
            reads_as(&t, at, m[p])?;
            reads_as(&copy, at, m[p]).map_err(|e| format!("in a copy: {}", e))?;
        }
        // equality is equality of numbers
        let mut other = Tensor::new(shape(d));
        for x in all {
            if f32::from_bits(x).is_nan() || m.iter().any(|y| f32::from_bits(*y).is_nan()) {
                continue;
            }
            for p in 0..n {
                other.fill_with_vec(m.iter().map(|y| f32::from_bits(*y)).collect()).map_err(|e| e.to_string())?;
                other.set_item(&ix(p % d[0], p / d[0] % d[1], p / d[0] / d[1]), f32::from_bits(x));
                let eq = f32::from_bits(x) == f32::from_bits(m[p]);
                need((t == other) == eq && (other == t) == eq, || format!("tensors with {:08x} and {:08x} in cell {} compare {}", m[p], x, p, t == other))?;
            }
        }
        c.observe(m.iter().fold(how as u64, |h, x| mix(h, *x as u64)));
    }
    Ok(())
}
/// Tensors coming and going on one thread: whatever others did before, a new one reads zero and no
/// operation on one shows in another.
fn pool(shapes: Vec<Dim>, depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let mut live: Vec<(Tensor, f32)> = vec![];
        // each tensor is uniform, so one number describes it
        let check = |t: &Tensor, v: f32| -> Result<(), String> {
            let s = dim(&t.get_shape());
            for k in 0..s[2] {
                for j in 0..s[1] {
                    for i in 0..s[0] {
                        let g = t.get_item(&ix(i, j, k));
                        need(g == v, || format!("({},{},{}) of a tensor of shape {:?} reads {}, should be {}", i, j, k, s, g, v))?;
                    }
                }
            }
            need(t.get_item(&ix(s[0], 0, 0)) == 0.0 && t.get_item(&ix(0, s[1], s[2])) == 0.0, || "out of range does not read 0".into())
        };
        for step in 0..depth {
            let v = step as f32 + 2.0;
            let n = live.len();
            let op = c.choose(shapes.len() + n * 4);
            c.step();
            if op < shapes.len() {
                if n == 3 {
                    live.remove(0);
                }
                c.log(|| format!("new {:?}", shapes[op]));
                live.push((Tensor::new(shape(shapes[op])), 0.0));
            } else {
                let (p, q) = ((op - shapes.len()) / 4, (op - shapes.len()) % 4);
                c.log(|| format!("{} tensor {}", ["fill", "fill with a list", "drop", "copy"][q], p));
                match q {
                    0 => {
                        live[p].0.fill_with_value(v);
                        live[p].1 = v;
                    }
                    1 => {
                        let l = live[p].0.total_items() as usize;
                        live[p].0.fill_with_vec(vec![v; l]).map_err(|e| e.to_string())?;
                        live[p].1 = v;
                    }
                    2 => {
                        live.remove(p);
                    }
                    _ => {
                        let t = (live[p].0.clone(), live[p].1);
                        if n == 3 {
                            live.remove(0);
                        }
                        live.push(t);
                    }
                }
            }
            for (t, v) in &live {
                check(t, *v)?;
            }
            c.observe(live.iter().fold(7, |h, (t, v)| mix(mix(h, t.total_items() as u64), v.to_bits() as u64)));
        }
        // whatever was left behind, the next tensors are clean
        live.clear();
        for d in &shapes {
            check(&Tensor::new(shape(*d)), 0.0).map_err(|e| format!("at the end: {}", e))?;
            c.step();
        }
        Ok(())
    }
}

pub fn drivers(thorough: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let big: Vec<Dim> = vec![
        [1, 1, 1], [17, 1, 1], [1, 33, 1], [1, 1, 65], [16, 16, 1], [15, 17, 3], [5, 6, 10], [64, 2, 2], [2, 64, 3], [3, 2, 64],
        [255, 2, 1], [256, 2, 1], [257, 2, 2], [2, 257, 2], [2, 2, 257], [65535, 1, 1], [65536, 1, 1], [65537, 1, 1], [1, 65537, 1],
        [1, 1, 65537], [256, 256, 1], [257, 256, 2], [2, 257, 256], [129, 1, 513], [70000, 2, 2], [2, 70000, 2], [2, 2, 70000],
        [1000, 1000, 1], [300, 1, 300], [1, 300, 300],
    ];
    let mut eq: Vec<Dim> = vec![[60, 1, 1], [63, 1, 1], [64, 1, 1], [65, 1, 1], [1, 67, 1], [1, 1, 70], [71, 1, 1], [5, 5, 5], [127, 1, 1], [8, 16, 1], [129, 1, 1], [3, 11, 7], [255, 1, 1], [16, 16, 1], [257, 1, 1], [1, 259, 1], [7, 9, 8], [511, 1, 1], [8, 8, 8], [515, 1, 1], [10, 10, 10], [1023, 1, 1], [1025, 1, 1], [33, 33, 3], [4096, 1, 1], [4099, 1, 1], [17, 17, 17], [100, 100, 2], [65535, 1, 1], [65536, 1, 1], [65541, 1, 1], [3, 21851, 1]];
    if thorough {
        eq.extend([[1000, 1000, 1], [1023, 1, 1023], [100, 100, 101], [1 << 20, 1, 1]]);
    }
    let mut vast: Vec<Dim> = vec![[(1 << 20) - 1, 1, 1], [1025, 1024, 1], [1, 1, (1 << 20) + 1], [129, 128, 130], [1500, 1500, 1], [(1 << 24) + 1, 1, 1]];
    if thorough {
        vast.extend([[4097, 4097, 1], [1, (1 << 24) + 3, 1], [257, 256, 257], [3, 5592407, 1], [33_000_000, 1, 1]]);
    }
    let list = super::big::shapes(if thorough { 1_000_000 } else { 100_000 });
    (
        vec![
            Driver::new(
                "write/fill sequences",
                "shapes 1..=3 in each dimension, every sequence of 2 operations (set at every index in and one past the range, fills, wrong-length lists), every cell read after each",
                sequences(3, 2, 27),
            ),
            Driver::new(
                "write/fill sequences, deeper",
                if thorough { "shapes 1..=3, every sequence of 3 operations" } else { "shapes 1..=3 with up to 12 elements, every sequence of 3 operations" },
                if thorough { sequences(3, 3, 27) } else { sequences(3, 3, 12) },
            ),
            Driver::new("write/fill sequences, longest", &format!("shapes 1..=2 with up to {} elements, every sequence of 4 operations", if thorough { 8 } else { 4 }), sequences(2, 4, if thorough { 8 } else { 4 })),
            Driver::new("large and boundary shapes", "30 shapes up to 10^6 elements around 2^4..2^16 boundaries, every element written and read", large(big)),
            Driver::new("several large dimensions", &format!("{} shapes of 2 or 3 dimensions of 16..=300 together, every element written and read", list.len()), large(list)),
            Driver::new("large tensors compared", &format!("{} shapes of 60 elements to {}: single elements different (every one up to 600 elements, else those around blocks and edges), pairs exchanged or with the same sum", eq.len(), if thorough { "10^6" } else { "66000" }), large_equality(eq)),
            Driver::new("huge tensors", if thorough { "11 shapes of 2^20 to 2^24+3 and 33 million elements: all cells read and written in 3 ways, wrong lengths, copies, equality" } else { "6 shapes of 2^20-1 to 2^24+1 elements: all cells read and written in 3 ways, wrong lengths, copies, equality" }, huge(vast)),
            Driver::new("special values", "4 shapes x every pair of 14 special values (signed zeros, subnormals, infinities, NaNs, extremes) x 3 ways of storing the first x 3 the second; bits, copies and equality", special),
            Driver::new("tensors coming and going", &format!("up to 3 live tensors of 5 shapes of 4 to 3000 elements, every sequence of {} creations, fills, drops and copies", if thorough { 6 } else { 5 }), pool(vec![[2, 2, 1], [32, 32, 1], [1024, 1, 1], [10, 10, 30], [3, 1, 1]], if thorough { 6 } else { 5 })),
            Driver::new("equality", "all pairs of shapes 1..=3 in each dimension; for equal shapes every single-element difference", equality(3)),
        ],
        vec!["outside the driver of special values, element values are small integers"],
    )
}
