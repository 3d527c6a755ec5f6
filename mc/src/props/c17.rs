//! C17: tensor files.
use super::nets::*;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;

/// Everything a user may do with a tensor that was read works.
fn usable(c: &mut Ctx, t: &mut Tensor, file: &[u8], what: &dyn Fn() -> String) -> Result<(), String> {
    let s = t.get_shape();
    let (w, n) = {
        let w = [s.di as u128, s.dj as u128, s.dk as u128];
        (w, w[0] * w[1] * w[2])
    };
    need(n * 4 <= file.len() as u128, || format!("{}: accepted with shape {:?}, which a file of {} bytes can't hold", what(), s, file.len()))?;
    need(t.total_items() as u128 == n, || format!("{}: accepted, shape {:?} but {} items", what(), s, t.total_items()))?;
    let n = n as usize;
    // every element can be read, and written without disturbing another
    let first = bits(t);
    need(first.len() == n, || format!("{}: accepted with {} elements for shape {:?}", what(), first.len(), s))?;
    for probe in [[w[0], 0, 0], [0, w[1], 0], [0, 0, w[2]]] {
        let i = ix(probe[0] as usize, probe[1] as usize, probe[2] as usize);
        need(t.get_item(&i) == 0.0, || format!("{}: accepted, and reads {} outside its shape", what(), t.get_item(&i)))?;
    }
    if n == 0 {
        // degenerate: only that nothing panics
        let mut u = t.clone();
        u.fill_with_value(1.0);
        Tensor::add_to_self(&mut u, t);
        let _ = u.get_norm();
        return need(u.fill_with_vec(vec![]).is_ok(), || format!("{}: accepted without elements, and refuses an empty fill", what()));
    }
    let d = dim(&s);
    let v = distinct(d, 3);
    let mut u = t.clone();
    let mut p = 0;
    for k in 0..d[2] {
        for j in 0..d[1] {
            for i in 0..d[0] {
                u.set_item(&ix(i, j, k), f(v.v[p]));
                p += 1;
            }
        }
    }
    expect_with(|| format!("{}: accepted; after writing every element", what()), &u, &v, 0.0)?;
    need(bits(t) == first, || format!("{}: accepted, and writing a clone changed it", what()))?;
    // computing
    let fresh = lt(&v);
    need(u == fresh, || format!("{}: accepted, and differs from a fresh tensor with the same elements", what()))?;
    let mut r = Tensor::new(s);
    Tensor::add(&u, &fresh, &mut r);
    expect_with(|| format!("{}: accepted; sum", what()), &r, &v.scaled(2.0), 0.0)?;
    Tensor::multiply_elementwise_self(&mut u, &fresh);
    expect_with(|| format!("{}: accepted; product", what()), &u, &v.zip(&v, |a, b| a * b), 0.0)?;
    u.fill_with_vec(v.v.iter().map(|x| *x as f32).collect()).map_err(|e| format!("{}: accepted, and refuses a fill: {}", what(), e))?;
    expect_with(|| format!("{}: accepted; after a fill", what()), &u, &v, 0.0)?;
    let mut tr = Tensor::new(s.transpose_ij());
    Tensor::transpose_ij(&u, &mut tr).map_err(|e| format!("{}: accepted, and can't be transposed: {}", what(), e))?;
    expect_with(|| format!("{}: accepted; transposed", what()), &tr, &v.transpose(), 0.0)?;
    u.fill_with_value(2.0);
    expect_with(|| format!("{}: accepted; filled", what()), &u, &RT::filled(d, 2.0), 0.0)?;
    c.steps(8 + n as u64);
    // a second generation
    let p = path(c, "again");
    t.save_to_file(&p).map_err(|e| format!("{}: accepted, and can't be saved: {}", what(), e))?;
    let b = Tensor::from_file(&p).map_err(|e| format!("{}: accepted, saved, and then refused: {}", what(), e))?;
    need(bits(&b) == first && b.get_shape() == s, || format!("{}: accepted, saved, and then read as {:?}", what(), rd(&b)))?;
    c.observe(hash_bytes(5, format!("{:?}{:x?}", d, first).as_bytes()));
    Ok(())
}
fn judge(c: &mut Ctx, bytes: &[u8], must_refuse: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    let p = path(c, "t");
    put(&p, bytes);
    c.step();
    match Tensor::from_file(&p) {
        Err(_) => {
            c.count("refused", 1);
            Ok(())
        }
        Ok(mut t) => {
            need(!must_refuse, || format!("{}: accepted as {:?}", what(), rd(&t)))?;
            c.count("accepted", 1);
            usable(c, &mut t, bytes, what)
        }
    }
}
fn save_and_read(c: &mut Ctx, d: Dim, v: &[u32]) -> Result<(), String> {
    let t = tensor_of_bits(d, v);
    let p = path(c, "t");
    let what = || format!("tensor {:?} with bits {:x?}", d, &v[..v.len().min(12)]);
    t.save_to_file(&p).map_err(|e| format!("{}: can't be saved: {}", what(), e))?;
    need(bits(&t) == v && dim(&t.get_shape()) == d, || format!("{}: saving changed it", what()))?;
    let u = Tensor::from_file(&p).map_err(|e| format!("{}: refused when read back: {}", what(), e))?;
    c.steps(2);
    need(dim(&u.get_shape()) == d && bits(&u) == v, || format!("{}: read back as {:?} {:x?}", what(), u.get_shape(), &bits(&u)[..v.len().min(12)]))?;
    c.observe(hash_bytes(d[0] as u64, &codec::tensor_bits(d, v)));
    Ok(())
}
fn shapes(max: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = [c.range(1, max), c.range(1, max), c.range(1, max)];
        c.log(|| format!("shape {:?}", d));
        let v: Vec<u32> = (0..total(d)).map(|i| (i as f32 - 2.5).to_bits()).collect();
        save_and_read(c, d, &v)?;
        let b = get(&path(c, "t"));
        judge(c, &b, false, &|| format!("intact tensor {:?}", d))?;
        let mut t = Tensor::from_file(&path(c, "t")).map_err(|e| format!("intact tensor {:?} refused: {}", d, e))?;
        usable(c, &mut t, &b, &|| format!("intact tensor {:?}", d))?;
        // every special float at every position
        let mut n = v.clone();
        for p in 0..v.len() {
            for s in SPECIAL {
                n[p] = s;
                save_and_read(c, d, &n)?;
            }
            n[p] = v[p];
        }
        Ok(())
    }
}
fn special_assignments(n: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let d = *c.pick(&[[1usize, 1, 1], [2, 1, 1], [1, 3, 1], [1, 2, 2]]);
        if total(d) > n {
            return Ok(());
        }
        let v: Vec<u32> = (0..total(d)).map(|_| *c.pick(&SPECIAL)).collect();
        c.log(|| format!("{:?} {:x?}", d, v));
        save_and_read(c, d, &v)
    }
}
fn large(t: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let mut menu = vec![[255usize, 1, 1], [256, 1, 1], [257, 1, 1], [1, 256, 1], [1, 1, 256], [16, 16, 16], [16384, 1, 1], [16385, 1, 1], [1, 65535, 1], [1, 65536, 1], [65537, 1, 1], [3, 257, 65], [256, 256, 3], [1, 1, 70000], [if t { 2000 } else { 700 }, 301, 2]];
        menu.extend([[1500, 700, 1], [1, (1 << 20) + 1, 1], [4099, 4100, 1]]);
        if t {
            menu.extend([[1 << 22, 1, 1], [(1 << 24) + 1, 1, 1], [3000, 1, 3000], [1, 1, (1 << 27) + 5]]);
        }
        let d = *c.pick(&menu);
        c.log(|| format!("{:?}", d));
        let v: Vec<u32> = (0..total(d) as u32).map(|i| i.wrapping_mul(2654435761) ^ 0x3f800000).collect();
        save_and_read(c, d, &v)?;
        // over an existing longer file, and a shorter one over it
        let p = path(c, "t");
        let mut b = get(&p);
        b.extend(vec![7u8; 1000]);
        put(&p, &b);
        save_and_read(c, d, &v)?;
        save_and_read(c, [1, 2, 1], &[1, 2])?;
        // damage at the far end
        let b = codec::tensor_bits(d, &v);
        for cut in [1usize, 2, 4, 5, 8, total(d) * 4, total(d) * 4 + 8] {
            judge(c, &b[..b.len() - cut], true, &|| format!("tensor {:?} cut short by {}", d, cut))?;
        }
        Ok(())
    }
}
/// Contents that repeat or say little.
fn repetition(c: &mut Ctx) -> Result<(), String> {
    let d = *c.pick(&[[600usize, 1, 1], [32, 32, 1], [1, 1025, 1], [1, 1, 2048], [64, 64, 1], [100, 10, 5], [255, 65, 1], [1, 66000, 1], [300, 300, 3]]);
    let how = c.choose(PATTERNS);
    c.log(|| format!("{:?}, pattern {}", d, how));
    let v = pattern(how, total(d));
    save_and_read(c, d, &v)?;
    let b = codec::tensor_bits(d, &v);
    for cut in [1usize, 4, 100, 4 * (total(d) / 2), 4 * total(d)] {
        judge(c, &b[..b.len() - cut], true, &|| format!("tensor {:?} of pattern {} cut short by {}", d, how, cut))?;
    }
    Ok(())
}
fn images() -> Vec<(Dim, Vec<u8>)> {
    [[1usize, 1, 1], [2, 1, 1], [2, 3, 1], [2, 2, 2], [1, 2, 3], [3, 1, 2], [4, 3, 2]].iter().map(|d| (*d, codec::tensor(&distinct(*d, 2)))).collect()
}
fn truncation(c: &mut Ctx) -> Result<(), String> {
    let (d, b) = c.pick(&images()).clone();
    let n = c.choose(b.len());
    c.log(|| format!("{:?} cut to {}", d, n));
    judge(c, &b[..n], true, &|| format!("tensor {:?} truncated to {} of {} bytes", d, n, b.len()))
}
fn one_byte(c: &mut Ctx) -> Result<(), String> {
    let (d, mut b) = c.pick(&images()).clone();
    let p = c.choose(b.len());
    let x = c.range(1, 255);
    b[p] ^= x as u8;
    c.log(|| format!("{:?} byte {} ^ {}", d, p, x));
    judge(c, &b, false, &|| format!("tensor {:?} with byte {} changed by ^{}", d, p, x))
}
fn two_bytes(c: &mut Ctx) -> Result<(), String> {
    let (d, b0) = c.pick(&images()[..5]).clone();
    let mut b = b0.clone();
    let p = c.choose(b.len() - 1);
    let q = p + 1 + c.choose(b.len() - 1 - p);
    let vals = |x: u8| [x.wrapping_add(1), x.wrapping_sub(1), 0, 1, 2, 3, 4, 6, 128, 255];
    b[p] = *c.pick(&vals(b0[p]));
    b[q] = *c.pick(&vals(b0[q]));
    c.log(|| format!("{:?} bytes {} {} := {} {}", d, p, q, b[p], b[q]));
    judge(c, &b, false, &|| format!("tensor {:?} with bytes {} and {} set to {} and {}", d, p, q, b[p], b[q]))
}
/// Every combination of stride words, shape words, count and data length out of a menu.
fn headers(menu: Vec<u32>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let sh = [*c.pick(&menu), *c.pick(&menu), *c.pick(&menu)];
        let stride_form = c.choose(4);
        let st = match stride_form {
            0 => [1, sh[0], sh[0].wrapping_mul(sh[1])],
            1 => [1, 1, 1],
            2 => [sh[1], 1, sh[0].wrapping_mul(sh[1])],
            _ => [*c.pick(&menu), *c.pick(&menu), *c.pick(&menu)],
        };
        let prod = sh.iter().fold(1u32, |a, b| a.wrapping_mul(*b));
        let n = *c.pick(&[prod as u64, 0, 1, 2, 4, 8, prod as u64 + 1, (prod as u64).wrapping_sub(1), u64::MAX, 1 << 61, 1 << 62]);
        let len = *c.pick(&[0usize, 1, 2, 4, 6, 8, 9]);
        let mut b = vec![];
        for w in st.iter().chain(&sh) {
            codec::u32b(&mut b, *w);
        }
        codec::u64b(&mut b, n);
        for i in 0..len {
            b.extend((i as f32).to_le_bytes());
        }
        c.log(|| format!("strides {:?} shape {:?} count {} and {} floats", st, sh, n, len));
        judge(c, &b, (len as u64) < n, &|| format!("strides {:?} shape {:?} count {} and {} floats", st, sh, n, len))
    }
}
fn inserted(c: &mut Ctx) -> Result<(), String> {
    let (d, mut b) = c.pick(&images()).clone();
    let p = c.choose(b.len() + 1);
    let k = c.range(1, 9);
    if c.choose(2) == 1 {
        let e = (p + k).min(b.len());
        b.drain(p..e);
    } else {
        let x = *c.pick(&[0u8, 1, 2, 255]);
        for _ in 0..k {
            b.insert(p, x);
        }
    }
    c.log(|| format!("{:?}: {} bytes at {} -> {} bytes", d, k, p, b.len()));
    judge(c, &b, false, &|| format!("tensor {:?} with {} bytes inserted or deleted at {}", d, k, p))
}
/// Files of arbitrary short content.
fn arbitrary(len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = c.range(0, len);
        let mut b = vec![];
        for _ in 0..n {
            b.extend(c.pick(&[0u32, 1, 2, u32::MAX]).to_le_bytes());
        }
        c.log(|| format!("{:?}", b));
        judge(c, &b, n < 8, &|| format!("file of words {:x?}", b))
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let menu = if t { vec![1, 2, 0, 3, 4, 65536, 1 << 31, u32::MAX] } else { vec![1, 2, 0, 3, 65536, u32::MAX] };
    (
        vec![
            Driver::new("all shapes", &format!("every shape up to {0}x{0}x{0}, saved and read, with 14 special floats at every position", if t { 6 } else { 4 }), shapes(if t { 6 } else { 4 })),
            Driver::new("special float assignments", "every assignment of 14 special floats to tensors of up to 4 elements", special_assignments(4)),
            Driver::new("large tensors", "18 (thorough 22) shapes across the 2^8, 2^14, 2^16, 2^20, 2^24 (and 2^27) boundaries, saved over longer and shorter files, cut short at the end", large(t)),
            Driver::new("repetition", "9 shapes x 20 forms of contents that say little (constant, mostly zero, few values, few bits), saved, read, cut short at 5 places", repetition),
            Driver::new("file names", "every ordered pair of 68 unusual file names, and each name under 6 spellings of its path", named_files(
                |i| lt(&[dense([2, 2, 1], 1, -3, 3), dense([3, 1, 1], 2, -3, 3), dense([2, 2, 1], 3, -3, 3)][i]),
                |t, p| t.save_to_file(p).map_err(|e| e.to_string()),
                |p, w| Tensor::from_file(p).map(|t| t == *w && bits(&t) == bits(w)).map_err(|e| e.to_string()),
            )),
            Driver::new("paths over time", &format!("2 paths x every sequence of {} writes of 4 tensors (some of equal length) by others or by the library, loads, removals and cuts", if t { 6 } else { 5 }), super::c18::over_time(&[false], if t { 6 } else { 5 }, 0)).waiting(),
            Driver::new("truncation", "7 files x every shorter length", truncation),
            Driver::new("one byte altered", "7 files x every byte x all 255 other values", one_byte),
            Driver::new("two bytes altered", "5 files x every pair of bytes x 10 x 10 values", two_bytes),
            Driver::new("headers", &format!("{}^3 shapes x 3 stride forms or {}^3 strides x 11 counts x 7 data lengths", menu.len(), menu.len()), headers(menu)),
            Driver::new("bytes inserted or deleted", "7 files x every position x 1..=9 bytes", inserted),
            Driver::new("arbitrary words", &format!("every file of up to {} words out of 4", if t { 11 } else { 9 }), arbitrary(if t { 11 } else { 9 })),
        ],
        vec!["a file with additional bytes after a complete tensor may be accepted or refused", "tensors without elements need only not panic"],
    )
}
