//! Boring reference model: nested loops in f64 over small exactly-representable numbers.

pub type Dim = [usize; 3];

#[derive(Clone, PartialEq, Debug)]
pub struct RT {
    pub d: Dim,
    pub v: Vec<f64>,
}
pub fn total(d: Dim) -> usize {
    d[0] * d[1] * d[2]
}
impl RT {
    pub fn zeros(d: Dim) -> RT {
        RT { d, v: vec![0.0; total(d)] }
    }
    pub fn filled(d: Dim, x: f64) -> RT {
        RT { d, v: vec![x; total(d)] }
    }
    pub fn new(d: Dim, v: Vec<f64>) -> RT {
        assert_eq!(total(d), v.len());
        RT { d, v }
    }
    pub fn from_fn<F: FnMut(usize, usize, usize) -> f64>(d: Dim, mut f: F) -> RT {
        let mut r = RT::zeros(d);
        if r.v.is_empty() {
            return r;
        }
        for k in 0..d[2] {
            for j in 0..d[1] {
                for i in 0..d[0] {
                    let x = f(i, j, k);
                    r.set(i, j, k, x);
                }
            }
        }
        r
    }
    pub fn pos(&self, i: usize, j: usize, k: usize) -> usize {
        assert!(i < self.d[0] && j < self.d[1] && k < self.d[2]);
        i + self.d[0] * (j + self.d[1] * k)
    }
    pub fn at(&self, i: usize, j: usize, k: usize) -> f64 {
        self.v[self.pos(i, j, k)]
    }
    pub fn set(&mut self, i: usize, j: usize, k: usize, x: f64) {
        let p = self.pos(i, j, k);
        self.v[p] = x;
    }
    pub fn map<F: Fn(f64) -> f64>(&self, f: F) -> RT {
        RT { d: self.d, v: self.v.iter().map(|x| f(*x)).collect() }
    }
    pub fn zip<F: Fn(f64, f64) -> f64>(&self, o: &RT, f: F) -> RT {
        assert_eq!(self.d, o.d);
        RT { d: self.d, v: self.v.iter().zip(&o.v).map(|(a, b)| f(*a, *b)).collect() }
    }
    pub fn transpose(&self) -> RT {
        RT::from_fn([self.d[1], self.d[0], self.d[2]], |i, j, k| self.at(j, i, k))
    }
    pub fn scaled(&self, s: f64) -> RT {
        self.map(|x| x * s)
    }
}

/// (m x k x d) * (k x n x d)
pub fn matmul(a: &RT, b: &RT) -> RT {
    assert!(a.d[1] == b.d[0] && a.d[2] == b.d[2]);
    RT::from_fn([a.d[0], b.d[1], a.d[2]], |i, j, k| {
        let mut s = 0.0;
        for l in 0..a.d[1] {
            s += a.at(i, l, k) * b.at(l, j, k);
        }
        s
    })
}
pub fn relu(x: &RT) -> RT {
    x.map(|v| if v > 0.0 { v } else { 0.0 })
}

/// Does a window of this size tile the image exactly at this stride?
pub fn fits(img: [usize; 2], win: [usize; 2], stride: usize) -> bool {
    stride >= 1
        && win[0] <= img[0]
        && win[1] <= img[1]
        && (img[0] - win[0]) % stride == 0
        && (img[1] - win[1]) % stride == 0
}
pub fn windows(img: [usize; 2], win: [usize; 2], stride: usize) -> [usize; 2] {
    [(img[0] - win[0]) / stride + 1, (img[1] - win[1]) / stride + 1]
}

/// One output channel of the convolution, as [di, dj, 1].
pub fn conv(img: &RT, ker: &RT, bias: f64, stride: usize) -> RT {
    let o = windows([img.d[0], img.d[1]], [ker.d[0], ker.d[1]], stride);
    RT::from_fn([o[0], o[1], 1], |i, j, _| {
        let mut s = bias;
        for c in 0..ker.d[2] {
            for b in 0..ker.d[1] {
                for a in 0..ker.d[0] {
                    s += img.at(i * stride + a, j * stride + b, c) * ker.at(a, b, c);
                }
            }
        }
        s
    })
}
/// Scatter form of the gradient with respect to the image (independent of the gather form in the library).
pub fn conv_grad_input(grad: &RT, kers: &[RT], img: Dim, stride: usize) -> RT {
    let mut r = RT::zeros(img);
    for (ch, ker) in kers.iter().enumerate() {
        for j in 0..grad.d[1] {
            for i in 0..grad.d[0] {
                let g = grad.at(i, j, ch);
                for c in 0..ker.d[2] {
                    for b in 0..ker.d[1] {
                        for a in 0..ker.d[0] {
                            let p = r.pos(i * stride + a, j * stride + b, c);
                            r.v[p] += g * ker.at(a, b, c);
                        }
                    }
                }
            }
        }
    }
    r
}
pub fn conv_grad_kernel(grad: &RT, img: &RT, ker: Dim, ch: usize, stride: usize) -> RT {
    let mut r = RT::zeros(ker);
    for j in 0..grad.d[1] {
        for i in 0..grad.d[0] {
            let g = grad.at(i, j, ch);
            for c in 0..ker[2] {
                for b in 0..ker[1] {
                    for a in 0..ker[0] {
                        let p = r.pos(a, b, c);
                        r.v[p] += g * img.at(i * stride + a, j * stride + b, c);
                    }
                }
            }
        }
    }
    r
}
/// Flat positions of the window of output element (i,j,k).
pub fn window_positions(img: Dim, win: [usize; 2], stride: usize, i: usize, j: usize, k: usize) -> Vec<usize> {
    let mut v = vec![];
    for b in 0..win[1] {
        for a in 0..win[0] {
            v.push((i * stride + a) + img[0] * ((j * stride + b) + img[1] * k));
        }
    }
    v
}
pub fn max_pool(img: &RT, win: [usize; 2], stride: usize) -> RT {
    let o = windows([img.d[0], img.d[1]], win, stride);
    RT::from_fn([o[0], o[1], img.d[2]], |i, j, k| {
        window_positions(img.d, win, stride, i, j, k)
            .into_iter()
            .map(|p| img.v[p])
            .fold(f64::NEG_INFINITY, f64::max)
    })
}
pub fn softmax(x: &RT) -> RT {
    let m = x.v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e = x.map(|v| (v - m).exp());
    let s: f64 = e.v.iter().sum();
    e.map(|v| v / s)
}

/// A configured layer.
#[derive(Clone, PartialEq, Debug)]
pub enum Spec {
    Fc { w: RT, b: RT },
    Conv { ks: Vec<RT>, bs: Vec<f64>, input: Dim, stride: usize },
    Pool { input: Dim, win: [usize; 2], stride: usize },
    Soft { shape: Dim },
}
impl Spec {
    pub fn kind(&self) -> usize {
        match self {
            Spec::Conv { .. } => 0,
            Spec::Fc { .. } => 1,
            Spec::Pool { .. } => 2,
            Spec::Soft { .. } => 3,
        }
    }
    pub fn in_dim(&self) -> Dim {
        match self {
            Spec::Fc { w, .. } => [w.d[1], 1, w.d[2]],
            Spec::Conv { input, .. } => *input,
            Spec::Pool { input, .. } => *input,
            Spec::Soft { shape } => *shape,
        }
    }
    pub fn out_dim(&self) -> Dim {
        match self {
            Spec::Fc { b, .. } => b.d,
            Spec::Conv { ks, input, stride, .. } => {
                let o = windows([input[0], input[1]], [ks[0].d[0], ks[0].d[1]], *stride);
                [o[0], o[1], ks.len()]
            }
            Spec::Pool { input, win, stride } => {
                let o = windows([input[0], input[1]], *win, *stride);
                [o[0], o[1], input[2]]
            }
            Spec::Soft { shape } => *shape,
        }
    }
    /// Pre-activation (before rectification), where the layer has one.
    pub fn pre(&self, x: &RT) -> RT {
        match self {
            Spec::Fc { w, b } => matmul(w, x).zip(b, |p, q| p + q),
            Spec::Conv { ks, bs, stride, .. } => {
                let mut r = RT::zeros(self.out_dim());
                let n = r.d[0] * r.d[1];
                for (c, k) in ks.iter().enumerate() {
                    r.v[c * n..(c + 1) * n].copy_from_slice(&conv(x, k, bs[c], *stride).v);
                }
                r
            }
            Spec::Pool { win, stride, .. } => max_pool(x, *win, *stride),
            Spec::Soft { .. } => softmax(x),
        }
    }
    pub fn forward(&self, x: &RT) -> RT {
        assert_eq!(x.d, self.in_dim());
        let p = self.pre(x);
        match self {
            Spec::Fc { .. } | Spec::Conv { .. } => relu(&p),
            _ => p,
        }
    }
    fn masked(&self, x: &RT, g: &RT) -> RT {
        self.pre(x).zip(g, |p, q| if p > 0.0 { q } else { 0.0 })
    }
    /// Transposed Jacobian at x times g. None where the function is not differentiable in a way that
    /// makes the answer unique (ties in a pooling window).
    pub fn vjp(&self, x: &RT, g: &RT) -> Option<RT> {
        assert_eq!(g.d, self.out_dim());
        Some(match self {
            Spec::Fc { w, .. } => matmul(&w.transpose(), &self.masked(x, g)),
            Spec::Conv { ks, input, stride, .. } => conv_grad_input(&self.masked(x, g), ks, *input, *stride),
            Spec::Pool { input, win, stride } => {
                let o = self.out_dim();
                let mut r = RT::zeros(*input);
                for k in 0..o[2] {
                    for j in 0..o[1] {
                        for i in 0..o[0] {
                            let ps = window_positions(*input, *win, *stride, i, j, k);
                            let m = ps.iter().map(|p| x.v[*p]).fold(f64::NEG_INFINITY, f64::max);
                            let at: Vec<usize> = ps.into_iter().filter(|p| x.v[*p] == m).collect();
                            if at.len() != 1 && g.at(i, j, k) != 0.0 {
                                return None;
                            }
                            r.v[at[0]] += g.at(i, j, k);
                        }
                    }
                }
                r
            }
            Spec::Soft { .. } => {
                let s = softmax(x);
                let dot: f64 = s.v.iter().zip(&g.v).map(|(a, b)| a * b).sum();
                s.zip(g, |a, b| a * (b - dot))
            }
        })
    }
    /// Where windows have ties: is `out` a way of passing the gradient to maxima only, none of it lost?
    pub fn pool_shares(&self, x: &RT, g: &RT, out: &RT, tol: f64) -> Result<(), String> {
        if let Spec::Pool { input, win, stride } = self {
            let (mut lo, mut hi) = (RT::zeros(*input), RT::zeros(*input));
            let o = self.out_dim();
            let mut sums = vec![(0.0, 0.0); o[2]];
            for k in 0..o[2] {
                for j in 0..o[1] {
                    for i in 0..o[0] {
                        let ps = window_positions(*input, *win, *stride, i, j, k);
                        let m = ps.iter().map(|p| x.v[*p]).fold(f64::NEG_INFINITY, f64::max);
                        let at: Vec<usize> = ps.into_iter().filter(|p| x.v[*p] == m).collect();
                        let y = g.at(i, j, k);
                        sums[k].0 += y;
                        for p in &at {
                            lo.v[*p] += if at.len() == 1 { y } else { y.min(0.0) };
                            hi.v[*p] += if at.len() == 1 { y } else { y.max(0.0) };
                        }
                    }
                }
                for j in 0..input[1] {
                    for i in 0..input[0] {
                        sums[k].1 += out.at(i, j, k);
                    }
                }
            }
            for p in 0..out.v.len() {
                if out.v[p] < lo.v[p] - tol || out.v[p] > hi.v[p] + tol || out.v[p].is_nan() {
                    return Err(format!("position {} of the gradient {:?} of {} at {:?} for {:?} is {}, should be between {} and {}", p, short(&out.v), self.describe(), short(&x.v), short(&g.v), out.v[p], lo.v[p], hi.v[p]));
                }
            }
            for (k, (a, b)) in sums.iter().enumerate() {
                if (a - b).abs() > tol * (1 + o[0] * o[1]) as f64 {
                    return Err(format!("the gradient {:?} of {} at {:?} for {:?} adds up to {} in channel {}, should to {}", short(&out.v), self.describe(), short(&x.v), short(&g.v), b, k, a));
                }
            }
        }
        Ok(())
    }
    /// Derivative with respect to every parameter tensor (weights, bias | kernels.., biases..).
    pub fn param_grads(&self, x: &RT, g: &RT) -> Vec<RT> {
        match self {
            Spec::Fc { .. } => {
                let m = self.masked(x, g);
                vec![matmul(&m, &x.transpose()), m]
            }
            Spec::Conv { ks, stride, .. } => {
                let m = self.masked(x, g);
                let mut r: Vec<RT> =
                    (0..ks.len()).map(|c| conv_grad_kernel(&m, x, ks[c].d, c, *stride)).collect();
                let n = m.d[0] * m.d[1];
                for c in 0..ks.len() {
                    r.push(RT::new([1, 1, 1], vec![m.v[c * n..(c + 1) * n].iter().sum()]));
                }
                r
            }
            _ => vec![],
        }
    }
    pub fn zero_param_grads(&self) -> Vec<RT> {
        match self {
            Spec::Fc { w, b } => vec![RT::zeros(w.d), RT::zeros(b.d)],
            Spec::Conv { ks, .. } => {
                let mut r: Vec<RT> = ks.iter().map(|k| RT::zeros(k.d)).collect();
                r.extend(ks.iter().map(|_| RT::zeros([1, 1, 1])));
                r
            }
            _ => vec![],
        }
    }
    /// The same function with the biases scaled: f'(s x) = s f(x) for these layers other than softmax.
    pub fn bias_scaled(&self, s: f64) -> Spec {
        match self {
            Spec::Fc { w, b } => Spec::Fc { w: w.clone(), b: b.scaled(s) },
            Spec::Conv { ks, bs, input, stride } => Spec::Conv { ks: ks.clone(), bs: bs.iter().map(|b| b * s).collect(), input: *input, stride: *stride },
            o => o.clone(),
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Spec::Fc { w, b } => format!("fully connected {:?} w={:?} b={:?}", w.d, short(&w.v), short(&b.v)),
            Spec::Conv { ks, bs, input, stride } => format!(
                "convolutional input {:?} {} kernel(s) {:?} stride {} k0={:?} biases={:?}",
                input, ks.len(), ks[0].d, stride, short(&ks[0].v), short(bs)
            ),
            Spec::Pool { input, win, stride } => format!("max pool input {:?} window {:?} stride {}", input, win, stride),
            Spec::Soft { shape } => format!("softmax {:?}", shape),
        }
    }
}
pub fn short(v: &[f64]) -> Vec<f64> {
    v.iter().take(12).cloned().collect()
}

/// Deterministic dense pattern of small integers, mostly non-zero, sign-mixed.
pub fn dense(d: Dim, salt: u64, lo: i64, hi: i64) -> RT {
    let mut h = salt.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    RT::from_fn(d, |_, _, _| {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = (h >> 33) as i64;
        (lo + x.rem_euclid(hi - lo + 1)) as f64
    })
}
/// All distinct values: a permutation of small integers (odd multiplier walk), centred around 0.
pub fn distinct(d: Dim, salt: usize) -> RT {
    let n = total(d);
    let mut p: Vec<usize> = (0..n).collect();
    // deterministic shuffle
    let mut h = salt as u64 + 77;
    for i in (1..n).rev() {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        p.swap(i, (h >> 33) as usize % (i + 1));
    }
    RT { d, v: p.into_iter().map(|x| x as f64 - (n / 2) as f64).collect() }
}
/// A tensor that resembles another: for whatever an implementation might mistake for the other one.
pub fn related(r: &RT, how: usize) -> RT {
    let n = r.v.len();
    let mut v = r.v.clone();
    match how {
        0 => v.iter_mut().for_each(|x| *x = -*x),
        1 => v.reverse(),
        2 => v[0] += 1.0,
        3 => v[n / 2] += 1.0,
        4 => v[n - 1] += 1.0,
        5 => v.swap(0, n - 1),
        6 => v.iter_mut().for_each(|x| *x *= 2.0),
        7 => v.rotate_left(1),
        8 => {
            v[0] += 1.0;
            v[n - 1] -= 1.0;
        }
        9 => v[n / 2] = -v[n / 2],
        10 => v.iter_mut().enumerate().for_each(|(p, x)| *x = if p % 2 == 0 { 1.0 } else { -1.0 }),
        11 => v[n / 2] += 1.0 / 256.0,
        12 => v.iter_mut().for_each(|x| *x = 0.0),
        13 => v[n / 2..].iter_mut().for_each(|x| *x = 0.0),
        14 => v.iter_mut().for_each(|x| *x = x.abs()),
        15 => v.iter_mut().for_each(|x| *x += 1.0),
        16 => {
            // the planes exchanged
            let plane = r.d[0] * r.d[1];
            v.rotate_left(plane % n);
        }
        _ => v[n - 1] = -v[n - 1] - 1.0,
    }
    RT { d: r.d, v }
}
pub const RELATED: usize = 18;
pub fn basis(d: Dim, p: usize) -> RT {
    let mut r = RT::zeros(d);
    r.v[p] = 1.0;
    r
}

/// Full 24-bit mantissas of both signs, of magnitude up to 4: sums and products of these are rounded.
pub fn rough(d: Dim, salt: u64) -> RT {
    let mut h = salt.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x7654321;
    RT::from_fn(d, |_, _, _| {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((h >> 40 | 1) as i64 - (1 << 23)) as f64 / (1u64 << 21) as f64
    })
}
pub fn pow2(e: i32) -> f64 {
    2f64.powi(e)
}
/// Exponents of the scales of two operands whose products stay normal numbers.
pub const SCALE_PAIRS: [(i32, i32); 10] = [(90, -90), (-90, 90), (55, 55), (-55, -55), (-100, 0), (0, -100), (100, 0), (0, 100), (-70, -40), (60, -110)];
/// Tolerance for a sum of n products of numbers up to 4.
pub fn rough_tol(n: usize) -> f64 {
    16.0 * (n + 3) as f64 * pow2(-23)
}
