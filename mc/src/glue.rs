//! Conversions between the reference model and the library, and comparisons.
use crate::refmodel::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

pub fn shape(d: Dim) -> TensorShape {
    TensorShape { di: d[0] as u32, dj: d[1] as u32, dk: d[2] as u32 }
}
pub fn dim(s: &TensorShape) -> Dim {
    [s.di as usize, s.dj as usize, s.dk as usize]
}
pub fn ix(i: usize, j: usize, k: usize) -> TensorIndex {
    TensorIndex { i: i as u32, j: j as u32, k: k as u32 }
}
pub fn f(x: f64) -> f32 {
    let y = x as f32;
    assert!(y as f64 == x || x.is_nan(), "harness: {} is not an exact f32", x);
    y
}
pub fn lt(r: &RT) -> Tensor {
    let mut t = Tensor::new(shape(r.d));
    t.fill_with_vec(r.v.iter().map(|x| f(*x)).collect()).expect("harness: fill");
    t
}
/// Lossy conversion (values rounded to f32).
pub fn lt_lossy(r: &RT) -> Tensor {
    let mut t = Tensor::new(shape(r.d));
    t.fill_with_vec(r.v.iter().map(|x| *x as f32).collect()).expect("harness: fill");
    t
}
pub fn rd(t: &Tensor) -> RT {
    let s = t.get_shape();
    let mut v = Vec::with_capacity(s.di as usize * s.dj as usize * s.dk as usize);
    for k in 0..s.dk {
        for j in 0..s.dj {
            for i in 0..s.di {
                v.push(t.get_item(&TensorIndex { i, j, k }) as f64);
            }
        }
    }
    RT { d: dim(&s), v }
}
pub fn bits(t: &Tensor) -> Vec<u32> {
    let s = t.get_shape();
    let mut v = vec![];
    if s.di == 0 || s.dj == 0 || s.dk == 0 {
        return v;
    }
    for k in 0..s.dk {
        for j in 0..s.dj {
            for i in 0..s.di {
                v.push(t.get_item(&TensorIndex { i, j, k }).to_bits());
            }
        }
    }
    v
}
pub fn hash_rt(r: &RT) -> u64 {
    let mut h = crate::engine::mix(r.d[0] as u64, r.d[1] as u64 * 1000 + r.d[2] as u64);
    for x in &r.v {
        h = crate::engine::mix(h, (*x as f32 + 0.0).to_bits() as u64);
    }
    h
}
pub fn hash_t(t: &Tensor) -> u64 {
    hash_rt(&rd(t))
}

/// tol = 0: exact (up to the sign of zero). Otherwise |a-b| <= tol * (1 + |b|).
pub fn same(got: &RT, want: &RT, tol: f64) -> bool {
    got.d == want.d
        && got.v.iter().zip(&want.v).all(|(a, b)| {
            if tol == 0.0 {
                *a == f(*b) as f64
            } else {
                (a - b).abs() <= tol * (1.0 + b.abs())
            }
        })
}
pub fn expect(what: &str, got: &Tensor, want: &RT, tol: f64) -> Result<(), String> {
    expect_with(|| what.to_string(), got, want, tol)
}
pub fn expect_with(what: impl Fn() -> String, got: &Tensor, want: &RT, tol: f64) -> Result<(), String> {
    expect_rt(what, &rd(got), want, tol)
}
pub fn expect_rt(what: impl Fn() -> String, g: &RT, want: &RT, tol: f64) -> Result<(), String> {
    if same(g, want, tol) {
        return Ok(());
    }
    if g.d != want.d {
        return Err(format!("{}: shape is {:?}, should be {:?}", what(), g.d, want.d));
    }
    let p = (0..g.v.len())
        .find(|p| {
            let (a, b) = (g.v[*p], want.v[*p]);
            !(if tol == 0.0 { a == b } else { (a - b).abs() <= tol * (1.0 + b.abs()) })
        })
        .unwrap_or(0);
    let (i, j, k) = (p % g.d[0], p / g.d[0] % g.d[1], p / g.d[0] / g.d[1]);
    Err(format!(
        "{}: element ({},{},{}) of shape {:?} is {}, should be {} (got {:?} want {:?})",
        what(), i, j, k, g.d, g.v[p], want.v[p], short(&g.v), short(&want.v)
    ))
}
pub fn need(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

pub enum Lib {
    Conv(ConvolutionalLayer),
    Fc(FullyConnectedLayer),
    Pool(MaxPoolLayer),
    Soft(SoftmaxLayer),
}
impl Lib {
    pub fn l(&mut self) -> &mut dyn Layer {
        match self {
            Lib::Conv(x) => x,
            Lib::Fc(x) => x,
            Lib::Pool(x) => x,
            Lib::Soft(x) => x,
        }
    }
    pub fn lr(&self) -> &dyn Layer {
        match self {
            Lib::Conv(x) => x,
            Lib::Fc(x) => x,
            Lib::Pool(x) => x,
            Lib::Soft(x) => x,
        }
    }
    /// The accumulated parameter gradients, through the guarded hook.
    #[cfg(rn_mc)]
    pub fn params(&self) -> Option<Vec<RT>> {
        match self {
            Lib::Conv(x) => Some(x.mc_parameter_gradients().iter().map(rd).collect()),
            Lib::Fc(x) => Some(x.mc_parameter_gradients().iter().map(rd).collect()),
            _ => Some(vec![]),
        }
    }
    #[cfg(not(rn_mc))]
    pub fn params(&self) -> Option<Vec<RT>> {
        None
    }
    pub fn add_to(self, n: &mut rusty_network::network::Network) -> Result<(), &'static str> {
        match self {
            Lib::Conv(x) => n.add_layer(x),
            Lib::Fc(x) => n.add_layer(x),
            Lib::Pool(x) => n.add_layer(x),
            Lib::Soft(x) => n.add_layer(x),
        }
    }
    pub fn empty(kind: usize) -> Lib {
        match kind {
            0 => Lib::Conv(ConvolutionalLayer::empty()),
            1 => Lib::Fc(FullyConnectedLayer::empty()),
            2 => Lib::Pool(MaxPoolLayer::empty()),
            _ => Lib::Soft(SoftmaxLayer::empty()),
        }
    }
    /// (Re)configures the layer with the parameters of `s` through the public interface.
    pub fn fill(&mut self, s: &Spec, name: &str) -> Result<(), &'static str> {
        let name = name.to_string();
        match (self, s) {
            (Lib::Conv(c), Spec::Conv { ks, bs, input, stride }) => c.fill_from_state(
                ks.iter().map(lt).collect(),
                bs.iter().map(|b| lt(&RT::new([1, 1, 1], vec![*b]))).collect(),
                shape(*input),
                *stride as u32,
                &name,
            ),
            (Lib::Fc(c), Spec::Fc { w, b }) => c.fill_from_state(lt(w), lt(b), &name),
            (Lib::Pool(c), Spec::Pool { input, win, stride }) => {
                c.fill_from_state(shape(*input), shape([win[0], win[1], 1]), *stride as u32, &name)
            }
            (Lib::Soft(c), Spec::Soft { shape: s }) => c.fill_from_state(shape(*s), &name),
            _ => panic!("harness: kind mismatch"),
        }
    }
    pub fn build(s: &Spec, name: &str) -> Result<Lib, String> {
        let mut l = Lib::empty(s.kind());
        l.fill(s, name).map_err(|e| format!("a valid layer was refused ({}): {}", e, s.describe()))?;
        Ok(l)
    }
}
pub fn train(b: bool) -> NetworkRunState {
    if b {
        NetworkRunState::Training
    } else {
        NetworkRunState::Inference
    }
}

// ---- independent codec of the file format (C19) ----
pub mod codec {
    use super::*;
    pub fn u32b(o: &mut Vec<u8>, x: u32) {
        o.extend_from_slice(&x.to_le_bytes());
    }
    pub fn u64b(o: &mut Vec<u8>, x: u64) {
        o.extend_from_slice(&x.to_le_bytes());
    }
    pub fn shape_b(o: &mut Vec<u8>, d: Dim) {
        for x in d {
            u32b(o, x as u32);
        }
    }
    pub fn tensor_bits(d: Dim, v: &[u32]) -> Vec<u8> {
        let mut o = vec![];
        shape_b(&mut o, [1, d[0], d[0] * d[1]]);
        shape_b(&mut o, d);
        u64b(&mut o, v.len() as u64);
        for x in v {
            u32b(&mut o, *x);
        }
        o
    }
    pub fn tensor(r: &RT) -> Vec<u8> {
        tensor_bits(r.d, &r.v.iter().map(|x| f(*x).to_bits()).collect::<Vec<_>>())
    }
    pub fn string(s: &str) -> Vec<u8> {
        let mut o = vec![];
        u64b(&mut o, s.len() as u64);
        o.extend_from_slice(s.as_bytes());
        o
    }
    pub fn tensors(v: &[RT]) -> Vec<u8> {
        let mut o = vec![];
        u64b(&mut o, v.len() as u64);
        for t in v {
            o.extend(tensor(t));
        }
        o
    }
    fn u32v(x: u32) -> Vec<u8> {
        x.to_le_bytes().to_vec()
    }
    pub fn shape_v(d: Dim) -> Vec<u8> {
        let mut o = vec![];
        shape_b(&mut o, d);
        o
    }
    pub type Fields = Vec<(u32, Vec<u8>)>;
    /// kind and the fields in key order
    pub fn layer_fields(s: &Spec, name: &str) -> (u32, Fields) {
        match s {
            // Kernels, Biases, InputShape, Stride, Name
            Spec::Conv { ks, bs, input, stride } => (
                0,
                vec![
                    (0, tensors(ks)),
                    (1, tensors(&bs.iter().map(|b| RT::new([1, 1, 1], vec![*b])).collect::<Vec<_>>())),
                    (2, shape_v(*input)),
                    (3, u32v(*stride as u32)),
                    (4, string(name)),
                ],
            ),
            // Weights, Bias, Name
            Spec::Fc { w, b } => (1, vec![(0, tensor(w)), (1, tensor(b)), (2, string(name))]),
            // InputShape, MaskShape, Stride, Name
            Spec::Pool { input, win, stride } => (
                2,
                vec![
                    (0, shape_v(*input)),
                    (1, shape_v([win[0], win[1], 1])),
                    (2, u32v(*stride as u32)),
                    (3, string(name)),
                ],
            ),
            // Shape, Name
            Spec::Soft { shape } => (3, vec![(0, shape_v(*shape)), (1, string(name))]),
        }
    }
    pub fn network(layers: &[(u32, Fields)]) -> Vec<u8> {
        let mut o = vec![];
        u64b(&mut o, layers.len() as u64);
        for (k, fs) in layers {
            o.extend(layer(*k, fs));
        }
        o
    }
    pub fn layer(kind: u32, fs: &Fields) -> Vec<u8> {
        let mut o = vec![];
        u32b(&mut o, kind);
        u64b(&mut o, fs.len() as u64);
        for (key, payload) in fs {
            u32b(&mut o, *key);
            u64b(&mut o, payload.len() as u64);
            o.extend_from_slice(payload);
        }
        o
    }
    pub struct Rd<'a> {
        pub b: &'a [u8],
        pub p: usize,
    }
    impl<'a> Rd<'a> {
        pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
            if self.b.len() - self.p < n {
                return None;
            }
            self.p += n;
            Some(&self.b[self.p - n..self.p])
        }
        pub fn u32(&mut self) -> Option<u32> {
            Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
        }
        pub fn u64(&mut self) -> Option<u64> {
            Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
        }
    }
    pub fn parse_layer(r: &mut Rd) -> Option<(u32, Fields)> {
        let kind = r.u32()?;
        let n = r.u64()?;
        let mut fs = vec![];
        for _ in 0..n {
            let key = r.u32()?;
            let len = r.u64()? as usize;
            fs.push((key, r.take(len)?.to_vec()));
        }
        fs.sort();
        Some((kind, fs))
    }
    /// Parses a whole network file; the fields of each layer come back in key order.
    pub fn parse_network(b: &[u8]) -> Option<Vec<(u32, Fields)>> {
        let mut r = Rd { b, p: 0 };
        let n = r.u64()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(parse_layer(&mut r)?);
        }
        if r.p != b.len() {
            return None;
        }
        Some(v)
    }
    /// The fields of a serialized layer, via serde's data model only (bincode).
    pub fn of_serialized(s: &SerializedLayer) -> Option<(u32, Fields)> {
        let b = bincode::serialize(s).ok()?;
        let mut r = Rd { b: &b, p: 0 };
        let l = parse_layer(&mut r)?;
        if r.p == b.len() {
            Some(l)
        } else {
            None
        }
    }
    pub fn to_serialized(kind: u32, fs: &Fields) -> SerializedLayer {
        bincode::deserialize(&layer(kind, fs)).expect("harness: serialized layer")
    }
}
