//! Shared by C12, C13 and C14: a network driven through call histories, compared with a model. Every
//! layer placed in the network is a caller-defined wrapper around a library layer that records what the
//! network hands it.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

pub struct Event {
    pub layer: usize,
    pub input: Tensor,
    pub output: Tensor,
    pub incoming: Tensor,
    pub outgoing: Tensor,
}
pub type Log = Rc<RefCell<Vec<Event>>>;
pub struct Wrap {
    pub id: usize,
    pub inner: Lib,
    pub log: Log,
}
impl Layer for Wrap {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        self.inner.l().forward(input, output)
    }
    fn backward(&mut self, input: &Tensor, output: &Tensor, inc: &Tensor, out: &mut Tensor) -> Result<(), &'static str> {
        let r = self.inner.l().backward(input, output, inc, out);
        self.log.borrow_mut().push(Event { layer: self.id, input: input.clone(), output: output.clone(), incoming: inc.clone(), outgoing: out.clone() });
        r
    }
    fn clear_gradients(&mut self) {
        self.inner.l().clear_gradients()
    }
    fn switch_to_training(&mut self) {
        self.inner.l().switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.inner.l().switch_to_inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.lr().get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.lr().get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.lr().get_output_shape()
    }
    fn get_name(&self) -> String {
        self.inner.lr().get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner.lr().get_serialized()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.l().load_from_serialized(s)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Infer,
    Backward,
    Lifecycle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// a fitting layer, number q of the menu for the current output shape; the flag pre-switches the layer
    Add(usize, bool),
    /// a layer whose input shape differs in the given way
    AddBad(usize),
    Infer(usize),
    InferBad(usize),
    Backward(usize),
    BackwardBad(usize),
    ToTraining,
    ToInference,
}
pub const FIRST: [Dim; 6] = [[3, 1, 1], [2, 2, 1], [2, 1, 2], [4, 2, 1], [1, 1, 1], [3, 3, 2]];

/// Layers that accept an input of shape d.
pub fn fitting(d: Dim, salt: u64) -> Vec<Spec> {
    let s = salt * 7 + (d[0] * 5 + d[1] * 3 + d[2]) as u64;
    let conv = |ker: Dim, n: usize, stride: usize| Spec::Conv {
        ks: (0..n).map(|q| dense(ker, s + 10 * q as u64, -1, 2)).collect(),
        bs: (0..n).map(|q| [1.0, -1.0, 0.0][q % 3]).collect(),
        input: d,
        stride,
    };
    let mut v = vec![];
    if d[1] == 1 {
        v.push(Spec::Fc { w: dense([2, d[0], d[2]], s, -1, 2), b: dense([2, 1, d[2]], s + 1, -1, 2) });
        v.push(Spec::Fc { w: dense([3, d[0], d[2]], s + 2, -1, 2), b: dense([3, 1, d[2]], s + 3, -1, 2) });
    }
    v.push(conv([1, 1, d[2]], 2, 1));
    v.push(Spec::Soft { shape: d });
    if d[0] > 1 || d[1] > 1 {
        let win = [d[0].min(2), d[1].min(2)];
        v.push(Spec::Pool { input: d, win, stride: 1 });
        v.push(conv([win[0], win[1], d[2]], 1, 1));
        v.push(conv([d[0], d[1], d[2]], 3, 2));
    } else {
        v.push(Spec::Pool { input: d, win: [1, 1], stride: 1 });
        v.push(conv([1, 1, d[2]], 1, 3));
    }
    v
}
fn twist(d: Dim, how: usize) -> Dim {
    match how {
        0 => [d[0] + 1, d[1], d[2]],
        1 => [d[0], d[1] + 1, d[2]],
        2 => [d[0], d[1], d[2] + 1],
        3 => [d[1], d[0], d[2]],
        4 => [d[0] * d[1] * d[2], 1, 1],
        5 => [1, d[0] * d[1] * d[2], 1],
        6 => [d[0], d[1], d[2].max(2) - 1],
        _ => [d[2], d[1], d[0]],
    }
}
pub const TWISTS: usize = 8;

pub fn in_value(d: Dim, which: usize) -> RT {
    match which {
        100.. => related(&in_value(d, 0), which - 100),
        0 | 1 | 2 if total(d) > 200 => dense(d, 7 + which as u64, -1, 2),
        0 => dense(d, 7, -1, 4),
        1 => distinct(d, 5),
        3 => RT::zeros(d),
        _ => dense(d, 100 + which as u64, -2, 3),
    }
}
/// By how much can a sum of the layer exceed the largest input (first) or incoming gradient (second)?
fn fan(s: &Spec) -> (f64, f64) {
    let sum = |r: &RT| r.v.iter().map(|x| x.abs()).sum::<f64>();
    match s {
        Spec::Fc { w, b } => {
            let (mut rows, mut cols) = (vec![0.0; w.d[0] * w.d[2]], vec![0.0; w.d[1] * w.d[2]]);
            for k in 0..w.d[2] {
                for j in 0..w.d[1] {
                    for i in 0..w.d[0] {
                        rows[i + k * w.d[0]] += w.at(i, j, k).abs();
                        cols[j + k * w.d[1]] += w.at(i, j, k).abs();
                    }
                }
            }
            let top = |v: Vec<f64>| v.into_iter().fold(1.0, f64::max);
            (top(rows) + top(b.v.iter().map(|x| x.abs()).collect()), top(cols))
        }
        Spec::Conv { ks, bs, .. } => (ks.iter().map(sum).fold(0.0, f64::max) + bs.iter().fold(0.0, |a: f64, b| a.max(b.abs())), ks.iter().map(sum).sum::<f64>().max(1.0)),
        Spec::Pool { win, .. } => (1.0, (win[0] * win[1]) as f64),
        Spec::Soft { .. } => (1.0, 1.0),
    }
}
fn exact(r: &RT, fan: f64) -> bool {
    r.v.iter().all(|x| x.fract() == 0.0 && x.abs().max(1.0) * fan <= 16777216.0)
}
/// Tolerance for applying s to x: 0 where integer arithmetic stays exact.
fn tolerance(s: &Spec, x: &RT) -> f64 {
    if s.kind() == 2 || (s.kind() < 2 && exact(x, fan(s).0)) {
        0.0
    } else {
        let m = x.v.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        2e-5 * m
    }
}
/// Is the derivative at x well away from a kink, or the arithmetic exact?
fn smooth(s: &Spec, x: &RT) -> bool {
    match s {
        Spec::Fc { .. } | Spec::Conv { .. } => exact(x, fan(s).0) || s.pre(x).v.iter().all(|p| p.abs() > 1e-3 * (1.0 + x.v.iter().fold(0.0f64, |a, b| a.max(b.abs())))),
        _ => true,
    }
}

pub struct Net {
    pub a: Aspect,
    pub net: Network,
    pub specs: Vec<Spec>,
    pub training: bool,
    pub log: Log,
    /// the input of the inference in effect, if no layer was added since
    pub inferred: Option<RT>,
    /// was it made in training mode, with no switch since?
    pub tracked: bool,
    pub hist: Vec<Op>,
    pub stop: bool,
    /// all layers share one name
    pub alike: bool,
    /// the library sees inputs (and biases) and gradients scaled by these powers of two
    pub sx: f64,
    pub sg: f64,
}
impl Net {
    pub fn new(a: Aspect, training: bool, alike: bool) -> Net {
        Net { sx: 1.0, sg: 1.0, alike, a, net: Network::new(train(training)), specs: vec![], training, log: Rc::default(), inferred: None, tracked: false, hist: vec![], stop: false }
    }
    fn ctx(&self) -> String {
        let k: Vec<String> = self.specs.iter().take(6).map(|s| format!("{}{:?}->{:?}", ["conv", "fc", "pool", "softmax"][s.kind()], s.in_dim(), s.out_dim())).collect();
        let n = self.hist.len();
        format!("network of {} layer(s) {:?} after {:?}", self.specs.len(), k, &self.hist[n.saturating_sub(12)..])
    }
    fn fail(&mut self, a: Aspect, m: String) -> Result<(), String> {
        if self.a == a {
            return Err(m);
        }
        self.stop = true;
        Ok(())
    }
    fn states(&self) -> Vec<Vec<u32>> {
        (0..=self.specs.len()).filter_map(|i| self.net.get_intermediate_state(i).ok().map(bits)).collect()
    }
    fn layer_name(&self, i: usize) -> String {
        if self.alike {
            "layer".into()
        } else {
            format!("layer {}", i)
        }
    }
    pub fn out(&self) -> Option<Dim> {
        self.specs.last().map(|s| s.out_dim())
    }
    /// A layer added from the given spec; true if the library accepted it.
    pub fn add(&mut self, s: &Spec, other_mode: bool) -> Result<bool, String> {
        let mut l = Lib::empty(s.kind());
        if l.fill(&s.bias_scaled(self.sx), &self.layer_name(self.specs.len())).is_err() {
            self.stop = true; // C08
            return Ok(false);
        }
        if other_mode != self.training {
            // it comes from some other use
            l.l().switch_to_training();
            let x = lt(&in_value(s.in_dim(), 2));
            let mut o = Tensor::new(shape(s.out_dim()));
            if l.l().forward(&x, &mut o).is_ok() {
                let _ = l.l().backward(&x, &o, &lt(&RT::filled(s.out_dim(), 1.0)), &mut Tensor::new(shape(s.in_dim())));
            }
        }
        let w = Wrap { id: self.specs.len(), inner: l, log: self.log.clone() };
        let r = self.net.add_layer(w);
        let ok = self.out().map(|o| o == s.in_dim()).unwrap_or(true);
        if r.is_ok() != ok {
            let m = format!("{}: adding {} gives {:?}", self.ctx(), s.describe(), r);
            self.fail(Aspect::Lifecycle, m)?;
            return Ok(false);
        }
        if ok {
            self.specs.push(s.clone());
            self.inferred = None;
            self.tracked = false;
        }
        Ok(ok)
    }
    pub fn apply(&mut self, c: &mut Ctx, op: Op) -> Result<(), String> {
        if self.stop {
            return Ok(());
        }
        self.hist.push(op);
        c.step();
        c.log(|| format!("{:?}", op));
        let before = self.states();
        let mut refused = false;
        match op {
            Op::Add(q, pre) => {
                let d = match self.out() {
                    Some(d) => d,
                    None => FIRST[q % FIRST.len()],
                };
                let f = fitting(d, self.specs.len() as u64);
                let s = f[q % f.len()].clone();
                self.add(&s, pre)?;
            }
            Op::AddBad(how) => {
                let d = match self.out() {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let t = twist(d, how);
                if t != d {
                    let f = fitting(t, 3);
                    let s = f[how % f.len()].clone();
                    self.add(&s, false)?;
                    refused = true;
                }
            }
            Op::Infer(w) => {
                let r;
                if self.specs.is_empty() {
                    r = self.net.infer(&lt(&in_value(FIRST[w % 6], 0)));
                    let z = self.net.infer(&Tensor::new(shape([0, 0, 0])));
                    if r.is_ok() || z.is_ok() {
                        let m = format!("{}: inference without layers reports success", self.ctx());
                        self.fail(if self.a == Aspect::Lifecycle { Aspect::Lifecycle } else { Aspect::Infer }, m)?;
                    }
                    refused = true;
                } else {
                    let x = in_value(self.specs[0].in_dim(), w);
                    r = self.net.infer(&lt(&x.scaled(self.sx)));
                    if let Err(e) = r {
                        let m = format!("{}: inference refused: {}", self.ctx(), e);
                        return self.fail(Aspect::Infer, m);
                    }
                    self.inferred = Some(x);
                    self.tracked = self.training;
                    self.check_states(c)?;
                }
            }
            Op::InferBad(how) => {
                if let Some(s) = self.specs.first() {
                    let d = twist(s.in_dim(), how);
                    if d != s.in_dim() {
                        if self.net.infer(&lt(&RT::filled(d, 3.0))).is_ok() {
                            let m = format!("{}: inference on {:?} reports success", self.ctx(), d);
                            return self.fail(if self.a == Aspect::Lifecycle { Aspect::Lifecycle } else { Aspect::Infer }, m);
                        }
                        refused = true;
                    }
                }
            }
            Op::Backward(w) => self.backward(c, w, &before)?,
            Op::BackwardBad(how) => {
                if let Some(o) = self.out() {
                    let d = twist(o, how);
                    if d != o {
                        if self.net.backward(&lt(&RT::filled(d, 3.0))).is_ok() {
                            let m = format!("{}: backpropagating a gradient of shape {:?} reports success", self.ctx(), d);
                            return self.fail(Aspect::Lifecycle, m);
                        }
                        refused = true;
                        self.log.borrow_mut().clear();
                    }
                }
            }
            Op::ToTraining => {
                self.net.switch_to_training();
                self.training = true;
                self.tracked = false;
            }
            Op::ToInference => {
                self.net.switch_to_inference();
                self.training = false;
                self.tracked = false;
            }
        }
        if refused && !self.stop && self.states() != before {
            let m = format!("{}: a refused call changed an intermediate state", self.ctx());
            let a = match op {
                Op::InferBad(_) | Op::Infer(_) if self.a == Aspect::Infer => Aspect::Infer,
                _ => Aspect::Lifecycle,
            };
            return self.fail(a, m);
        }
        if self.a == Aspect::Lifecycle && !self.stop {
            self.check_lifecycle()?;
            c.observe(mix(self.training as u64, self.specs.iter().fold(3, |h, s| mix(h, (s.kind() * 1000 + total(s.out_dim())) as u64))));
        }
        Ok(())
    }
    fn check_lifecycle(&self) -> Result<(), String> {
        let n = self.specs.len();
        need(self.net.get_run_state() == train(self.training), || format!("{}: run state is {:?}", self.ctx(), self.net.get_run_state()))?;
        let ls = self.net.get_layers();
        need(ls.len() == n, || format!("{}: {} layers", self.ctx(), ls.len()))?;
        for (i, l) in ls.iter().enumerate() {
            need(l.get_run_mode() == train(self.training), || format!("{}: layer {} is in mode {:?}", self.ctx(), i, l.get_run_mode()))?;
            need(l.get_name() == self.layer_name(i) && dim(&l.get_input_shape()) == self.specs[i].in_dim() && dim(&l.get_output_shape()) == self.specs[i].out_dim(), || {
                format!("{}: layer {} is {:?} {:?} -> {:?}", self.ctx(), i, l.get_name(), l.get_input_shape(), l.get_output_shape())
            })?;
        }
        if n == 0 {
            return need(self.net.get_intermediate_state(0).is_err() && self.net.get_output().is_err(), || format!("{}: an empty network has states", self.ctx()));
        }
        need(dim(&self.net.get_input_shape()) == self.specs[0].in_dim(), || format!("{}: input shape {:?}", self.ctx(), self.net.get_input_shape()))?;
        need(dim(&self.net.get_output_shape()) == self.specs[n - 1].out_dim(), || format!("{}: output shape {:?}", self.ctx(), self.net.get_output_shape()))?;
        for i in 0..=n {
            let want = if i == 0 { self.specs[0].in_dim() } else { self.specs[i - 1].out_dim() };
            let s = self.net.get_intermediate_state(i).map_err(|e| format!("{}: state {}: {}", self.ctx(), i, e))?;
            need(dim(&s.get_shape()) == want, || format!("{}: state {} has shape {:?}", self.ctx(), i, s.get_shape()))?;
        }
        for far in [n + 1, n + 2, n + 256, 65536, 65536 + n, 1 << 31, (1 << 31) + n, u32::MAX as usize, 1 << 32, (1 << 32) + n, usize::MAX, usize::MAX - n] {
            need(self.net.get_intermediate_state(far).is_err(), || format!("{}: there is a state {}", self.ctx(), far))?;
        }
        need(self.net.get_output().map(|o| dim(&o.get_shape())) == Ok(self.specs[n - 1].out_dim()), || format!("{}: output", self.ctx()))
    }
    fn check_states(&mut self, c: &mut Ctx) -> Result<(), String> {
        if self.a != Aspect::Infer {
            return Ok(());
        }
        let x = self.inferred.clone().unwrap();
        let st = |i: usize| self.net.get_intermediate_state(i).map_err(|e| format!("{}: state {}: {}", self.ctx(), i, e));
        let un = 1.0 / self.sx;
        expect_rt(|| format!("{}: state 0", self.ctx()), &rd(st(0)?).scaled(un), &x, 0.0)?;
        for (i, s) in self.specs.iter().enumerate() {
            let xi = rd(st(i)?).scaled(un);
            need(xi.d == s.in_dim(), || format!("{}: state {} has shape {:?}", self.ctx(), i, xi.d))?;
            expect_rt(|| format!("{}: state {} (layer {} = {} of {:?})", self.ctx(), i + 1, i, s.describe(), short(&xi.v)), &rd(st(i + 1)?).scaled(un), &s.forward(&xi), tolerance(s, &xi))?;
        }
        let o = self.net.get_output().map_err(|e| format!("{}: output: {}", self.ctx(), e))?;
        need(bits(o) == bits(st(self.specs.len())?), || format!("{}: the output is not the last state", self.ctx()))?;
        c.observe(hash_t(o));
        Ok(())
    }
    fn backward(&mut self, c: &mut Ctx, w: usize, before: &[Vec<u32>]) -> Result<(), String> {
        self.log.borrow_mut().clear();
        let o = match self.out() {
            None => {
                if self.net.backward(&Tensor::new(shape([0, 0, 0]))).is_ok() || self.net.backward(&Tensor::empty()).is_ok() {
                    let m = format!("{}: backpropagation without layers reports success", self.ctx());
                    return self.fail(Aspect::Lifecycle, m);
                }
                return Ok(());
            }
            Some(o) => o,
        };
        let g = match w {
            100.. => related(&dense(o, 19, -2, 3), w - 100),
            0 => dense(o, 19, -2, 3),
            2 => RT::zeros(o),
            3 => basis(o, total(o) - 1),
            _ => dense(o, 23 + w as u64, 1, 4).scaled(2.0),
        };
        let tg = lt(&g.scaled(self.sg));
        let r = self.net.backward(&tg);
        if !self.training {
            if r.is_ok() {
                let m = format!("{}: backpropagation in inference mode reports success", self.ctx());
                return self.fail(Aspect::Lifecycle, m);
            }
            if self.states() != before {
                let m = format!("{}: a refused call changed an intermediate state", self.ctx());
                return self.fail(Aspect::Lifecycle, m);
            }
            return Ok(());
        }
        if let Err(e) = r {
            // refusing is only wrong once there is an inference to differentiate (C13); the lifecycle
            // property only asks for success in training mode with the right shape
            let m = format!("{}: backpropagation refused: {}", self.ctx(), e);
            if self.tracked {
                return self.fail(if self.a == Aspect::Lifecycle { Aspect::Lifecycle } else { Aspect::Backward }, m);
            }
            return Ok(());
        }
        if self.a != Aspect::Backward || !self.tracked {
            return Ok(());
        }
        if self.states() != before {
            return Err(format!("{}: backpropagation changed an intermediate state", self.ctx()));
        }
        expect("given gradient", &tg, &g.scaled(self.sg), 0.0)?;
        let (ux, ug) = (1.0 / self.sx, 1.0 / self.sg);
        let log = self.log.borrow();
        let order: Vec<usize> = log.iter().map(|e| e.layer).collect();
        let n = self.specs.len();
        if order != (0..n).rev().collect::<Vec<_>>() {
            return Err(format!("{}: layers were backpropagated in the order {:?}", self.ctx(), order));
        }
        let mut incoming = g.clone();
        let mut tol = 0.0;
        for e in log.iter() {
            let i = e.layer;
            let s = &self.specs[i];
            let m = |t: &str| format!("{}: layer {} of {} was handed another {}", self.ctx(), i, n, t);
            need(bits(&e.input) == before[i], || m("input than it had in the inference"))?;
            need(bits(&e.output) == before[i + 1], || m("output than it had in the inference"))?;
            expect_rt(|| m("gradient than the one with respect to its output"), &rd(&e.incoming).scaled(ug), &incoming, tol)?;
            c.observe(hash_t(&e.incoming));
            let x = rd(&e.input).scaled(ux);
            let given = rd(&e.incoming).scaled(ug);
            let back = s.vjp(&x, &given);
            match back {
                Some(b) if smooth(s, &x) => {
                    tol = if s.kind() == 3 || !exact(&x, fan(s).0) || !exact(&given, fan(s).1) { 2e-5 * given.v.iter().chain(&x.v).fold(1.0f64, |a, b| a.max(b.abs())) } else { 0.0 };
                    incoming = b;
                }
                _ => {
                    // not differentiable here: take the library's choice
                    c.count("kinks skipped", 1);
                    let size = given.v.iter().fold(1.0f64, |a, b| a.max(b.abs()));
                    s.pool_shares(&x, &given, &rd(&e.outgoing).scaled(ug), 1e-5 * size).map_err(|m| format!("{}: layer {}: {}", self.ctx(), i, m))?;
                    tol = 0.0;
                    incoming = rd(&e.outgoing).scaled(ug);
                }
            }
            if i > 0 {
                need(dim(&e.outgoing.get_shape()) == s.in_dim(), || format!("{}: layer {} got a gradient to fill of shape {:?}", self.ctx(), i, e.outgoing.get_shape()))?;
            }
        }
        Ok(())
    }
}

/// Stacks whose inputs or gradients are very large or very small.
pub fn magnitudes(a: Aspect, len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let e = *c.pick(&[-100, -60, -30, 30, 60, 100]);
        let inputs = c.choose(3);
        let first = *c.pick(&FIRST);
        let n = c.range(1, len);
        let mut m = Net::new(a, c.choose(2) == 1, false);
        if inputs != 1 {
            m.sg = pow2(e);
        }
        if inputs != 0 {
            m.sx = pow2(if inputs == 1 { e } else { -e });
        }
        c.log(|| format!("inputs * {:e}, gradients * {:e}", m.sx, m.sg));
        let mut d = first;
        for i in 0..n {
            let mut f = fitting(d, i as u64);
            f.retain(|s| m.sx == 1.0 || s.kind() != 3);
            let s = c.pick(&f).clone();
            c.log(|| s.describe());
            m.add(&s, i % 2 == 1)?;
            d = s.out_dim();
        }
        life(c, &mut m)
    }
}
/// Every stack up to a length, each run through a fixed life in both modes.
pub fn stacks(a: Aspect, len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let training = c.choose(2) == 1;
        let first = *c.pick(&FIRST);
        let n = c.range(1, len);
        let mut m = Net::new(a, training, c.choose(2) == 1);
        let mut d = first;
        for i in 0..n {
            let f = fitting(d, i as u64);
            let s = c.pick(&f).clone();
            c.log(|| s.describe());
            m.add(&s, i % 2 == 1)?;
            d = s.out_dim();
        }
        life(c, &mut m)
    }
}
pub fn life(c: &mut Ctx, m: &mut Net) -> Result<(), String> {
    let all = [
        Op::Infer(0), Op::Backward(0), Op::Backward(1), Op::InferBad(0), Op::Infer(1), Op::BackwardBad(0), Op::Backward(0), Op::ToTraining,
        Op::Infer(2), Op::Backward(1), Op::Backward(1), Op::ToInference, Op::Infer(1), Op::Backward(0), Op::ToTraining, Op::Infer(0), Op::Backward(0), Op::Backward(2), Op::Backward(3), Op::Infer(3), Op::Backward(1), Op::Infer(0), Op::Backward(0),
    ];
    for op in all {
        m.apply(c, op)?;
    }
    for h in 1..TWISTS {
        m.apply(c, Op::InferBad(h))?;
        m.apply(c, Op::BackwardBad(h))?;
        if m.a == Aspect::Lifecycle {
            m.apply(c, Op::AddBad(h))?;
        }
    }
    m.apply(c, Op::Backward(1))?;
    m.apply(c, Op::ToInference)?;
    m.apply(c, Op::Infer(0))
}
pub fn history(a: Aspect, ops: Vec<Op>, depth: usize, pre: Vec<Vec<Op>>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let training = c.choose(2) == 1;
        let pre = c.pick(&pre);
        let alike = c.choose(2) == 1;
        c.log(|| format!("new network, training={}, layers named alike: {}", training, alike));
        let mut m = Net::new(a, training, alike);
        for op in pre {
            m.apply(c, *op)?;
        }
        for _ in 0..depth {
            let op = *c.pick(&ops);
            m.apply(c, op)?;
            if m.stop {
                return Ok(());
            }
        }
        for op in [Op::Infer(1), Op::Backward(0), Op::Backward(1)] {
            m.apply(c, op)?;
        }
        Ok(())
    }
}
pub fn lasso(a: Aspect, ops: Vec<Op>, len: usize, reps: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let q = c.choose(3);
        let n = c.range(1, len);
        let cyc: Vec<Op> = (0..n).map(|_| *c.pick(&ops)).collect();
        c.log(|| format!("{} times {:?}", reps, cyc));
        let mut m = Net::new(a, true, n % 2 == 0);
        for k in 0..3 {
            m.apply(c, Op::Add(q + 2 * k, false))?;
        }
        m.apply(c, Op::Infer(0))?;
        for _ in 0..reps {
            m.hist.clear();
            for op in &cyc {
                m.apply(c, *op)?;
            }
        }
        for op in [Op::Backward(1), Op::Infer(1), Op::Backward(0)] {
            m.apply(c, op)?;
        }
        Ok(())
    }
}
/// Long networks.
pub fn long(a: Aspect, lens: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&lens);
        let kind = c.choose(3);
        let training = c.choose(2) == 1;
        c.log(|| format!("{} layers of pattern {}, training={}", n, kind, training));
        let mut m = Net::new(a, training, c.choose(2) == 1);
        for i in 0..n {
            let s = match kind {
                // signed permutations keep the numbers small; the bias keeps some units alive
                0 => Spec::Fc {
                    w: RT::from_fn([3, 3, 1], |r, q, _| if (r + i) % 3 == q { 1.0 } else { 0.0 }),
                    b: RT::new([3, 1, 1], vec![[1.0, 0.0, -1.0][i % 3], 0.0, [0.0, -1.0, 1.0][i % 3]]),
                },
                1 => Spec::Conv {
                    ks: vec![RT::new([1, 1, 2], if i % 2 == 0 { vec![0.0, 1.0] } else { vec![1.0, 0.0] }), RT::new([1, 1, 2], if i % 2 == 0 { vec![1.0, 0.0] } else { vec![0.0, 1.0] })],
                    bs: vec![[1.0, -1.0][i % 2], 0.0],
                    input: [2, 1, 2],
                    stride: 1,
                },
                _ => Spec::Pool { input: [n + 2 - i, 1, 1], win: [2, 1], stride: 1 },
            };
            m.add(&s, i % 3 == 1)?;
        }
        life(c, &mut m)
    }
}
pub fn many(t: bool) -> Vec<usize> {
    if t { vec![65_537, 400_000] } else { vec![70_000] }
}
/// What is asked of a network of very many layers.
#[derive(Clone, Copy, PartialEq)]
pub enum Deep {
    Net(Aspect),
    File,
}
/// A layer of one element that adds `0 or 1` to a positive input, and how much.
fn tiny(kind: usize, i: usize) -> (Lib, f32) {
    let unit = RT::filled([1, 1, 1], 1.0);
    let s = match kind {
        0 => Spec::Fc { w: unit.clone(), b: unit.clone() },
        1 => Spec::Conv { ks: vec![unit.clone()], bs: vec![1.0], input: [1, 1, 1], stride: 1 },
        _ => Spec::Pool { input: [1, 1, 1], win: [1, 1], stride: 1 },
    };
    (Lib::build(&s, &format!("layer {}", i)).expect("harness: layer"), if kind < 2 { 1.0 } else { 0.0 })
}
/// Very many layers, in a thread with a stack of the usual size.
pub fn very_many(what: Deep, lens: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&lens);
        let kind = c.choose(4);
        c.log(|| format!("{} layers, {}", n, ["fully connected", "convolutional", "max pooling", "the three kinds in turn"][kind]));
        let p = if what == Deep::File { super::nets::path(c, "many") } else { String::new() };
        c.steps(4 * n as u64);
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || deep(what, n, kind, &p)).expect("harness: thread").join().unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|m| m.to_string()));
                Err(format!("{} layers: panicked: {}", n, m.unwrap_or_default()))
            })
        })
    }
}
fn deep(what: Deep, n: usize, kind: usize, p: &String) -> Result<(), String> {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut net = Network::new(train(true));
    let mut sums = vec![5.0f32];
    for i in 0..n {
        let (l, plus) = tiny(if kind == 3 { i % 3 } else { kind }, i);
        sums.push(sums[i] + plus);
        // the first layer of all is watched
        match (i, what) {
            (0, Deep::Net(_)) => net.add_layer(Wrap { id: 0, inner: l, log: log.clone() }),
            _ => l.add_to(&mut net),
        }
        .map_err(|e| format!("adding layer {} of {}: {}", i, n, e))?;
    }
    let one = |v: f32| lt(&RT::filled([1, 1, 1], v as f64));
    let states = |net: &Network, who: &str| -> Result<(), String> {
        for (i, v) in sums.iter().enumerate() {
            let x = net.get_intermediate_state(i).map_err(|e| format!("{} of {} layers: state {}: {}", who, n, i, e))?.get_item(&ix(0, 0, 0));
            need(x == *v, || format!("{} of {} layers: state {} is {}, should be {}", who, n, i, x, v))?;
        }
        let x = net.get_output().map_err(|e| format!("{} of {} layers: output: {}", who, n, e))?.get_item(&ix(0, 0, 0));
        need(x == sums[n], || format!("{} of {} layers: output {}, should be {}", who, n, x, sums[n]))
    };
    let modes = |net: &Network, t: bool| -> Result<(), String> {
        need(net.get_layers().len() == n, || format!("a network of {} layers has {}", n, net.get_layers().len()))?;
        for (i, l) in net.get_layers().iter().enumerate() {
            need(l.get_run_mode() == train(t), || format!("layer {} of {} is in mode {:?}, should be {:?}", i, n, l.get_run_mode(), train(t)))?;
        }
        Ok(())
    };
    net.infer(&one(5.0)).map_err(|e| format!("inference of {} layers: {}", n, e))?;
    match what {
        Deep::Net(Aspect::Infer) => {
            states(&net, "a network in training mode")?;
            net.switch_to_inference();
            net.infer(&one(4.0)).map_err(|e| e.to_string())?;
            net.infer(&one(5.0)).map_err(|e| e.to_string())?;
            states(&net, "a network in inference mode")
        }
        Deep::Net(Aspect::Backward) => {
            for g in [3.0, -2.0] {
                log.borrow_mut().clear();
                net.backward(&one(g)).map_err(|e| format!("backward through {} layers: {}", n, e))?;
                let l = log.borrow();
                need(l.len() == 1, || format!("backward through {} layers called the first one {} times", n, l.len()))?;
                for (w, x, v) in [("input", &l[0].input, 5.0), ("output", &l[0].output, sums[1]), ("incoming gradient", &l[0].incoming, g), ("outgoing gradient", &l[0].outgoing, g)] {
                    let x = x.get_item(&ix(0, 0, 0));
                    need(x == v, || format!("the first of {} layers: {} {}, should be {}", n, w, x, v))?;
                }
            }
            Ok(())
        }
        Deep::Net(Aspect::Lifecycle) => {
            modes(&net, true)?;
            net.switch_to_inference();
            modes(&net, false)?;
            need(net.backward(&one(1.0)).is_err(), || "backward in inference mode is accepted".into())?;
            net.switch_to_training();
            modes(&net, true)?;
            need(net.get_intermediate_state(n).is_ok() && net.get_intermediate_state(n + 1).is_err(), || format!("a network of {} layers has other states", n))?;
            need(Lib::build(&Spec::Soft { shape: [2, 1, 1] }, "x")?.add_to(&mut net).is_err(), || "a layer that does not fit is accepted".into())?;
            modes(&net, true)
        }
        Deep::File => {
            net.save_to_file(p).map_err(|e| format!("saving {} layers: {}", n, e))?;
            for t in [false, true] {
                let mut m = Network::new(train(t));
                m.load_from_file(p).map_err(|e| format!("loading {} layers: {}", n, e))?;
                modes(&m, t)?;
                for (i, l) in m.get_layers().iter().enumerate() {
                    need(l.get_name() == format!("layer {}", i), || format!("layer {} of {} is named {:?} after loading", i, n, l.get_name()))?;
                }
                m.infer(&one(5.0)).map_err(|e| e.to_string())?;
                states(&m, "a loaded network")?;
            }
            std::fs::remove_file(p).expect("harness: remove");
            Ok(())
        }
    }
}
/// An input and a gradient, then ones that resemble them, then the first again.
pub fn resembling(a: Aspect, len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let first = *c.pick(&[[3usize, 1, 1], [2, 2, 1], [3, 3, 2], [17, 1, 1], [4, 4, 3]]);
        let n = c.range(1, len);
        let mut specs = vec![];
        let mut d = first;
        for i in 0..n {
            let f = fitting(d, i as u64);
            let s = c.pick(&f).clone();
            d = s.out_dim();
            specs.push(s);
        }
        // half of the pairs for the longest networks
        let h = c.choose(RELATED);
        let g = if n < 3 { c.choose(RELATED) } else { (h * 5 + 3) % RELATED };
        let (h, g) = (h + 100, g + 100);
        c.log(|| format!("resembling input {}, gradient {}", h, g));
        let mut m = Net::new(a, true, h % 2 == 0);
        for (i, s) in specs.iter().enumerate() {
            c.log(|| s.describe());
            m.add(s, i % 2 == 1)?;
        }
        for op in [
            Op::Infer(0), Op::Backward(0), Op::Infer(h), Op::Backward(g), Op::Backward(0), Op::Infer(0), Op::Backward(g), Op::Infer(h), Op::Backward(0), Op::ToInference, Op::Infer(0),
            Op::Infer(h), Op::Infer(0), Op::Infer(h), Op::ToTraining, Op::Infer(h), Op::Backward(g), Op::Infer(0), Op::Backward(0),
        ] {
            m.apply(c, op)?;
            if m.stop {
                return Ok(());
            }
        }
        Ok(())
    }
}
/// Networks of layers of which several dimensions are large at once: up to two convolutions with pooling
/// between or after, then a convolution over all columns, then fully connected layers and softmax.
fn large_stack(c: &mut Ctx, t: bool) -> Vec<Spec> {
    let mut d = *c.pick(&[[32usize, 32, 1], [28, 28, 3], [33, 65, 2], [64, 33, 4], [65, 65, 1], [17, 16, 17], [16, 100, 3]]);
    let mut v: Vec<Spec> = vec![];
    let (budget, most) = if t { (1_000_000, 3) } else { (300_000, 2) };
    let conv = |d: Dim, ker: [usize; 2], n: usize, stride: usize, salt: u64| -> Option<Spec> {
        if !fits([d[0], d[1]], ker, stride) {
            return None;
        }
        let o = windows([d[0], d[1]], ker, stride);
        if o[0] * o[1] * n * ker[0] * ker[1] * d[2] > budget {
            return None;
        }
        Some(Spec::Conv { ks: (0..n).map(|q| dense([ker[0], ker[1], d[2]], salt + 10 * q as u64, -1, 1)).collect(), bs: (0..n).map(|q| [1.0, -1.0, 0.0][q % 3]).collect(), input: d, stride })
    };
    for i in 0..most {
        let mut menu = vec![];
        for (ker, n, stride) in [([3, 3], 4, 1), ([5, 5], 3, 1), ([1, 1], 17, 1), ([2, 2], 8, 2), ([8, 8], 2, 1), ([16, 16], 4, 1), ([4, 1], 2, 4)] {
            menu.extend(conv(d, ker, n, stride, 40 + i));
        }
        for (win, stride) in [([2, 2], 2), ([3, 3], 1), ([2, 2], 1), ([8, 8], 8), ([16, 1], 1)] {
            if fits([d[0], d[1]], win, stride) {
                menu.push(Spec::Pool { input: d, win, stride });
            }
        }
        let p = c.choose(menu.len() + 1);
        if p == menu.len() {
            break;
        }
        d = menu[p].out_dim();
        v.push(menu[p].clone());
    }
    match c.choose(3) {
        0 => {
            if let Some(s) = conv(d, [1, d[1]], 4, 1, 77) {
                d = s.out_dim();
                v.push(s);
                v.push(Spec::Fc { w: dense([65, d[0], d[2]], 5, -1, 1), b: dense([65, 1, d[2]], 6, -1, 1) });
                v.push(Spec::Fc { w: dense([33, 65, d[2]], 7, -1, 1), b: dense([33, 1, d[2]], 8, -1, 1) });
                d = v.last().unwrap().out_dim();
                v.push(Spec::Soft { shape: d });
            }
        }
        1 => v.push(Spec::Soft { shape: d }),
        _ => {}
    }
    if v.is_empty() {
        v.push(Spec::Pool { input: d, win: [2, 2], stride: 1 });
    }
    v
}
pub fn large(a: Aspect, t: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let training = c.choose(2) == 1;
        let specs = large_stack(c, t);
        let mut m = Net::new(a, training, training);
        for (i, s) in specs.iter().enumerate() {
            c.log(|| s.describe());
            m.add(s, i % 2 == 1)?;
        }
        life(c, &mut m)
    }
}
pub fn drivers(a: Aspect, t: bool) -> Vec<Driver> {
    let mut ops = vec![Op::Add(0, false), Op::Add(3, true), Op::Infer(0), Op::Infer(1), Op::InferBad(0), Op::Backward(0), Op::Backward(1), Op::BackwardBad(2), Op::ToTraining, Op::ToInference];
    if a == Aspect::Lifecycle {
        ops.extend([Op::AddBad(0), Op::AddBad(4), Op::Add(1, true)]);
    }
    let mut more = ops.clone();
    more.extend([Op::Infer(3), Op::Backward(2), Op::Backward(3)]);
    let (no, nm) = (ops.len(), more.len());
    let core = vec![Op::Add(1, false), Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::ToTraining, Op::ToInference];
    let (ls, d1, d2, d3, d4) = if t { (6, 6, 9, 6, 8) } else { (5, if a == Aspect::Lifecycle { 5 } else { 6 }, 8, 4, 6) };
    let hot = vec![Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::Backward(1), Op::ToTraining, Op::ToInference, Op::BackwardBad(2)];
    let pres = vec![
        vec![Op::Add(0, false), Op::Add(0, false)],
        vec![Op::Add(1, false), Op::Add(3, false), Op::Add(0, true)],
        vec![Op::Add(3, true), Op::Add(2, false), Op::Add(0, false), Op::Add(1, false)],
        vec![Op::Add(5, false), Op::Add(4, false), Op::Infer(1), Op::Add(2, false), Op::Backward(0)],
    ];
    vec![
        Driver::new("all stacks", &format!("6 input shapes x every stack of up to {ls} layers from a menu of up to 7 fitting layers x both initial modes x names alike or not, a 36-call life each"), stacks(a, ls)),
        Driver::new("magnitudes", &format!("6 input shapes x every stack of up to {} layers x gradients, inputs (and biases) or both scaled by 2^±30, 2^±60, 2^±100, the same life", if t { 4 } else { 3 }), magnitudes(a, if t { 4 } else { 3 })),
        Driver::new("call histories from empty", &format!("both initial modes x names alike or not x every sequence of {d1} calls out of {no}, then probes"), history(a, ops.clone(), d1, vec![vec![]])),
        Driver::new("call histories from empty, deeper", &format!("both initial modes x names alike or not x every sequence of {d2} calls out of {}, then probes", core.len()), history(a, core, d2, vec![vec![]])),
        Driver::new("call histories of built networks", &format!("4 networks x both initial modes x names alike or not x every sequence of {d3} calls out of {nm}, then probes"), history(a, more, d3, pres.clone())),
        Driver::new("call histories of built networks, deeper", &format!("4 networks x both initial modes x names alike or not x every sequence of {d4} calls out of {}, then probes", hot.len()), history(a, hot, d4, pres)),
        Driver::new("repeated cycles", &format!("3 networks x every cycle of up to {} calls out of 8, {} repetitions", if t { 4 } else { 3 }, if t { 300 } else { 40 }), lasso(a, vec![Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::Backward(1), Op::ToTraining, Op::ToInference, Op::InferBad(0), Op::BackwardBad(2)], if t { 4 } else { 3 }, if t { 300 } else { 40 })),
        Driver::new("long repeated cycles", &format!("3 networks x every cycle of up to {} calls out of 5, {} repetitions", 3, if t { 2200 } else { 530 }), lasso(a, vec![Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::ToTraining, Op::BackwardBad(2)], 3, if t { 2200 } else { 530 })),
        Driver::new("very long repetition", &format!("3 networks x every {}, {} repetitions", if t { "cycle of up to 2 calls out of 2" } else { "one of 2 calls" }, if t { 140_000 } else { 66_000 }), lasso(a, vec![Op::Infer(1), Op::Backward(0)], if t { 2 } else { 1 }, if t { 140_000 } else { 66_000 })),
        Driver::new("resembling inputs and gradients", &format!("5 input shapes x every stack of up to {} layers x {RELATED} inputs resembling another one (negated, reversed, one element changed, elements exchanged, same sum, zeros, ...) x {RELATED} gradients likewise (1 for stacks of 3 or more), one after the other in both modes", if t { 4 } else { 3 }), resembling(a, if t { 4 } else { 3 })),
        Driver::new("large layers", &format!("7 images of 16..=100 per side x every stack of up to {} of 12 convolutions and pooling layers x 3 endings (columns, two fully connected layers and softmax; softmax; none), the same life", if t { 3 } else { 2 }), large(a, t)),
        Driver::new("long networks", "10..=257 layers of 3 patterns, names alike or not", long(a, if t { vec![10, 16, 17, 32, 33, 63, 64, 65, 128, 129, 255, 256, 257, 300] } else { vec![10, 17, 33, 65, 129, 257] })),
        Driver::new("very many layers", &format!("{:?} layers of one element, of one kind or of three in turn, in a thread with 2 MB of stack", many(t)), very_many(Deep::Net(a), many(t))),
    ]
}
