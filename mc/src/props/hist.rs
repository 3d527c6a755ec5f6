//! Shared by C09, C10 and C11: one layer, driven through call histories and compared with a model of
//! its state (parameters, mode, the training forward pass in effect, accumulated parameter gradients).
use super::c08::face;
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::tensor::Tensor;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Forward,
    Gradient,
    Params,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Forward(usize),
    ForwardBadInput(usize),
    ForwardBadOutput(usize),
    Backward(usize),
    BackwardBad(usize),
    Clear,
    ToTraining,
    ToInference,
    Serialize,
    RefillSame,
    RefillOther,
    RefillBad,
    /// the other configuration under the name the layer already has
    RefillOtherSameName,
    Load,
    LoadSameName,
    LoadWrongKind,
    /// fully connected only: all weights (biases) set to one value
    FillWeights(usize),
    FillBias(usize),
}
const FILLS: [f64; 3] = [0.0, 2.0, -1.0];

pub struct Model<'a> {
    pub a: Aspect,
    pub specs: [&'a Spec; 2],
    pub cur: usize,
    /// the configuration in effect
    pub now: Rc<Spec>,
    pub l: Lib,
    pub name: String,
    pub training: bool,
    /// input and library output of the training forward pass in effect
    pub cache: Option<(RT, Tensor)>,
    /// accumulated parameter gradients, None when unspecified
    pub acc: Option<Vec<RT>>,
    pub hist: Vec<Op>,
    /// set when something outside the property under test went wrong: stop quietly
    pub stop: bool,
}

pub fn input_of(s: &Spec, which: usize) -> RT {
    match which {
        100.. => related(&input_of(s, 0), which - 100),
        // distinct values make pooling windows free of ties; elsewhere sums have to stay exact
        0 | 1 if s.kind() != 2 && total(s.in_dim()) > 200 => dense(s.in_dim(), 90 + which as u64, -3, 3),
        0 => distinct(s.in_dim(), 11),
        1 => distinct(s.in_dim(), 29).map(|x| -2.0 * x + 1.0),
        _ => dense(s.in_dim(), which as u64, -3, 3),
    }
}
pub fn grad_of(s: &Spec, which: usize) -> RT {
    match which {
        100.. => related(&grad_of(s, 0), which - 100),
        0 => dense(s.out_dim(), 41, -3, 3),
        _ => dense(s.out_dim(), 59 + which as u64, 1, 4),
    }
}
fn wrong(d: Dim, how: usize) -> Dim {
    match how {
        0 => [d[0] + 1, d[1], d[2]],
        1 => [d[0], d[1] + 1, d[2]],
        2 => [d[0], d[1], d[2] + 1],
        3 => [d[1], d[0], d[2]],
        4 => [d[0] * d[1] * d[2], 1, 1],
        5 => [d[0].max(2) - 1, d[1], d[2]],
        6 => [d[0], d[1], d[2].max(2) - 1],
        _ => [d[0] * 2, d[1] * 2, d[2]],
    }
}
pub const WRONGS: usize = 8;

pub fn valid(s: &Spec) -> bool {
    match s {
        Spec::Conv { ks, bs, input, stride } => ks.len() == bs.len() && ks.iter().all(|k| k.d == ks[0].d && k.d[2] == input[2]) && fits([input[0], input[1]], [ks[0].d[0], ks[0].d[1]], *stride),
        Spec::Pool { input, win, stride } => fits([input[0], input[1]], *win, *stride),
        _ => true,
    }
}

impl<'a> Model<'a> {
    pub fn new(a: Aspect, specs: [&'a Spec; 2], training: bool) -> Result<Model<'a>, String> {
        assert!(specs.iter().all(|s| valid(s)), "invalid configuration");
        let mut l = Lib::empty(specs[0].kind());
        // a refused valid configuration belongs to C08
        let stop = l.fill(specs[0], "A").is_err();
        if training {
            l.l().switch_to_training();
        }
        let acc = if training { Some(specs[0].zero_param_grads()) } else { None };
        Ok(Model { a, specs, cur: 0, now: Rc::new(specs[0].clone()), l, name: "A".into(), training, cache: None, acc, hist: vec![], stop })
    }
    pub fn spec(&self) -> Rc<Spec> {
        self.now.clone()
    }
    fn swap(&mut self, other: bool) -> Rc<Spec> {
        if other {
            self.cur = 1 - self.cur;
        }
        self.now = Rc::new(self.specs[self.cur].clone());
        self.now.clone()
    }
    fn tol(&self) -> f64 {
        if self.spec().kind() == 3 {
            2e-6
        } else {
            0.0
        }
    }
    fn ctx(&self) -> String {
        format!("{} after {:?}", self.spec().describe(), self.hist)
    }
    fn reset(&mut self) {
        self.cache = None;
        self.acc = if self.training { Some(self.spec().zero_param_grads()) } else { None };
    }
    /// A failure of the given aspect: an error when it is the one under test, a quiet stop otherwise.
    fn fail(&mut self, a: Aspect, m: String) -> Result<(), String> {
        if self.a == a {
            return Err(m);
        }
        self.stop = true;
        Ok(())
    }
    pub fn apply(&mut self, c: &mut Ctx, op: Op) -> Result<(), String> {
        if self.stop {
            return Ok(());
        }
        self.hist.push(op);
        c.step();
        c.log(|| format!("{:?}", op));
        let s = self.spec();
        let s = &*s;
        match op {
            Op::Forward(w) => {
                let x = input_of(s, w);
                let mut o = lt(&RT::filled(s.out_dim(), 55.0));
                let tx = lt(&x);
                let r = self.l.l().forward(&tx, &mut o);
                let m = r
                    .map_err(|e| format!("forward refused: {}", e))
                    .and_then(|_| expect("forward output", &o, &s.forward(&x), self.tol()));
                c.observe(hash_t(&o));
                if let Err(e) = m {
                    let m = format!("{}: {}", self.ctx(), e);
                    return self.fail(Aspect::Forward, m);
                }
                if self.training {
                    self.cache = Some((x, o));
                }
            }
            Op::ForwardBadInput(h) | Op::ForwardBadOutput(h) => {
                let (mut di, mut do_) = (s.in_dim(), s.out_dim());
                if matches!(op, Op::ForwardBadInput(_)) {
                    di = wrong(di, h)
                } else {
                    do_ = wrong(do_, h)
                }
                if (di, do_) != (s.in_dim(), s.out_dim()) {
                    let r = self.l.l().forward(&lt(&RT::filled(di, 1.0)), &mut lt(&RT::filled(do_, 55.0)));
                    if r.is_ok() {
                        let m = format!("{}: forward from {:?} to {:?} reports success", self.ctx(), di, do_);
                        return self.fail(Aspect::Forward, m);
                    }
                }
            }
            Op::Backward(w) => {
                let g = grad_of(s, w);
                let mut og = lt(&RT::filled(s.in_dim(), 55.0));
                if !self.training {
                    let r = self.l.l().backward(&lt(&input_of(s, 0)), &lt(&RT::zeros(s.out_dim())), &lt(&g), &mut og);
                    if r.is_ok() {
                        let m = format!("{}: backward in inference mode reports success", self.ctx());
                        return self.fail(Aspect::Gradient, m);
                    }
                    return Ok(());
                }
                match self.cache.clone() {
                    None => {
                        // unspecified result, but no panic
                        let _ = self.l.l().backward(&lt(&input_of(s, 0)), &lt(&RT::zeros(s.out_dim())), &lt(&g), &mut og);
                        self.acc = None;
                    }
                    Some((x, o)) => {
                        let r = self.l.l().backward(&lt(&x), &o, &lt(&g), &mut og);
                        let want = s.vjp(&x, &g);
                        let tol = if s.kind() == 3 { 1e-5 } else { 0.0 };
                        let m = r.map_err(|e| format!("backward refused: {}", e)).and_then(|_| match &want {
                            Some(w) => expect("outgoing gradient", &og, w, tol),
                            None => s.pool_shares(&x, &g, &rd(&og), 1e-5),
                        });
                        c.observe(hash_t(&og));
                        if let Err(e) = m {
                            let refused = r.is_err();
                            let m = format!("{}: {}", self.ctx(), e);
                            // for the parameter gradients a wrong outgoing gradient is irrelevant, a refusal is not
                            if self.a != Aspect::Params || refused {
                                return self.fail(Aspect::Gradient, m);
                            }
                        }
                        if let Some(acc) = &mut self.acc {
                            for (p, q) in acc.iter_mut().zip(s.param_grads(&x, &g)) {
                                *p = p.zip(&q, |a, b| a + b);
                            }
                        }
                    }
                }
            }
            Op::BackwardBad(h) => {
                // wrong incoming (even) or outgoing (odd) gradient shape: no panic; parameter gradients
                // stay as they were if it is refused
                let (mut dg, mut do_) = (s.out_dim(), s.in_dim());
                if h % 2 == 0 {
                    dg = wrong(dg, h / 2)
                } else {
                    do_ = wrong(do_, h / 2)
                }
                if (dg, do_) != (s.out_dim(), s.in_dim()) {
                    let (x, o) = self.cache.clone().unwrap_or((input_of(s, 0), lt(&RT::zeros(s.out_dim()))));
                    let r = self.l.l().backward(&lt(&x), &o, &lt(&RT::filled(dg, 1.0)), &mut lt(&RT::filled(do_, 55.0)));
                    if r.is_ok() {
                        // accepting it is not covered by the statement: stop here
                        self.stop = true;
                        return Ok(());
                    }
                }
            }
            Op::Clear => {
                self.l.l().clear_gradients();
                if self.training {
                    self.acc = Some(s.zero_param_grads());
                }
            }
            Op::ToTraining => {
                self.l.l().switch_to_training();
                self.training = true;
                self.reset();
            }
            Op::ToInference => {
                self.l.l().switch_to_inference();
                self.training = false;
                self.reset();
            }
            Op::Serialize => {
                // what is only looked at does not change; no layer applies its gradients to its parameters yet
                let _ = codec::of_serialized(&self.l.lr().get_serialized());
                let _ = (self.l.lr().get_name(), self.l.lr().get_run_mode(), self.l.lr().get_input_shape());
                self.l.l().apply_gradients();
            }
            Op::RefillSame | Op::RefillOther | Op::RefillOtherSameName => {
                let s = self.swap(op != Op::RefillSame);
                if op != Op::RefillOtherSameName {
                    self.name = format!("{}'", &self.name[..1]);
                }
                let name = self.name.clone();
                if let Err(e) = self.l.fill(&s, &name) {
                    let _ = e;
                    self.stop = true;
                    return Ok(());
                }
                self.reset();
            }
            Op::RefillBad => {
                if let Some((what, r)) = bad_refill(&mut self.l) {
                    if r.is_ok() {
                        let _ = what;
                        self.stop = true;
                    }
                }
            }
            Op::Load | Op::LoadSameName => {
                let s = self.swap(true);
                if op == Op::Load {
                    self.name = "L".into();
                }
                let (k, f) = codec::layer_fields(&s, &self.name);
                let ser = codec::to_serialized(k, &f);
                if let Err(e) = self.l.l().load_from_serialized(&ser) {
                    let _ = e;
                    self.stop = true;
                    return Ok(());
                }
                self.reset();
            }
            Op::FillWeights(q) | Op::FillBias(q) => {
                if let (Lib::Fc(l), Spec::Fc { w, b }) = (&mut self.l, s) {
                    let (mut w, mut b) = (w.clone(), b.clone());
                    if matches!(op, Op::FillWeights(_)) {
                        l.fill_weights_with_value(FILLS[q] as f32);
                        w = RT::filled(w.d, FILLS[q]);
                    } else {
                        l.fill_bias_with_value(FILLS[q] as f32);
                        b = RT::filled(b.d, FILLS[q]);
                    }
                    self.now = Rc::new(Spec::Fc { w, b });
                    // a backward pass now has no forward pass of this function
                    self.cache = None;
                }
            }
            Op::LoadWrongKind => {
                let other = if s.kind() == 3 { Spec::Fc { w: RT::filled([1, 1, 1], 1.0), b: RT::zeros([1, 1, 1]) } } else { Spec::Soft { shape: [2, 1, 1] } };
                let (k, f) = codec::layer_fields(&other, "W");
                if self.l.l().load_from_serialized(&codec::to_serialized(k, &f)).is_ok() {
                    self.stop = true;
                }
            }
        }
        if self.stop {
            return Ok(());
        }
        if self.a == Aspect::Params && self.training {
            if let Some(acc) = &self.acc {
                let got = self.l.params().ok_or("HARNESS: built without --cfg rn_mc")?;
                need(got.len() == acc.len(), || format!("{}: {} parameter gradients, should be {}", self.ctx(), got.len(), acc.len()))?;
                for (p, (g, w)) in got.iter().zip(acc).enumerate() {
                    if !same(g, w, 0.0) {
                        return Err(format!("{}: parameter gradient {} is {:?}{:?}, should be {:?}{:?}", self.ctx(), p, g.d, short(&g.v), w.d, short(&w.v)));
                    }
                    c.observe(hash_rt(g));
                }
            }
        }
        Ok(())
    }
    pub fn check_face(&self) -> Result<(), String> {
        let s = self.spec();
        let l = self.l.lr();
        need(l.get_run_mode() == train(self.training), || format!("{}: run mode {:?}", self.ctx(), l.get_run_mode()))?;
        need(dim(&l.get_input_shape()) == s.in_dim() && dim(&l.get_output_shape()) == s.out_dim(), || format!("{}: {}", self.ctx(), face(l)))
    }
}
fn bad_refill(l: &mut Lib) -> Option<(String, Result<(), &'static str>)> {
    let t = |d: Dim| lt(&RT::filled(d, 9.0));
    let nm = "bad".to_string();
    Some(match l {
        Lib::Conv(x) => ("kernel larger than input".into(), x.fill_from_state(vec![t([3, 3, 1])], vec![t([1, 1, 1])], shape([2, 2, 1]), 1, &nm)),
        Lib::Fc(x) => ("bias of another size".into(), x.fill_from_state(t([2, 3, 1]), t([3, 1, 1]), &nm)),
        Lib::Pool(x) => ("stride does not divide".into(), x.fill_from_state(shape([4, 3, 1]), shape([2, 2, 1]), 2, &nm)),
        Lib::Soft(_) => return None,
    })
}

/// Pairs of configurations of one kind with different shapes.
pub fn pairs() -> Vec<[Spec; 2]> {
    let conv = |ker: Dim, n: usize, input: Dim, stride: usize, salt: u64| Spec::Conv {
        ks: (0..n).map(|q| dense(ker, salt + q as u64, -2, 2)).collect(),
        bs: (0..n).map(|q| [1.0, -2.0, 0.0][q % 3]).collect(),
        input,
        stride,
    };
    vec![
        [
            Spec::Fc { w: dense([2, 3, 1], 1, -2, 2), b: dense([2, 1, 1], 2, -1, 1) },
            Spec::Fc { w: dense([3, 2, 1], 3, -2, 2), b: dense([3, 1, 1], 4, -1, 1) },
        ],
        [
            Spec::Fc { w: dense([2, 2, 2], 5, -2, 2), b: dense([2, 1, 2], 6, -1, 1) },
            Spec::Fc { w: dense([2, 2, 1], 7, -2, 2), b: dense([2, 1, 1], 8, -1, 1) },
        ],
        [conv([2, 2, 1], 2, [3, 3, 1], 1, 20), conv([1, 1, 1], 1, [2, 3, 1], 1, 30)],
        [conv([2, 1, 2], 2, [4, 3, 2], 2, 40), conv([2, 1, 2], 3, [3, 3, 2], 1, 50)],
        [Spec::Pool { input: [4, 4, 1], win: [2, 2], stride: 2 }, Spec::Pool { input: [3, 3, 2], win: [2, 2], stride: 1 }],
        [Spec::Pool { input: [3, 2, 2], win: [2, 1], stride: 1 }, Spec::Pool { input: [2, 3, 2], win: [1, 2], stride: 1 }],
        [Spec::Soft { shape: [3, 1, 1] }, Spec::Soft { shape: [2, 1, 1] }],
        [Spec::Soft { shape: [2, 1, 2] }, Spec::Soft { shape: [2, 2, 1] }],
    ]
}
pub const ALL: [Op; 17] = [
    Op::Forward(0), Op::Forward(1), Op::Backward(0), Op::Backward(1), Op::Clear, Op::ToTraining, Op::ToInference,
    Op::Serialize, Op::RefillSame, Op::RefillOther, Op::RefillBad, Op::Load, Op::LoadWrongKind,
    Op::ForwardBadInput(0), Op::ForwardBadOutput(1), Op::BackwardBad(0), Op::BackwardBad(1),
];
pub const CORE: [Op; 8] = [
    Op::Forward(0), Op::Forward(1), Op::Backward(0), Op::Backward(1), Op::Clear, Op::ToTraining, Op::ToInference, Op::RefillOther,
];
pub fn history(a: Aspect, ops: Vec<Op>, depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    history_of(a, ops, depth, move |s| a != Aspect::Params || s.kind() < 2)
}
pub fn history_of(a: Aspect, ops: Vec<Op>, depth: usize, which: impl Fn(&Spec) -> bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let pairs: Vec<[Spec; 2]> = pairs().into_iter().filter(|p| which(&p[0])).collect();
    move |c| {
        let p = c.pick(&pairs);
        let training = c.choose(2) == 1;
        c.log(|| format!("{} (other: {}), training={}", p[0].describe(), p[1].describe(), training));
        let mut m = Model::new(a, [&p[0], &p[1]], training)?;
        for _ in 0..depth {
            let op = *c.pick(&ops);
            m.apply(c, op)?;
            if m.stop {
                return Ok(());
            }
        }
        // whatever happened, the layer still does its job: final probes
        probe(c, &mut m)
    }
}
/// After any history: forward, then (training) forward-backward; the checked aspect must hold.
pub fn probe(c: &mut Ctx, m: &mut Model) -> Result<(), String> {
    let ops: &[Op] = if m.cache.is_some() { &[Op::Backward(1), Op::Forward(1), Op::Backward(0)] } else { &[Op::Forward(1), Op::Backward(0)] };
    for op in ops {
        m.apply(c, *op)?;
        if m.stop {
            return Ok(());
        }
    }
    if m.a == Aspect::Forward {
        m.check_face()?;
    }
    Ok(())
}
/// Configurations of one kind that differ in one respect each: values, a stride, a size, an arrangement.
pub fn family(kind: usize) -> Vec<Spec> {
    let conv = |ker: Dim, n: usize, input: Dim, stride: usize, salt: u64| Spec::Conv {
        ks: (0..n).map(|q| dense(ker, salt + q as u64, -2, 2)).collect(),
        bs: (0..n).map(|q| [1.0, -2.0, 0.0][(q + salt as usize) % 3]).collect(),
        input,
        stride,
    };
    let fc = |o: usize, i: usize, k: usize, salt: u64| Spec::Fc { w: dense([o, i, k], salt, -2, 2), b: dense([o, 1, k], salt + 1, -1, 1) };
    let pool = |input: Dim, win: [usize; 2], stride: usize| Spec::Pool { input, win, stride };
    match kind {
        0 => vec![
            conv([1, 1, 1], 1, [3, 3, 1], 1, 10), conv([1, 1, 1], 1, [3, 3, 1], 1, 11), conv([1, 1, 1], 1, [3, 3, 1], 2, 10), conv([1, 1, 1], 2, [3, 3, 1], 1, 10),
            conv([2, 2, 1], 1, [3, 3, 1], 1, 12), conv([3, 1, 1], 1, [3, 3, 1], 1, 13), conv([1, 3, 1], 1, [3, 3, 1], 1, 14), conv([1, 1, 2], 1, [3, 3, 2], 1, 15),
            conv([1, 1, 1], 1, [9, 1, 1], 1, 10), conv([1, 1, 1], 1, [9, 1, 1], 4, 10), conv([2, 2, 1], 3, [4, 2, 1], 2, 16), conv([2, 2, 1], 3, [2, 4, 1], 2, 16),
        ],
        1 => vec![fc(2, 3, 1, 1), fc(2, 3, 1, 2), fc(3, 2, 1, 3), fc(6, 1, 1, 4), fc(1, 6, 1, 5), fc(2, 3, 2, 6), fc(2, 2, 1, 7), fc(3, 3, 1, 8), fc(1, 1, 1, 9), fc(1, 1, 6, 9)],
        2 => vec![
            pool([4, 4, 1], [2, 2], 1), pool([4, 4, 1], [2, 2], 2), pool([4, 4, 1], [1, 1], 1), pool([4, 4, 1], [1, 1], 3), pool([4, 4, 1], [4, 4], 1), pool([4, 4, 1], [4, 4], 7),
            pool([4, 4, 1], [2, 1], 1), pool([4, 4, 1], [1, 2], 1), pool([2, 8, 1], [2, 2], 2), pool([8, 2, 1], [2, 2], 2), pool([4, 4, 2], [2, 2], 2), pool([3, 3, 1], [2, 2], 1),
        ],
        _ => [[4, 1, 1], [1, 4, 1], [1, 1, 4], [2, 2, 1], [2, 1, 2], [3, 1, 1], [1, 1, 1]].iter().map(|d| Spec::Soft { shape: *d }).collect(),
    }
}
/// An input and a gradient, then ones that resemble them, then the first again.
pub fn resembling(a: Aspect) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let conv = |ker: Dim, n: usize, input: Dim, stride: usize| Spec::Conv { ks: (0..n).map(|q| dense(ker, 20 + q as u64, -2, 2)).collect(), bs: (0..n).map(|q| [1.0, -2.0, 0.0][q % 3]).collect(), input, stride };
    let mut specs: Vec<Spec> = pairs().into_iter().flatten().chain((0..4).flat_map(family)).collect();
    specs.extend([
        Spec::Fc { w: dense([65, 33, 1], 1, -2, 2), b: dense([65, 1, 1], 2, -1, 1) },
        Spec::Fc { w: dense([16, 64, 2], 1, -2, 2), b: dense([16, 1, 2], 2, -1, 1) },
        conv([3, 3, 2], 4, [9, 8, 2], 1),
        conv([2, 2, 1], 17, [8, 10, 1], 2),
        Spec::Pool { input: [9, 9, 2], win: [3, 3], stride: 3 },
        Spec::Pool { input: [16, 8, 1], win: [2, 2], stride: 2 },
        Spec::Soft { shape: [65, 1, 1] },
        Spec::Soft { shape: [8, 8, 2] },
    ]);
    specs.retain(|s| a != Aspect::Params || s.kind() < 2);
    move |c| {
        let s = c.pick(&specs);
        let h = 100 + c.choose(RELATED);
        let g = match c.choose(RELATED + 1) {
            0 => 0,
            q => 99 + q,
        };
        let clear = c.choose(4);
        c.log(|| format!("{}; resembling input {}, gradient {}", s.describe(), h, g));
        let mut m = Model::new(a, [s, s], true)?;
        let mut ops = vec![Op::Forward(0), Op::Backward(0)];
        match clear {
            0 => ops.extend([Op::Backward(g), Op::Forward(h), Op::Backward(0), Op::Backward(g)]),
            1 => ops.extend([Op::Forward(h), Op::Backward(g), Op::Clear, Op::Backward(0)]),
            2 => ops.extend([Op::Backward(g), Op::Clear, Op::Forward(h), Op::Backward(g), Op::Clear]),
            _ => ops = vec![Op::Forward(h), Op::Forward(0), Op::Backward(g), Op::Backward(0), Op::Forward(h), Op::Backward(g), Op::Forward(h), Op::Backward(0)],
        }
        ops.extend([Op::Forward(0), Op::Backward(g), Op::Clear, Op::ToInference, Op::Forward(0), Op::Forward(h), Op::Forward(0), Op::ToTraining, Op::Forward(h), Op::Backward(g)]);
        for op in ops {
            m.apply(c, op)?;
            if m.stop {
                return Ok(());
            }
        }
        Ok(())
    }
}
/// From every configuration of a family to every other one, in the middle of use.
pub fn reconfigure(a: Aspect, kinds: Vec<usize>, len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let fams: Vec<Vec<Spec>> = kinds.into_iter().map(family).collect();
    let ops = [Op::Forward(0), Op::Backward(0), Op::ToTraining, Op::ToInference];
    move |c| {
        let f = c.pick(&fams);
        let (x, y) = (c.pick(f), c.pick(f));
        let training = c.choose(2) == 1;
        let how = *c.pick(&[Op::RefillOther, Op::RefillOtherSameName, Op::Load, Op::LoadSameName]);
        c.log(|| format!("{} then {}, training={}", x.describe(), y.describe(), training));
        let mut m = Model::new(a, [x, y], training)?;
        for part in 0..2 {
            for _ in 0..c.range(0, len) {
                let op = *c.pick(&ops);
                m.apply(c, op)?;
            }
            if part == 0 {
                m.apply(c, how)?;
            }
            if m.stop {
                return Ok(());
            }
        }
        probe(c, &mut m)
    }
}
/// Every cycle of up to `len` operations, repeated many times.
pub fn lasso(a: Aspect, ops: Vec<Op>, len: usize, reps: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let pairs: Vec<[Spec; 2]> = pairs().into_iter().filter(|p| a != Aspect::Params || p[0].kind() < 2).collect();
    move |c| {
        let p = c.pick(&pairs);
        let n = c.range(1, len);
        let cyc: Vec<Op> = (0..n).map(|_| *c.pick(&ops)).collect();
        c.log(|| format!("{} training, {} times {:?}", p[0].describe(), reps, cyc));
        let mut m = Model::new(a, [&p[0], &p[1]], true)?;
        m.apply(c, Op::Forward(0))?;
        for r in 0..reps {
            for op in &cyc {
                m.hist.clear();
                if m.stop {
                    return Ok(());
                }
                m.apply(c, *op).map_err(|e| format!("repetition {} of {:?}: {}", r, cyc, e))?;
            }
        }
        if m.stop {
            return Ok(());
        }
        probe(c, &mut m)
    }
}

/// All small geometries of every kind with dense values.
pub fn geometries(c: &mut Ctx, big: bool) -> Spec {
    let m = if big { 6 } else { 4 };
    match c.choose(4) {
        0 => {
            let w = [c.range(1, m), c.range(1, m), c.range(1, 3)];
            Spec::Fc { w: dense(w, 3, -3, 3), b: dense([w[0], 1, w[2]], 4, -3, 3) }
        }
        1 => {
            let (img, ker, stride) = super::c04::geometry(c, m + 1, 3, if big { 3 } else { 2 });
            let n = c.range(1, 3);
            Spec::Conv { ks: (0..n).map(|q| dense(ker, 70 + q as u64, -3, 3)).collect(), bs: (0..n).map(|q| [0.0, 1.0, -2.0][q % 3]).collect(), input: img, stride }
        }
        2 => {
            let (img, ker, stride) = super::c04::geometry(c, m + 1, 4, 3);
            Spec::Pool { input: img, win: [ker[0], ker[1]], stride }
        }
        _ => Spec::Soft { shape: [c.range(1, m), c.range(1, m), c.range(1, m)] },
    }
}
pub fn boundary_specs() -> Vec<Spec> {
    let mut v = vec![];
    for e in [9usize, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257] {
        v.push(Spec::Fc { w: dense([e, 3, 1], 3, -3, 3), b: dense([e, 1, 1], 4, -3, 3) });
        v.push(Spec::Fc { w: dense([3, e, 1], 3, -3, 3), b: dense([3, 1, 1], 4, -3, 3) });
        v.push(Spec::Fc { w: dense([2, 3, e], 3, -3, 3), b: dense([2, 1, e], 4, -3, 3) });
        v.push(Spec::Soft { shape: [e, 1, 1] });
        v.push(Spec::Soft { shape: [1, e, 2] });
    }
    v.push(Spec::Soft { shape: [17, 16, 1] });
    v.push(Spec::Fc { w: dense([257, 258, 1], 3, -3, 3), b: dense([257, 1, 1], 4, -3, 3) });
    for (img, ker, stride, n) in super::c04::boundary_list() {
        if total(img) * n < 70000 && total(ker) * n < 70000 {
            v.push(Spec::Conv { ks: (0..n).map(|q| dense(ker, 70 + q as u64, -2, 2)).collect(), bs: (0..n).map(|q| [0.0, 1.0, -2.0][q % 3]).collect(), input: img, stride });
        }
        if total(img) < 70000 {
            v.push(Spec::Pool { input: img, win: [ker[0], ker[1]], stride });
        }
    }
    v
}
/// Layers of which several dimensions are large at once.
pub fn big_specs(budget: usize) -> Vec<Spec> {
    let mut v = vec![];
    for (m, k, n, d) in super::big::matrices(budget) {
        // two dimensions and a depth
        if n == 1 {
            v.push(Spec::Fc { w: dense([m, k, d], 3, -3, 3), b: dense([m, 1, d], 4, -3, 3) });
        }
    }
    for (img, ker, stride, n) in super::big::planes(budget) {
        if n > 1 {
            v.push(Spec::Conv { ks: (0..n).map(|q| dense(ker, 70 + q as u64, -2, 2)).collect(), bs: (0..n).map(|q| [0.0, 1.0, -2.0][q % 3]).collect(), input: img, stride });
        } else {
            v.push(Spec::Pool { input: img, win: [ker[0], ker[1]], stride });
        }
    }
    v.extend(super::big::shapes(budget / 8).into_iter().map(|shape| Spec::Soft { shape }));
    v
}
/// A fixed little life of a layer: inference, training, double backward, clear, next input, inference again.
pub const LIFE: [Op; 14] = [
    Op::Forward(0), Op::ToTraining, Op::Forward(0), Op::Backward(0), Op::Backward(1), Op::Clear, Op::Backward(0), Op::Forward(1),
    Op::Backward(1), Op::Forward(2), Op::Backward(0), Op::ToInference, Op::Forward(1), Op::Backward(0),
];
pub fn life(c: &mut Ctx, a: Aspect, s: &Spec) -> Result<(), String> {
    c.log(|| s.describe());
    let mut m = Model::new(a, [s, s], false)?;
    for op in LIFE {
        m.apply(c, op)?;
        if m.stop {
            return Ok(());
        }
    }
    if a == Aspect::Forward {
        for t in [Op::ToInference, Op::ToTraining] {
            m.apply(c, t)?;
            for h in 0..WRONGS {
                m.apply(c, Op::ForwardBadInput(h))?;
                m.apply(c, Op::ForwardBadOutput(h))?;
            }
            m.apply(c, Op::Forward(1))?;
        }
    } else {
        m.apply(c, Op::ToTraining)?;
        m.apply(c, Op::Forward(1))?;
        for h in 0..2 * WRONGS {
            m.apply(c, Op::BackwardBad(h))?;
        }
        if !m.stop {
            m.apply(c, Op::Backward(1))?;
        }
    }
    Ok(())
}
pub fn all_geometries(a: Aspect, big: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let s = geometries(c, big);
        if a == Aspect::Params && s.kind() >= 2 {
            return Ok(());
        }
        life(c, a, &s)
    }
}
pub fn boundary(a: Aspect, specs: Vec<Spec>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let v: Vec<Spec> = specs.into_iter().filter(|s| a != Aspect::Params || s.kind() < 2).collect();
    move |c| {
        let s = c.pick(&v);
        life(c, a, s)
    }
}

/// Every assignment of a small alphabet to the parameters, the input and the incoming gradient.
pub fn values(a: Aspect, big: bool) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let z = |d: Dim| RT::zeros(d);
    let conv = |ker: Dim, n: usize, input: Dim, stride: usize| Spec::Conv { ks: vec![z(ker); n], bs: vec![0.0; n], input, stride };
    let fc = |o: usize, i: usize, k: usize| Spec::Fc { w: z([o, i, k]), b: z([o, 1, k]) };
    let mut v = vec![
        fc(1, 1, 1), fc(2, 1, 1), fc(1, 2, 1), fc(1, 3, 1),
        conv([1, 1, 1], 1, [1, 1, 1], 1), conv([1, 1, 1], 1, [2, 1, 1], 1), conv([2, 1, 1], 1, [2, 1, 1], 1), conv([1, 1, 1], 2, [1, 1, 1], 1),
        conv([1, 1, 1], 1, [1, 2, 1], 1), conv([1, 1, 2], 1, [1, 1, 2], 1),
    ];
    if a != Aspect::Params {
        v.extend([
            Spec::Pool { input: [2, 1, 1], win: [2, 1], stride: 1 },
            Spec::Pool { input: [3, 1, 1], win: [2, 1], stride: 1 },
            Spec::Pool { input: [2, 2, 1], win: [2, 2], stride: 1 },
            Spec::Pool { input: [2, 2, 2], win: [2, 2], stride: 3 },
            Spec::Soft { shape: [2, 1, 1] },
            Spec::Soft { shape: [1, 3, 1] },
        ]);
    }
    if big {
        v.extend([fc(2, 2, 1), fc(1, 1, 2), conv([2, 1, 1], 1, [3, 1, 1], 1), conv([1, 1, 1], 2, [2, 1, 1], 1)]);
    }
    let alpha = [-1.0, 0.0, 2.0];
    move |c| {
        let mut s = c.pick(&v).clone();
        let any = |c: &mut Ctx, r: &mut RT| {
            for x in r.v.iter_mut() {
                *x = *c.pick(&alpha);
            }
        };
        match &mut s {
            Spec::Fc { w, b } => {
                any(c, w);
                any(c, b);
            }
            Spec::Conv { ks, bs, .. } => {
                for k in ks.iter_mut() {
                    any(c, k);
                }
                for b in bs.iter_mut() {
                    *b = *c.pick(&alpha);
                }
            }
            _ => {}
        }
        let mut x = RT::zeros(s.in_dim());
        any(c, &mut x);
        c.log(|| format!("{} input {:?}", s.describe(), x.v));
        let tol = if s.kind() == 3 { 2e-6 } else { 0.0 };
        let mut l = Lib::empty(s.kind());
        if l.fill(&s, "v").is_err() {
            return Ok(());
        }
        for t in [false, true] {
            if t {
                l.l().switch_to_training();
            }
            let mut o = lt(&RT::filled(s.out_dim(), 55.0));
            let r = l.l().forward(&lt(&x), &mut o);
            c.step();
            if a == Aspect::Forward {
                r.map_err(|e| format!("{}: forward refused: {}", s.describe(), e))?;
                expect_with(|| format!("{} of {:?}, training={}", s.describe(), x.v, t), &o, &s.forward(&x), tol)?;
                c.observe(hash_t(&o));
            } else if t {
                let mut sum = s.zero_param_grads();
                // gradients span the space; the accumulated sum of all of them is checked as well
                let n = total(s.out_dim());
                let mut gs: Vec<RT> = (0..n).map(|p| basis(s.out_dim(), p)).collect();
                gs.push(RT::filled(s.out_dim(), -3.0));
                gs.push(dense(s.out_dim(), 12, -2, 2));
                for g in gs {
                    let mut og = lt(&RT::filled(s.in_dim(), 55.0));
                    let r = l.l().backward(&lt(&x), &o, &lt(&g), &mut og);
                    c.step();
                    c.observe(hash_t(&og));
                    if a == Aspect::Gradient {
                        r.map_err(|e| format!("{}: backward refused: {}", s.describe(), e))?;
                        match s.vjp(&x, &g) {
                            Some(w) => expect_with(|| format!("{} at {:?}: outgoing gradient for {:?}", s.describe(), x.v, g.v), &og, &w, tol * 5.0)?,
                            None => s.pool_shares(&x, &g, &rd(&og), 1e-5)?,
                        }
                    } else {
                        if r.is_err() {
                            return Ok(());
                        }
                        let got = l.params().ok_or("HARNESS: built without --cfg rn_mc")?;
                        for (p, q) in sum.iter_mut().zip(s.param_grads(&x, &g)) {
                            *p = p.zip(&q, |a, b| a + b);
                        }
                        for (p, (g1, w)) in got.iter().zip(&sum).enumerate() {
                            need(same(g1, w, 0.0), || format!("{} at {:?}, gradient {:?}: parameter gradient {} is {:?}, should be {:?}", s.describe(), x.v, g.v, p, short(&g1.v), short(&w.v)))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
/// Parameters, inputs and gradients of very different magnitudes, and with full mantissas.
pub fn magnitudes(a: Aspect) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let specs: Vec<Spec> = pairs().into_iter().flatten().chain((0..4).flat_map(family)).filter(|s| a != Aspect::Params || s.kind() < 2).collect();
    let e = [-100i32, -60, -30, 0, 30, 60, 100];
    let mut triples: Vec<(i32, i32, i32)> = vec![];
    for w in e {
        for x in e {
            for g in e {
                if [w + x, w + g, x + g].iter().all(|s| s.abs() <= 110) && (w, x, g) != (0, 0, 0) {
                    triples.push((w, x, g));
                }
            }
        }
    }
    move |c| {
        let s0 = c.pick(&specs).clone();
        let how = c.choose(triples.len() + 2);
        let is_rough = how >= triples.len();
        let (ew, ex, eg) = if is_rough { (0, 0, 0) } else { triples[how] };
        if s0.kind() >= 2 && ew != 0 {
            return Ok(());
        }
        let salt = (how + 1) as u64;
        // base configuration and operands; the library gets them scaled
        let (base, x, gs) = if is_rough {
            let b = match &s0 {
                Spec::Fc { w, b } => Spec::Fc { w: rough(w.d, salt), b: rough(b.d, salt + 1) },
                Spec::Conv { ks, bs, input, stride } => Spec::Conv {
                    ks: (0..ks.len()).map(|q| rough(ks[q].d, salt + q as u64)).collect(),
                    bs: rough([bs.len(), 1, 1], salt + 77).v,
                    input: *input,
                    stride: *stride,
                },
                o => o.clone(),
            };
            let (i, o) = (b.in_dim(), b.out_dim());
            (b, rough(i, salt + 30), [rough(o, salt + 40), rough(o, salt + 50)])
        } else {
            (s0.clone(), input_of(&s0, 0), [grad_of(&s0, 0), grad_of(&s0, 1)])
        };
        let (sw, sx, sg) = (pow2(ew), pow2(ex), pow2(eg));
        let scaled = match &base {
            Spec::Fc { w, b } => Spec::Fc { w: w.scaled(sw), b: b.scaled(sw * sx) },
            Spec::Conv { ks, bs, input, stride } => Spec::Conv { ks: ks.iter().map(|k| k.scaled(sw)).collect(), bs: bs.iter().map(|b| b * sw * sx).collect(), input: *input, stride: *stride },
            o => o.clone(),
        };
        c.log(|| format!("{}, parameters * 2^{}, input * 2^{}, gradient * 2^{}, full mantissas: {}", base.describe(), ew, ex, eg, is_rough));
        let soft = base.kind() == 3;
        let tol = if soft {
            1e-5
        } else if is_rough && base.kind() < 2 {
            rough_tol(total(base.in_dim()).max(total(base.out_dim())))
        } else {
            0.0
        };
        if tol > 0.0 && base.kind() < 2 && base.pre(&x).v.iter().any(|p| p.abs() < 10.0 * tol) {
            c.count("too close to a kink", 1);
            return Ok(());
        }
        let tx = lt(&x.scaled(sx));
        // softmax is not homogeneous: its own function at the scaled input
        let x = if soft { x.scaled(sx) } else { x };
        let so = if soft { 1.0 } else { 1.0 / (sw * sx) };
        let mut l = Lib::empty(base.kind());
        if l.fill(&scaled, "m").is_err() {
            return Ok(());
        }
        for training in [false, true] {
            if training {
                l.l().switch_to_training();
            }
            let mut o = lt(&RT::filled(base.out_dim(), 55.0));
            let r = l.l().forward(&tx, &mut o);
            c.step();
            if a == Aspect::Forward {
                r.map_err(|e| format!("{}: forward refused: {}", scaled.describe(), e))?;
                expect_rt(|| format!("{} at {:?}, output * {:e}", scaled.describe(), short(&x.scaled(sx).v), so), &rd(&o).scaled(so), &base.forward(&x), tol)?;
                c.observe(hash_t(&o));
                continue;
            }
            if !training {
                continue;
            }
            let mut acc = base.zero_param_grads();
            for g in &gs {
                let mut og = lt(&RT::filled(base.in_dim(), 55.0));
                let r = l.l().backward(&tx, &o, &lt(&g.scaled(sg)), &mut og);
                c.step();
                if a == Aspect::Gradient {
                    r.map_err(|e| format!("{}: backward refused: {}", scaled.describe(), e))?;
                    if let Some(w) = base.vjp(&x, g) {
                        let so = 1.0 / (sw * sg);
                        expect_rt(|| format!("{} at {:?}: outgoing gradient * {:e} for {:?}", scaled.describe(), short(&x.v), so, short(&g.v)), &rd(&og).scaled(so), &w, tol)?;
                    }
                    c.observe(hash_t(&og));
                } else {
                    if r.is_err() {
                        return Ok(());
                    }
                    let got = l.params().ok_or("HARNESS: built without --cfg rn_mc")?;
                    for (p, q) in acc.iter_mut().zip(base.param_grads(&x, g)) {
                        *p = p.zip(&q, |a, b| a + b);
                    }
                    let inputs = if base.kind() == 1 { 1 } else { acc.len() / 2 };
                    for (p, (g1, w)) in got.iter().zip(&acc).enumerate() {
                        let so = if p < inputs { 1.0 / (sx * sg) } else { 1.0 / sg };
                        expect_rt(|| format!("{} at {:?}: parameter gradient {} * {:e}", scaled.describe(), short(&x.v), p, so), &g1.scaled(so), w, 2.0 * tol)?;
                        c.observe(hash_rt(g1));
                    }
                }
            }
        }
        Ok(())
    }
}
/// Infinities, NaNs, subnormals and extremes in parameters and inputs: both modes give the same values, and the same
/// again. What the value is, is only demanded where it is not a NaN and no rounding can be meant differently.
pub fn special_values(c: &mut Ctx) -> Result<(), String> {
    let s = match c.choose(6) {
        0 => Spec::Fc { w: RT::zeros([1, 1, 1]), b: RT::zeros([1, 1, 1]) },
        1 => Spec::Fc { w: RT::zeros([2, 1, 1]), b: RT::zeros([2, 1, 1]) },
        2 => Spec::Conv { ks: vec![RT::zeros([1, 1, 1])], bs: vec![0.0], input: [2, 1, 1], stride: 1 },
        3 => Spec::Pool { input: [2, 1, 1], win: [2, 1], stride: 1 },
        4 => Spec::Pool { input: [1, 3, 1], win: [1, 2], stride: 1 },
        _ => Spec::Soft { shape: [1, 2, 1] },
    };
    let all = super::nets::SPECIAL;
    let np = match s.kind() {
        0 | 1 => 2,
        _ => 0,
    };
    let ps: Vec<u32> = (0..np).map(|_| *c.pick(&all)).collect();
    // repeated over the elements, where there are more
    let p: Vec<u32> = match &s {
        Spec::Fc { b, .. } => [vec![ps[0]; b.v.len()], vec![ps[1]; b.v.len()]].concat(),
        _ => ps.clone(),
    };
    let n = total(s.in_dim());
    let x: Vec<f32> = (0..n).map(|_| f32::from_bits(*c.pick(&all))).collect();
    c.log(|| format!("{} with parameters {:x?} at {:?}", s.describe(), ps, x));
    let mut tx = Tensor::new(shape(s.in_dim()));
    tx.fill_with_vec(x.clone()).map_err(|e| format!("HARNESS:{}", e))?;
    let mut l = if np > 0 { super::nets::lib_with_bits(&s, "layer", &p)? } else { Lib::build(&s, "layer")? };
    let mut seen: Option<Vec<f32>> = None;
    for mode in [false, true, true, false, true] {
        if mode {
            l.l().switch_to_training();
        } else {
            l.l().switch_to_inference();
        }
        let mut o = Tensor::new(shape(s.out_dim()));
        o.fill_with_value(7.0);
        l.l().forward(&tx, &mut o).map_err(|e| format!("{} with parameters {:x?} at {:?}: refused: {}", s.describe(), ps, x, e))?;
        c.step();
        let got: Vec<f32> = bits(&o).into_iter().map(f32::from_bits).collect();
        if let Some(w) = &seen {
            let same = w.iter().zip(&got).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
            need(same, || format!("{} with parameters {:x?} at {:?}: gives {:?} in one mode (or once), {:?} in the other (or again)", s.describe(), ps, x, w, got))?;
        }
        c.observe(hash_t(&o));
        seen = Some(got);
    }
    Ok(())
}
/// May values of this type be handed to another thread?
macro_rules! sendable {
    ($t:ty) => {{
        struct Asked<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Otherwise {
            const SEND: bool = false;
        }
        impl<T> Otherwise for Asked<T> {}
        impl<T: Send> Asked<T> {
            const SEND: bool = true;
        }
        Asked::<$t>::SEND
    }};
}
type Job = Box<dyn FnOnce() + 'static>;
struct Handed(Job);
unsafe impl Send for Handed {}
/// A second thread that makes a call when asked to, while the asking thread waits.
struct Second {
    jobs: std::sync::mpsc::Sender<Handed>,
    done: std::sync::mpsc::Receiver<std::thread::Result<()>>,
}
impl Second {
    fn new() -> Second {
        let (jobs, todo) = std::sync::mpsc::channel::<Handed>();
        let (tell, done) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .spawn(move || {
                while let Ok(j) = todo.recv() {
                    let j = j;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || (j.0)()));
                    if tell.send(r).is_err() {
                        return;
                    }
                }
            })
            .expect("harness: thread");
        Second { jobs, done }
    }
    fn run<R>(&self, f: impl FnOnce() -> R) -> R {
        let mut r = None;
        {
            let slot = &mut r;
            let job: Box<dyn FnOnce() + '_> = Box::new(move || *slot = Some(f()));
            // this thread waits below until the job is done, so what it borrows stays alive
            let job: Job = unsafe { std::mem::transmute(job) };
            self.jobs.send(Handed(job)).ok().expect("harness: second thread");
            if let Err(p) = self.done.recv().expect("harness: second thread") {
                std::panic::resume_unwind(p);
            }
        }
        r.expect("harness: result")
    }
}
/// Histories whose calls are made now on one thread, now on another.
fn threads(a: Aspect, depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    use rusty_network::layer::{convolutional::ConvolutionalLayer, fully_connected::FullyConnectedLayer, max_pool::MaxPoolLayer, softmax::SoftmaxLayer};
    let sendable = [sendable!(ConvolutionalLayer), sendable!(FullyConnectedLayer), sendable!(MaxPoolLayer), sendable!(SoftmaxLayer)];
    let tensors = sendable!(Tensor);
    let pairs: Vec<[Spec; 2]> = pairs().into_iter().filter(|p| a != Aspect::Params || p[0].kind() < 2).collect();
    let ops = [Op::Forward(0), Op::Forward(1), Op::Backward(0), Op::Clear, Op::ToTraining, Op::ToInference, Op::RefillOther];
    move |c| {
        let p = c.pick(&pairs);
        if !tensors || !sendable[p[0].kind()] {
            c.count("layers that must stay on one thread", 1);
            return Ok(());
        }
        let made_here = c.choose(2) == 0;
        let second = Second::new();
        c.log(|| format!("{}, made on the {} thread", p[0].describe(), if made_here { "first" } else { "second" }));
        let make = || Model::new(a, [&p[0], &p[1]], true);
        let mut m = if made_here { make()? } else { second.run(make)? };
        for _ in 0..depth {
            let op = *c.pick(&ops);
            let here = c.choose(2) == 0;
            c.log(|| format!("on the {} thread:", if here { "first" } else { "second" }));
            if here {
                m.apply(c, op)?
            } else {
                second.run(|| m.apply(c, op))?
            }
            if m.stop {
                return Ok(());
            }
        }
        second.run(|| probe(c, &mut m))?;
        if m.stop {
            return Ok(());
        }
        probe(c, &mut m)
    }
}
pub fn drivers(a: Aspect, t: bool) -> Vec<Driver> {
    let np = if a == Aspect::Params { 4 } else { 8 };
    let d1 = if t { 6 } else { 5 };
    let d2 = if t { 8 } else { 6 };
    let mut big = big_specs(if t { 1_000_000 } else { 60_000 });
    big.retain(|s| a != Aspect::Params || s.kind() < 2);
    let mut v = vec![
        Driver::new("value assignments", "every assignment of {-1,0,2} to parameters and input of tiny layers of every kind, spanning set of incoming gradients", values(a, t)),
        Driver::new("magnitudes", "57 configurations (23 for parameter gradients) x parameters, input and gradient scaled by every admissible triple of 2^{0,±30,±60,±100}, and 2 assignments with 24-bit mantissas", magnitudes(a)),
        Driver::new("parameters set to a value", &format!("2 fully connected pairs x both initial modes x every sequence of {} calls out of 13, then probes", if t { 6 } else { 5 }),
            history_of(a, vec![Op::FillWeights(0), Op::FillWeights(1), Op::FillBias(0), Op::FillBias(2), Op::Forward(0), Op::Backward(0), Op::Clear, Op::RefillSame, Op::RefillOther, Op::Load, Op::LoadSameName, Op::ToTraining, Op::ToInference], if t { 6 } else { 5 }, |s| s.kind() == 1)),
        Driver::new("all geometries", &format!("every fully connected, convolutional, pooling and softmax geometry up to {} per dimension, dense values, a 14-call life with both modes, repeated backward and clearing, {} wrong shapes", if t { 6 } else { 4 }, WRONGS), all_geometries(a, t)),
        Driver::new("boundary sizes", "layers with one size around 2^3..2^16, the same life", boundary(a, boundary_specs())),
        Driver::new("several large dimensions", &format!("{} layers of which 2 or more of image or input, kernel, window or output, depth, stride and channels are large together, the same life", big.len()), boundary(a, big)),
        Driver::new("call histories", &format!("{np} configurations x both initial modes x every sequence of {d1} calls out of {} kinds, then probes", ALL.len()), history(a, ALL.to_vec(), d1)),
        Driver::new("call histories, deeper", &format!("{np} configurations x both initial modes x every sequence of {d2} calls out of {} kinds, then probes", CORE.len()), history(a, CORE.to_vec(), d2)),
        Driver::new("reconfigurations", &format!("every ordered pair of up to 12 configurations of each kind that differ in single respects x both initial modes x refilled or loaded, under a new or the same name x up to {} calls before and after", if t { 3 } else { 2 }), reconfigure(a, if a == Aspect::Params { vec![0, 1] } else { vec![0, 1, 2, 3] }, if t { 3 } else { 2 })),
        Driver::new("resembling inputs and gradients", &format!("{} configurations x {RELATED} inputs resembling another one (negated, reversed, one element changed, elements exchanged, same sum, zeros, ...) x {} gradients likewise x 4 orders of calls in both modes", if a == Aspect::Params { 27 } else { 65 }, RELATED + 1), resembling(a)),
        Driver::new("repeated cycles", &format!("{np} configurations x every cycle of up to {} calls out of 9, repeated {} times", if t { 4 } else { 3 }, if t { 300 } else { 40 }),
            lasso(a, vec![Op::Forward(0), Op::Forward(1), Op::Backward(0), Op::Backward(1), Op::Clear, Op::ToTraining, Op::ToInference, Op::RefillSame, Op::Serialize], if t { 4 } else { 3 }, if t { 300 } else { 40 })),
        Driver::new("long repeated cycles", &format!("{np} configurations x every cycle of up to {} calls out of 5, repeated {} times", 3, if t { 2200 } else { 530 }),
            lasso(a, vec![Op::Forward(0), Op::Forward(1), Op::Backward(0), Op::Clear, Op::ToTraining], 3, if t { 2200 } else { 530 })),
        Driver::new("very long repetition", &format!("{np} configurations x every {}, repeated {} times", if t { "cycle of up to 2 calls out of 3" } else { "one of 2 calls" }, if t { 140_000 } else { 66_000 }),
            lasso(a, if t { vec![Op::Forward(1), Op::Backward(0), Op::Clear] } else { vec![Op::Forward(1), Op::Backward(0)] }, if t { 2 } else { 1 }, if t { 140_000 } else { 66_000 })),
    ];
    let dt = if t { 4 } else { 3 };
    v.push(Driver::new("on two threads", &format!("{np} configurations, made on either of two threads, x every sequence of {dt} calls out of 7, each made on either thread, then probes on both"), threads(a, dt)));
    if a == Aspect::Forward {
        v.push(Driver::new("special values", "6 tiny layers x every assignment of 14 special floats to parameters and inputs, 5 passes in both modes", special_values));
    }
    v
}
