//! C23: networks of caller-defined layers: any of their calls may fail, at any moment and having written
//! anything, and their functions and Jacobians are arbitrary.
use crate::engine::*;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

fn message(layer: usize) -> &'static str {
    static ALL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| (0..400).map(|i| &*Box::leak(format!("layer {} failed", i).into_boxed_str())).collect())[layer]
}

#[derive(Default)]
struct Script {
    /// (layer, backward?, having written?) to fail at next
    fail: Option<(usize, bool, bool)>,
    calls: Vec<Call>,
    /// other calls that change a layer
    switches: Vec<(usize, bool)>,
    meddling: Vec<(usize, &'static str)>,
    /// the gradient the last layer called backwards passed on
    gradient: Option<RT>,
}
struct Call {
    layer: usize,
    backward: bool,
    ins: Vec<RT>,
    out: RT,
}
/// y = A x + b on flattened tensors; gradient A^T g.
struct Linear {
    id: usize,
    i: Dim,
    o: Dim,
    mode: NetworkRunState,
    script: Rc<RefCell<Script>>,
    /// uses the library itself while it is called
    busy: bool,
}
/// A network made, used and dropped; is it right?
fn errand(training: bool) -> bool {
    let unit = RT::filled([1, 1, 1], 1.0);
    let go = || -> Result<bool, String> {
        let mut n = Network::new(train(training));
        Lib::build(&Spec::Fc { w: unit.clone(), b: unit.clone() }, "errand")?.add_to(&mut n)?;
        Lib::build(&Spec::Conv { ks: vec![RT::filled([1, 1, 1], 2.0)], bs: vec![1.0], input: [1, 1, 1], stride: 1 }, "errand")?.add_to(&mut n)?;
        Lib::build(&Spec::Pool { input: [1, 1, 1], win: [1, 1], stride: 1 }, "errand")?.add_to(&mut n)?;
        n.infer(&lt(&RT::filled([1, 1, 1], 3.0)))?;
        let y = n.get_output()?.get_item(&ix(0, 0, 0));
        let b = n.backward(&lt(&unit)).is_ok();
        let mut p = Tensor::new(shape([2, 1, 1]));
        Tensor::softmax(&Tensor::new(shape([2, 1, 1])), &mut p);
        Ok(y == 9.0 && b == training && p.get_item(&ix(1, 0, 0)) == 0.5)
    };
    go() == Ok(true)
}
fn entry(id: usize, row: usize, col: usize) -> f64 {
    if id >= LATE {
        // signed permutations, so that the numbers stay exact in long networks
        return if (row + id) % 2 == col { [1.0, -1.0, 1.0][id % 3] } else { 0.0 };
    }
    [1.0, -1.0, 0.0, 2.0, 1.0][(id + 2 * row + 3 * col) % 5]
}
/// from this layer on, all shapes have two elements
const LATE: usize = 4;
const PAIRS: [Dim; 3] = [[2, 1, 1], [1, 2, 1], [1, 1, 2]];
fn affine(id: usize, o: Dim, x: &RT) -> RT {
    RT::new(o, (0..total(o)).map(|r| x.v.iter().enumerate().map(|(q, v)| entry(id, r, q) * v).sum::<f64>() + (id + r) as f64 % 3.0 - 1.0).collect())
}
fn adjoint(id: usize, i: Dim, g: &RT) -> RT {
    RT::new(i, (0..total(i)).map(|q| g.v.iter().enumerate().map(|(r, v)| entry(id, r, q) * v).sum::<f64>()).collect())
}
fn put(t: &mut Tensor, r: &RT) {
    let _ = t.fill_with_vec(r.v.iter().map(|x| *x as f32).collect());
}
impl Layer for Linear {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        if self.busy && !(errand(false) && errand(true)) {
            self.script.borrow_mut().meddling.push((self.id, "find another network wrong that it used meanwhile"));
        }
        let mut s = self.script.borrow_mut();
        let x = rd(input);
        s.calls.push(Call { layer: self.id, backward: false, ins: vec![x.clone()], out: RT::zeros(dim(&output.get_shape())) });
        if let Some((l, false, written)) = s.fail {
            if l == self.id {
                if written {
                    output.fill_with_value(-99.0);
                }
                return Err(message(self.id));
            }
        }
        put(output, &affine(self.id, self.o, &x));
        Ok(())
    }
    fn backward(&mut self, input: &Tensor, output: &Tensor, inc: &Tensor, out: &mut Tensor) -> Result<(), &'static str> {
        if self.busy && !(errand(true) && errand(false)) {
            self.script.borrow_mut().meddling.push((self.id, "find another network wrong that it used meanwhile"));
        }
        let mut s = self.script.borrow_mut();
        let g = rd(inc);
        s.calls.push(Call { layer: self.id, backward: true, ins: vec![rd(input), rd(output), g.clone()], out: RT::zeros(dim(&out.get_shape())) });
        if let Some((l, true, written)) = s.fail {
            if l == self.id {
                if written {
                    out.fill_with_value(-77.0);
                }
                return Err(message(self.id));
            }
        }
        let a = adjoint(self.id, self.i, &g);
        put(out, &a);
        s.gradient = Some(a);
        Ok(())
    }
    fn clear_gradients(&mut self) {
        self.script.borrow_mut().meddling.push((self.id, "clear_gradients"));
    }
    fn apply_gradients(&mut self) {
        self.script.borrow_mut().meddling.push((self.id, "apply_gradients"));
    }
    fn switch_to_training(&mut self) {
        self.script.borrow_mut().switches.push((self.id, true));
        self.mode = NetworkRunState::Training;
    }
    fn switch_to_inference(&mut self) {
        self.script.borrow_mut().switches.push((self.id, false));
        self.mode = NetworkRunState::Inference;
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.mode
    }
    fn get_input_shape(&self) -> TensorShape {
        shape(self.i)
    }
    fn get_output_shape(&self) -> TensorShape {
        shape(self.o)
    }
    fn get_name(&self) -> String {
        "linear".into()
    }
    fn get_serialized(&self) -> SerializedLayer {
        codec::to_serialized(3, &codec::layer_fields(&Spec::Soft { shape: self.o }, "linear").1)
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        self.script.borrow_mut().meddling.push((self.id, "load_from_serialized"));
        Err("not loadable")
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Infer(usize),
    Backward(usize),
    /// inference failing in the given layer, with or without having written its output
    InferFail(usize, bool),
    BackwardFail(usize, bool),
    ToTraining,
    ToInference,
    BadInput,
    BadGradient,
    Append,
}
const DIMS: [Dim; 5] = [[2, 1, 1], [1, 2, 2], [2, 2, 1], [3, 1, 1], [2, 1, 1]];

struct M {
    net: Network,
    script: Rc<RefCell<Script>>,
    n: usize,
    dims: Vec<Dim>,
    training: bool,
    /// states of the last successful inference, if nothing happened since that may have touched them
    good: Option<Vec<RT>>,
    hist: Vec<Op>,
}
impl M {
    fn ctx(&self) -> String {
        format!("network of {} caller-defined layers {:?} after {:?}", self.n, self.dims, self.hist)
    }
    fn append(&mut self, c: &mut Ctx) -> Result<(), String> {
        let id = self.n;
        let o = if id < 2 { DIMS[(c.choose(3) * 2 + id + 1) % 5] } else if id + 1 < LATE { DIMS[(id + 2) % 5] } else { PAIRS[id % 3] };
        let i = *self.dims.last().unwrap();
        let l = Linear { id, i, o, mode: train(!self.training), script: self.script.clone(), busy: false };
        self.net.add_layer(l).map_err(|e| format!("{}: adding a fitting layer is refused: {}", self.ctx(), e))?;
        self.n += 1;
        self.dims.push(o);
        self.good = None;
        Ok(())
    }
    fn x(&self, w: usize) -> RT {
        dense(self.dims[0], 5 + w as u64, -3, 3)
    }
    fn apply(&mut self, c: &mut Ctx, op: Op) -> Result<(), String> {
        self.hist.push(op);
        c.log(|| format!("{:?}", op));
        c.step();
        self.script.borrow_mut().calls.clear();
        self.script.borrow_mut().switches.clear();
        self.script.borrow_mut().meddling.clear();
        let n = self.n;
        match op {
            Op::Append => {
                if n < 4 || n >= LATE {
                    self.append(c)?;
                }
            }
            Op::ToTraining => {
                self.net.switch_to_training();
                self.training = true;
            }
            Op::ToInference => {
                self.net.switch_to_inference();
                self.training = false;
            }
            Op::BadInput => {
                let d = self.dims[0];
                let r = self.net.infer(&Tensor::new(shape([d[0], d[1] + 1, d[2]])));
                need(r.is_err(), || format!("{}: an input of the wrong shape is accepted", self.ctx()))?;
                need(self.script.borrow().calls.is_empty(), || format!("{}: a refused inference reached a layer", self.ctx()))?;
            }
            Op::BadGradient => {
                let d = self.dims[n];
                let r = self.net.backward(&Tensor::new(shape([d[0], d[1] + 1, d[2]])));
                need(r.is_err(), || format!("{}: a gradient of the wrong shape is accepted", self.ctx()))?;
                need(self.script.borrow().calls.is_empty(), || format!("{}: a refused backpropagation reached a layer", self.ctx()))?;
            }
            Op::Infer(_) | Op::InferFail(..) => {
                let fail = if let Op::InferFail(l, w) = op { Some((l % n, false, w)) } else { None };
                let x = if let Op::Infer(w) = op { self.x(w) } else { self.x(2) };
                self.script.borrow_mut().fail = fail;
                let r = self.net.infer(&lt(&x));
                self.script.borrow_mut().fail = None;
                let last = fail.map_or(n - 1, |f| f.0);
                match (fail, r) {
                    (None, Err(e)) => return Err(format!("{}: inference refused: {}", self.ctx(), e)),
                    (Some(_), Ok(())) => return Err(format!("{}: inference reports success although layer {} failed", self.ctx(), last)),
                    (Some((l, _, _)), Err(e)) => need(e == message(l), || format!("{}: layer {} failed, the error is {:?}", self.ctx(), l, e))?,
                    _ => {}
                }
                // what the layers were handed
                let s = self.script.borrow();
                let order: Vec<usize> = s.calls.iter().map(|q| q.layer).collect();
                need(order == (0..=last).collect::<Vec<_>>() && s.calls.iter().all(|q| !q.backward), || format!("{}: layers were called in the order {:?}", self.ctx(), order))?;
                let mut states = vec![x.clone()];
                for q in &s.calls {
                    let want = states.last().unwrap().clone();
                    need(q.ins[0] == want, || format!("{}: layer {} was handed {:?}, should be {:?}", self.ctx(), q.layer, q.ins[0], want))?;
                    need(q.out.d == self.dims[q.layer + 1], || format!("{}: layer {} was given an output of shape {:?}", self.ctx(), q.layer, q.out.d))?;
                    states.push(affine(q.layer, self.dims[q.layer + 1], &want));
                }
                if fail.is_none() {
                    for (i, w) in states.iter().enumerate() {
                        let t = self.net.get_intermediate_state(i).map_err(|e| format!("{}: state {}: {}", self.ctx(), i, e))?;
                        expect_with(|| format!("{}: state {}", self.ctx(), i), t, w, 0.0)?;
                    }
                    let o = self.net.get_output().map_err(|e| format!("{}: output: {}", self.ctx(), e))?;
                    expect_with(|| format!("{}: output", self.ctx()), o, &states[n], 0.0)?;
                    drop(s);
                    self.good = Some(states);
                } else {
                    drop(s);
                    self.good = None;
                }
            }
            Op::Backward(_) | Op::BackwardFail(..) => {
                let fail = if let Op::BackwardFail(l, w) = op { Some((l % n, true, w)) } else { None };
                let w = if let Op::Backward(w) = op { w } else { 2 };
                let g = dense(self.dims[n], 31 + w as u64, -2, 3);
                self.script.borrow_mut().fail = fail;
                let r = self.net.backward(&lt(&g));
                self.script.borrow_mut().fail = None;
                let s = self.script.borrow();
                if !self.training {
                    need(r.is_err(), || format!("{}: backpropagation in inference mode reports success", self.ctx()))?;
                    need(s.calls.is_empty(), || format!("{}: a refused backpropagation reached a layer", self.ctx()))?;
                } else {
                    let first = fail.map_or(0, |f| f.0);
                    let order: Vec<usize> = s.calls.iter().map(|q| q.layer).collect();
                    match (fail, r) {
                        (None, Err(e)) if self.good.is_some() => return Err(format!("{}: backpropagation refused: {}", self.ctx(), e)),
                        (None, Err(_)) => return need(s.meddling.is_empty() && s.switches.is_empty(), || format!("{}: a refused backpropagation changed a layer", self.ctx())),
                        (Some(_), Ok(())) => return Err(format!("{}: backpropagation reports success although layer {} failed", self.ctx(), first)),
                        (Some((l, _, _)), Err(e)) if self.good.is_some() => need(e == message(l), || format!("{}: layer {} failed, the error is {:?}", self.ctx(), l, e))?,
                        (Some(_), Err(_)) if order.is_empty() => return Ok(()),
                        _ => {}
                    }
                    need(order == (first..n).rev().collect::<Vec<_>>() && s.calls.iter().all(|q| q.backward), || format!("{}: layers were called in the order {:?}", self.ctx(), order))?;
                    let mut want = g.clone();
                    for q in &s.calls {
                        need(q.ins[2] == want, || format!("{}: layer {} was handed the gradient {:?}, should be {:?}", self.ctx(), q.layer, q.ins[2], want))?;
                        need(q.out.d == self.dims[q.layer], || format!("{}: layer {} was given a gradient of shape {:?} to fill", self.ctx(), q.layer, q.out.d))?;
                        if let Some(st) = &self.good {
                            need(q.ins[0] == st[q.layer] && q.ins[1] == st[q.layer + 1], || format!("{}: layer {} was handed another input or output than it had", self.ctx(), q.layer))?;
                        }
                        want = adjoint(q.layer, self.dims[q.layer], &want);
                    }
                }
            }
        }
        // nothing else may have moved
        let cx = || self.ctx();
        {
            let s = self.script.borrow();
            need(s.meddling.is_empty(), || format!("{}: layers were also told to {:?}", cx(), s.meddling))?;
            let to = match op {
                Op::ToTraining => Some(true),
                Op::ToInference => Some(false),
                Op::Append => Some(self.training),
                _ => None,
            };
            let told = s.switches.iter().all(|(l, m)| Some(*m) == to && (op != Op::Append || *l + 1 == self.n));
            need(told, || format!("{}: layers were told to switch mode: {:?}", cx(), s.switches))?;
        }
        need(self.net.get_run_state() == train(self.training), || format!("{}: the mode is {:?}", cx(), self.net.get_run_state()))?;
        need(self.net.get_layers().len() == self.n && self.net.get_layers().iter().all(|l| l.get_run_mode() == train(self.training)), || format!("{}: a layer is missing or in another mode", cx()))?;
        need(dim(&self.net.get_input_shape()) == self.dims[0] && dim(&self.net.get_output_shape()) == self.dims[self.n], || format!("{}: input or output shape", cx()))?;
        for (i, d) in self.dims.iter().enumerate() {
            let s = self.net.get_intermediate_state(i).map_err(|e| format!("{}: state {}: {}", cx(), i, e))?;
            need(dim(&s.get_shape()) == *d, || format!("{}: state {} has shape {:?}", cx(), i, s.get_shape()))?;
            if let Some(st) = &self.good {
                expect_with(|| format!("{}: state {}", cx(), i), s, &st[i], 0.0)?;
            }
        }
        need(self.net.get_intermediate_state(self.n + 1).is_err(), || format!("{}: there is a state {}", cx(), self.n + 1))?;
        let o = self.net.get_output().map_err(|e| format!("{}: output: {}", cx(), e))?;
        c.observe(mix(hash_t(o), self.good.is_some() as u64));
        Ok(())
    }
}
fn fresh(c: &mut Ctx, n: usize) -> Result<M, String> {
    let training = c.choose(2) == 1;
    let mut m = M { net: Network::new(train(training)), script: Rc::default(), n: 0, dims: vec![DIMS[0]], training, good: None, hist: vec![] };
    for _ in 0..n {
        m.append(c)?;
    }
    c.log(|| format!("training={} dims={:?}", training, m.dims));
    Ok(m)
}
const PROBES: [Op; 8] = [Op::Infer(1), Op::Backward(0), Op::Backward(1), Op::ToTraining, Op::Infer(0), Op::Backward(1), Op::ToInference, Op::Infer(1)];
fn histories(n: usize, depth: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let mut ops = vec![Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::Backward(1), Op::ToTraining, Op::ToInference, Op::BadInput, Op::BadGradient, Op::Append];
    for l in 0..n {
        for w in [false, true] {
            ops.extend([Op::InferFail(l, w), Op::BackwardFail(l, w)]);
        }
    }
    move |c| {
        let mut m = fresh(c, n)?;
        for _ in 0..depth {
            let op = *c.pick(&ops);
            m.apply(c, op)?;
        }
        for op in PROBES {
            m.apply(c, op)?;
        }
        Ok(())
    }
}
fn cycles(n: usize, len: usize, reps: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let ops = [Op::Infer(0), Op::Backward(0), Op::InferFail(n - 1, true), Op::InferFail(0, false), Op::BackwardFail(0, true), Op::BackwardFail(n - 1, false), Op::ToTraining, Op::ToInference];
    move |c| {
        let mut m = fresh(c, n)?;
        let k = c.range(1, len);
        let cyc: Vec<Op> = (0..k).map(|_| *c.pick(&ops)).collect();
        for _ in 0..reps {
            m.hist.clear();
            for op in &cyc {
                m.apply(c, *op)?;
            }
        }
        for op in PROBES {
            m.apply(c, op)?;
        }
        Ok(())
    }
}
/// Long networks, any layer failing.
fn long(lens: Vec<usize>) -> impl Fn(&mut Ctx) -> Result<(), String> {
    move |c| {
        let n = *c.pick(&lens);
        let mut m = fresh(c, n)?;
        let l = c.choose(n);
        let w = c.choose(2) == 1;
        let backward = c.choose(2) == 1;
        for op in [Op::ToTraining, Op::Infer(0), if backward { Op::BackwardFail(l, w) } else { Op::InferFail(l, w) }, Op::Infer(1), Op::Backward(1), Op::Append, Op::ToInference, Op::Infer(0)] {
            m.apply(c, op)?;
        }
        Ok(())
    }
}
/// A layer that is a network.
struct Nest {
    net: Network,
    script: Rc<RefCell<Script>>,
}
impl Layer for Nest {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        self.net.infer(input)?;
        *output = self.net.get_output()?.clone();
        Ok(())
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, inc: &Tensor, out: &mut Tensor) -> Result<(), &'static str> {
        self.net.backward(inc)?;
        let g = self.script.borrow().gradient.clone();
        put(out, &g.ok_or("no gradient came out of the inner network")?);
        Ok(())
    }
    fn clear_gradients(&mut self) {
        self.script.borrow_mut().meddling.push((usize::MAX, "clear_gradients"));
    }
    fn switch_to_training(&mut self) {
        self.net.switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.net.switch_to_inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.net.get_run_state()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.net.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.net.get_output_shape()
    }
    fn get_name(&self) -> String {
        "nest".into()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.net.get_layers()[0].get_serialized()
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("not loadable")
    }
}
/// The layers lo..hi as a network, some runs of them packed into layers that are networks.
fn pack(c: &mut Ctx, lo: usize, hi: usize, depth: usize, training: bool, busy: usize, script: &Rc<RefCell<Script>>, form: &mut String, bounds: &mut Vec<usize>) -> Result<Network, String> {
    let mut net = Network::new(train(training));
    let mut at = lo;
    bounds.push(lo);
    while at < hi {
        // 0: the layer itself; k: the next k layers packed
        let k = if depth == 0 { 0 } else { c.choose(hi - at + 1) };
        if k == 0 {
            form.push_str(&format!(" {}", at));
            net.add_layer(Linear { id: at, i: DIMS[at], o: DIMS[at + 1], mode: train(!training), script: script.clone(), busy: at == busy }).map_err(|e| format!("adding layer {}: {}", at, e))?;
            at += 1;
        } else {
            form.push_str(" (");
            let mode = c.choose(2) == 1;
            let inner = pack(c, at, at + k, depth - 1, mode, busy, script, form, &mut vec![])?;
            form.push_str(" )");
            net.add_layer(Nest { net: inner, script: script.clone() }).map_err(|e| format!("adding layers {}..{} as one: {}", at, at + k, e))?;
            at += k;
        }
        bounds.push(at);
    }
    Ok(net)
}
fn nested(leaves: usize, depth: usize, len: usize) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let mut ops = vec![Op::Infer(0), Op::Infer(1), Op::Backward(0), Op::ToTraining, Op::ToInference];
    for l in 0..leaves {
        ops.extend([Op::InferFail(l, true), Op::BackwardFail(l, false)]);
    }
    move |c| {
        let script: Rc<RefCell<Script>> = Rc::default();
        let mut training = c.choose(2) == 1;
        // which layer, if any, uses other networks while it is called
        let busy = c.choose(leaves + 1);
        let mut form = String::new();
        let mut bounds = vec![];
        let mut net = pack(c, 0, leaves, depth, training, busy, &script, &mut form, &mut bounds)?;
        let mut hist: Vec<Op> = vec![];
        let dims = &DIMS[..=leaves];
        c.log(|| format!("training={} busy={} layers{}", training, busy, form));
        // what every layer was handed in the last inference, if that succeeded
        let mut good: Option<Vec<RT>> = None;
        let end = [Op::Infer(1), Op::Backward(1), Op::ToTraining, Op::Infer(0), Op::Backward(0), Op::ToInference, Op::Infer(1)];
        for q in 0..len + end.len() {
            let op = if q < len { *c.pick(&ops) } else { end[q - len] };
            hist.push(op);
            c.step();
            let cx = || format!("network of the layers{} (layer {} uses other networks when called) after {:?}", form, busy, hist);
            {
                let mut s = script.borrow_mut();
                s.calls.clear();
                s.meddling.clear();
                s.gradient = None;
                s.fail = match op {
                    Op::InferFail(l, w) => Some((l, false, w)),
                    Op::BackwardFail(l, w) => Some((l, true, w)),
                    _ => None,
                };
            }
            match op {
                Op::ToTraining | Op::ToInference => {
                    training = op == Op::ToTraining;
                    if training { net.switch_to_training() } else { net.switch_to_inference() }
                    need(net.get_layers().iter().all(|l| l.get_run_mode() == train(training)), || format!("{}: a layer is in another mode", cx()))?;
                }
                Op::Infer(_) | Op::InferFail(..) => {
                    let w = if let Op::Infer(w) = op { w } else { 2 };
                    let x = dense(dims[0], 5 + w as u64, -3, 3);
                    let r = net.infer(&lt(&x));
                    let s = script.borrow();
                    let last = s.fail.map_or(leaves - 1, |f| f.0);
                    match (s.fail, r) {
                        (None, r) => r.map_err(|e| format!("{}: inference refused: {}", cx(), e))?,
                        (Some(f), r) => need(r == Err(message(f.0)), || format!("{}: layer {} failed, inference says {:?}", cx(), f.0, r))?,
                    }
                    let order: Vec<usize> = s.calls.iter().map(|q| q.layer).collect();
                    need(order == (0..=last).collect::<Vec<_>>() && s.calls.iter().all(|q| !q.backward), || format!("{}: layers were called in the order {:?}", cx(), order))?;
                    let mut want = x;
                    for q in &s.calls {
                        need(q.ins[0] == want, || format!("{}: layer {} was handed {:?}, should be {:?}", cx(), q.layer, q.ins[0], want))?;
                        want = affine(q.layer, dims[q.layer + 1], &want);
                    }
                    good = None;
                    if s.fail.is_none() {
                        let states: Vec<RT> = s.calls.iter().map(|q| q.ins[0].clone()).chain([want.clone()]).collect();
                        for (i, b) in bounds.iter().enumerate() {
                            let t = net.get_intermediate_state(i).map_err(|e| format!("{}: state {}: {}", cx(), i, e))?;
                            expect_with(|| format!("{}: state {}", cx(), i), t, &states[*b], 0.0)?;
                        }
                        need(net.get_intermediate_state(bounds.len()).is_err(), || format!("{}: there is a state {}", cx(), bounds.len()))?;
                        good = Some(states);
                        expect_with(|| format!("{}: output", cx()), net.get_output().map_err(|e| format!("{}: output: {}", cx(), e))?, &want, 0.0)?;
                        c.observe(hash_rt(&want));
                    }
                }
                _ => {
                    let g = dense(dims[leaves], 31 + hist.len() as u64, -2, 3);
                    let r = net.backward(&lt(&g));
                    let s = script.borrow();
                    let order: Vec<usize> = s.calls.iter().map(|q| q.layer).collect();
                    if !training {
                        need(r.is_err() && order.is_empty(), || format!("{}: backpropagation in inference mode: {:?}, layers {:?} were called", cx(), r, order))?;
                        continue;
                    }
                    if good.is_none() && r.is_err() && order.is_empty() {
                        continue;
                    }
                    let first = s.fail.map_or(0, |f| f.0);
                    match (s.fail, r) {
                        (None, r) => r.map_err(|e| format!("{}: backpropagation refused: {}", cx(), e))?,
                        (Some(f), r) => need(r == Err(message(f.0)), || format!("{}: layer {} failed, backpropagation says {:?}", cx(), f.0, r))?,
                    }
                    need(order == (first..leaves).rev().collect::<Vec<_>>() && s.calls.iter().all(|q| q.backward), || format!("{}: layers were called in the order {:?}", cx(), order))?;
                    let mut want = g;
                    for q in &s.calls {
                        need(q.ins[2] == want, || format!("{}: layer {} was handed the gradient {:?}, should be {:?}", cx(), q.layer, q.ins[2], want))?;
                        if let Some(st) = &good {
                            need(q.ins[0] == st[q.layer] && q.ins[1] == st[q.layer + 1], || format!("{}: layer {} was handed another input or output than it had", cx(), q.layer))?;
                        }
                        want = adjoint(q.layer, dims[q.layer], &want);
                    }
                }
            }
            let s = script.borrow();
            need(s.meddling.is_empty(), || format!("{}: layers were also told to {:?}", cx(), s.meddling))?;
        }
        Ok(())
    }
}
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    let (d1, d2, d3) = if t { (5, 5, 4) } else { (4, 4, 3) };
    let (nd, nl) = if t { (3, 3) } else { (2, 2) };
    let (len, reps) = if t { (3, 300) } else { (3, 40) };
    (
        vec![
            Driver::new("one layer", &format!("every sequence of {d1} calls out of 13, each call of the layer failing or not, having written or not"), histories(1, d1)),
            Driver::new("two layers", &format!("every sequence of {d2} calls out of 17, any layer failing in any of them"), histories(2, d2)),
            Driver::new("three layers", &format!("every sequence of {d3} calls out of 21, any layer failing in any of them"), histories(3, d3)),
            Driver::new("repeated cycles", &format!("every cycle of up to {len} calls out of 8, {reps} repetitions, two layers"), cycles(2, len, reps)),
            Driver::new("one cycle for long", &format!("every call or two out of 8, {} repetitions, two layers", if t { 66_000 } else { 1100 }), cycles(2, if t { 1 } else { 2 }, if t { 66_000 } else { 1100 })),
            Driver::new("long networks", "up to 300 layers, any of them failing in an inference or backpropagation, having written or not", long(if t { vec![5, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 200, 256, 257, 300] } else { vec![9, 17, 33, 65, 129, 257] })),
            Driver::new("networks as layers", &format!("3 layers in every nesting of networks used as layers (up to {nd} deep, inner networks made in either mode), any or none of them using other networks while it is called, every sequence of {nl} calls out of 11"), nested(3, nd, nl)),
        ],
        vec!["a caller-defined layer may fail but keeps its shapes and the shape of the tensor it fills", "what the states hold after a failed inference is unspecified until the next successful one"],
    )
}
