//! C11: see hist.rs.
use super::hist::*;
use crate::engine::Driver;
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    (drivers_of(t), vec!["dimensions are positive; values are small exactly representable numbers (softmax: tolerance 2e-6 forward, 1e-5 backward)"])
}
fn drivers_of(t: bool) -> Vec<Driver> {
    super::hist::drivers(Aspect::Params, t)
}
