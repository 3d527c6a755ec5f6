//! C13: see net.rs.
use super::net::*;
use crate::engine::Driver;
pub fn drivers(t: bool) -> (Vec<Driver>, Vec<&'static str>) {
    (super::net::drivers(Aspect::Backward, t), vec!["dimensions are positive; values are small integers, exact except downstream of a softmax (tolerance 2e-5 of the largest operand)", "what a backpropagation does before any inference in training mode is unspecified apart from not panicking"])
}
