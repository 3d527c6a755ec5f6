//! Lists of sizes of which several are large at once, bounded by the work they cause.
use crate::refmodel::*;

/// Image, kernel or window, stride and channels, all combinations costing at most `budget` products.
pub fn planes(budget: usize) -> Vec<(Dim, Dim, usize, usize)> {
    let mut v = vec![];
    for (hi, wi) in [(16, 16), (17, 33), (32, 32), (33, 65), (64, 64), (65, 17), (65, 65), (129, 33), (100, 130)] {
        for (a, b) in [(1, 1), (2, 5), (3, 3), (5, 5), (8, 8), (9, 17), (16, 16), (17, 9), (33, 32), (hi, 1), (1, wi), (hi, wi), (hi - 16 * (hi > 16) as usize, wi - 16 * (wi > 16) as usize)] {
            for s in [1, 2, 4, 8, 16, 31, 64] {
                for d in [1, 2, 3, 8, 17] {
                    for n in [1, 4, 17] {
                        // strides that make no difference are listed once
                        if !fits([hi, wi], [a, b], s) || (s > 1 && (hi, wi) == (a, b) && s != 8) {
                            continue;
                        }
                        let o = windows([hi, wi], [a, b], s);
                        if o[0] * o[1] * a * b * d * n <= budget && hi * wi * d <= budget && !v.contains(&([hi, wi, d], [a, b, d], s, n)) {
                            v.push(([hi, wi, d], [a, b, d], s, n));
                        }
                    }
                }
            }
        }
    }
    v
}
/// Rows, inner size, columns and depth of matrix products.
pub fn matrices(budget: usize) -> Vec<(usize, usize, usize, usize)> {
    let e = [1, 4, 8, 16, 17, 32, 33, 64, 65, 100, 128, 130, 257];
    let mut v = vec![];
    for m in e {
        for k in e {
            for n in e {
                for d in [1, 2, 5, 16] {
                    let big = [m, k, n].iter().filter(|x| **x >= 16).count();
                    if big >= 2 && m * k * n * d <= budget {
                        v.push((m, k, n, d));
                    }
                }
            }
        }
    }
    v
}
pub fn shapes(budget: usize) -> Vec<Dim> {
    let e = [1, 2, 7, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300];
    let mut v = vec![];
    for i in e {
        for j in e {
            for k in e {
                let big = [i, j, k].iter().filter(|x| **x >= 16).count();
                if big >= 2 && i * j * k <= budget {
                    v.push([i, j, k]);
                }
            }
        }
    }
    v
}
#[cfg(test)]
mod tests {
    #[test]
    fn sizes() {
        for b in [50_000, 200_000, 600_000, 3_000_000] {
            let p = super::planes(b);
            let cost: usize = p.iter().map(|(i, k, s, n)| { let o = crate::refmodel::windows([i[0], i[1]], [k[0], k[1]], *s); o[0] * o[1] * k[0] * k[1] * k[2] * n }).sum();
            let m = super::matrices(b);
            let mc: usize = m.iter().map(|x| x.0 * x.1 * x.2 * x.3).sum();
            let s = super::shapes(b);
            let sc: usize = s.iter().map(|x| x[0] * x[1] * x[2]).sum();
            println!("{b}: planes {} {}M, matrices {} {}M, shapes {} {}M", p.len(), cost / 1_000_000, m.len(), mc / 1_000_000, s.len(), sc / 1_000_000);
        }
    }
}
