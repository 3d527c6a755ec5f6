//! Shared by C15, C16, C18 and C19: small networks, their files, and everything observable about a network.
use super::net::fitting;
use crate::engine::*;
use crate::glue::codec::Fields;
use crate::glue::*;
use crate::refmodel::*;
use rusty_network::layer::Layer;
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::Tensor;

pub fn path(c: &Ctx, name: &str) -> String {
    c.scratch.as_ref().expect("harness: scratch").join(name).to_str().expect("harness: utf-8 scratch").to_string()
}
pub fn put(p: &str, b: &[u8]) {
    std::fs::write(p, b).expect("harness: write");
}
pub fn get(p: &str) -> Vec<u8> {
    std::fs::read(p).expect("harness: read")
}
/// Everything observable about a layer in a network.
#[derive(Clone, PartialEq, Debug)]
pub struct Face {
    pub input: Dim,
    pub output: Dim,
    pub name: String,
    pub mode: NetworkRunState,
    pub data: Option<(u32, Fields)>,
}
pub fn face_of(l: &dyn Layer) -> Face {
    Face {
        input: dim(&l.get_input_shape()),
        output: dim(&l.get_output_shape()),
        name: l.get_name(),
        mode: l.get_run_mode(),
        data: codec::of_serialized(&l.get_serialized()),
    }
}
/// Everything observable about a network.
#[derive(Clone, PartialEq, Debug)]
pub struct Look {
    pub mode: NetworkRunState,
    pub input: Dim,
    pub output: Dim,
    pub layers: Vec<Face>,
    pub states: Vec<(Dim, Vec<u32>)>,
    pub out: Option<(Dim, Vec<u32>)>,
    pub beyond: bool,
}
pub fn look(n: &Network) -> Look {
    let full = |t: &Tensor| (dim(&t.get_shape()), bits(t));
    let layers: Vec<Face> = n.get_layers().iter().map(|l| face_of(l.as_ref())).collect();
    let mut states = vec![];
    let mut i = 0;
    while let Ok(t) = n.get_intermediate_state(i) {
        states.push(full(t));
        i += 1;
    }
    Look {
        mode: n.get_run_state(),
        input: dim(&n.get_input_shape()),
        output: dim(&n.get_output_shape()),
        beyond: n.get_intermediate_state(layers.len() + 1).is_ok(),
        layers,
        states,
        out: n.get_output().ok().map(full),
    }
}
pub fn build(specs: &[Spec], names: &[String], training: bool) -> Result<Network, String> {
    let mut n = Network::new(train(training));
    for (i, s) in specs.iter().enumerate() {
        let l = Lib::build(s, &names[i])?;
        l.add_to(&mut n).map_err(|e| format!("a fitting layer was refused ({}): {}", e, s.describe()))?;
    }
    Ok(n)
}
pub fn name(i: usize) -> String {
    ["alpha", "", "läyer ∂", "d"][i % 4].to_string() + &i.to_string()[..(i % 4 != 1) as usize]
}
pub fn names(n: usize) -> Vec<String> {
    (0..n).map(name).collect()
}
pub fn want_face(s: &Spec, name: &str, training: bool) -> Face {
    Face { input: s.in_dim(), output: s.out_dim(), name: name.into(), mode: train(training), data: Some(codec::layer_fields(s, name)) }
}
pub fn image(specs: &[Spec], names: &[String]) -> Vec<u8> {
    codec::network(&specs.iter().zip(names).map(|(s, n)| codec::layer_fields(s, n)).collect::<Vec<_>>())
}
/// A stack of up to `len` fitting layers, chosen by the engine.
pub fn choose_stack(c: &mut Ctx, firsts: &[Dim], lo: usize, len: usize) -> Vec<Spec> {
    let mut d = *c.pick(firsts);
    let n = c.range(lo, len);
    let mut v: Vec<Spec> = vec![];
    for i in 0..n {
        let f = fitting(d, i as u64);
        let s = c.pick(&f).clone();
        d = s.out_dim();
        v.push(s);
    }
    c.log(|| format!("layers: {:?}", v.iter().map(|s| s.describe()).collect::<Vec<_>>()));
    v
}
/// A handful of small layers of every kind.
pub fn singles() -> Vec<Spec> {
    vec![
        Spec::Conv { ks: vec![dense([2, 1, 1], 3, -2, 2), dense([2, 1, 1], 4, -2, 2)], bs: vec![1.0, -1.0], input: [3, 2, 1], stride: 1 },
        Spec::Fc { w: dense([2, 3, 1], 5, -2, 2), b: dense([2, 1, 1], 6, -2, 2) },
        Spec::Pool { input: [4, 2, 2], win: [2, 2], stride: 2 },
        Spec::Soft { shape: [2, 1, 2] },
    ]
}
/// Fields with arbitrary float bits in the parameters: (kind, fields, spec without the values)
pub fn with_bits(s: &Spec, name: &str, v: &[u32]) -> (u32, Fields) {
    let (k, mut f) = codec::layer_fields(s, name);
    match s {
        Spec::Fc { w, b } => {
            let n = w.v.len();
            f[0].1 = codec::tensor_bits(w.d, &v[..n]);
            f[1].1 = codec::tensor_bits(b.d, &v[n..]);
        }
        Spec::Conv { ks, .. } => {
            let n = ks[0].v.len();
            let mut o = vec![];
            codec::u64b(&mut o, ks.len() as u64);
            for (q, k) in ks.iter().enumerate() {
                o.extend(codec::tensor_bits(k.d, &v[q * n..(q + 1) * n]));
            }
            f[0].1 = o;
            let mut o = vec![];
            codec::u64b(&mut o, ks.len() as u64);
            for q in 0..ks.len() {
                o.extend(codec::tensor_bits([1, 1, 1], &v[ks.len() * n + q..ks.len() * n + q + 1]));
            }
            f[1].1 = o;
        }
        _ => {}
    }
    (k, f)
}
/// Contents that a clever format could write in less space: bits of n elements in one of PATTERNS forms.
pub const PATTERNS: usize = 20;
pub fn pattern(how: usize, n: usize) -> Vec<u32> {
    let f = |g: &dyn Fn(usize) -> f32| -> Vec<u32> { (0..n).map(|i| g(i).to_bits()).collect() };
    let small = |i: usize| ((i as u32).wrapping_mul(2654435761) >> 24) as f32;
    match how {
        0 => vec![0; n],
        1 => vec![0x8000_0000; n],
        2 => f(&|_| 1.0),
        3 => vec![0x7fc0_0001; n],
        // zeros at one end, in the middle, at both ends
        4 => f(&|i| if i < n / 2 { 0.0 } else { small(i) + 1.0 }),
        5 => f(&|i| if i >= n / 2 { 0.0 } else { small(i) + 1.0 }),
        6 => f(&|i| if i == 0 { 3.0 } else { 0.0 }),
        7 => f(&|i| if i + 1 == n { 3.0 } else { 0.0 }),
        8 => f(&|i| if i == 0 || i + 1 == n { -2.5 } else { 0.0 }),
        9 => f(&|i| if i > 0 && i + 1 < n { 0.0 } else { -0.0 }),
        // few values that are not zero
        10 => f(&|i| if i % 7 == 3 { small(i) } else { 0.0 }),
        11 => f(&|i| if i % 101 == 50 { -small(i) - 0.1 } else { 0.0 }),
        // few different values
        12 => f(&|i| [1.0, -1.0][i % 2]),
        13 => f(&|i| (i * n.max(1).isqrt() / n.max(1)) as f32),
        14 => f(&|i| (i % n.max(1).isqrt().max(1)) as f32),
        // that fit into fewer bits: bytes, halves, whole numbers, upper halves of words
        15 => f(&small),
        16 => f(&|i| small(i) / 256.0),
        17 => f(&|i| i as f32),
        18 => (0..n as u32).map(|i| i.wrapping_mul(2654435761) & 0xffff_0000).collect(),
        _ => f(&|i| 0.1 * (i % 10) as f32),
    }
}
/// Networks that repeat themselves: (title, layers, names).
pub fn repetitive() -> Vec<(String, Vec<Spec>, Vec<String>)> {
    let fc = |q: u64| Spec::Fc { w: RT::from_fn([3, 3, 1], |r, k, _| if (r + q as usize) % 3 == k { 1.0 } else { 0.0 }), b: RT::zeros([3, 1, 1]) };
    let zero = Spec::Fc { w: RT::zeros([3, 3, 1]), b: RT::zeros([3, 1, 1]) };
    let soft = Spec::Soft { shape: [3, 1, 1] };
    let pool = Spec::Pool { input: [3, 1, 1], win: [1, 1], stride: 1 };
    let conv = |n: usize, k: RT| Spec::Conv { ks: vec![k; n], bs: vec![1.0; n], input: [4, 3, 1], stride: 1 };
    let mut v = vec![];
    for n in [2usize, 3, 8, 33, 130] {
        for (t, specs) in [
            ("equal layers", vec![fc(1); n]),
            ("layers in turn", (0..n).map(|i| fc(i as u64 % 2)).collect::<Vec<_>>()),
            ("zero layers", vec![zero.clone(); n]),
            ("one of them different", (0..n).map(|i| fc((i == n / 2) as u64)).collect()),
            ("softmax layers", vec![soft.clone(); n]),
            ("pooling layers", vec![pool.clone(); n]),
            ("layers of three kinds", (0..n).map(|i| [fc(2), pool.clone(), soft.clone()][i % 3].clone()).collect()),
        ] {
            v.push((format!("{} {}", n, t), specs.clone(), names(n)));
            v.push((format!("{} {} of one name", n, t), specs, vec!["same".to_string(); n]));
        }
        v.push((format!("{} equal kernels", n), vec![conv(n, dense([2, 2, 1], 3, -2, 3))], names(1)));
        v.push((format!("{} zero kernels", n), vec![conv(n, RT::zeros([2, 2, 1]))], names(1)));
    }
    v
}
pub fn parameters(s: &Spec) -> usize {
    s.zero_param_grads().iter().map(|t| t.v.len()).sum()
}
pub fn tensor_of_bits(d: Dim, v: &[u32]) -> Tensor {
    let mut t = Tensor::new(shape(d));
    t.fill_with_vec(v.iter().map(|x| f32::from_bits(*x)).collect()).expect("harness: fill");
    t
}
/// A layer configured through the public interface with arbitrary float bits.
pub fn lib_with_bits(s: &Spec, name: &str, v: &[u32]) -> Result<Lib, String> {
    let mut l = Lib::empty(s.kind());
    match (&mut l, s) {
        (Lib::Fc(c), Spec::Fc { w, b }) => {
            let n = w.v.len();
            c.fill_from_state(tensor_of_bits(w.d, &v[..n]), tensor_of_bits(b.d, &v[n..]), &name.to_string())
        }
        (Lib::Conv(c), Spec::Conv { ks, input, stride, .. }) => {
            let n = ks[0].v.len();
            c.fill_from_state(
                ks.iter().enumerate().map(|(q, k)| tensor_of_bits(k.d, &v[q * n..(q + 1) * n])).collect(),
                (0..ks.len()).map(|q| tensor_of_bits([1, 1, 1], &v[ks.len() * n + q..ks.len() * n + q + 1])).collect(),
                shape(*input),
                *stride as u32,
                &name.to_string(),
            )
        }
        _ => panic!("harness: no parameters"),
    }
    .map_err(|e| format!("a valid layer was refused ({}): {}", e, s.describe()))?;
    Ok(l)
}
/// Floats that copying must not disturb.
pub const SPECIAL: [u32; 14] = [
    0x7fc00000, // quiet NaN
    0xffc12345, // negative quiet NaN with a payload
    0x7f800001, // signalling NaN
    0x7f800000, // infinity
    0xff800000,
    0x80000000, // -0
    0x00000000,
    0x00000001, // smallest subnormal
    0x807fffff, // largest subnormal, negative
    0x00800000, // smallest normal
    0x7f7fffff, // largest
    0xff7fffff,
    0x3f800001, // 1 + ulp
    0x3dcccccd, // 0.1
];

/// File names that a careless program might alter, all different files.
pub fn file_names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "a ", " a", "  a", "a\t", "a\n", "\na", "a\r", "A", "a.", ".a", "a..", "..a", "...", "a.bin", "a.bin ", "a.bi", "a.binn", "a.tmp", "a.bak", "a~", ".a.tmp", "~", "~a", "$a", "${a}", "%a", "%61", "a%20",
        "a+", "-", "-a", "--", "a\\", "\\a", "a:b", "C:a", "a*", "?", "[a]", "'a'", "\"a\"", "#a", "a#b", "a?b", "a;b", "a|b", "a&b", "ä", "a\u{308}", "Ä", "\u{feff}a", "\u{200b}a", "\u{a0}a", "日本", "🦀", "0", "00", "nul", "a\u{7f}", "\u{1}a",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend([100, 199, 200, 201, 254, 255].map(|n| "n".repeat(n)));
    v.push("n".repeat(254) + "m");
    v.push("a".repeat(200) + ".x");
    v
}
/// Ways to write down a path; the last ones are relative to a directory `sub` that exists.
pub fn spellings(dir: &str, name: &str) -> Vec<String> {
    let twice = dir.rsplit('/').next().unwrap_or("");
    vec![format!("{}/{}", dir, name), format!("{}//{}", dir, name), format!("{}/./{}", dir, name), format!("{}/sub/../{}", dir, name), format!("{}/../{}/{}", dir, twice, name), format!("{}/link/{}", dir, name)]
}
/// Every ordered pair of names: two files, one is removed, written again, cut short; the other is never affected.
pub fn named_files<V: Sync>(value: impl Fn(usize) -> V, save: impl Fn(&V, &String) -> Result<(), String> + Sync, load: impl Fn(&String, &V) -> Result<bool, String> + Sync) -> impl Fn(&mut Ctx) -> Result<(), String> {
    let names = file_names();
    move |c| {
        let dir = path(c, "named");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.clone() + "/sub").expect("harness: directory");
        std::os::unix::fs::symlink(".", dir.clone() + "/link").expect("harness: link");
        let a = c.choose(names.len());
        let b = c.choose(names.len());
        c.log(|| format!("{:?} and {:?}", names[a], names[b]));
        let (va, vb, vc) = (value(0), value(1), value(2));
        let listing = |dir: &str| {
            let mut v: Vec<String> = std::fs::read_dir(dir).expect("harness: list").map(|e| e.expect("harness: entry").file_name().into_string().expect("harness: name")).filter(|n| n != "sub" && n != "link").collect();
            v.sort();
            v
        };
        let holds = |want: &mut Vec<String>, when: &str| {
            want.sort();
            let got = listing(&dir);
            need(got == *want, || format!("{:?} and {:?}, {}: the directory holds {:?}, should hold {:?}", names[a], names[b], when, got, want))
        };
        let check = |p: &String, v: &V, when: &str| match load(p, v) {
            Ok(true) => Ok(()),
            Ok(false) => Err(format!("{:?} and {:?}, {}: {:?} is read as something else", names[a], names[b], when, p)),
            Err(e) => Err(format!("{:?} and {:?}, {}: {:?} can't be read: {}", names[a], names[b], when, p, e)),
        };
        let (pa, pb) = (format!("{}/{}", dir, names[a]), format!("{}/{}", dir, names[b]));
        if a == b {
            // relative to the current directory, on a thread that has one of its own
            let (d, n) = (dir.clone(), names[a].clone());
            let relative: Result<bool, String> = std::thread::scope(|sc| {
                sc.spawn(|| {
                    extern "C" {
                        fn unshare(flags: std::os::raw::c_int) -> std::os::raw::c_int;
                    }
                    if unsafe { unshare(0x200) } != 0 || std::env::set_current_dir(&d).is_err() {
                        return Ok(false);
                    }
                    for (i, w) in [n.clone(), format!("./{}", n), format!("sub/../{}", n), format!("sub/.././/{}", n)].iter().enumerate() {
                        let v = if i % 2 == 0 { &va } else { &vb };
                        save(v, w).map_err(|e| format!("saving as {:?} in the current directory failed: {}", w, e))?;
                        check(&format!("{}/{}", d, n), v, "saved under its relative name")?;
                        check(w, v, "under its relative name")?;
                        check(&n, v, "under its bare name")?;
                    }
                    Ok(true)
                })
                .join()
                .unwrap_or(Err("panic".into()))
            });
            c.count(if relative? { "relative paths" } else { "relative paths unavailable" }, 1);
            holds(&mut vec![names[a].clone()], "saved under relative names")?;
            // one file under several spellings
            for (i, w) in spellings(&dir, &names[a]).iter().enumerate() {
                save(if i % 2 == 0 { &va } else { &vb }, w).map_err(|e| format!("saving as {:?} failed: {}", w, e))?;
                holds(&mut vec![names[a].clone()], "saved")?;
                for r in spellings(&dir, &names[a]) {
                    check(&r, if i % 2 == 0 { &va } else { &vb }, "saved under another spelling")?;
                    c.step();
                }
            }
            return Ok(());
        }
        save(&va, &pa).map_err(|e| format!("saving as {:?} failed: {}", pa, e))?;
        holds(&mut vec![names[a].clone()], "first saved")?;
        need(load(&pb, &vb).is_err(), || format!("{:?} is read although only {:?} exists", pb, pa))?;
        save(&vb, &pb).map_err(|e| format!("saving as {:?} failed: {}", pb, e))?;
        let mut both = vec![names[a].clone(), names[b].clone()];
        holds(&mut both, "both saved")?;
        check(&pa, &va, "both saved")?;
        check(&pb, &vb, "both saved")?;
        save(&vc, &pa).map_err(|e| format!("saving as {:?} again failed: {}", pa, e))?;
        check(&pb, &vb, "the first saved again")?;
        check(&pa, &vc, "the first saved again")?;
        put(&pa, &get(&pa)[..9]);
        need(load(&pa, &vc).is_err(), || format!("{:?} is read although it was cut short ({:?} is intact)", pa, pb))?;
        check(&pb, &vb, "the first cut short")?;
        std::fs::remove_file(&pb).expect("harness: remove");
        need(load(&pb, &vb).is_err(), || format!("{:?} is read although it was removed", pb))?;
        holds(&mut vec![names[a].clone()], "the second removed")?;
        c.steps(11);
        c.observe(mix(a as u64, b as u64));
        Ok(())
    }
}
