//! Evidence, violation and replay files.
use crate::engine::{Report, Violation};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Globals {
    pub property: String,
    pub tier: String,
    pub seed: i64,
    pub verif: PathBuf,
    pub scratch: PathBuf,
}
pub static G: OnceLock<Globals> = OnceLock::new();
pub fn g() -> &'static Globals {
    G.get().expect("globals")
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: Fn(&T) -> String>(xs: &[T], f: F) -> String {
    format!("[{}]", xs.iter().map(f).collect::<Vec<_>>().join(", "))
}

pub fn write_replay(v: &Violation) -> PathBuf {
    let dir = g().verif.join("out");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.replay.json", g().property));
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"driver\": {},\n \"choices\": {},\n \"message\": {},\n \"trace\": {}\n}}\n",
        esc(&g().property),
        esc(&g().tier),
        esc(&v.driver),
        list(&v.choices, |c| c.to_string()),
        esc(&v.message),
        list(&v.trace, |t| esc(t))
    );
    let _ = std::fs::write(&p, s);
    p
}

pub fn print_violation(v: &Violation) {
    let p = write_replay(v);
    println!("driver: {}", v.driver);
    println!("choices: {:?}", v.choices);
    for t in &v.trace {
        println!("  {}", t);
    }
    println!("{}", v.message);
    println!("VIOLATION property={} replay={}", g().property, p.display());
    let _ = std::io::stdout().flush();
}
pub fn cleanup() {
    let s = &g().scratch;
    if s.starts_with("/dev/shm") || s.starts_with("/tmp") {
        let _ = std::fs::remove_dir_all(s);
    }
}
pub fn violation_and_exit(v: &Violation) -> ! {
    print_violation(v);
    cleanup();
    std::process::exit(1);
}

pub fn write_evidence(
    rs: &[(String, String, Report)],
    wall: f64,
    assumptions: &[String],
    violations: usize,
    verif: &Path,
) {
    let sum = |f: fn(&Report) -> u64| rs.iter().map(|r| f(&r.2)).sum::<u64>();
    let mut samples: Vec<String> = vec![];
    for (n, _, r) in rs {
        for (c, t) in r.samples.iter().rev().take(2) {
            let t: Vec<String> = t.iter().take(14).cloned().collect();
            samples.push(format!(
                "{{\"driver\": {}, \"choices\": {}, \"trace\": {}}}",
                esc(n),
                list(c, |x| x.to_string()),
                list(&t, |x| esc(x))
            ));
        }
    }
    let drivers = list(rs, |(n, b, r)| {
        format!(
            "{{\"driver\": {}, \"bounds\": {}, \"executions\": {}, \"library_calls\": {}, \"choice_points\": {}, \"max_choice_depth\": {}, \"distinct_states\": {}{}, \"distinct_outcomes\": {}, \"replayed_twice\": {}, \"samples_with_differing_observations\": {}{}, \"wall_s\": {:.2}}}",
            esc(n), esc(b), r.executions, r.transitions, r.choice_points, r.max_depth, r.states,
            if r.states_capped { ", \"states_are_a_lower_bound\": true" } else { "" },
            r.distinct_outcomes, r.replayed_twice, r.unrepeatable,
            r.counters.iter().map(|(k, v)| format!(", {}: {}", esc(k), v)).collect::<String>(),
            r.wall
        )
    });
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"drivers\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(&g().property),
        esc(&g().tier),
        g().seed,
        sum(|r| r.states),
        sum(|r| r.transitions),
        sum(|r| r.executions),
        violations == 0 && rs.iter().all(|r| r.2.error.is_none()),
        esc("states: distinct observed states or step results; transitions: calls into the library; traces_validated_against_impl: complete executions of the real code, each compared with the reference model at every step. Every choice sequence within the stated bounds was executed."),
        drivers,
        samples.join(", "),
        list(assumptions, |x| esc(x)),
        wall,
        violations
    );
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", g().property)), s).expect("evidence");
}

/// Minimal reader for the replay files this program writes.
pub fn read_replay(path: &str) -> Option<(String, String, String, Vec<u32>)> {
    let s = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| -> Option<String> {
        let i = s.find(&format!("\"{}\": \"", k))? + k.len() + 5;
        let j = s[i..].find('"')? + i;
        Some(s[i..j].to_string())
    };
    let i = s.find("\"choices\": [")? + 12;
    let j = s[i..].find(']')? + i;
    let choices = s[i..j].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    Some((get("property")?, get("tier")?, get("driver")?, choices))
}
