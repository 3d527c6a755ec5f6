//! The exploring process runs as a child: a library call that ends the process (abort, stack overflow,
//! invalid memory access) is a violation, and the execution that did it is looked for.
use crate::engine::{Violation, JOURNAL, SLOTS, SLOT_WORDS};
use crate::{props, report};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::Command;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const JOURNAL_BYTES: usize = SLOTS * SLOT_WORDS * 4;

/// In the exploring process: note the executions under way, and end with the supervisor.
pub fn child(scratch: &Path) {
    unsafe { prctl(1, 9, 0, 0, 0) };
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(scratch.join("journal")) else { return };
    if f.set_len(JOURNAL_BYTES as u64).is_err() {
        return;
    }
    let p = unsafe { mmap(std::ptr::null_mut(), JOURNAL_BYTES, 3, 1, f.as_raw_fd(), 0) };
    if p as isize != -1 {
        JOURNAL.store(p as usize, std::sync::atomic::Ordering::SeqCst);
    }
}
fn again(args: &[String], scratch: &Path) -> std::io::Result<std::process::ExitStatus> {
    Command::new(std::env::current_exe()?).args(&args[1..]).env("RNMC_SCRATCH", scratch).status()
}
fn fatal(signal: Option<i32>) -> bool {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV; anything else came from outside
    matches!(signal, Some(4 | 5 | 6 | 7 | 8 | 11))
}
pub fn run(args: &[String], thorough: bool) -> ! {
    let g = report::g();
    let status = match again(args, &g.scratch) {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {}: the exploring process can't be started: {}", g.property, e);
            std::process::exit(2)
        }
    };
    if let Some(code) = status.code() {
        report::cleanup();
        std::process::exit(code);
    }
    let signal = status.signal();
    if !fatal(signal) {
        report::cleanup();
        println!("ERROR {}: the exploring process was ended by signal {:?}", g.property, signal);
        std::process::exit(2);
    }
    let message = format!("the process died of signal {} inside a call of the library", signal.unwrap_or(0));
    if args[1] == "replay" {
        report::cleanup();
        println!("{}\nVIOLATION property={} replay={}", message, g.property, args[2]);
        std::process::exit(1);
    }
    // the executions that were under way
    let journal = std::fs::read(g.scratch.join("journal")).unwrap_or_default();
    let word = |i: usize| u32::from_le_bytes([journal[4 * i], journal[4 * i + 1], journal[4 * i + 2], journal[4 * i + 3]]);
    let drivers = props::drivers(&g.property, thorough).map(|d| d.0).unwrap_or_default();
    let mut suspects = vec![];
    if journal.len() == JOURNAL_BYTES {
        for t in 0..SLOTS {
            let b = t * SLOT_WORDS;
            if word(b) == 1 {
                let n = (word(b + 2) as usize).min(SLOT_WORDS - 3);
                if let Some(d) = drivers.get(word(b + 1) as usize) {
                    suspects.push(Violation { driver: d.name.clone(), choices: (0..n).map(|i| word(b + 3 + i)).collect(), message: message.clone(), trace: vec![] });
                }
            }
        }
    }
    let mut culprit = None;
    for v in &suspects {
        let p = report::write_replay(v);
        let _ = std::fs::create_dir_all(&g.scratch);
        println!("repeating an execution that was under way");
        let _ = std::io::stdout().flush();
        let a = [args[0].clone(), "replay".into(), p.to_string_lossy().into_owned()];
        if matches!(again(&a, &g.scratch), Ok(s) if fatal(s.signal())) {
            culprit = Some(v.clone());
            break;
        }
    }
    let v = culprit.or_else(|| suspects.into_iter().next()).unwrap_or(Violation { driver: "?".into(), choices: vec![], message, trace: vec![] });
    report::write_evidence(&[], 0.0, &[], 1, &g.verif);
    report::violation_and_exit(&v)
}
