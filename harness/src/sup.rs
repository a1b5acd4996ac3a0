//! The supervising process: attributes a crash of the worker to the case it was running.

use crate::rep::{self, Rep, ROOT};
use std::io::{BufRead, BufReader};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

enum End {
    Code(i32),
    /// killed by a signal that means the code itself went wrong
    Crash(i32, String),
    /// killed for a reason that says nothing about the code
    Unknown(String),
}

fn worker(args: &[String], dir: &str) -> End {
    let exe = std::env::current_exe().unwrap();
    let child = Command::new(exe).args(args).env("VMON_JOURNAL", dir).stderr(Stdio::piped()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return End::Unknown(format!("cannot start the worker: {e}")),
    };
    let mut tail: Vec<String> = vec![];
    for l in BufReader::new(child.stderr.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        eprintln!("{l}");
        tail.push(l);
        if tail.len() > 40 {
            tail.remove(0);
        }
    }
    let st = match child.wait() {
        Ok(s) => s,
        Err(e) => return End::Unknown(e.to_string()),
    };
    let tail = tail.join("\n");
    match st.signal() {
        None => End::Code(st.code().unwrap_or(2)),
        Some(s) if [4, 6, 7, 8, 11].contains(&s) && !tail.contains("memory allocation of") => End::Crash(s, tail),
        Some(s) => End::Unknown(format!("worker ended by signal {s}")),
    }
}

pub fn supervise(args: &[String], seed: u64) -> i32 {
    let id = &args[0];
    let dir = format!("{}/vmon-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("ERROR: no journal directory");
        return 2;
    }
    let end = worker(args, &dir);
    let mut open: Vec<(String, String)> = vec![];
    if let Ok(d) = std::fs::read_dir(&dir) {
        for f in d.flatten() {
            let t = std::fs::read_to_string(f.path()).unwrap_or_default();
            let w: Vec<&str> = t.split_whitespace().collect();
            if w.len() == 3 {
                open.push((w[1].into(), w[2].into()));
            }
        }
    }
    let rc = match end {
        End::Code(c) => c,
        End::Unknown(e) => {
            eprintln!("ERROR: {e}");
            2
        }
        End::Crash(sig, tail) => {
            let mut found = None;
            for (part, case) in &open {
                let one = vec![args[0].clone(), args[1].clone(), part.clone(), case.clone()];
                match worker(&one, &dir) {
                    End::Crash(s, t) => {
                        found = Some((part.clone(), case.clone(), s, t));
                        break;
                    }
                    _ => continue,
                }
            }
            let (part, case, sig, tail) = found.unwrap_or_else(|| {
                let o = open.iter().map(|(p, c)| format!("{p}#{c}")).collect::<Vec<_>>().join(" ");
                ("unknown".into(), o, sig, tail)
            });
            let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
            let path = format!("{ROOT}/replays/{id}-{seed}-crash.txt");
            let _ = std::fs::write(
                &path,
                format!("property {id}\nthe process running the code under test ended by signal {sig}\nreplay with: VERIF_SEED={seed} ./check {id} {} {part} {case}\n\n{tail}\n", args[1]),
            );
            println!("the process running the code under test ended by signal {sig} in {part} {case}");
            println!("VIOLATION property={id} replay={path}");
            if args.len() < 3 {
                // the worker could not write its evidence
                let rep = Rep::new(id, &args[1], seed);
                rep.crashed();
                rep.evidence("exploration");
            }
            1
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

/// processor seconds one case may use; ordinary cases use milliseconds
const CASE_CPU_S: u64 = 60;

/// Watch for a case that keeps computing without end. Judged by the processor time of its own thread,
/// so a busy or suspended machine does not matter.
pub fn watch(rep: &Rep) {
    let (id, tier, seed) = (rep.id.clone(), rep.tier.clone(), rep.seed);
    let single = rep.only.is_some();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in rep::slots() {
            let (tid, serial) = (s.tid.load(SeqCst), s.serial.load(SeqCst));
            if serial == 0 {
                continue;
            }
            let Some(cpu) = cpu_ns(tid) else { continue };
            if s.seen.swap(serial, SeqCst) != serial {
                s.at.store(cpu, SeqCst);
                continue;
            }
            if cpu.saturating_sub(s.at.load(SeqCst)) > CASE_CPU_S * 1_000_000_000 && s.serial.load(SeqCst) == serial {
                let (part, case) = s.case.lock().unwrap().clone();
                let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
                let path = format!("{ROOT}/replays/{id}-{seed}-endless.txt");
                let what = format!("a call did not return within {CASE_CPU_S} s of processor time of its thread");
                let _ = std::fs::write(&path, format!("property {id}\n{what}\nreplay with: VERIF_SEED={seed} ./check {id} {tier} {part} {case}\n"));
                println!("{what} in {part} {case}");
                println!("VIOLATION property={id} replay={path}");
                if !single {
                    let rep = Rep::new(&id, &tier, seed);
                    rep.crashed();
                    rep.evidence("exploration");
                }
                std::process::exit(1);
            }
        }
    });
}

fn cpu_ns(tid: u64) -> Option<u64> {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?.split_whitespace().next()?.parse().ok()
}

pub struct Slot {
    pub tid: AtomicU64,
    pub serial: AtomicU64,
    pub seen: AtomicU64,
    pub at: AtomicU64,
    pub case: std::sync::Mutex<(String, u64)>,
}
