mod checks;
mod edit;
mod gen;
mod prog;
mod rep;
mod rng;
mod script;
mod session;
mod shadow;
mod sup;

use rep::Rep;

#[global_allocator]
static A: checks::mem::Counting = checks::mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: vmon <id> <quick|thorough> [part case]");
        std::process::exit(2);
    }
    if a[1] == "pairs" {
        pairs(&a[2]);
        return;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if a[1] == "corpus" {
        checks::safe::corpus(&a[2], seed, a.get(3).and_then(|n| n.parse().ok()).unwrap_or(10));
        return;
    }
    let (id, tier) = (a[1].as_str(), a[2].as_str());
    if std::env::var("VMON_JOURNAL").is_err() {
        std::process::exit(sup::supervise(&a[1..], seed));
    }
    rep::install_panic_hook();
    let mut rep = Rep::new(id, tier, seed);
    if a.len() >= 5 {
        rep.only_part = Some(a[3].clone());
        rep.only = a[4].parse().ok();
    }
    let rep = rep;
    sup::watch(&rep);
    if !checks::run(&rep) {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    }
    std::process::exit(rep.finish("exploration"));
}

/// Read pairs of programs and say of each whether the first is accepted and means what the second does.
fn pairs(file: &str) {
    let t = std::fs::read_to_string(file).expect("pairs file");
    for p in t.split('\x1e').filter(|p| !p.is_empty()) {
        let (a, b) = p.split_once('\x1f').expect("pair");
        let read = |t| std::panic::catch_unwind(|| glicol_parser::get_ast(t).map_err(|e| e.to_string())).unwrap_or(Err("panic".into()));
        let l = match (read(a), read(b)) {
            (Err(e), _) => format!("rejected: {e}"),
            (Ok(_), Err(e)) => panic!("reference program: {e}\n{b}"),
            (Ok(a), Ok(b)) if a == b => "same".into(),
            (Ok(a), Ok(b)) => format!("means {a:?}, not {b:?}"),
        };
        println!("{}", l.replace('\n', " "));
    }
}
