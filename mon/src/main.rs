//! mon <property|tour|iso> [--seed N] [--tier quick|thorough] [--config NAME] [--out FILE] [--events FILE]
//!     [--only TASK] [--threads N] [--scale PER_MILLE] [extra words]
//! Exit 0: the run finished (its findings are in the output file). Exit 3: the model failed its own
//! self test. Anything else: the harness or the code under test crashed.

use mon::rec::Cfg;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let mut cfg = Cfg {
        prop: prop.clone(), seed: 1, thorough: false, config: "?".into(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4), only: None, events: false, scale: 1000, extra: Vec::new(),
    };
    let (mut out, mut events) = (None, None);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--seed" => cfg.seed = args.next().unwrap().parse().unwrap(),
            "--tier" => cfg.thorough = args.next().unwrap() == "thorough",
            "--config" => cfg.config = args.next().unwrap(),
            "--out" => out = args.next(),
            "--events" => { events = args.next(); cfg.events = true }
            "--only" => cfg.only = Some(args.next().unwrap().parse().unwrap()),
            "--threads" => cfg.threads = args.next().unwrap().parse().unwrap(),
            "--scale" => cfg.scale = args.next().unwrap().parse().unwrap(),
            _ => cfg.extra.push(a),
        }
    }
    if !cfg!(miri) {
        if let Err(e) = mon::refimpl::self_test() { eprintln!("reference model self test: {}", e); std::process::exit(3) }
    }
    mon::rec::install_panic_hook();
    #[cfg(feature = "m-tour")]
    if prop == "tour" {
        let lines = mon::tour::run(cfg.seed, cfg.scale >= 1000, &cfg.extra);
        return emit(out.as_deref(), &(lines.join("\n") + "\n"))
    }
    #[cfg(feature = "m-iso")]
    if prop == "iso" {
        return emit(out.as_deref(), &mon::iso::transcript(cfg.seed, cfg.n(300, 1500), cfg.extra.first().map(|x| x.as_str()).unwrap_or("forward")))
    }
    let o = out.as_deref();
    let t = run(&prop, &cfg, o);
    if let Some(p) = events { std::fs::write(p, t.events.join("\n") + "\n").expect("events file") }
    emit(o, &(t.json(&cfg) + "\n"));
}

fn emit(out: Option<&str>, s: &str) {
    match out { Some(p) => std::fs::write(p, s).expect("output file"), None => print!("{}", s) }
}

#[allow(unused_variables)]
fn run(prop: &str, cfg: &Cfg, o: Option<&str>) -> mon::rec::Total {
    #[cfg(feature = "m-hash")]
    match prop {
        "c01" => return mon::hashing::c01(cfg, o), "c02" => return mon::hashing::c02(cfg, o), "c03" => return mon::hashing::c03(cfg, o),
        "c04" => return mon::hashing::c04(cfg, o), "c05" => return mon::hashing::c05(cfg, o), "c06" => return mon::hashing::c06(cfg, o),
        "c08" => return mon::hashing::c08(cfg, o), "c18" => return mon::hashing::c18(cfg, o),
        _ => {}
    }
    #[cfg(feature = "m-foreign")]
    if prop == "c19" { return mon::foreign::c19(cfg, o) }
    #[cfg(feature = "m-long")]
    if prop == "c07" { return mon::long::c07(cfg, o) }
    #[cfg(feature = "m-vals")]
    match prop { "c09" => return mon::vals::c09(cfg, o), "c11" => return mon::vals::c11(cfg, o), "c12" => return mon::vals::c12(cfg, o), _ => {} }
    #[cfg(feature = "m-serde")]
    match prop { "c10" => return mon::serdes::c10(cfg, o), "c17" => return mon::serdes::c17(cfg, o), _ => {} }
    #[cfg(feature = "m-io")]
    if prop == "c16" { return mon::writers::c16(cfg, o) }
    #[cfg(feature = "m-iso")]
    if prop == "c15" { return mon::iso::c15(cfg, o) }
    panic!("property {} not compiled in", prop)
}
