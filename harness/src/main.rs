mod engine;
mod mem;
mod props;
mod sched;
mod util;
mod zoo;

use engine::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("usage: mc PROPERTY [options]");
    let mut tier = Tier::Quick;
    let mut seed = 1u64;
    let mut mode = String::new();
    let mut out = None;
    let mut opts = Opts {
        only: None,
        choices: None,
        case_wall: 200.0,
        journal: None,
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--tier" => {
                tier = if v() == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--seed" => seed = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--case" => opts.only = Some(v()),
            "--choices" => {
                opts.choices = Some(
                    v().split(',')
                        .filter(|s| !s.is_empty())
                        .map(|s| s.parse().unwrap())
                        .collect(),
                )
            }
            "--case-wall" => opts.case_wall = v().parse().unwrap(),
            "--mode" => mode = v(),
            "--journal" => opts.journal = Some(v()),
            _ => panic!("unknown option {}", a),
        }
    }
    install_panic_hook();
    getrandom::set_base_seed(seed);
    if mode == "sched" || mode == "proc" {
        let mut plan = sched::SPlan {
            tier,
            cases: vec![],
            bounds: vec![],
            assumptions: vec![],
        };
        if !props::plan_sched(&prop, &mut plan) {
            eprintln!("unknown property {}", prop);
            std::process::exit(4);
        }
        let o = sched::drive(&prop, &mode, plan, &opts);
        finish(o, out);
    }
    util::prewarm();
    let mut plan = Plan {
        tier,
        seed,
        cases: vec![],
        bounds: vec![],
        assumptions: vec![],
        workers: 8,
        exhaustive: true,
    };
    if !props::plan(&prop, &mut plan) {
        eprintln!("unknown property {}", prop);
        std::process::exit(4);
    }
    let o = run(&prop, plan, &opts);
    finish(o, out)
}
fn finish(o: Outcome, out: Option<String>) -> ! {
    let js = serde_json::to_string_pretty(&o).unwrap();
    match &out {
        Some(p) => std::fs::write(p, js).unwrap(),
        None => println!("{}", js),
    }
    let code = if !o.timeouts.is_empty() {
        3
    } else if !o.violations.is_empty() {
        1
    } else {
        0
    };
    // Threads that are stuck must not keep the process alive.
    std::process::exit(code);
}
