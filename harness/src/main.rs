mod big;
mod check;
mod engine;
mod evil;
mod gen;
#[cfg(feature = "helpers")]
mod helpers;
mod hostile;
mod more;
#[cfg(feature = "numbers")]
mod nums;
mod registry;
mod rng;
mod same;
mod sim;
mod token;
mod twin;
mod wire;
#[cfg(feature = "upgrade")]
mod upgrade;
mod world;
mod props;
mod texts;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        check::LAST_PANIC.with(|l| *l.borrow_mut() = t);
    }));
    let mut it = std::env::args().skip(1);
    let mut id = String::new();
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let mut a = check::Args {
        verif: env("VERIF_DIR"),
        thorough: env("VERIF_TIER") == "thorough",
        seed: env("VERIF_SEED").parse().unwrap_or(1),
        only: None,
        cases: None,
        seconds: 0,
    };
    if a.verif.is_empty() {
        a.verif = "/verif".into();
    }
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match x.as_str() {
            "--tier" => a.thorough = val() == "thorough",
            "--seed" => a.seed = val().parse().unwrap_or(1),
            "--case" => a.only = val().parse().ok(),
            "--cases" => a.cases = val().parse().ok(),
            "--seconds" => a.seconds = val().parse().unwrap_or(0),
            _ => id = x,
        }
    }
    if a.seconds == 0 {
        a.seconds = if a.thorough { 7200 } else { 500 };
    }
    if let Err(e) = big::self_test(&mut rng::Rng::new(a.seed, "self-test", 0)) {
        println!("harness error: {e}");
        std::process::exit(2);
    }
    let all = props::all();
    if id == "list" {
        for p in &all {
            println!("{} {} {}", p.id, p.level, p.title);
        }
        return;
    }
    let code = match all.iter().find(|p| p.id == id) {
        Some(p) => check::run(p, &a),
        None => {
            println!("no property {id}");
            2
        }
    };
    std::process::exit(code);
}
