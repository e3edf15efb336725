mod bus;
mod rng;
mod isa68k;
mod timing;
mod model;
mod lockstep;
mod runner;
mod single;
mod grid;
mod hist;
mod exc;
mod prog;
mod asmapi;
mod text;
mod api;
mod hosted;
mod algo;
mod values;
mod tools;
mod board;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(cli(&args));
}

fn cli(args: &[String]) -> i32 {
    let Some(p) = args.first() else { eprintln!("usage: mon Cxx [--case work:unit:iter]"); return 4 };
    let case = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)).and_then(|c| {
        let v: Vec<&str> = c.split(':').collect();
        Some((v.first()?.to_string(), v.get(1)?.parse().ok()?, v.get(2)?.parse().ok()?))
    });
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (o, mut w) = match single::property(p, thorough).or_else(|| exc::property(p, thorough)).or_else(|| prog::property(p, thorough)).or_else(|| api::property(p, thorough)).or_else(|| hosted::property(p, thorough)).or_else(|| algo::property(p, thorough)).or_else(|| values::property(p, thorough)).or_else(|| tools::property(p, thorough)).or_else(|| board::property(p, thorough)) {
        Some(x) => x,
        None => { eprintln!("unknown property {p}"); return 4 },
    };
    // MON_SCALE: percentage of the volume, for development.
    let scale = std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    for x in w.iter_mut() { if x.iters > 1 && !x.exact { x.iters = (x.iters * volume(p, thorough) * scale / 100).max(1); } }
    runner::run(o, w, case)
}

/// Cases per unit of workload: the quick checks of the cheap properties are given about the same time as the expensive ones.
fn volume(p: &str, thorough: bool) -> u64 {
    let v = match p {
        "C06" => 20, "C03" | "C07" | "C10" | "C25" => 12, "C34" => 40, "C36" | "C37" => 30, "C40" => 20, "C35" => 5, "C05" | "C09" | "C13" => 10, "C01" | "C02" | "C04" | "C08" | "C19" | "C24" => 8, "C18" | "C32" => 7,
        "C11" | "C14" | "C15" | "C17" | "C21" | "C23" => 6, "C12" => 5, "C28" | "C31" => 4, "C20" | "C26" => 3, _ => 1,
    };
    if thorough && p != "C16" { v * 2 } else { v }
}
