//! Runtime monitors for khonsulabs/nominals. `vh run C07 --tier quick --seed 1 --out FILE`
mod chk;
mod ctx;
mod gen;
mod hostile;
mod huge;
mod models;
mod mon;
mod obs;
mod place;
mod props;
mod reenter;
mod strs;
mod sys;

#[global_allocator]
static ALLOC: mon::CountingAlloc = mon::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if args.get(1).map(String::as_str) == Some("cold") && args.len() == 4 {
        mon::install_panic_hook();
        if let Err(e) = props::cold_child(args[2].parse().unwrap(), args[3].parse().unwrap()) {
            println!("{}", e.replace('\n', " "));
            std::process::exit(1);
        }
        return;
    }
    if args.get(1).map(String::as_str) != Some("run") || args.len() < 3 {
        eprintln!("usage: vh run PROPERTY [--tier T] [--seed N] [--threads N] [--out FILE] [--crumbs FILE] [--dir DIR] [--part P]");
        std::process::exit(2);
    }
    let id = args[2].clone();
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => ctx::Tier::Thorough,
        Some("tiny") => ctx::Tier::Tiny,
        _ => ctx::Tier::Quick,
    };
    let seed = opt("--seed").and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    mon::install_panic_hook();
    if let Some(c) = opt("--crumbs") {
        mon::open_crumbs(&c);
    }
    if let Some(s) = opt("--watch").and_then(|s| s.parse().ok()) {
        mon::watchdog(s);
    }
    if let Some((i, n)) = opt("--shard").and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))) {
        *ctx::SHARD.lock().unwrap() = (i, n);
    }
    if let Some(s) = opt("--deadline").and_then(|s| s.parse().ok()) {
        *ctx::DEADLINE.lock().unwrap() = Some(std::time::Instant::now() + std::time::Duration::from_secs(s));
    }
    if let Some(t) = opt("--dict").and_then(|f| std::fs::read_to_string(f).ok()) {
        gen::load_dict(&t, tier == ctx::Tier::Tiny);
    }
    let mut total = ctx::Ctx::new(seed, 0, tier, props::kinds(&id));
    let o = props::Opts { threads, dir: opt("--dir").unwrap_or_default(), part: opt("--part").unwrap_or_default() };
    if let (Err(e), _) = mon::observe_unlimited(|| props::run(&id, &mut total, &o)) {
        eprintln!("the harness failed: {e}");
        std::process::exit(101);
    }
    let json = total.to_json();
    match opt("--out") {
        Some(f) => std::fs::write(f, json).unwrap(),
        None => println!("{json}"),
    }
    std::process::exit(i32::from(!total.viols.is_empty()));
}
