mod acc;
#[cfg(feature = "threads")]
mod conc;
mod est;
mod evl;
mod exec;
mod faults;
mod gen;
mod hashers;
mod long;
mod memo;
mod port;
mod sk;
mod suites;
mod world;

use sk::Kind;

fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1).cloned())
        .unwrap_or_else(|| default.to_string())
}

fn main() {
    let suite = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let n: u64 = arg("--n", "6").parse().unwrap();
    let tier: u64 = if arg("--tier", "quick") == "thorough" { 1 } else { 0 };
    hashers::assert_invertible();
    world::set_shard(&arg("--shard", "0/1"));
    world::open(&arg("--out", "/dev/null"));
    match suite.as_str() {
        #[cfg(feature = "threads")]
        "conc-plus" => conc::conc(Kind::Plus, seed, n),
        #[cfg(feature = "threads")]
        "conc-pf" => conc::conc(Kind::PF, seed, n),
        #[cfg(feature = "threads")]
        "hot-plus" => conc::hot(Kind::Plus, seed, n),
        #[cfg(feature = "threads")]
        "hot-rounds-plus" => conc::rounds(Kind::Plus, seed, n),
        #[cfg(feature = "threads")]
        "hot-rounds-pf" => conc::rounds(Kind::PF, seed, n),
        #[cfg(feature = "threads")]
        "hot-pf" => conc::hot(Kind::PF, seed, n),
        #[cfg(feature = "threads")]
        "first-plus" => conc::first(Kind::Plus, seed),
        #[cfg(feature = "threads")]
        "first-pf" => conc::first(Kind::PF, seed),
        "mixed-plus" => est::mixed(Kind::Plus, seed, n),
        "mixed-pf" => est::mixed(Kind::PF, seed, n),
        "long-plus" => long::long(Kind::Plus, seed, n),
        "long-pf" => long::long(Kind::PF, seed, n),
        "longest" => long::longest(seed, n as u32),
        "faults-plus" => faults::faults(Kind::Plus, seed, n),
        "faults-pf" => faults::faults(Kind::PF, seed, n),
        "acc" => acc::acc(seed, n),
        "evl" => evl::evl(seed, n, &arg("--dir", "")),
        "gen-plus" | "gen-pf" => exec::exec(
            &arg("--in", ""),
            if suite == "gen-pf" { Kind::PF } else { Kind::Plus },
            arg("--p", "7").parse().unwrap(),
            arg("--via", "clone") == "clone",
            seed,
        ),
        s => {
            let text = match arg("--in", "").as_str() {
                "" => String::new(),
                f => std::fs::read_to_string(f).unwrap(),
            };
            assert!(suites::run(s, seed, n, tier, &text), "unknown suite {}", s)
        }
    }
    world::close();
}
