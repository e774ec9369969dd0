//! Deterministic simulation of fajt: `fajt-sim check P01`, `fajt-sim replay FILE`.

mod corpus;
mod engine;
mod gen;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod faultio;
mod jobs;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p15;
mod damage;
mod rng;
mod source;
mod sysio;
mod walk;

#[global_allocator]
static ALLOCATOR: simhooks::memory::Counting = simhooks::memory::Counting;

use corpus::Corpus;
use engine::{Options, Tier};

fn env_u64(name: &str) -> Option<u64> {
    std::env::var(name).ok()?.trim().parse().ok()
}

fn usage() -> ! {
    eprintln!(
        "usage: fajt-sim check ID [--tier quick|thorough] [--seed N] [--workers N] [--cases N]\n\
         \x20                        [--evidence FILE] [--replays DIR] [--dump-digests]\n\
         \x20      fajt-sim replay FILE"
    );
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::silence_panics();
    let code = match args.first().map(String::as_str) {
        Some("check") if args.len() >= 2 => check(&args[1], &args[2..]),
        Some("replay") if args.len() == 2 => replay(&args[1]),
        _ => usage(),
    };
    std::process::exit(code);
}

/// Runs `$body` with the property named by an id.
macro_rules! with_property {
    ($id:expr, $p:ident => $body:expr) => {
        match $id {
            "P01" => {
                let $p = p01::P01 { corpus: Corpus::load() };
                $body
            }
            "P02" => {
                let $p = p02::P02 { corpus: Corpus::load() };
                $body
            }
            "P03" => {
                let $p = p03::P03 { corpus: Corpus::load() };
                $body
            }
            "P04" => {
                let $p = p04::P04;
                $body
            }
            "P06" => {
                let $p = p06::P06::new();
                $body
            }
            "P07" => {
                let $p = p07::P07::new(Corpus::load());
                $body
            }
            "P14" => {
                let $p = p07::P14::new(Corpus::load());
                $body
            }
            "P15" => {
                let $p = p15::P15::new();
                $body
            }
            "P08" => {
                let $p = p08::P08 { corpus: Corpus::load() };
                $body
            }
            "P09" => {
                let $p = p09::P09 { corpus: Corpus::load() };
                $body
            }
            "P10" => {
                let $p = p10::P10 { corpus: Corpus::load() };
                $body
            }
            "P05" => {
                let $p = p05::P05 { corpus: Corpus::load() };
                $body
            }
            "P11" => {
                let $p = p11::P11::new();
                $body
            }
            "P12" => {
                let $p = p12::P12 { corpus: Corpus::load() };
                $body
            }
            "P13" => {
                let $p = p13::P13 { corpus: Corpus::load() };
                $body
            }
            other => {
                eprintln!("unknown property {other}");
                2
            }
        }
    };
}

fn check(id: &str, args: &[String]) -> i32 {
    let mut o = Options {
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: env_u64("VERIF_SEED").unwrap_or(1),
        workers: std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16),
        cases: env_u64("VERIF_CASES"),
        evidence: None,
        replay_dir: "replays".to_owned(),
        dump_digests: false,
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut value = || it.next().cloned().unwrap_or_else(|| usage());
        match a.as_str() {
            "--tier" => o.tier = if value() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = value().parse().unwrap_or_else(|_| usage()),
            "--workers" => o.workers = value().parse().unwrap_or_else(|_| usage()),
            "--cases" => o.cases = Some(value().parse().unwrap_or_else(|_| usage())),
            "--evidence" => o.evidence = Some(value()),
            "--replays" => o.replay_dir = value(),
            "--dump-digests" => o.dump_digests = true,
            _ => usage(),
        }
    }
    with_property!(id, p => engine::check(&p, &o))
}

fn replay(path: &str) -> i32 {
    let id = engine::replay_property(path).unwrap_or_else(|| {
        eprintln!("not a replay file: {path}");
        std::process::exit(2)
    });
    with_property!(id.as_str(), p => engine::replay(&p, path))
}
