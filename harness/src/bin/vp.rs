use std::path::Path;
use vph::engine::Prop;
use vph::supervisor::{self as sv, Opts};

fn prop(id: &str) -> Prop {
    match vph::props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => {
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || a.iter().any(|x| x == "--thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let scale = std::env::var("VP_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
            let only_sub = std::env::var("VP_SUB").ok();
            sv::check(&prop(s(2)), &Opts { thorough, seed, scale, only_sub, guided: false })
        }
        "worker" => {
            sv::map_shared(Path::new(s(3)));
            let only = s(10);
            let o = Opts {
                seed: s(7).parse().unwrap(),
                thorough: s(8) == "true",
                scale: s(9).parse().unwrap(),
                only_sub: if only.is_empty() { None } else { Some(only.to_owned()) },
                guided: s(11) == "true",
            };
            sv::worker(&prop(s(2)), &o, s(5).parse().unwrap(), s(6).parse().unwrap(), Path::new(s(4)))
        }
        "one" => {
            let tape = std::fs::read(s(4)).unwrap_or_default();
            if !s(5).is_empty() && s(5) != "-v" {
                sv::map_shared(Path::new(s(5)));
            }
            sv::one(&prop(s(2)), s(3), &tape, a.iter().any(|x| x == "-v"))
        }
        "range" => {
            sv::map_shared(Path::new(s(4)));
            let o = Opts { seed: s(8).parse().unwrap(), thorough: s(9) == "true", scale: s(10).parse().unwrap_or(1.0), only_sub: Some(s(11).to_owned()).filter(|x| !x.is_empty()), guided: s(12) == "true" };
            sv::range(&prop(s(2)), &o, s(3), s(5).parse().unwrap(), s(6).parse().unwrap(), s(7).parse().unwrap())
        }
        "shrink" => {
            let tape = std::fs::read(s(4)).unwrap_or_default();
            sv::shrink_in_process(&prop(s(2)), s(3), tape, Path::new(s(5)))
        }
        "replay" => sv::replay(Path::new(s(2))),
        "helper" => vph::props::helper(&a[2..]),
        // Addresses of the instrumented edges.
        "edges" => {
            for p in vph::cov::edge_pcs() {
                println!("0x{:x}", p);
            }
            0
        }
        "list" => {
            for id in vph::props::IDS {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: vp check <property> | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
