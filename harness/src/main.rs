mod engine;
mod gram;
mod lexs;
mod mk;
mod nt;
mod p_gram;
mod p_json;
mod p_lex;
mod p_more;
mod peg;
mod props;
mod re;
mod regress;
mod tape;

use std::path::PathBuf;

fn prop(id: &str) -> &'static engine::Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => {
            let p = prop(arg(2));
            let env = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string());
            let seed = env("VERIF_SEED", "1").parse().unwrap_or_else(|_| engine::fnv(env("VERIF_SEED", "1").as_bytes()));
            let tier = if arg(3).is_empty() { env("VERIF_TIER", "quick") } else { arg(3).to_string() };
            let scale = env("VERIF_SCALE", "1").parse().unwrap_or(1.0);
            let verif = PathBuf::from(env("VERIF_DIR", "/verif"));
            let other = if arg(4).is_empty() { None } else { Some(PathBuf::from(arg(4))) };
            std::process::exit(engine::check(p, engine::CheckArgs { seed, tier, verif, scale, other }))
        }
        "worker" => engine::worker(
            prop(arg(2)),
            engine::WorkerArgs {
                seed: arg(3).parse().unwrap(),
                total: arg(4).parse().unwrap(),
                k: arg(5).parse().unwrap(),
                dir: PathBuf::from(arg(6)),
                digests: arg(7) == "1",
            },
        ),
        "one" => {
            if arg(3) == "--case" {
                engine::one(prop(arg(2)), None, arg(4).parse().unwrap(), arg(5).parse().unwrap(), Some(PathBuf::from(arg(6))))
            } else {
                let t = serde_json::from_str(&std::fs::read_to_string(arg(4)).unwrap()).unwrap();
                engine::one(prop(arg(2)), Some(t), 0, 0, None)
            }
        }
        "reg" => std::process::exit(engine::reg(prop(arg(2)), arg(3))),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
            let p = prop(v["property"].as_str().unwrap());
            if let Some(name) = v["case"].as_str().and_then(|s| s.strip_prefix("regression:")) {
                std::process::exit(engine::reg(p, name))
            }
            let t = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            std::process::exit(engine::replay(p, t))
        }
        "list" => props::ALL.iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: vh check ID [quick|thorough] | replay FILE | list");
            std::process::exit(2)
        }
    }
}
