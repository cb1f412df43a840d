#![allow(dead_code)]
mod fw;
mod gen;
mod model;
mod real;
mod rng;
mod val;
mod p_tx;
mod p_store;
mod p_query;
mod p_find;
mod p_input;
mod p_cache;
mod p_pull;
mod p_values;
mod p_edn;
mod p_fts;
mod p_log;
mod p_time;
mod p_sync;
mod p_vocab;
mod p_build;
mod alloc;
mod p_ffi;
mod vfs;
mod p_crash;
mod p_cli;
mod p_conc;
mod p_obs;
mod query;

use fw::*;
use std::path::PathBuf;

#[cfg(feature = "watch")]
#[global_allocator]
static WATCH: alloc::Watch = alloc::Watch;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_tx::props());
    v.extend(p_store::props());
    v.extend(p_query::props());
    v.extend(p_find::props());
    v.extend(p_input::props());
    v.extend(p_cache::props());
    v.extend(p_pull::props());
    v.extend(p_values::props());
    v.extend(p_edn::props());
    v.extend(p_log::props());
    v.extend(p_fts::props());
    v.extend(p_obs::props());
    v.extend(p_time::props());
    v.extend(p_sync::props());
    v.extend(p_vocab::props());
    v.extend(p_build::props());
    v.extend(p_ffi::props());
    v.extend(p_crash::props());
    v.extend(p_conc::props());
    v.extend(p_cli::props());
    v
}

fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |i: usize| args.get(i).cloned().unwrap_or_default();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let all = props();
    let prop = all.iter().find(|p| p.id == get(2));
    let code = match (get(1).as_str(), prop) {
        ("list", _) => { for p in &all { println!("{}", p.id); } 0 }
        ("run", Some(p)) => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            parent(p, seed, tier_of(&std::env::var("VERIF_TIER").unwrap_or_default()), &verif, &[])
        }
        ("worker", Some(p)) => {
            install_panic_hook(false);
            let n = |i| get(i).parse::<u64>().expect("number");
            worker(p, n(6), tier_of(&get(7)), n(3), n(4), &PathBuf::from(get(5)))
        }
        ("case", Some(p)) => {
            install_panic_hook(true);
            let scratch = PathBuf::from(format!("/tmp/mverif.case.{}", std::process::id()));
            let _ = std::fs::create_dir_all(&scratch);
            let (ctx, r) = run_case(p, get(4).parse().unwrap_or(1), get(3).parse().expect("index"), tier_of(&get(5)), &scratch, true);
            let _ = std::fs::remove_dir_all(&scratch);
            eprintln!("stats {:?}", ctx.stats);
            match r {
                Ok(()) => { println!("case ok ({} evaluations)", ctx.evals); 0 }
                Err(Bad::Costly) => { println!("cut short: too much work"); 0 }
                Err(Bad::Inconclusive(m)) => { println!("inconclusive: {}", m); 2 }
                Err(Bad::Violation { sig, msg }) => { println!("violation [{}]: {}", sig, msg); 1 }
            }
        }
        ("deep", _) => p_edn::deep(get(2).parse().unwrap_or(0)),
        _ => { eprintln!("usage: mverif run|worker|case PROP ..."); 2 }
    };
    std::process::exit(code);
}
