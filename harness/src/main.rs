#![allow(dead_code, unused_mut)]
mod bv;
mod checks;
mod generic;
mod linear;
mod mutate;
mod lang;
#[path = "gen.rs"]
mod pgen;
mod runner;
mod spadec;
mod tape;
mod vparse;
mod vsim;

use runner::{Ctx, Tier};

fn main() {
    spadec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let tier = match a.get(3).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let Some((id, f)) = checks::all().into_iter().find(|c| c.0 == id) else {
                eprintln!("no check named {id}");
                std::process::exit(2);
            };
            let ctx = Ctx::new(id, tier, seed);
            f(&ctx);
            ctx.finish()
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("replay json");
            let id = v["property"].as_str().unwrap_or("").to_string();
            let Some((id, f)) = checks::all().into_iter().find(|c| c.0 == id) else {
                eprintln!("no check named {id}");
                std::process::exit(2);
            };
            let mut ctx = Ctx::new(id, Tier::Quick, seed);
            ctx.dry = true;
            ctx.known.clear();
            let tape = v["tape"].as_array().map(|x| x.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            ctx.replay = Some((v["label"].as_str().unwrap_or("").to_string(), tape));
            f(&ctx);
            ctx.finish()
        }
        Some("compile") => {
            // debugging aid: print what the compiler makes of a file
            let src = std::fs::read_to_string(&a[2]).unwrap();
            let std = a.iter().any(|x| x == "--std");
            let passes = a.iter().filter_map(|x| x.strip_prefix("--pass=")).map(|s| s.to_string()).collect();
            // several files: each starts with a line `//// NAMESPACE BASE`
            let files = if src.starts_with("//// ") {
                let seg = |x: &str| x.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>();
                ("\n".to_string() + &src)
                    .split("\n//// ")
                    .skip(1)
                    .map(|f| {
                        let (h, t) = f.split_once('\n').unwrap_or((f, ""));
                        let mut h = h.split(' ');
                        let (n, b) = (h.next().unwrap_or(""), h.next().unwrap_or(""));
                        spadec::File { ns: seg(n), base: seg(b), name: format!("{}{}", n.replace("::", "/"), if n == b { "/src/main.spade" } else { ".spade" }), src: t.to_string() }
                    })
                    .collect()
            } else {
                spadec::single(&src)
            };
            let out = runner::in_pool(|| spadec::run(&files, &spadec::Opts { std, passes, render: true, mir: a.iter().any(|x| x == "--mir"), ..Default::default() }));
            println!("{}", out.rendered);
            if let Some(p) = &out.panic {
                println!("PANIC {p}");
            }
            println!("{}", out.verilog.unwrap_or_default());
            println!("{}", out.mir.unwrap_or_default());
            0
        }
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.0);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID [quick|thorough] | vh replay FILE | vh compile FILE");
            2
        }
    };
    std::process::exit(code);
}
