//! vmon <property> [--replay <file>]: decides one property of /repo. See ../DESIGN.md.

mod cbor;
mod checks;
mod cli;
mod gen;
#[cfg(feature = "inproc")]
mod memds;
mod model;
mod report;
mod rng;
mod scen;
#[allow(dead_code)]
mod shim;
mod util;
mod windows;

use report::{Ctx, Tier};
use std::path::PathBuf;
use std::time::Duration;

struct Cleanup(PathBuf);

impl Drop for Cleanup {
    fn drop(&mut self) {
        if std::env::var_os("VMON_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn main() {
    std::process::exit(real_main());
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: vmon <property> [--replay <file>]");
        return 2;
    }
    let mut prop = args[0].clone();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let mut only = None;
    if args.len() == 3 && args[1] == "--replay" {
        let v: serde_json::Value = match std::fs::read(&args[2])
            .map_err(|e| e.to_string())
            .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
        {
            Ok(v) => v,
            Err(e) => {
                eprintln!("cannot read {}: {}", args[2], e);
                return 2;
            }
        };
        prop = v["property"].as_str().unwrap_or("").to_string();
        seed = v["seed"].as_u64().unwrap_or(1);
        tier = if v["tier"] == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        };
        only = Some((
            v["section"].as_str().unwrap_or("").to_string(),
            v["case"].as_u64().unwrap_or(0),
        ));
    }
    let check = match checks::find(&prop) {
        Some(c) => c,
        None => {
            eprintln!("no check for {}", prop);
            return 2;
        }
    };
    let var = |n: &str| PathBuf::from(std::env::var_os(n).unwrap_or_else(|| panic!("{} not set", n)));
    let verif = var("VMON_VERIF");
    let bin = var("VMON_BIN");
    let shim = var("VMON_SHIM");

    let base = util::scratch_base();
    util::remove_stale(&base);
    let scratch = base.join(format!("vmon-scratch-{}", std::process::id()));
    std::fs::create_dir(&scratch).expect("scratch");
    let scratch = std::fs::canonicalize(scratch).expect("scratch");
    let cleanup = Cleanup(scratch.clone());

    // Code under test that panics says so on stderr; in-process that is of no use.
    if std::env::var_os("VMON_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }

    let budget = match tier {
        Tier::Quick => Duration::from_secs(240),
        Tier::Thorough => Duration::from_secs(780),
    };
    let ctx = Ctx::new(
        &prop, tier, seed, verif, bin, shim, scratch, only, budget, check.meta,
    );
    let done = std::sync::atomic::AtomicBool::new(false);
    let code = std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if let Some(code) = ctx.watch() {
                    if std::env::var_os("VMON_KEEP").is_none() {
                        let _ = std::fs::remove_dir_all(&cleanup.0);
                    }
                    std::process::exit(code);
                }
            }
        });
        (check.run)(&ctx);
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        ctx.finish()
    });
    drop(cleanup);
    code
}
