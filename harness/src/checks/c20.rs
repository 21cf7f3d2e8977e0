//! C20: HEAD is switched only when the working directory is clean.

use super::c12::{any_dir, stealthy};
use crate::cli::Repo;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, check_listing, differences, Made};
use crate::shim;
use crate::util::{fnv, snap, snap_diff, sync_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random repositories with several refs (also moved to older commits, to commits of a part, or without commits) and working directories that are exactly HEAD's snapshot, differ from it \
by a little (one byte with size and times kept, an empty directory, a file in a deep directory, file to directory, one file gone) or by much. checkout-head to existing, new, odd and the same \
names, from random directories, with cold and warm caches and with injected I/O errors. A reference says whether the directory is clean: HEAD must have changed if and only if it is, the \
listing must be the difference, and no ref, object or file may have changed. Non-trivial: an attempt with commits, distinct by the two trees and the name.",
    assumptions: &["nothing else writes to the directory meanwhile"],
    needed: &["attempts", "switched", "refused", "clean_but_touched", "stealthy_edits", "one_empty_directory", "one_file_gone", "no_commits_empty", "no_commits_full", "moved_ref", "part_committed", "faulted_dirty", "faulted_clean", "from_subdirectory", "cold_cache"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("random", ctx.n(2500, 30000), |rng, i| random(ctx, rng, i));
}

const NAMES: &[&str] = &["master", "other", "master", "other", "master", "other", "a b", "x/y", "a b", "new", "a b", "x/y", "é", "", "HEAD", "/master", "up/other"];

fn random(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    let mut tips: BTreeMap<String, Made> = BTreeMap::new();
    let mut made: Vec<Made> = vec![];
    for i in 0..rng.below(4) {
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        t.dir_mut().remove(".snapcd");
        let name = *rng.pick(&["master", "other", "master", "a b", "x/y"]);
        let dirs: Vec<String> = t.paths().into_iter().filter(|p| p.1 && !p.0.starts_with('-')).map(|p| p.0).collect();
        let m = if !dirs.is_empty() && rng.chance(1, 8) {
            // A commit of a part of the tree.
            scen::put_root(&r, &t)?;
            let d = rng.pick(&dirs).clone();
            r.must(&["commit", "-m", "part", &format!("--path={}", d), "--", name])?;
            ctx.count("part_committed", 1);
            scen::made(&r.db()?, t.get(&d).unwrap(), "part", Some(name))?
        } else {
            scen::commit(&r, &t, &format!("m{}", i), Some(name))?
        };
        tips.insert(name.to_string(), m.clone());
        made.push(m);
        if rng.chance(1, 6) {
            let old = rng.pick(&made).clone();
            r.must(&["ref", "update", &model::user_key(&old.key), name])?;
            ctx.count("moved_ref", 1);
            tips.insert(name.to_string(), old);
        }
    }
    let mut head = "master".to_string();
    for step in 0..rng.range(2, 6) {
        // What the directory is now.
        let base = tips.get(&head).map(|m| m.node.clone()).unwrap_or_else(Node::empty);
        let mut u = base.clone();
        let mut touched = false;
        let kind = rng.below(12);
        match kind {
            0..=3 => {}
            4 => touched = true,
            5 => {
                let dirs: Vec<String> = u.paths().into_iter().filter(|p| p.1).map(|p| p.0).collect();
                let p = if dirs.is_empty() || rng.chance(1, 2) { "empty dir".to_string() } else { format!("{}/empty dir", rng.pick(&dirs)) };
                u.set(&p, Some(Node::empty()));
                ctx.count("one_empty_directory", 1);
            }
            6 if !u.paths().is_empty() => {
                let ps = u.paths();
                let p = rng.pick(&ps).0.clone();
                u.set(&p, None);
                ctx.count("one_file_gone", 1);
            }
            7 => {}
            8 => u = t.clone(),
            9 => u = Node::empty(),
            _ => {
                for _ in 0..rng.range(1, 4) {
                    gen::edit(rng, &mut u, &o);
                }
                u.dir_mut().remove(".snapcd");
            }
        }
        sync_tree(&r.root, &u, &[".snapcd"])?;
        if rng.chance(1, 3) {
            // What was looked at before is known to the cache.
            r.run(&["status"])?;
        }
        if rng.chance(1, 8) {
            let _ = std::fs::remove_dir_all(r.home.join("cache"));
            ctx.count("cold_cache", 1);
        }
        if kind == 7 && stealthy(&r.root, &mut u, rng)? {
            ctx.count("stealthy_edits", 1);
        }
        if touched {
            for (p, dir) in u.paths() {
                if !dir {
                    let f = r.root.join(&p);
                    if rng.chance(1, 2) {
                        let c = std::fs::read(&f)?;
                        std::fs::remove_file(&f)?;
                        std::fs::write(&f, c)?;
                    }
                    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o600))?;
                }
            }
            ctx.count("clean_but_touched", 1);
        }
        // An exact match of a commit of a part with the whole directory is a match all the same.
        let diff = differences(Some(&base), &u);
        let has = tips.contains_key(&head);
        let clean = diff.is_empty();
        if !has {
            ctx.count(if clean { "no_commits_empty" } else { "no_commits_full" }, 1);
        }
        let name = rng.pick(NAMES).to_string();
        let cwd = any_dir(rng, &r.root, &u);
        if cwd != r.root {
            ctx.count("from_subdirectory", 1);
        }
        let skip = [r.root.join(".snapcd"), r.home.clone()];
        let before = snap(&r.top, &|p| skip.iter().any(|s| s == p))?;
        let db = r.db()?;
        let args = ["checkout-head", "--", &name];
        let mut run = r.prep(&cwd, &args);
        let fault = rng.chance(1, 4);
        if fault {
            let class = *rng.pick(&["data.read", "data.open", "data.stat", "data.readdir", "db.read", "db.write", "db.sync", "db.open", "cache.read", "cache.write", "cache.open", "out.write"]);
            let errno = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::ENOENT]);
            run = shim::attach(run, &r).env("VS_FAIL", format!("{}:{}:{}{}", class, rng.range(1, 8), errno, if rng.chance(1, 3) { ":s" } else { "" }));
        }
        let out = run.go()?;
        let after = r.db()?;
        let what = format!("checkout-head {:?} with HEAD {:?} and a directory that {} ({})", name, head, if clean { "is clean".into() } else { format!("differs by {:?}", diff) }, out.brief());
        // No file, no ref, no object.
        if let Some(d) = snap_diff(&before, &snap(&r.top, &|p| skip.iter().any(|s| s == p))?) {
            crate::viol!("checkout-head-touches-files", "{}: {}", what, d);
        }
        ensure!(db.reflog == after.reflog, "checkout-head-touches-refs", "{}", what);
        for (k, v) in &db.data {
            ensure!(after.data.get(k) == Some(v), "checkout-head-touches-objects", "{}", what);
        }
        let mut other = after.state.clone();
        other.remove(&b"HEAD"[..]);
        let mut other0 = db.state.clone();
        other0.remove(&b"HEAD"[..]);
        ensure!(other == other0, "checkout-head-touches-state", "{}", what);
        let now = after.head().unwrap_or_default();
        ensure!(now == head || now == name, "head-changed-to-something-else", "{}: HEAD is {:?}", what, now);
        if fault {
            if clean {
                ctx.count("faulted_clean", 1);
                ensure!(!out.ok() || now == name, "head-not-switched", "{}: HEAD is {:?}", what, now);
            } else {
                ctx.count("faulted_dirty", 1);
                ensure!(now == head, "head-switched-when-dirty", "{}: HEAD is {:?}", what, now);
                ensure!(!out.ok(), "refusal-not-reported", "{}", what);
            }
        } else if clean {
            ensure!(out.ok() && now == name, "head-not-switched", "{}: HEAD is {:?}", what, now);
            let g = r.must(&["debug", "get-head"])?;
            ensure!(g.text().trim_end() == format!("head: Some({:?})", name), "head-not-switched", "{}: get-head prints {:?}", what, g.text());
        } else {
            ensure!(now == head, "head-switched-when-dirty", "{}: HEAD is {:?}", what, now);
            ensure!(!out.ok(), "refusal-not-reported", "{}", what);
            check_listing("a refused checkout-head", &out, &diff, true)?;
        }
        ctx.count("attempts", 1);
        ctx.count(if now == name && out.ok() { "switched" } else { "refused" }, 1);
        let fp = fnv(format!("{} {} {}", name, head, has).as_bytes()) ^ u.fingerprint() ^ base.fingerprint().rotate_left(7);
        ctx.eval(if has { Some(fp) } else { None });
        if step == 0 {
            ctx.sample_in("random", json!({ "case": case, "head": head, "to": name, "differs": diff.len(), "exit": out.code }));
        }
        head = now;
    }
    Ok(())
}
