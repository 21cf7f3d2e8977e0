//! C09: a crash loses no completed command and leaves no half-done one.

use crate::cli::{commit_args, Db, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::shim::{self, Disk, Loss, Op};
use crate::util::{write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

pub const META: Meta = Meta {
    level: "fault_enumeration",
    rule: "Sequences of commands run on a repository while every change they make to its files is recorded in order. From the \
record the disk is rebuilt as it could be after a crash before each single change: everything arrived (the process died), nothing that was not synced arrived, \
or any part of it (whole or torn writes, and directory entries). Each such disk is opened by SQLite, and some by the program; refs, HEAD and objects must be \
exactly those before or after the command that was running, and exactly those after it once it had exited with success. Besides, the \
running program is killed at each change, also half way through a write and again while it recovers. Non-trivial: a state that differs from the \
file before the command. Distinct by command sequence, crash point and loss.",
    assumptions: &[
        "fsync makes what was written durable; a new directory is durable with the first file synced in it",
        "what is not synced is lost in any subset of writes, torn at 512 bytes",
    ],
    needed: &["crash_states_opened", "completed_commands_checked", "kills", "opened_by_program", "spilling_transactions"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("power", ctx.n(180, 1000), |rng, i| power(ctx, rng, i));
    ctx.cases("kill", ctx.n(120, 600), |rng, i| kill(ctx, rng, i));
    ctx.cases("init", ctx.n(24, 60), |rng, _| init(ctx, rng));
}

/// A command that changes something, and how many of its operations there are is anybody's guess.
pub fn command(rng: &mut Rng, r: &Repo<'_>, t: &mut Node, big: bool) -> Res<Vec<String>> {
    let db = r.db()?;
    let tips: Vec<String> = db
        .reflog
        .iter()
        .filter_map(|x| model::from_dbkey(&x.3).ok())
        .map(|k| model::user_key(&k))
        .collect();
    let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
    let o = gen::TreeOpts {
        max_blocks: 2,
        ..gen::TreeOpts::small()
    };
    if big {
        let mut v = rng.bytes(3 << 20);
        v.extend_from_slice(&gen::content_of(rng, gen::Kind::Scripted, 20));
        t.set("big file", Some(Node::File(v)));
        crate::scen::put_root(r, t)?;
        return Ok(s(&["commit", "-m", "big"]));
    }
    Ok(match rng.below(10) {
        0..=2 => {
            for _ in 0..rng.range(1, 4) {
                gen::edit(rng, t, &o);
            }
            crate::scen::put_root(r, t)?;
            let refname = if rng.chance(1, 2) {
                None
            } else {
                Some(*rng.pick(&["other", "a b", "master"][..]))
            };
            commit_args(&gen::message(rng), refname)
        }
        3 => {
            let p = r.top.join("ins");
            let _ = std::fs::remove_dir_all(&p);
            let u = gen::tree(rng, &o);
            write_tree(&p, &u, None)?;
            s(&["insert", p.to_str().unwrap()])
        }
        4 if !tips.is_empty() => {
            let k = rng.pick(&tips).clone();
            s(&["ref", "update", &k, "moved"])
        }
        5 if !tips.is_empty() => {
            let k = rng.pick(&tips).clone();
            s(&["debug", "reflog-push", &k, "main", "origin"])
        }
        6 => s(&["debug", "set-head", *rng.pick(&["x", "master", "other"][..])]),
        7 => {
            // hashes files, and stores what it finds
            for _ in 0..3 {
                gen::edit(rng, t, &o);
            }
            crate::scen::put_root(r, t)?;
            s(&["status"])
        }
        8 if !tips.is_empty() => s(&["checkout-head", "other"]),
        _ => {
            let p = r.top.join("file");
            std::fs::write(&p, gen::content(rng, 4).0)?;
            s(&["insert", p.to_str().unwrap()])
        }
    })
}

fn prepared<'a>(ctx: &'a Ctx, rng: &mut Rng) -> Res<(Repo<'a>, Node)> {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts::small());
    for i in 0..rng.below(3) {
        gen::edit(rng, &mut t, &gen::TreeOpts::small());
        crate::scen::put_root(&r, &t)?;
        r.commit(&format!("before {}", i), None)?;
    }
    if rng.chance(1, 3) {
        let p = r.top.join("pre");
        std::fs::write(&p, gen::content(rng, 6).0)?;
        r.insert(&p)?;
    }
    Ok((r, t))
}

fn same_name(files: &BTreeMap<String, Vec<u8>>, dir: &Path) -> std::io::Result<()> {
    shim::write_files(dir, files)
}

/// The next command may come much later, and the clock may have been set.
fn age(rng: &mut Rng, dir: &Path) -> std::io::Result<()> {
    if rng.chance(1, 3) {
        return Ok(());
    }
    let by = *rng.pick(&[2i64, 20, 120, 4000, 100_000, 3_000_000, 900_000_000, -7200]);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|x| x.as_secs() as i64).unwrap_or(0);
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        if e.file_type()?.is_file() {
            let at = std::time::UNIX_EPOCH + std::time::Duration::from_secs((now - by) as u64);
            let h = std::fs::File::options().write(true).open(e.path())?;
            h.set_times(std::fs::FileTimes::new().set_accessed(at).set_modified(at))?;
        }
    }
    Ok(())
}

/// A command that opens the database and changes nothing.
fn opener(rng: &mut Rng) -> &'static [&'static str] {
    if rng.chance(1, 3) {
        &["init"]
    } else {
        &["debug", "get-head"]
    }
}

fn load_state(dir: &Path) -> Result<Db, String> {
    let f = dir.join("snapcd.db");
    if !f.exists() {
        return Ok(Db::default());
    }
    Db::load(&f).map_err(|e| e.to_string())
}

struct Step {
    args: Vec<String>,
    out: Out,
    ops: Vec<Op>,
    after: Db,
}

fn power(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let (r, mut t) = prepared(ctx, rng)?;
    let big = i % 9 == 4;
    let dir = r.root.join(".snapcd");
    let base = shim::read_files(&dir)?;
    let before = r.db()?;
    let mut steps: Vec<Step> = Vec::new();
    for k in 0..(if big { 1 } else { rng.range(1, 4) }) {
        let args = command(rng, &r, &mut t, big)?;
        let log = r.top.join(format!("log{}", k));
        let out = shim::attach(r.prep(&r.root, &args), &r).env("VS_LOG", &log).go()?;
        let ops = match shim::parse_log(&std::fs::read(&log).unwrap_or_default()) {
            Ok(o) => o,
            Err(e) => crate::inconclusive!("record of changes: {}", e),
        };
        if !out.ok() && args[0] != "checkout-head" {
            crate::viol!("ordinary-command-fails", "{:?} fails: {}", args, out.brief());
        }
        let after = r.db()?;
        steps.push(Step { args, out, ops, after });
    }
    // Replay.
    let crash_dir = r.top.join("crash");
    let mut disk = Disk::new(&base);
    let total: usize = steps.iter().map(|s| s.ops.iter().filter(|o| o.changes()).count()).sum();
    if big {
        ctx.count("spilling_transactions", 1);
    }
    ctx.max("most_changes_in_one_sequence", total as u64);
    let budget = ctx.n(260, 700) as usize;
    let fp = crate::util::fnv(format!("{:?}", steps.iter().map(|s| &s.args).collect::<Vec<_>>()).as_bytes());
    let mut at = 0usize;
    for (k, s) in steps.iter().enumerate() {
        let pre = if k == 0 { &before } else { &steps[k - 1].after };
        for op in &s.ops {
            if op.changes() {
                at += 1;
                let take = total * 4 <= budget || rng.below(total * 4) < budget || at <= 3;
                for loss in &[Loss::Nothing, Loss::All, Loss::Some, Loss::Torn] {
                    if !take && !(total * 4 > budget && rng.below(total * 8) < budget) {
                        continue;
                    }
                    let files = disk.crash(*loss, rng);
                    judge(ctx, rng, &r, &crash_dir, &files, &[pre, &s.after], *loss, &s.args, op.name(), fp ^ (at as u64) << 16)?;
                }
            }
            if let Err(e) = disk.step(op) {
                crate::inconclusive!("replaying changes: {}", e);
            }
        }
        // It has exited: with success, it stays.
        for loss in &[Loss::Nothing, Loss::All, Loss::Some, Loss::Torn] {
            let files = disk.crash(*loss, rng);
            if s.out.ok() {
                ctx.count("completed_commands_checked", 1);
                judge(ctx, rng, &r, &crash_dir, &files, &[&s.after], *loss, &s.args, "exit", fp ^ (at as u64) << 16 ^ 1)?;
            } else {
                judge(ctx, rng, &r, &crash_dir, &files, &[pre, &s.after], *loss, &s.args, "exit", fp ^ (at as u64) << 16 ^ 1)?;
            }
        }
    }
    // The record must lead to the files as they are, or it was not a record of everything.
    let end = disk.crash(Loss::Nothing, rng);
    let real = shim::read_files(&dir)?;
    if end != real {
        crate::inconclusive!(
            "the recorded changes do not lead to the files that are there ({:?})",
            real.keys().map(|k| (k.rsplit('/').next().unwrap_or("").to_string(), real[k].len(), end.get(k).map(|x| x.len()))).collect::<Vec<_>>()
        );
    }
    ctx.sample_in(
        "power",
        json!({ "commands": steps.iter().map(|s| s.args.iter().map(|a| a.chars().take(60).collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>(), "changes": total }),
    );
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge(
    ctx: &Ctx,
    rng: &mut Rng,
    r: &Repo<'_>,
    crash_dir: &Path,
    files: &BTreeMap<String, Vec<u8>>,
    allowed: &[&Db],
    loss: Loss,
    args: &[String],
    at: &str,
    fp: u64,
) -> Res {
    let cmd: String = args.join(" ").chars().take(120).collect();
    let dir = crash_dir.join(".snapcd");
    same_name(files, &dir)?;
    if rng.chance(1, 25) && files.keys().any(|k| k.ends_with("/snapcd.db")) {
        // The program itself recovers.
        age(rng, &dir)?;
        let o = r.run_in(crash_dir, opener(rng))?;
        ctx.count("opened_by_program", 1);
        ensure!(
            o.ok(),
            "does-not-open-after-crash",
            "after a crash of {:?} before a {} ({:?} lost) the program fails: {}",
            cmd,
            at,
            loss,
            o.brief()
        );
    }
    ctx.count("crash_states_opened", 1);
    ctx.count(&format!("crash_states_{:?}", loss), 1);
    let got = match load_state(&dir) {
        Ok(g) => g,
        Err(e) => crate::viol!(
            "does-not-open-after-crash",
            "after a crash of {:?} before a {} ({:?} lost) the database does not open: {}",
            cmd,
            at,
            loss,
            e
        ),
    };
    ctx.eval(Some(fp ^ (loss as u64) << 60 ^ crate::util::fnv(at.as_bytes())));
    if allowed.iter().any(|a| **a == got) {
        return Ok(());
    }
    if allowed.len() == 1 {
        crate::viol!(
            "completed-command-lost",
            "{:?} had exited with success; after a crash ({:?} lost): {}",
            cmd,
            loss,
            allowed[0].diff(&got).unwrap_or_default()
        );
    }
    crate::viol!(
        "half-done-after-crash",
        "after a crash of {:?} before a {} ({:?} lost) the repository is neither as before ({}) nor as after ({})",
        cmd,
        at,
        loss,
        allowed[0].diff(&got).unwrap_or_default(),
        allowed[1].diff(&got).unwrap_or_default()
    );
}

/// The program is really killed.
fn kill(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let (r, mut t) = prepared(ctx, rng)?;
    let dir = r.root.join(".snapcd");
    let big = i % 15 == 7;
    let args = command(rng, &r, &mut t, big)?;
    let base = shim::read_files(&dir)?;
    let before = r.db()?;
    let counts = r.top.join("counts");
    let out = shim::attach(r.prep(&r.root, &args), &r).env("VS_COUNTS", &counts).go()?;
    let n = shim::counts(&counts).get("mutations").copied().unwrap_or(0);
    let after = r.db()?;
    let points: Vec<u64> = if n <= 24 {
        (1..=n).collect()
    } else {
        (0..24).map(|k| if k < 8 { k + 1 } else { rng.range(1, n as usize) as u64 }).collect()
    };
    let cmd: String = args.join(" ").chars().take(120).collect();
    for k in points {
        same_name(&base, &dir)?;
        let half = if rng.chance(1, 2) { ":h" } else { "" };
        let o = shim::attach(r.prep(&r.root, &args), &r)
            .env("VS_KILL", format!("{}{}", k, half))
            .go()?;
        if o.signal == Some(libc::SIGKILL) {
            ctx.count("kills", 1);
        }
        age(rng, &dir)?;
        if rng.chance(1, 3) {
            // and once more while the next command recovers
            let o = shim::attach(r.prep(&r.root, &["debug", "get-head"]), &r)
                .env("VS_KILL", format!("{}{}", rng.range(1, 4), half))
                .go()?;
            if o.signal == Some(libc::SIGKILL) {
                ctx.count("kills_during_recovery", 1);
            }
        }
        if rng.chance(1, 2) {
            age(rng, &dir)?;
            let o = r.run(opener(rng))?;
            ctx.count("opened_by_program", 1);
            ensure!(
                o.ok(),
                "does-not-open-after-crash",
                "after kill -9 of {:?} at change {} of {} the program fails: {}",
                cmd,
                k,
                n,
                o.brief()
            );
        }
        let got = match load_state(&dir) {
            Ok(g) => g,
            Err(e) => crate::viol!(
                "does-not-open-after-crash",
                "after kill -9 of {:?} at change {} of {}: {}",
                cmd,
                k,
                n,
                e
            ),
        };
        ctx.eval(Some(crate::util::fnv(cmd.as_bytes()) ^ k << 20 ^ half.len() as u64 ^ i << 40));
        if o.ok() {
            ensure!(got == after, "completed-command-lost", "{:?} exited with success, but: {}", cmd, after.diff(&got).unwrap_or_default());
        } else {
            ensure!(
                got == before || got == after,
                "half-done-after-crash",
                "after kill -9 of {:?} at change {} of {} the repository is neither as before ({}) nor as after ({})",
                cmd,
                k,
                n,
                before.diff(&got).unwrap_or_default(),
                after.diff(&got).unwrap_or_default()
            );
        }
        // And the work can go on.
        if got == before && rng.chance(1, 4) {
            let o = r.run(&args)?;
            ensure!(
                o.code == out.code,
                "does-not-open-after-crash",
                "after kill -9 of {:?} it cannot be repeated: {}",
                cmd,
                o.brief()
            );
            let again = r.db()?;
            if let Some(d) = after.diff(&again) {
                crate::viol!("half-done-after-crash", "after kill -9 of {:?} and repeating it: {}", cmd, d);
            }
        }
    }
    ctx.sample_in("kill", json!({ "command": cmd, "changes": n }));
    Ok(())
}

/// The very first command.
fn init(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::bare(ctx)?;
    let dir = r.root.join(".snapcd");
    let log = r.top.join("log");
    let o = shim::attach(r.prep(&r.root, &["init"]), &r).env("VS_LOG", &log).go()?;
    ensure!(o.ok(), "ordinary-command-fails", "init fails: {}", o.brief());
    let ops = match shim::parse_log(&std::fs::read(&log).unwrap_or_default()) {
        Ok(o) => o,
        Err(e) => crate::inconclusive!("record of changes: {}", e),
    };
    let after = r.db()?;
    let mut disk = Disk::new(&BTreeMap::new());
    let n = ops.len();
    for (k, op) in ops.iter().enumerate().chain(std::iter::once((n, &Op::DirSync))) {
        for loss in &[Loss::Nothing, Loss::All, Loss::Some, Loss::Torn] {
            let files = disk.crash(*loss, rng);
            let _ = std::fs::remove_dir_all(&dir);
            if !files.is_empty() || rng.chance(1, 2) {
                same_name(&files, &dir)?;
            }
            let got = match load_state(&dir) {
                Ok(g) => g,
                Err(e) => crate::viol!("does-not-open-after-crash", "after a crash of init ({:?} lost): {}", loss, e),
            };
            ctx.count("crash_states_opened", 1);
            ctx.eval(Some((k as u64) << 8 ^ *loss as u64 ^ crate::util::fnv(b"init")));
            ensure!(
                got == Db::default() || got == after,
                "half-done-after-crash",
                "after a crash of init ({:?} lost): {:?}",
                loss,
                got
            );
            if k == n {
                ctx.count("completed_commands_checked", 1);
                ensure!(
                    got == after,
                    "completed-command-lost",
                    "init had exited with success; after a crash ({:?} lost) there is no repository",
                    loss
                );
            }
            // init can be repeated.
            let o = r.run(&["init"])?;
            ctx.count("opened_by_program", 1);
            ensure!(o.ok(), "does-not-open-after-crash", "init after a crash of init fails: {}", o.brief());
            let again = r.db()?;
            ensure!(again == after, "half-done-after-crash", "init after a crash of init: {:?}", again.head());
        }
        if k < n {
            if let Err(e) = disk.step(op) {
                crate::inconclusive!("replaying changes: {}", e);
            }
        }
    }
    Ok(())
}
