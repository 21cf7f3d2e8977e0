//! C19: no command touches the user's files.

use super::c12::any_dir;
use crate::cli::{commit_args, Db, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{fnv, snap, snap_diff, write_tree, Node, Snap};
use serde_json::json;
use std::collections::BTreeSet;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "A picture (type, content, permissions, inode, link count, owner, modification time, of files, directories and links) of everything outside the repository folder and the cache is taken \
before and after every command of random sequences over all commands, successful, refused, failing, with injected I/O errors or killed, in trees with read-only files, hard links, links out of \
the tree and sockets. Nothing may differ but the new path a fetch was given. Commands that only ask leave refs, HEAD and stored objects as they were. The plain checkout, which is made to \
refuse, runs as an unprivileged user on files of its own. Besides the pictures, every call that \
creates, opens for writing, renames, removes or changes a file is watched, so that what is made and removed again is seen too. Non-trivial: a command with its arguments and result in a tree that has files, distinct by them.",
    assumptions: &["access times are not looked at"],
    needed: &[
        "commands", "commands_ok", "commands_failed", "asking_commands", "fetches", "refused_fetches", "refused_checkouts", "accepted_checkouts", "commits", "inserts", "faulted", "killed", "inits",
        "changing_calls_watched", "hard_links", "links", "read_only_files",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    // Before anything else runs: a program that is being written cannot be started.
    let _ = bin_for_all(ctx);
    ctx.cases("sequence", ctx.n(1000, 9000), |rng, i| sequence(ctx, rng, i));
    ctx.cases("checkout", ctx.n(300, 3000), |rng, i| checkout(ctx, rng, i));
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

/// Gives files odd permissions, links and company.
fn decorate(ctx: &Ctx, rng: &mut Rng, root: &Path, side: &Path, t: &Node) -> Res {
    for (p, dir) in t.paths() {
        if rng.chance(1, 4) {
            let mode = if dir { *rng.pick(&[0o755, 0o555, 0o700, 0o1777]) } else { *rng.pick(&[0o444, 0o600, 0o755, 0o000, 0o4755]) };
            std::fs::set_permissions(root.join(&p), std::fs::Permissions::from_mode(mode))?;
            ctx.count("read_only_files", 1);
        }
    }
    std::fs::write(side.join("outside"), "outside\n")?;
    std::fs::write(side.join("linked twice"), "linked\n")?;
    if rng.chance(1, 2) && std::fs::hard_link(side.join("linked twice"), root.join("hard")).is_ok() {
        ctx.count("hard_links", 1);
    }
    if rng.chance(1, 2) && std::os::unix::fs::symlink(side.join("outside"), root.join("soft")).is_ok() {
        ctx.count("links", 1);
    }
    if rng.chance(1, 4) {
        let _ = std::os::unix::fs::symlink(side, root.join("softdir"));
    }
    if rng.chance(1, 12) {
        let _ = std::os::unix::fs::symlink("nowhere", root.join("dangling"));
    }
    if rng.chance(1, 12) {
        let _ = std::os::unix::net::UnixListener::bind(root.join("sock"));
    }
    Ok(())
}

/// (arguments, does it only ask, the destination if it is a fetch)
fn command(rng: &mut Rng, r: &Repo<'_>, ids: &[String], dirs: &[String], n: usize) -> (Vec<String>, bool, Option<PathBuf>) {
    let id = rng.pick(ids).clone();
    let id2 = rng.pick(ids).clone();
    let d = rng.pick(dirs).clone();
    let ask = |v: &[&str]| (strs(v), true, None);
    let act = |v: &[&str]| (strs(v), false, None);
    match rng.below(27) {
        0 => ask(&["status"]),
        1 => ask(&["compare"]),
        2 => ask(&["compare", "-s"]),
        3 => ask(&["compare", "-p", &d, &id]),
        4 => ask(&["compare", "-s", &id]),
        5 => ask(&["log"]),
        6 => ask(&["log", &id]),
        7 => ask(&["show"]),
        8 => ask(&["show", &id]),
        9 => ask(&["ref", "log"]),
        10 => ask(&["ref", "log", "other", "up"]),
        11 => ask(&["debug", "walk-tree", &id]),
        12 => ask(&["debug", "walk-fs-tree", &d]),
        13 => ask(&["debug", "pretty-print", &id]),
        14 => ask(&["debug", "get-head"]),
        15 => ask(&["debug", "reflog-get", "master"]),
        16 => act(&["insert", &d]),
        17 => (commit_args(&format!("m{}", n), None), false, None),
        18 => act(&["commit", "-p", &d, "-m", "of a part", "other"]),
        19 => act(&["checkout-head", *rng.pick(&["other", "new", "master"])]),
        20 => act(&["debug", "commit-tree", &id, &id2]),
        21 => act(&["ref", "update", &id, "other"]),
        22 => act(&["debug", "reflog-push", &id, "other", "up"]),
        23 => act(&["init"]),
        24 => act(&["-e", "*", "commit", "-m", "nothing"]),
        _ => {
            let out = r.top.join("out");
            let dest = match rng.below(5) {
                0 => out.join("there"),
                1 => out.join("there/below"),
                2 => out.join(format!("new{}/deep/er", n)),
                3 => out.clone(),
                _ => out.join(format!("new{}", n)),
            };
            (strs(&["fetch", &id, dest.to_str().unwrap()]), false, Some(dest))
        }
    }
}

/// Without the times and link counts of directories, which change as something is created in them.
fn still(s: &Snap) -> Snap {
    let mut s = s.clone();
    for e in s.values_mut() {
        if e.kind == 'd' {
            e.mtime = (0, 0);
            e.nlink = 0;
        }
    }
    s
}

fn untouched(what: &str, before: &Snap, after: &Snap, dest: Option<&Path>) -> Res {
    let d = match dest {
        None => snap_diff(before, after),
        Some(dest) => {
            // What is new is at the destination or on the way to it; what is old is as it was.
            let mut a = still(after);
            let b = still(before);
            let new: Vec<PathBuf> = a.keys().filter(|k| !b.contains_key(*k)).cloned().collect();
            for k in new {
                if k.starts_with(dest) || dest.starts_with(&k) {
                    a.remove(&k);
                }
            }
            snap_diff(&b, &a)
        }
    };
    if let Some(d) = d {
        crate::viol!("user-files-touched", "{}: {}", what, d);
    }
    Ok(())
}

fn asked_only(what: &str, before: &Db, after: &Db) -> Res {
    ensure!(before.state == after.state, "asking-changes-head", "{} changes HEAD from {:?} to {:?}", what, before.head(), after.head());
    ensure!(before.reflog == after.reflog, "asking-changes-refs", "{} changes the log of refs", what);
    for (k, v) in &before.data {
        ensure!(after.data.get(k) == Some(v), "asking-changes-objects", "{} changes the object {}", what, model::user_key_db(k));
    }
    Ok(())
}

fn sequence(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    let side = r.top.join("side");
    let out = r.top.join("out");
    write_tree(&side, &gen::tree(rng, &gen::TreeOpts { depth: 1, ..gen::TreeOpts::small() }), None)?;
    std::fs::create_dir(&out)?;
    std::fs::write(out.join("there"), "there\n")?;
    // A directory, too, sometimes.
    if rng.chance(1, 2) {
        std::fs::remove_file(out.join("there"))?;
        write_tree(&out.join("there"), &gen::tree(rng, &gen::TreeOpts { depth: 1, ..gen::TreeOpts::small() }), None)?;
    }
    // Something to work with, before it gets odd.
    let m = scen::commit(&r, &t, "first", None)?;
    let o2 = r.run(&["insert", side.to_str().unwrap()])?;
    ensure!(o2.ok(), "ordinary-command-fails", "insert: {}", o2.brief());
    decorate(ctx, rng, &r.root, &side, &t)?;
    let mut ids: Vec<String> = vec![model::user_key(&m.key), model::user_key(&m.tree), "/master".into(), "b".into(), "up/other".into()];
    for (k, _) in r.db()?.data.iter().take(6) {
        ids.push(model::user_key_db(k));
    }
    let dirs: Vec<String> = [r.root.clone(), side.clone(), side.join("outside"), any_dir(rng, &r.root, &t), r.top.join("missing")]
        .iter()
        .map(|x| x.to_str().unwrap().to_string())
        .collect();
    std::fs::create_dir_all(r.home.join("cache"))?; // where no user was known before, there is none yet
    let skip = [r.root.join(".snapcd"), r.home.join("cache")];
    let skipped = |p: &Path| skip.iter().any(|s| s == p);
    let mut done: BTreeSet<String> = BTreeSet::new();
    for n in 0..rng.range(15, 30) {
        let (args, asks, dest) = command(rng, &r, &ids, &dirs, n);
        let cwd = if args[0] == "init" || rng.chance(1, 2) { r.root.clone() } else { any_dir(rng, &r.root, &t) };
        let mut run = r.prep(&cwd, &args);
        let how = rng.below(8);
        match how {
            0 | 1 => {
                let class = *rng.pick(&["db.write", "db.sync", "db.open", "db.read", "data.read", "data.open", "data.stat", "data.readdir", "dest.write", "dest.open", "dest.mkdir", "cache.write", "out.write"]);
                let errno = *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES]);
                run = shim::attach(run, &r).env("VS_FAIL", format!("{}:{}:{}", class, rng.range(1, 12), errno));
                ctx.count("faulted", 1);
            }
            2 => {
                run = shim::attach(run, &r).env("VS_KILL", format!("{}", rng.range(1, 25)));
                ctx.count("killed", 1);
            }
            _ => {}
        }
        // What is done and undone again is not in the pictures.
        let list = ctx.scratch.join(format!("list-{}", r.top.file_name().unwrap().to_string_lossy()));
        if how > 1 {
            run = shim::attach(run, &r).env("VS_PATHS", &list);
        }
        let before = snap(&r.top, &skipped)?;
        let db = r.db()?;
        let o = run.go()?;
        let calls = shim::paths(&list);
        let _ = std::fs::remove_file(&list);
        let what = format!("{:?} in {} ({})", args, cwd.display(), o.code.map_or("killed".into(), |c| format!("exit {}", c)));
        let after = snap(&r.top, &skipped)?;
        untouched(&what, &before, &after, dest.as_deref())?;
        for (call, p) in &calls {
            ctx.count("changing_calls_watched", 1);
            let own = !p.starts_with(&r.top) || skip.iter().any(|s| p.starts_with(s)) || dest.as_ref().map_or(false, |d| p.starts_with(d) || d.starts_with(p));
            ensure!(own, "user-files-touched", "{}: {} {}", what, call, p.display());
        }
        if asks {
            asked_only(&what, &db, &r.db()?)?;
            ctx.count("asking_commands", 1);
        } else {
            let e = r.db()?;
            for (k, v) in &db.data {
                ensure!(e.data.get(k) == Some(v), "asking-changes-objects", "{} changes the object {}", what, model::user_key_db(k));
            }
        }
        ctx.count("commands", 1);
        ctx.count(if o.ok() { "commands_ok" } else { "commands_failed" }, 1);
        match (args[0].as_str(), o.ok()) {
            ("fetch", true) => ctx.count("fetches", 1),
            ("fetch", false) => ctx.count("refused_fetches", 1),
            ("checkout-head", true) => ctx.count("accepted_checkouts", 1),
            ("checkout-head", false) => ctx.count("refused_checkouts", 1),
            ("commit", true) => ctx.count("commits", 1),
            ("insert", true) => ctx.count("inserts", 1),
            ("init", _) => ctx.count("inits", 1),
            _ => {}
        }
        let fp = format!("{:?}{:?}{}", args, o.code, t.fingerprint()).replace(r.top.to_str().unwrap(), "");
        ctx.eval(if t.paths().is_empty() { None } else { Some(fnv(fp.as_bytes())) });
        done.insert(args[0].clone());
        // The user works on, now and then.
        if rng.chance(1, 6) {
            let f = r.root.join(format!("new {}", n));
            std::fs::write(f, format!("{}", n))?;
        }
    }
    // init elsewhere adds its folder and nothing else.
    let before = snap(&side, &|_| false)?;
    r.run_in(&side, &["init"])?;
    let after = snap(&side, &|p| p == side.join(".snapcd"))?;
    if let Some(d) = snap_diff(&still(&before), &still(&after)) {
        crate::viol!("user-files-touched", "init: {}", d);
    }
    ctx.sample_in("sequence", json!({ "case": case, "commands": done }));
    for (p, dir) in t.paths() {
        if dir {
            let _ = std::fs::set_permissions(r.root.join(&p), std::fs::Permissions::from_mode(0o755));
        }
    }
    Ok(())
}

pub const NOBODY: u32 = 65534;

pub fn chown_all(p: &Path) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
    if unsafe { libc::lchown(c.as_ptr(), NOBODY, NOBODY) } != 0 {
        return Err(std::io::Error::last_os_error().into());
    }
    if std::fs::symlink_metadata(p)?.is_dir() {
        for e in std::fs::read_dir(p)? {
            chown_all(&e?.path())?;
        }
    }
    Ok(())
}

/// A copy of the program that anybody may run.
pub fn bin_for_all(ctx: &Ctx) -> std::io::Result<PathBuf> {
    static COPY: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let bin = ctx.scratch.join("bin-for-all");
    let _g = COPY.lock().unwrap();
    if !bin.exists() {
        let part = ctx.scratch.join("bin-part");
        std::fs::copy(&ctx.bin, &part)?;
        std::fs::set_permissions(&part, std::fs::Permissions::from_mode(0o755))?;
        std::fs::rename(&part, &bin)?;
    }
    Ok(bin)
}

/// The plain checkout overwrites and deletes, so it refuses to work anywhere but in one place of its
/// author's. It is run as a user who owns nothing but the scratch files.
fn checkout(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    if rng.chance(1, 3) {
        // Directories only: there is nothing to overwrite.
        for (p, dir) in t.paths() {
            if !dir && t.get(&p).is_some() {
                t.set(&p, None);
            }
        }
    }
    if rng.chance(7, 8) {
        scen::commit(&r, &t, "m", None)?;
    }
    let mut u = t.clone();
    for _ in 0..rng.below(4) {
        gen::edit(rng, &mut u, &o);
    }
    u.dir_mut().remove(".snapcd");
    scen::put_root(&r, &u)?;
    // Somebody else's program, somebody else's files.
    let bin = bin_for_all(ctx)?;
    chown_all(&r.top)?;
    let mut last = String::new();
    let mut dirty = rng.below(3);
    std::fs::create_dir_all(r.home.join("cache"))?; // where no user was known before, there is none yet
    let skip = [r.root.join(".snapcd"), r.home.join("cache")];
    for _ in 0..2 {
        let before = snap(&r.top, &|p| skip.iter().any(|s| s == p))?;
        let db = r.db()?;
        chown_all(&r.root.join(".snapcd"))?;
        let mut run = r.prep(&any_dir(rng, &r.root, &u), &strs(&["checkout"]));
        run.uid = Some(NOBODY);
        run.bin = Some(bin.clone());
        let o = match run.go() {
            Ok(o) => o,
            // Not allowed to become somebody else: then this is not run at all.
            Err(_) => return Ok(()),
        };
        last = o.brief();
        let after = snap(&r.top, &|p| skip.iter().any(|s| s == p))?;
        untouched(&format!("checkout ({})", o.brief()), &before, &after, None)?;
        asked_only("checkout", &db, &r.db()?)?;
        ctx.count(if o.ok() { "plain_checkouts_with_nothing_to_do" } else { "plain_checkouts_refused" }, 1);
        ctx.eval(if o.ok() { None } else { Some(fnv(format!("{:?}", o.stderr).as_bytes()) ^ u.fingerprint()) });
        if dirty > 0 {
            dirty -= 1;
            std::fs::write(r.root.join("extra"), "extra")?;
            chown_all(&r.root.join("extra"))?;
        }
    }
    ctx.sample_in("checkout", json!({ "case": case, "tree": u.describe(), "said": last }));
    Ok(())
}
