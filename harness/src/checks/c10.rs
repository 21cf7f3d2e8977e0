//! C10: the exit status tells the truth, and a failed command changes nothing.

use super::c04::Rm;
use super::c09;
use crate::cli::{Db, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{read_tree, tree_diff, write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "fault_enumeration",
    rule: "A command is run once undisturbed and then again from the same state with one of its system calls failing (each call of each kind in turn: \
database, cache, input, destination, standard output; once, or from there on, or with half of a write done). If it exits with 0, the database, its output and what it \
fetched must be those of the undisturbed run; otherwise the database must be as before (or, if it was the database that failed, as after it). Besides, commands that have to fail for an ordinary \
reason (unknown, ambiguous or wrong object, missing path, conflict, no HEAD, bad pattern, full or closed output, locked or damaged database) must exit with non-zero \
and leave the database as it was. Non-trivial: a fault that was delivered, or a command that had to fail. Distinct by command, call and error.",
    assumptions: &[
        "faults are reported by the system call that meets them",
        "a panic (status 101) or an abort is a failure like any other; it has to leave everything as it was too",
    ],
    needed: &["faults_delivered", "exit_zero_after_fault", "failed_and_unchanged", "ordinary_failures", "effects_checked", "output_faults"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("ordinary", ctx.n(40, 400), |rng, i| ordinary(ctx, rng, i));
    ctx.cases("fault", ctx.n(90, 900), |rng, i| fault(ctx, rng, i));
    ctx.cases("locked", ctx.n(12, 48), |rng, i| locked(ctx, rng, i));
}

struct Bench<'a> {
    r: Repo<'a>,
    t: Node,
    hist: Vec<scen::Made>,
}

fn bench<'a>(ctx: &'a Ctx, rng: &mut Rng) -> Res<Bench<'a>> {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts {
        max_blocks: 1,
        text_only: true,
        plain_names: true,
        ..gen::TreeOpts::small()
    };
    let n = rng.range(1, 4);
    let hist = scen::history(&r, rng, n, &o)?;
    let t = hist.last().unwrap().node.clone();
    Ok(Bench { r, t, hist })
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

/// A command that ought to succeed.
fn asking(rng: &mut Rng, b: &mut Bench<'_>) -> Res<Vec<String>> {
    let m = rng.pick(&b.hist).clone();
    let ck = model::user_key(&m.key);
    let tk = model::user_key(&m.tree);
    let dest = b.r.top.join("dest/out").to_str().unwrap().to_string();
    Ok(match rng.below(9) {
        8 => {
            // Output that ends in the middle of a line.
            let n = rng.range(1, 40_000);
            let mut c = rng.bytes(n);
            c.push(b'x');
            std::fs::write(b.r.top.join("unended"), &c)?;
            let o = b.r.must(&["insert", b.r.top.join("unended").to_str().unwrap()])?;
            strs(&["show", &crate::cli::inserted_key(&o)?])
        }
        0 | 1 => {
            for _ in 0..2 {
                gen::edit(rng, &mut b.t, &gen::TreeOpts::small());
            }
            scen::put_root(&b.r, &b.t)?;
            if rng.chance(1, 2) {
                strs(&["status"])
            } else {
                strs(&["compare", &tk])
            }
        }
        2 => strs(&["log", &ck]),
        3 => strs(&["show", &ck]),
        4 | 5 => strs(&["fetch", &tk, &dest]),
        6 => strs(&["ref", "log"]),
        _ => strs(&["debug", "walk-tree", &tk]),
    })
}

fn fault(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let mut b = bench(ctx, rng)?;
    let args = if case % 10 == 9 {
        let _ = std::fs::remove_dir_all(b.r.root.join(".snapcd"));
        strs(&["init"])
    } else if rng.chance(1, 2) {
        let mut t = b.t.clone();
        let a = c09::command(rng, &b.r, &mut t, case % 30 == 3)?;
        b.t = t;
        a
    } else {
        asking(rng, &mut b)?
    };
    let r = &b.r;
    let initing = args[0] == "init";
    let (dbdir, cachedir) = (r.root.join(".snapcd"), r.home.join("cache/snapcd"));
    let dest = r.top.join("dest");
    let _rm = Rm(dest.clone());
    let db0 = shim::read_files(&dbdir)?;
    let cache0 = shim::read_files(&cachedir)?;
    let load = || -> Res<Db> {
        if !r.dbfile().exists() {
            return Ok(Db::default());
        }
        r.db()
    };
    let before = load()?;
    let counts = r.top.join("counts");
    let restore = || -> Res {
        shim::write_files(&dbdir, &db0)?;
        if initing {
            std::fs::remove_dir_all(&dbdir)?;
        }
        shim::write_files(&cachedir, &cache0)?;
        let _ = std::fs::remove_dir_all(&dest);
        std::fs::create_dir(&dest)?;
        let _ = std::fs::remove_file(&counts);
        Ok(())
    };
    restore()?;
    // What is in the working directory has been there for long, so it is remembered in the cache.
    let aged = rng.chance(2, 3);
    let prep = || {
        let run = shim::attach(r.prep(&r.root, &args), r);
        if aged {
            run.env("VS_META", "-:-:-:1000000")
        } else {
            run
        }
    };
    let clean = prep().env("VS_COUNTS", &counts).go()?;
    let after = load()?;
    let n0 = shim::counts(&counts);
    let refused = args[0] == "checkout-head";
    if !clean.ok() && !refused {
        crate::viol!("ordinary-command-fails", "{:?} fails: {}", args, clean.brief());
    }
    if clean.ok() {
        effect(&args, &before, &after, &clean)?;
        ctx.count("effects_checked", 1);
    } else {
        ensure!(before.refs_without_ids() == after.refs_without_ids() && before.state == after.state, "failed-command-changes-something", "{:?} fails and changes refs or HEAD", args);
    }
    let fetched = fetched(&dest)?;
    let cmd: String = args.join(" ").chars().take(100).collect();
    let fp0 = crate::util::fnv(args.join("\u{1}").as_bytes()) ^ crate::util::fnv(&serde_json::to_vec(&n0.len()).unwrap());

    for (what, total) in &n0 {
        if what == "mutations" || *total == 0 {
            continue;
        }
        let errnos: &[i32] = match what.as_str() {
            "db.lock" => &[libc::EIO, libc::ENOLCK, libc::EACCES],
            "cache.lock" => &[libc::EIO, libc::ENOLCK],
            "out.write" => &[libc::EPIPE, libc::ENOSPC, libc::EIO],
            "data.open" | "data.stat" | "data.readdir" | "data.read" => &[libc::EIO, libc::EACCES, libc::ENOMEM],
            _ => &[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EDQUOT, libc::EMFILE],
        };
        let max = match what.as_str() {
            "db.write" | "db.sync" | "db.trunc" | "db.unlink" => ctx.n(7, 24),
            "db.read" => ctx.n(14, 40),
            "cache.read" => ctx.n(4, 12),
            _ => ctx.n(4, 16),
        };
        let picks: Vec<u64> = if *total <= max {
            (1..=*total).collect()
        } else {
            (0..max).map(|i| match i {
                0 => 1,
                1 => *total,
                2 => *total - 1,
                _ => rng.range(1, *total as usize) as u64,
            }).collect()
        };
        // Locks that somebody else has from then on, too.
        let picks = picks.iter().map(|n| (*n, false)).chain(picks.iter().filter(|_| what == "db.lock").map(|n| (*n, true)));
        for (n, taken) in picks {
            if ctx.stopped() {
                return Ok(());
            }
            let e = if taken { libc::EAGAIN } else { *rng.pick(errnos) };
            let mut flags = String::new();
            let mut sticky = rng.chance(1, 3);
            // A lock that is never had is waited for; a few of those are enough.
            if what.ends_with(".lock") && !rng.chance(1, 60) {
                sticky = false;
            }
            sticky |= taken;
            if sticky {
                flags.push('s');
            }
            if what.ends_with(".write") && rng.chance(1, 3) {
                flags.push('t');
            }
            restore()?;
            let spec = format!("{}:{}:{}{}{}", what, n, e, if flags.is_empty() { "" } else { ":" }, flags);
            let mut run = prep().env("VS_FAIL", &spec);
            if taken {
                run = run.env("VS_NOSLEEP", "1");
                ctx.count("locks_taken_meanwhile", 1);
            }
            let o = run.go()?;
            let got = load()?;
            ctx.count("faults_delivered", 1);
            ctx.count(&format!("faults_{}", what.split('.').next().unwrap_or("")), 1);
            if what == "out.write" {
                ctx.count("output_faults", 1);
            }
            ctx.eval(Some(fp0 ^ crate::util::fnv(spec.as_bytes())));
            if o.spun() && taken {
                // It waits for the lock, however long that takes.
                continue;
            }
            if o.spun() {
                crate::viol!("does-not-terminate", "{:?} with {} does not end", cmd, spec);
            }
            if o.ok() {
                ctx.count("exit_zero_after_fault", 1);
                if let Some(d) = after.diff(&got) {
                    crate::viol!("reports-success-without-effect", "{:?} exits with 0 although {} failed, but: {}", cmd, spec, d);
                }
                if clean.ok() && lines(&args, &o) != lines(&args, &clean) {
                    crate::viol!(
                        "reports-success-without-output",
                        "{:?} exits with 0 although {} failed, but prints {:?} instead of {:?}",
                        cmd, spec, o.text(), clean.text()
                    );
                }
                let f = self::fetched(&dest)?;
                if let (Some(a), Some(b)) = (&fetched, &f) {
                    if let Some(d) = tree_diff(a, b, "") {
                        crate::viol!("reports-success-without-effect", "{:?} exits with 0 although {} failed, but: {}", cmd, spec, d);
                    }
                } else if fetched.is_some() {
                    crate::viol!("reports-success-without-effect", "{:?} exits with 0 although {} failed, but nothing was fetched", cmd, spec);
                }
                if !clean.ok() {
                    crate::viol!("reports-success-without-effect", "{:?} is refused, but exits with 0 when {} fails", cmd, spec);
                }
            } else {
                if got == before {
                    ctx.count("failed_and_unchanged", 1);
                } else if got == after && what.starts_with("db.") {
                    // The database itself cannot tell whether what it wrote last will be there.
                    ctx.count("failed_and_done", 1);
                } else if got == after {
                    crate::viol!("failed-command-changes-something", "{:?} fails because {} failed, and has done all the same what it does: {}", cmd, spec, before.diff(&got).unwrap_or_default());
                } else {
                    crate::viol!(
                        "failed-command-changes-something",
                        "{:?} fails because {} failed, and the repository is neither as before ({}) nor as after ({})",
                        cmd, spec, before.diff(&got).unwrap_or_default(), after.diff(&got).unwrap_or_default()
                    );
                }
            }
        }
    }
    // Output that nobody takes.
    for k in 0..2 {
        restore()?;
        let mut run = r.prep(&r.root, &args);
        if k == 0 {
            run.stdout = Some(PathBuf::from("/dev/full"));
        } else {
            run.close_stdout = true;
        }
        let o = run.go()?;
        let got = load()?;
        ctx.count("output_faults", 1);
        ctx.eval(Some(fp0 ^ 0x5555 ^ k));
        if o.ok() {
            ensure!(
                clean.stdout.is_empty() || k == 1,
                "reports-success-without-output",
                "{:?} exits with 0 although its output went to a full device",
                cmd
            );
            if let Some(d) = after.diff(&got) {
                crate::viol!("reports-success-without-effect", "{:?} exits with 0 when its output cannot be written, but: {}", cmd, d);
            }
        } else if got != before {
            crate::viol!(
                "failed-command-changes-something",
                "{:?} fails because its output cannot be written, and the repository is not as before ({})",
                cmd, before.diff(&got).unwrap_or_default()
            );
        }
    }
    ctx.sample_in("fault", json!({ "command": cmd, "calls": n0 }));
    Ok(())
}

/// The output; walk-tree gives it in no particular order.
fn lines(args: &[String], o: &Out) -> Vec<u8> {
    if args.get(1).map(|x| x.as_str()) != Some("walk-tree") {
        return o.stdout.clone();
    }
    let mut v: Vec<&[u8]> = o.stdout.split(|c| *c == b'\n').collect();
    v.sort_unstable();
    v.join(&b'\n')
}

fn fetched(dest: &Path) -> Res<Option<Node>> {
    let p = dest.join("out");
    if !p.exists() {
        return Ok(None);
    }
    match read_tree(&p)? {
        Ok(t) => Ok(Some(t)),
        Err(e) => crate::viol!("reports-success-without-effect", "fetched: {}", e),
    }
}

/// What a command that exits with 0 was asked to do is done.
fn effect(args: &[String], before: &Db, after: &Db, o: &Out) -> Res {
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let new: Vec<_> = after.reflog[before.reflog.len().min(after.reflog.len())..].iter().collect();
    let key = |s: &str| model::parse_user_key(s).map(|k| model::dbkey(&k));
    let refs_same = before.reflog == after.reflog;
    let head_same = before.state == after.state;
    let (mut may_ref, mut may_head) = (false, false);
    match a.as_slice() {
        ["commit", ..] => {
            may_ref = true;
            ensure!(new.len() == 1 && new[0].2.is_none(), "reports-success-without-effect", "{:?} exits with 0 and adds {} records to refs", a, new.len());
        }
        ["ref", "update", k, n] => {
            may_ref = true;
            ensure!(
                new.len() == 1 && new[0].1 == *n && new[0].2.is_none() && Some(&new[0].3) == key(k).as_ref(),
                "reports-success-without-effect", "{:?} exits with 0 and records {:?}", a, new
            );
        }
        ["debug", "reflog-push", k, n, rest @ ..] => {
            may_ref = true;
            ensure!(
                new.len() == 1 && new[0].1 == *n && new[0].2.as_deref() == rest.first().copied() && Some(&new[0].3) == key(k).as_ref(),
                "reports-success-without-effect", "{:?} exits with 0 and records {:?}", a, new
            );
        }
        ["debug", "set-head", n] | ["checkout-head", n] => {
            may_head = true;
            ensure!(after.head().as_deref() == Some(n), "reports-success-without-effect", "{:?} exits with 0 and HEAD is {:?}", a, after.head());
        }
        ["init"] => {
            may_head = true;
            ensure!(after.head().is_some(), "reports-success-without-effect", "init exits with 0 and there is no HEAD");
        }
        ["insert", ..] => {
            let k = crate::cli::inserted_key(o)?;
            let k = scen::parse_key(&k)?;
            if let Err(e) = model::tree(&after.data, &k) {
                crate::viol!("reports-success-without-effect", "{:?} exits with 0, but: {}", a, e);
            }
        }
        _ => {}
    }
    ensure!(may_ref || refs_same, "failed-command-changes-something", "{:?} changes refs", a);
    ensure!(may_head || head_same, "failed-command-changes-something", "{:?} changes HEAD", a);
    Ok(())
}

/// Commands that have to fail.
fn ordinary(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let b = bench(ctx, rng)?;
    let r = &b.r;
    let db0 = r.db()?;
    let m = b.hist.last().unwrap();
    let ck = model::user_key(&m.key);
    let tk = model::user_key(&m.tree);
    let (mut files, mut blobs, mut dirs) = (vec![], vec![], vec![]);
    for (k, v) in &db0.data {
        if let Ok(o) = model::decode_obj(v) {
            let u = model::user_key_db(k);
            match o.typ.as_str() {
                "FSItemFile" => files.push(u),
                "FileBlob" => blobs.push(u),
                "FSItemDir" => dirs.push(u),
                _ => {}
            }
        }
    }
    let top = r.top.to_str().unwrap().to_string();
    let unknown = model::user_key(&model::hash(&rng.bytes(8)));
    // The shortest id that several objects share, or one that none has.
    let mut ambiguous = None;
    let users: Vec<String> = db0.data.keys().map(|k| model::user_key_db(k)).collect();
    for u in &users {
        if users.iter().filter(|v| v[..2] == u[..2]).count() > 1 {
            ambiguous = Some(u[..2].to_string());
        }
    }
    let sub = |s: &str| format!("{}/{}", top, s);
    std::fs::write(sub("afile"), b"here")?;
    std::fs::create_dir(sub("adir"))?;
    std::fs::create_dir(sub("full"))?;
    write_tree(Path::new(&sub("full/x")), &Node::File(b"x".to_vec()), None)?;
    std::fs::create_dir(sub("bad"))?;
    std::fs::write(sub("bad/good"), rng.bytes(100_000))?;
    let badname = OsString::from_vec(b"b\xff\xfe".to_vec());
    let kind = case % 4;
    match kind {
        0 => std::os::unix::fs::symlink("/nonexistent/nowhere", sub("bad/zz-broken"))?,
        1 => std::fs::write(Path::new(&sub("bad")).join(&badname), b"x")?,
        2 => {
            let c = std::ffi::CString::new(sub("bad/zz-fifo")).unwrap();
            unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
        }
        _ => std::os::unix::fs::symlink("zz-loop", sub("bad/zz-loop"))?,
    }
    let file = files.first().cloned();
    // A tree that holds a file named like an existing file of the destination.
    let mut conflict = None;
    if let Some((p, _)) = m.node.paths().iter().find(|(p, d)| !*d && !p.contains('/')) {
        let d = sub("conflict");
        std::fs::create_dir(&d)?;
        std::fs::write(format!("{}/{}", d, p), b"mine")?;
        conflict = Some(d);
    }
    let mut list: Vec<Vec<String>> = vec![
        strs(&["fetch", &unknown, &sub("o1")]),
        strs(&["fetch", &ck, &sub("o2")]),
        strs(&["fetch", &tk, &sub("afile")]),
        strs(&["fetch", &tk, &sub("afile/in")]),
        strs(&["fetch", "/nosuch", &sub("o3")]),
        strs(&["fetch", "origin/master", &sub("o3")]),
        strs(&["fetch", "", &sub("o3")]),
        strs(&["fetch", "zzz", &sub("o3")]),
        strs(&["fetch", "b!", &sub("o3")]),
        strs(&["fetch", "b\u{e9}", &sub("o3")]),
        strs(&["fetch", &format!("{}a", ck), &sub("o3")]),
        strs(&["show", &unknown]),
        strs(&["show", "/nosuch"]),
        strs(&["log", &unknown]),
        strs(&["log", &tk]),
        strs(&["compare", &unknown]),
        strs(&["compare", &ck]),
        strs(&["compare", "-p", &sub("nowhere"), &tk]),
        strs(&["insert", &sub("nowhere")]),
        strs(&["insert", &sub("bad")]),
        strs(&["insert", &sub("afile/x")]),
        strs(&["commit", "-p", &sub("nowhere"), "-m", "m"]),
        strs(&["commit", "-p", &sub("bad"), "-m", "m"]),
        strs(&["commit", "-p", &sub("bad"), "-m", "m", "newref"]),
        strs(&["commit"]),
        strs(&["commit", "-m"]),
        strs(&["-e", "[", "commit", "-m", "m"]),
        strs(&["-e", "a{b", "insert", &sub("full")]),
        strs(&["-e", "[", "status"]),
        strs(&["ref", "update", &tk]),
        strs(&["ref", "update", &tk, "other"]),
        strs(&["ref", "update", &unknown]),
        strs(&["ref", "update", &unknown, "other"]),
        strs(&["ref", "update", "/nosuch", "other"]),
        strs(&["ref", "update"]),
        strs(&["debug", "reflog-push", &tk, "other"]),
        strs(&["debug", "reflog-push", &unknown, "other", "origin"]),
        strs(&["debug", "reflog-get", "nosuch"]),
        strs(&["debug", "reflog-get", "master", "nosuch"]),
        strs(&["debug", "commit-tree", &unknown]),
        strs(&["debug", "commit-tree", &tk, &unknown]),
        strs(&["debug", "pretty-print", &unknown]),
        strs(&["debug", "walk-tree", &unknown]),
        strs(&["debug", "walk-tree", &ck]),
        strs(&["debug", "set-head"]),
        strs(&["no-such-command"]),
        strs(&["checkout-head"]),
        strs(&["checkout-head", "a", "b"]),
    ];
    if let Some(a) = ambiguous {
        list.push(strs(&["fetch", &a, &sub("o4")]));
        list.push(strs(&["show", &a]));
        list.push(strs(&["log", &a]));
        list.push(strs(&["ref", "update", &a, "other"]));
        list.push(strs(&["compare", &a]));
    }
    if let Some(f) = file {
        list.push(strs(&["fetch", &f, &sub("afile")]));
        list.push(strs(&["fetch", &f, &sub("adir")]));
        list.push(strs(&["ref", "update", &f, "other"]));
        list.push(strs(&["log", &f]));
    }
    if let Some(k) = blobs.first() {
        list.push(strs(&["fetch", k, &sub("o5")]));
        list.push(strs(&["ref", "update", k]));
        list.push(strs(&["debug", "walk-tree", k]));
        list.push(strs(&["compare", k]));
    }
    if let Some(c) = conflict {
        list.push(strs(&["fetch", &tk, &c]));
    }
    // Not clean: a file more than HEAD has.
    std::fs::write(r.root.join("zz-more"), b"more")?;
    let stored = |o: &Db| o.refs_without_ids() == db0.refs_without_ids() && o.state == db0.state && o.data == db0.data;
    for args in &list {
        let o = r.run(args)?;
        let got = r.db()?;
        ctx.count("ordinary_failures", 1);
        ctx.eval(Some(crate::util::fnv(args.join("\u{1}").replace(&top, "").as_bytes()) ^ db0.data.len() as u64));
        ensure!(!o.ok(), "failure-reported-as-success", "{:?} exits with 0: {}", args, o.brief());
        ensure!(o.signal.is_none() || o.signal == Some(libc::SIGABRT), "failure-reported-as-success", "{:?}: {}", args, o.brief());
        if !stored(&got) {
            crate::viol!("failed-command-changes-something", "{:?} fails, but: {}", args, db0.diff(&got).unwrap_or_default());
        }
    }
    let o = r.run(&["checkout-head", "other"])?;
    ensure!(!o.ok(), "failure-reported-as-success", "checkout-head is refused with exit status 0");
    let got = r.db()?;
    ensure!(got.head() == db0.head() && got.reflog == db0.reflog, "failed-command-changes-something", "a refused checkout-head changes refs or HEAD");
    // Without HEAD.
    let db1 = r.db()?;
    {
        let c = rusqlite::Connection::open(r.dbfile())?;
        c.execute("DELETE FROM state", rusqlite::NO_PARAMS)?;
    }
    for args in &[
        strs(&["commit", "-m", "m"]),
        strs(&["log"]),
        strs(&["show"]),
        strs(&["status"]),
        strs(&["compare"]),
        strs(&["ref", "log"]),
        strs(&["ref", "update", &ck]),
        strs(&["checkout-head", "x"]),
    ] {
        let o = r.run(args)?;
        ctx.count("ordinary_failures", 1);
        ensure!(!o.ok(), "failure-reported-as-success", "{:?} without a HEAD exits with 0: {}", args, o.brief());
        let got = r.db()?;
        ensure!(
            got.data == db1.data && got.reflog == db1.reflog && got.state.is_empty(),
            "failed-command-changes-something",
            "{:?} without a HEAD fails, and changes the repository",
            args
        );
    }
    // HEAD names a ref without commits, then one whose record is no key.
    r.must(&["debug", "set-head", "empty"])?;
    let c = rusqlite::Connection::open(r.dbfile())?;
    c.execute("INSERT INTO reflog(refname, remote, key) VALUES ('broken', NULL, x'0102')", rusqlite::NO_PARAMS)?;
    drop(c);
    let mut db1 = r.db()?;
    for (n, args) in [
        strs(&["log"]),
        strs(&["show"]),
        strs(&["compare"]),
        strs(&["fetch", "/empty", &sub("o6")]),
        strs(&["fetch", "/broken", &sub("o6")]),
        strs(&["log", "/broken"]),
        strs(&["commit", "-m", "m", "broken"]),
        strs(&["debug", "reflog-get", "broken"]),
        strs(&["ref", "log", "broken"]),
        strs(&["status"]),
        strs(&["checkout-head", "x"]),
        strs(&["commit", "-m", "m"]),
        strs(&["compare"]),
        strs(&["ref", "log"]),
    ]
    .iter()
    .enumerate()
    {
        if n == 9 {
            // From here on, HEAD is the one that is broken, with nothing in the directory that could differ.
            let c = rusqlite::Connection::open(r.dbfile())?;
            c.execute("UPDATE state SET value = CAST('broken' AS BLOB) WHERE key = CAST('HEAD' AS BLOB)", rusqlite::NO_PARAMS)?;
            drop(c);
            scen::put_root(r, &Node::Dir(Default::default()))?;
            db1 = r.db()?;
            if db1.head().as_deref() != Some("broken") {
                break;
            }
        }
        let o = r.run(args)?;
        ctx.count("ordinary_failures", 1);
        ensure!(!o.ok(), "failure-reported-as-success", "{:?} exits with 0: {}", args, o.brief());
        if let Some(d) = db1.diff(&r.db()?) {
            crate::viol!("failed-command-changes-something", "{:?} fails, but: {}", args, d);
        }
    }
    // A database that is none, a folder that is none.
    let junk = rng.bytes(20_000);
    std::fs::write(r.dbfile(), &junk)?;
    for args in &[strs(&["commit", "-m", "m"]), strs(&["status"]), strs(&["init"]), strs(&["log"])] {
        let o = r.run(args)?;
        ctx.count("ordinary_failures", 1);
        ensure!(!o.ok(), "failure-reported-as-success", "{:?} on a file that is no database exits with 0", args);
        ensure!(std::fs::read(r.dbfile())? == junk, "failed-command-changes-something", "{:?} changes a file that is no database", args);
    }
    ctx.sample_in("ordinary", json!({ "commands": list.len(), "objects": db0.data.len() }));
    Ok(())
}

/// Somebody else holds the database.
fn locked(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let b = bench(ctx, rng)?;
    let r = &b.r;
    let ck = model::user_key(&b.hist[0].key);
    std::fs::write(r.root.join("new"), rng.bytes(50))?;
    let db0 = r.db()?;
    let list = [
        strs(&["commit", "-m", "m"]),
        strs(&["debug", "set-head", "x"]),
        strs(&["ref", "update", &ck, "x"]),
        strs(&["insert", r.root.join("new").to_str().unwrap()]),
    ];
    let args = &list[(case / 3) as usize % list.len()];
    let c = rusqlite::Connection::open(r.dbfile())?;
    c.execute_batch(["BEGIN EXCLUSIVE", "BEGIN IMMEDIATE", "BEGIN; SELECT count(*) FROM data"][case as usize % 3])?;
    let o = r.run(args)?;
    if case % 3 == 2 {
        // Somebody who only reads need not be in the way.
        ctx.count("with_a_reader", 1);
        c.execute_batch("ROLLBACK")?;
        drop(c);
        let now = r.db()?;
        if o.ok() {
            return effect(args, &db0, &now, &o);
        }
        ensure!(now == db0, "failed-command-changes-something", "{:?} fails while another process reads, but: {}", args, db0.diff(&now).unwrap_or_default());
        ctx.count("ordinary_failures", 1);
        r.must(args)?;
        return Ok(());
    }
    ctx.count("ordinary_failures", 1);
    ctx.eval(Some(case ^ 0x10c));
    ensure!(!o.ok(), "failure-reported-as-success", "{:?} on a locked database exits with 0", args);
    c.execute_batch("ROLLBACK")?;
    drop(c);
    let got: BTreeMap<_, _> = r.db()?.data;
    let now = r.db()?;
    ensure!(got == db0.data && now == db0, "failed-command-changes-something", "{:?} on a locked database fails, but: {}", args, db0.diff(&now).unwrap_or_default());
    // Unlocked, it works.
    r.must(args)?;
    Ok(())
}
