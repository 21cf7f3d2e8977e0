//! C24: the stored object graph is always complete and well formed.

use super::c09::command;
use crate::cli::{inserted_key, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model::{self, Key};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{fnv, Node};
use serde_json::json;
use std::os::unix::fs::symlink;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "After every command of random sequences (successful, wrong, hit by an I/O error at a random call, killed at a random write, several at once) an independent reader looks at all of the \
database: every object is filed under its hash, decodes and is of a known type; everything reachable from every record of every ref, and from every key that a command printed as stored, is \
there and of the type its referrer needs; sizes and numbers of children are true; every ref record is a commit. Files change, grow, shrink and vanish while they are stored, or report a size that is not \
theirs; one is larger than four GiB; ids of objects of the wrong type are given to every command that records ids. Non-trivial: a command after which something reachable was examined, distinct by command and state.",
    assumptions: &["objects put into the database by somebody else than the program are not covered here (C18, C23)"],
    needed: &[
        "commands", "commands_failed", "commands_faulted", "commands_killed", "keys_returned", "objects_examined", "trees_examined", "commits_examined", "odd_sizes", "busy_commands",
        "wrong_type_ids", "concurrent_commands", "large_contents", "beyond_four_gib",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("sequence", ctx.n(520, 5000), |rng, i| sequence(ctx, rng, i));
    ctx.cases("sizes", ctx.n(120, 900), |rng, i| sizes(ctx, rng, i));
    ctx.cases_on(4, "busy", ctx.n(120, 1500), |rng, i| busy(ctx, rng, i));
    ctx.cases("types", ctx.n(120, 1200), |rng, i| types(ctx, rng, i));
    ctx.cases_on(4, "concurrent", ctx.n(60, 600), |rng, i| concurrent(ctx, rng, i));
    ctx.cases("large", ctx.n(48, 300), |rng, i| large(ctx, rng, i));
    ctx.cases_on(2, "beyond", ctx.n(1, 4), |rng, i| beyond(ctx, rng, i));
}

/// The keys a successful command claims to have stored something under.
fn returned(args: &[String], o: &Out) -> Res<Vec<Key>> {
    if !o.ok() {
        return Ok(vec![]);
    }
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    if a.contains(&"insert") {
        return Ok(vec![scen::parse_key(&inserted_key(o)?)?]);
    }
    if a.len() > 1 && a[0] == "debug" && a[1] == "commit-tree" {
        return Ok(vec![scen::parse_key(o.text().trim())?]);
    }
    Ok(vec![])
}

fn examine(ctx: &Ctx, r: &Repo<'_>, keys: &[Key], what: &str) -> Res<u64> {
    let db = r.db()?;
    match model::fsck(&db, keys) {
        Ok(f) => {
            ctx.count("objects_examined", f.objects as u64);
            ctx.count("trees_examined", f.trees as u64);
            ctx.count("commits_examined", f.commits as u64);
            Ok(fnv(format!("{} {} {} {}", f.objects, f.trees, f.commits, db.reflog.len()).as_bytes()) ^ db.reflog.last().map(|x| fnv(&x.3)).unwrap_or(0))
        }
        Err(e) => crate::viol!("graph-broken", "after {}: {}", what, e),
    }
}

fn says(args: &[String], o: &Out) -> String {
    format!("{:?} ({})", args.iter().map(|x| x.chars().take(60).collect::<String>()).collect::<Vec<_>>(), if o.ok() { "successful" } else { "failed" })
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

/// Gives ids, right and wrong ones, to the commands that record ids.
fn with_ids(rng: &mut Rng, r: &Repo<'_>) -> Res<Vec<String>> {
    let db = r.db()?;
    let mut ids: Vec<String> = vec!["/master".into(), "origin/main".into(), "/nothing".into(), "ba".into(), model::user_key(&model::hash(&rng.bytes(4)))];
    for ty in &["FileBlob", "FileBlobTree", "FSItemFile", "FSItemDir", "Commit"] {
        let of: Vec<String> = db
            .data
            .iter()
            .filter(|(_, v)| model::decode_obj(v).map(|o| o.typ == *ty).unwrap_or(false))
            .map(|(k, _)| model::user_key_db(k))
            .collect();
        if !of.is_empty() {
            let k = rng.pick(&of).clone();
            if rng.chance(1, 4) {
                ids.push(k[..rng.range(3, k.len())].to_string());
            }
            ids.push(k);
        }
    }
    let mut id = || rng.pick(&ids).clone();
    let (a, b, c) = (id(), id(), id());
    Ok(match rng.below(8) {
        0 => strs(&["ref", "update", &a]),
        1 => strs(&["ref", "update", &a, "by-id"]),
        2 => strs(&["debug", "reflog-push", &a, "main", "origin"]),
        3 => strs(&["debug", "reflog-push", &a, "main"]),
        4 => strs(&["debug", "commit-tree", &a]),
        5 => strs(&["debug", "commit-tree", &a, &b]),
        6 => strs(&["debug", "commit-tree", &a, &b, &c]),
        _ => strs(&["debug", "set-head", *rng.pick(&["by-id", "main", "master"][..])]),
    })
}

fn sequence(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts { max_blocks: 3, ..gen::TreeOpts::small() });
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    let mut keys: Vec<Key> = vec![];
    let steps = rng.range(8, 20);
    for step in 0..steps {
        let args = if rng.chance(3, 5) { command(rng, &r, &mut t, false)? } else { with_ids(rng, &r)? };
        let mut run = r.prep(&r.root, &args);
        match rng.below(5) {
            0 | 1 => {
                let class = *rng.pick(&["db.write", "db.write", "db.sync", "db.open", "db.read", "db.unlink", "db.trunc", "data.read", "data.read", "data.open", "data.readdir", "data.stat", "cache.write", "out.write"]);
                let errno = *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::ENOENT]);
                let n = *rng.pick(&[rng.clone().range(1, 3), rng.clone().range(1, 12), rng.clone().range(1, 60)]);
                let sticky = if class != "db.read" && rng.chance(1, 3) { ":s" } else { "" };
                run = shim::attach(run, &r).env("VS_FAIL", format!("{}:{}:{}{}", class, n, errno, sticky));
                ctx.count("commands_faulted", 1);
            }
            2 => {
                let n = if rng.chance(1, 2) { rng.range(1, 8) } else { rng.range(1, 40) };
                run = shim::attach(run, &r).env("VS_KILL", format!("{}{}", n, if rng.chance(1, 2) { "h" } else { "" }));
            }
            _ => {}
        }
        let o = run.go()?;
        ctx.count("commands", 1);
        if !o.ok() {
            ctx.count(if o.signal.is_some() { "commands_killed" } else { "commands_failed" }, 1);
        }
        let got = returned(&args, &o)?;
        ctx.count("keys_returned", got.len() as u64);
        keys.extend(got);
        let state = examine(ctx, &r, &keys, &format!("step {}, {}", step, says(&args, &o)))?;
        ctx.eval(Some(state ^ fnv(args[0].as_bytes()) ^ o.ok() as u64));
    }
    ctx.sample_in("sequence", json!({ "case": case, "commands": steps, "keys": keys.len() }));
    Ok(())
}

/// What a file says of its size is not what is read from it.
fn sizes(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    // These say they are empty.
    let odd: Vec<&str> = ["/proc/version", "/proc/filesystems", "/proc/self/status", "/proc/self/cmdline", "/proc/self/limits", "/proc/cpuinfo", "/sys/kernel/mm/transparent_hugepage/enabled"]
        .iter()
        .cloned()
        .filter(|p| std::fs::metadata(p).is_ok() && std::fs::read(p).is_ok())
        .collect();
    if odd.is_empty() {
        return Ok(());
    }
    let p = *rng.pick(&odd);
    let mut cmds: Vec<Vec<String>> = vec![];
    match rng.below(3) {
        0 => {
            cmds.push(strs(&["insert", p]));
            cmds.push(strs(&["commit", "-p", p, "-m", "odd"]));
        }
        1 => {
            let t = gen::tree(rng, &gen::TreeOpts { width: 2, ..gen::TreeOpts::small() });
            scen::put_root(&r, &t)?;
            let _ = symlink(p, r.root.join("odd file"));
            cmds.push(strs(&["commit", "-m", "with an odd file"]));
            cmds.push(strs(&["status"]));
            cmds.push(strs(&["commit", "-m", "again"]));
        }
        _ => {
            std::fs::write(r.root.join("a"), b"a")?;
            cmds.push(strs(&["commit", "-m", "first"]));
            let _ = symlink(p, r.root.join("odd file"));
            cmds.push(strs(&["status"]));
            cmds.push(strs(&["compare", "-s"]));
        }
    }
    let mut keys = vec![];
    for args in &cmds {
        let o = r.run(args)?;
        ctx.count("commands", 1);
        keys.extend(returned(args, &o)?);
        let s = examine(ctx, &r, &keys, &format!("{} of {}", says(args, &o), p))?;
        // What status and compare store is recorded nowhere, but may be found by its key and used.
        let db = r.db()?;
        for (k, v) in &db.data {
            let typ = model::decode_obj(v).map(|o| o.typ).unwrap_or_default();
            if typ == "FSItemFile" || typ == "FSItemDir" {
                if let Err(e) = model::from_dbkey(k).and_then(|k| model::tree(&db.data, &k)) {
                    crate::viol!("graph-broken", "after {} of {}: {}", says(args, &o), p, e);
                }
            }
        }
        ctx.count("odd_sizes", 1);
        ctx.eval(Some(s ^ fnv(p.as_bytes())));
    }
    if case < 2 {
        ctx.sample_in("sizes", json!({ "case": case, "file": p, "commands": cmds }));
    }
    Ok(())
}

/// A file of more than four GiB, most of which is a hole.
fn beyond(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    use std::os::unix::fs::FileExt;
    let r = Repo::new(ctx)?;
    let p = r.root.join("huge");
    let len = (1u64 << 32) + *rng.pick(&[0, 1, 123_456, 5 << 20]) + rng.below(2) as u64;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&p)?;
    f.set_len(len)?;
    for _ in 0..rng.range(2, 6) {
        let n = rng.range(1, 300_000);
        let at = rng.below((len - n as u64) as usize) as u64;
        f.write_all_at(&rng.bytes(n), at)?;
    }
    if rng.chance(1, 2) {
        f.write_all_at(b"at the end", len - 10)?;
    }
    let by_commit = rng.chance(1, 2);
    let args = if by_commit { strs(&["commit", "-m", "huge"]) } else { strs(&["insert", "huge"]) };
    let mut run = r.prep(&r.root, &args);
    run.cpu = 200;
    run.wall = 400;
    let o = run.go()?;
    ensure!(o.ok(), "ordinary-command-fails", "{} of {} bytes: {}", says(&args, &o), len, o.brief());
    let db = r.db()?;
    let what = format!("after {} of a file of {} bytes", says(&args, &o), len);
    let mut items = 0;
    for (k, v) in &db.data {
        let obj = match model::decode_obj(v) {
            Ok(obj) => obj,
            Err(e) => crate::viol!("graph-broken", "{}: object {}: {}", what, model::user_key_db(k), e),
        };
        if obj.typ != "FSItemFile" {
            continue;
        }
        items += 1;
        let it = match model::decode_item(&obj) {
            Ok(it) => it,
            Err(e) => crate::viol!("graph-broken", "{}: {}", what, e),
        };
        ensure!(it.size == len, "wrong-size", "{}, its recorded size is {}", what, it.size);
        ensure!(obj.keys.len() == 1, "graph-broken", "{}: a file with {} contents", what, obj.keys.len());
        let mut at = 0u64;
        let mut buf = vec![];
        let mut stack = vec![obj.keys[0]];
        let mut known = std::collections::HashMap::new();
        while let Some(k) = stack.pop() {
            if !known.contains_key(&k) {
                match model::get(&db.data, &k) {
                    Ok(o) => known.insert(k, o),
                    Err(e) => crate::viol!("graph-broken", "{}: {}", what, e),
                };
            }
            let o = &known[&k];
            match o.typ.as_str() {
                "FileBlobTree" => stack.extend(o.keys.iter().rev()),
                "FileBlob" => {
                    ensure!(at + o.data.len() as u64 <= len, "graph-broken", "{}, it is stored longer", what);
                    buf.resize(o.data.len(), 0);
                    f.read_exact_at(&mut buf, at)?;
                    ensure!(buf == o.data, "graph-broken", "{}, it is stored with other bytes from {} on", what, at);
                    at += o.data.len() as u64;
                }
                t => crate::viol!("graph-broken", "{}: content refers to a {}", what, t),
            }
        }
        ensure!(at == len, "graph-broken", "{}, only {} bytes of it are stored", what, at);
    }
    ensure!(items == 1, "graph-broken", "{}, there are {} files", what, items);
    ctx.count("beyond_four_gib", 1);
    ctx.eval(Some(len ^ rng.next()));
    ctx.sample_in("beyond", json!({ "case": case, "bytes": len, "objects": db.data.len() }));
    Ok(())
}

fn disturb(dir: &Path, rng: &mut Rng, stop: &AtomicBool) -> u64 {
    let mut n = 0;
    while !stop.load(Ordering::SeqCst) {
        let f = dir.join(format!("f{}", rng.below(6)));
        let d = dir.join(format!("d{}", rng.below(3)));
        match rng.below(9) {
            0 | 1 => {
                let len = rng.below(200_000);
                let _ = std::fs::write(&f, rng.bytes(len));
            }
            2 | 3 => {
                if let Ok(mut x) = std::fs::OpenOptions::new().append(true).open(&f) {
                    let len = rng.below(3000);
                    let _ = std::io::Write::write_all(&mut x, &rng.bytes(len));
                }
            }
            4 => {
                if let Ok(x) = std::fs::OpenOptions::new().write(true).open(&f) {
                    let _ = x.set_len(rng.below(100_000) as u64);
                }
            }
            5 => {
                let _ = std::fs::remove_file(&f);
            }
            6 => {
                let _ = std::fs::create_dir(&d);
                let _ = std::fs::write(d.join("in"), rng.bytes(10));
            }
            7 => {
                let _ = std::fs::remove_dir_all(&d);
            }
            _ => {
                let _ = std::fs::rename(&f, dir.join(format!("f{}", rng.below(6))));
            }
        }
        n += 1;
        std::thread::sleep(std::time::Duration::from_micros(rng.below(1500) as u64));
    }
    n
}

fn busy(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let dir = r.root.join("busy");
    std::fs::create_dir(&dir)?;
    for i in 0..5 {
        let n = rng.below(150_000);
        std::fs::write(dir.join(format!("f{}", i)), rng.bytes(n))?;
    }
    let stop = AtomicBool::new(false);
    let mut other = Rng::new(rng.next());
    let mut changes = 0;
    let res = std::thread::scope(|s| {
        let h = s.spawn(|| disturb(&dir, &mut other, &stop));
        let res = (|| -> Res {
            let mut keys = vec![];
            for step in 0..rng.range(4, 8) {
                let args = match rng.below(6) {
                    0 | 1 => strs(&["commit", "-m", "busy"]),
                    2 | 3 => strs(&["insert", "busy"]),
                    4 => strs(&["insert", &format!("busy/f{}", rng.below(6))]),
                    _ => strs(&["status"]),
                };
                let run = r.prep(&r.root, &args);
                let run = shim::attach(run, &r).env("VS_DELAY", format!("{}:{}", rng.below(10000), rng.pick(&[0, 300, 2000])));
                let o = run.go()?;
                ctx.count("commands", 1);
                ctx.count("busy_commands", 1);
                ctx.count(if o.ok() { "busy_successful" } else { "busy_failed" }, 1);
                keys.extend(returned(&args, &o)?);
                let st = examine(ctx, &r, &keys, &format!("step {} in a busy directory, {}", step, says(&args, &o)))?;
                ctx.eval(Some(st));
            }
            Ok(())
        })();
        stop.store(true, Ordering::SeqCst);
        changes = h.join().unwrap_or(0);
        res
    });
    res?;
    ctx.count("changes_while_busy", changes);
    if case < 2 {
        ctx.sample_in("busy", json!({ "case": case, "changes": changes }));
    }
    Ok(())
}

fn types(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { max_blocks: 3, ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    t.set("chunky", Some(Node::File(rng.bytes(150_000))));
    for i in 0..rng.range(1, 3) {
        scen::commit(&r, &t, &format!("m{}", i), None)?;
        gen::edit(rng, &mut t, &o);
    }
    let mut keys = vec![];
    for _ in 0..rng.range(6, 16) {
        let args = with_ids(rng, &r)?;
        let out = r.run(&args)?;
        ctx.count("commands", 1);
        ctx.count("wrong_type_ids", 1);
        keys.extend(returned(&args, &out)?);
        let s = examine(ctx, &r, &keys, &says(&args, &out))?;
        ctx.eval(Some(s ^ fnv(args.join(" ").as_bytes())));
    }
    // On top of whatever that was.
    let out = r.run(&["commit", "-m", "on top"])?;
    let s = examine(ctx, &r, &keys, &format!("a commit on top ({})", out.ok()))?;
    ctx.eval(Some(s));
    Ok(())
}

fn concurrent(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let t = gen::tree(rng, &gen::TreeOpts { max_blocks: 3, ..gen::TreeOpts::small() });
    scen::put_root(&r, &t)?;
    let mut keys = vec![];
    for round in 0..rng.range(2, 4) {
        let mut kids = vec![];
        for i in 0..rng.range(2, 5) {
            let f = format!("own{}", i);
            let n = *rng.pick(&[100, 3000, 90_000]);
            std::fs::write(r.root.join(&f), rng.bytes(n))?;
            let args = match rng.below(6) {
                0 | 1 => strs(&["commit", "-m", &format!("{} {}", round, i)]),
                2 => strs(&["commit", "-m", "side", "side"]),
                3 => strs(&["insert", &f]),
                4 => strs(&["status"]),
                _ => with_ids(rng, &r)?,
            };
            let mut run = shim::attach(r.prep(&r.root, &args), &r).env("VS_DELAY", format!("{}:{}", rng.below(10000), rng.pick(&[0, 300, 2000])));
            if rng.chance(1, 5) {
                run = run.env("VS_KILL", format!("{}", rng.range(1, 12)));
            }
            kids.push((args, run.spawn()?));
        }
        let mut all = vec![];
        for (args, c) in kids {
            let o = c.wait()?;
            ctx.count("commands", 1);
            ctx.count("concurrent_commands", 1);
            keys.extend(returned(&args, &o)?);
            all.push(says(&args, &o));
        }
        let s = examine(ctx, &r, &keys, &format!("all at once: {}", all.join(", ")))?;
        ctx.eval(Some(s));
    }
    Ok(())
}

/// Content of every shape the cutting can give, deep and wide.
fn large(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let kind = *rng.pick(&[gen::Kind::Scripted, gen::Kind::Scripted, gen::Kind::Mixed]);
    let mut c = gen::content_of(rng, kind, 30);
    if case % 8 == 0 {
        // More than 512 chunks.
        c.extend(rng.bytes(18 << 20));
    } else if case % 8 == 1 {
        c.extend(vec![0; 17 << 20]);
    }
    let p = r.top.join("large");
    std::fs::write(&p, &c)?;
    let key = scen::parse_key(&r.insert(&p)?)?;
    ctx.count("large_contents", 1);
    let s = examine(ctx, &r, &[key], &format!("inserting {} bytes", c.len()))?;
    ctx.eval(Some(s ^ fnv(&c)));
    Ok(())
}
