//! C13: what was stored stays: every key keeps giving the same content.

use super::c09::command;
use crate::cli::{inserted_key, Db, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Fail, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{fnv, read_tree, tree_diff, write_tree, Node};
use serde_json::json;
use std::path::Path;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Long random sequences of all commands: successful, wrong (bad ids, paths, patterns), hit by an I/O error at a random call, killed at a random write, run with another or no cache, \
with another working directory, repeated, and in repositories of tens of thousands of objects and log records. Every key a successful command printed or recorded is remembered with what it has to give. After every command: all earlier objects are there \
unaltered and the log of every ref has only grown at its end. Every so often and at the end each remembered key is read again, by an independent reader and by fetch. Non-trivial: a command \
after which at least one remembered key was examined; distinct by command, outcome and the state reached.",
    assumptions: &[],
    needed: &["commands", "keys_remembered", "keys_read_again", "commands_failed", "commands_killed", "commands_faulted", "long_logs"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("sequence", ctx.n(700, 8000), |rng, i| sequence(ctx, rng, i));
    ctx.cases("long", ctx.n(12, 120), |rng, i| long(ctx, rng, i));
    ctx.cases("years", ctx.n(8, 60), |rng, i| years(ctx, rng, i));
}

/// A repository as years of use leave it: tens of thousands of objects and log records.
fn years(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    use rusqlite::params;
    let r = Repo::new(ctx)?;
    let mut kept = Kept { list: vec![], db: r.db()? };
    let mut keys: Vec<model::Key> = vec![];
    for i in 0..4 {
        let mut t = Node::empty();
        t.set("f", Some(Node::File(format!("{} {}", i, rng.next()).into_bytes())));
        let m = scen::commit(&r, &t, &format!("{}", i), None)?;
        keys.push(m.key);
        kept.list.push(Promise { key: m.tree, node: t, since: 0 });
    }
    let records = match case % 4 {
        0 => rng.range(900, 3000),
        1 => rng.range(4000, 12_000),
        2 => rng.range(60_000, 70_000),
        _ => rng.range(100, 70_000),
    };
    let objects = *rng.pick(&[10, 1000, 11_000, 70_000]);
    {
        let mut conn = rusqlite::Connection::open(r.dbfile()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut fill = |conn: &mut rusqlite::Connection| -> rusqlite::Result<()> {
            let tx = conn.transaction()?;
            for i in 0..records {
                let (name, remote) = match i % 16 {
                    0 => ("b", None),
                    1 => ("master", Some("up")),
                    _ => ("master", None),
                };
                tx.prepare_cached("INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)")?
                    .execute(params![name, remote, model::dbkey(rng.pick(&keys))])?;
            }
            for i in 0..objects {
                let (_, objs) = model::collect(|sink| model::store_tree(&Node::File(format!("{}", i).into_bytes()), sink));
                for (k, v) in objs.iter() {
                    tx.prepare_cached("INSERT OR IGNORE INTO data VALUES (?, ?)")?.execute(params![model::dbkey(k), v])?;
                }
            }
            tx.commit()
        };
        fill(&mut conn).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    }
    kept.step(&r, "filling the repository")?;
    let k = model::user_key(&keys[0]);
    let f = r.top.join("new");
    for i in 0..10 {
        let args = match i {
            0 => strs(&["commit", "-m", "m"]),
            1 => strs(&["ref", "update", &k]),
            2 => strs(&["ref", "update", &k, "b"]),
            3 => strs(&["debug", "reflog-push", &k, "master", "up"]),
            4 => strs(&["debug", "commit-tree", &model::user_key(&kept.list[0].key), &k]),
            5 => {
                std::fs::write(&f, rng.bytes(100))?;
                strs(&["insert", f.to_str().unwrap()])
            }
            6 => strs(&["debug", "set-head", "b"]),
            7 => strs(&["commit", "-m", "on b"]),
            8 => strs(&["status"]),
            _ => strs(&["ref", "log"]),
        };
        let o = r.run(&args)?;
        ensure!(o.ok(), "ordinary-command-fails", "{:?} in a repository of {} objects and {} records: {}", args, kept.db.data.len(), kept.db.reflog.len(), o.brief());
        let n = kept.db.reflog.len();
        kept.step(&r, &format!("{:?} in a repository of {} objects and {} records", args, kept.db.data.len(), n))?;
        ctx.count("commands", 1);
    }
    kept.check(ctx, &r, rng, 3, "at the end")?;
    ctx.max("most_records", kept.db.reflog.len() as u64);
    ctx.max("most_objects", kept.db.data.len() as u64);
    ctx.eval(Some(case << 32 ^ fnv(&keys[0])));
    Ok(())
}

struct Promise {
    key: model::Key,
    node: Node,
    since: usize,
}

struct Kept {
    list: Vec<Promise>,
    db: Db,
}

impl Kept {
    /// Nothing that was there is gone or altered.
    fn step(&mut self, r: &Repo<'_>, what: &str) -> Res {
        let now = r.db()?;
        for (k, v) in &self.db.data {
            match now.data.get(k) {
                None => crate::viol!("object-removed", "{}: object {} is gone", what, model::user_key_db(k)),
                Some(w) => ensure!(w == v, "object-altered", "{}: object {} is not what it was", what, model::user_key_db(k)),
            }
        }
        let n = self.db.reflog.len();
        ensure!(
            now.reflog.len() >= n && now.reflog[..n] == self.db.reflog[..],
            "log-rewritten",
            "{}: of the {} log records before, {} remain, not as they were", what, n, now.reflog.len()
        );
        self.db = now;
        Ok(())
    }

    fn check(&self, ctx: &Ctx, r: &Repo<'_>, rng: &mut Rng, fetch: usize, what: &str) -> Res {
        for p in &self.list {
            let got = match model::tree(&self.db.data, &p.key) {
                Ok(g) => g,
                Err(e) => crate::viol!("stored-content-lost", "{}: key {} of command {}: {}", what, model::user_key(&p.key), p.since, e),
            };
            if let Some(d) = tree_diff(&p.node, &got, "") {
                crate::viol!("stored-content-changed", "{}: key {} of command {}: {}", what, model::user_key(&p.key), p.since, d);
            }
            ctx.count("keys_read_again", 1);
        }
        for i in 0..fetch.min(self.list.len()) {
            let p = rng.pick(&self.list);
            let dest = r.top.join(format!("again{}", i));
            let _ = std::fs::remove_dir_all(&dest);
            let _ = std::fs::remove_file(&dest);
            let o = r.run(&["fetch", &model::user_key(&p.key), dest.to_str().unwrap()])?;
            ensure!(o.ok(), "stored-content-lost", "{}: key {} of command {} cannot be fetched: {}", what, model::user_key(&p.key), p.since, o.brief());
            match read_tree(&dest)? {
                Ok(g) => {
                    if let Some(d) = tree_diff(&p.node, &g, "") {
                        crate::viol!("stored-content-changed", "{}: key {} of command {}, fetched: {}", what, model::user_key(&p.key), p.since, d);
                    }
                }
                Err(e) => crate::viol!("stored-content-changed", "{}: {}", what, e),
            }
            ctx.count("keys_read_again", 1);
        }
        Ok(())
    }
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

/// Commands that ask, or fail.
fn other(rng: &mut Rng, r: &Repo<'_>, kept: &Kept) -> Vec<String> {
    let top = r.top.to_str().unwrap();
    let mut ids: Vec<String> = kept.list.iter().map(|p| model::user_key(&p.key)).collect();
    ids.extend(kept.db.reflog.iter().map(|x| model::user_key_db(&x.3)));
    ids.extend(["/master", "origin/main", "b", "ba", "bzzzz", "zz", ""].iter().map(|x| x.to_string()));
    ids.push(model::user_key(&model::hash(&rng.bytes(3))));
    let id = rng.pick(&ids).clone();
    let id2 = rng.pick(&ids).clone();
    let n = rng.below(20);
    let a = [
        strs(&["fetch", &id, &format!("{}/d{}", top, rng.below(4))]),
        strs(&["show", &id]),
        strs(&["log", &id]),
        strs(&["log"]),
        strs(&["show"]),
        strs(&["compare"]),
        strs(&["compare", "-s", &id]),
        strs(&["compare", "-p", top, &id]),
        strs(&["status"]),
        strs(&["ref", "log"]),
        strs(&["ref", "update", &id, "fresh"]),
        strs(&["ref", "update", &id]),
        strs(&["debug", "walk-tree", &id]),
        strs(&["debug", "pretty-print", &id]),
        strs(&["debug", "commit-tree", &id, &id2]),
        strs(&["debug", "reflog-push", &id, "master", "up"]),
        strs(&["checkout-head", "elsewhere"]),
        strs(&["init"]),
        strs(&["-e", "[", "commit", "-m", "m"]),
        strs(&["-e", "*", "commit", "-m", "nothing"]),
    ];
    a[n].clone()
}

fn remember(ctx: &Ctx, kept: &mut Kept, args: &[String], o: &Out, t: &Node, r: &Repo<'_>, at: usize) -> Res {
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let p = match a.as_slice() {
        ["insert", p] => {
            let k = scen::parse_key(&inserted_key(o)?)?;
            let node = match read_tree(Path::new(p))? {
                Ok(n) => n,
                Err(_) => return Ok(()),
            };
            Promise { key: k, node, since: at }
        }
        ["commit", ..] => {
            let last = match kept.db.reflog.last() {
                Some(x) => x.clone(),
                None => crate::viol!("commit-not-recorded", "a commit left no record"),
            };
            let c = match model::from_dbkey(&last.3).and_then(|k| model::commit(&kept.db.data, &k)) {
                Ok(c) => c,
                Err(e) => crate::viol!("commit-not-stored", "{}", e),
            };
            Promise { key: c.tree, node: t.clone(), since: at }
        }
        _ => return Ok(()),
    };
    ctx.count("keys_remembered", 1);
    kept.list.push(p);
    Ok(())
}

fn sequence(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts::small());
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    let mut kept = Kept { list: vec![], db: r.db()? };
    let steps = rng.range(10, 30);
    for step in 0..steps {
        // -e '*' commits nothing of the tree, so it is a command that is not remembered.
        let (args, known) = if rng.chance(3, 5) {
            (command(rng, &r, &mut t, false)?, true)
        } else {
            (other(rng, &r, &kept), false)
        };
        let mut cwd = r.root.clone();
        // (init makes a repository of its own where it runs)
        if args[0] != "init" && rng.chance(1, 4) {
            cwd = super::c12::any_dir(rng, &r.root, &t);
        }
        let how = rng.below(8);
        let mut run = r.prep(&cwd, &args);
        match how {
            0 | 1 => {
                let class = *rng.pick(&["db.write", "db.write", "db.sync", "db.open", "db.read", "db.unlink", "db.trunc", "data.read", "data.open", "dest.write", "cache.write", "out.write"]);
                let errno = *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE]);
                let n = match rng.below(3) {
                    0 => rng.range(1, 3),
                    1 => rng.range(1, 12),
                    _ => rng.range(1, 60),
                };
                let sticky = if class != "db.read" && rng.chance(1, 3) { ":s" } else { "" };
                run = shim::attach(run, &r).env("VS_FAIL", format!("{}:{}:{}{}", class, n, errno, sticky));
                ctx.count("commands_faulted", 1);
            }
            2 => {
                let n = if rng.chance(1, 2) { rng.range(1, 8) } else { rng.range(1, 40) };
                run = shim::attach(run, &r).env("VS_KILL", format!("{}{}", n, if rng.chance(1, 2) { "h" } else { "" }));
            }
            3 => {
                // without a cache
                let _ = std::fs::remove_dir_all(r.home.join("cache"));
            }
            4 => {
                // with one that belongs to somebody else
                let h = r.top.join("home2");
                std::fs::create_dir_all(&h)?;
                run.home = h;
            }
            _ => {}
        }
        let o = run.go()?;
        let what = format!("step {}: {:?} ({})", step, args.iter().map(|x| x.chars().take(40).collect::<String>()).collect::<Vec<_>>(), how);
        if std::env::var_os("VMON_TRACE").is_some() {
            eprintln!("{} env {:?} -> {}", what, run.env, o.brief());
        }
        kept.step(&r, &what)?;
        ctx.count("commands", 1);
        if !o.ok() {
            ctx.count(if o.signal.is_some() { "commands_killed" } else { "commands_failed" }, 1);
        } else if known {
            remember(ctx, &mut kept, &args, &o, &t, &r, step)?;
        }
        let fp = fnv(args.join(" ").replace(r.top.to_str().unwrap(), "").as_bytes()) ^ (kept.db.data.len() as u64) << 3 ^ o.ok() as u64 ^ (kept.db.reflog.len() as u64) << 40;
        ctx.eval(if kept.list.is_empty() { None } else { Some(fp) });
        if rng.chance(1, 4) {
            kept.check(ctx, &r, rng, 1, &what)?;
        }
    }
    kept.check(ctx, &r, rng, 6, "at the end")?;
    // A copy of the folder elsewhere has it all too.
    if case % 4 == 0 {
        let c = r.top.join("copy");
        std::fs::create_dir(&c)?;
        crate::util::copy_dir(&r.root.join(".snapcd"), &c.join(".snapcd"))?;
        if let Some(p) = kept.list.first() {
            let dest = r.top.join("from-copy");
            r.must_in(&c, &["fetch", &model::user_key(&p.key), dest.to_str().unwrap()])?;
            super::c04::same(&dest, &p.node, "from a copy of the repository")?;
        }
    }
    ctx.sample_in("sequence", json!({ "case": case, "commands": steps, "keys": kept.list.len(), "objects": kept.db.data.len() }));
    Ok(())
}

/// Many records in one log, many objects.
fn long(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut kept = Kept { list: vec![], db: r.db()? };
    let mut t = Node::empty();
    let mut keys: Vec<String> = vec![];
    let n = ctx.n(160, 500) as usize;
    for i in 0..n {
        if keys.is_empty() || rng.chance(1, 3) {
            t.set(&format!("f{}", rng.below(30)), Some(Node::File(format!("{} {}", i, rng.next()).into_bytes())));
            let m = scen::commit(&r, &t, &format!("{}", i), None)?;
            keys.push(model::user_key(&m.key));
            kept.list.push(Promise { key: m.tree, node: t.clone(), since: i });
            ctx.count("keys_remembered", 1);
        } else if rng.chance(1, 6) {
            let p = r.top.join("many");
            let _ = std::fs::remove_dir_all(&p);
            let mut u = Node::empty();
            for j in 0..rng.range(20, 200) {
                u.set(&format!("{}", j), Some(Node::File(format!("{} {}", i, j).into_bytes())));
            }
            write_tree(&p, &u, None)?;
            let k = scen::parse_key(&r.insert(&p)?)?;
            kept.list.push(Promise { key: k, node: u, since: i });
        } else {
            let k = rng.pick(&keys).clone();
            r.must(&["ref", "update", &k, *rng.pick(&["master", "b"])])?;
        }
        ctx.count("commands", 1);
        if i % 10 == 9 {
            kept.step(&r, &format!("after {} commands", i))?;
        }
    }
    kept.step(&r, "at the end")?;
    kept.check(ctx, &r, rng, 5, "at the end")?;
    for b in &["master", "b"] {
        let exp: Vec<String> = kept.db.reflog.iter().rev().filter(|x| x.1 == *b && x.2.is_none()).map(|x| model::user_key_db(&x.3)).collect();
        let o = r.must(&["ref", "log", b])?;
        let got = match super::c08::parse_ref_log(&o) {
            Ok(g) => g,
            Err(e) => crate::viol!("log-rewritten", "ref log prints {}", e),
        };
        ensure!(
            got.iter().map(|x| &x.1).eq(exp.iter()),
            "log-rewritten",
            "ref log of {:?} gives {} entries, {} were recorded", b, got.len(), exp.len()
        );
    }
    ensure!(kept.db.reflog.len() * 3 > n, "log-rewritten", "{} records after {} commands", kept.db.reflog.len(), n);
    ctx.count("long_logs", 1);
    ctx.eval(Some(fnv(&kept.db.reflog.last().unwrap().3)));
    Ok(())
}
