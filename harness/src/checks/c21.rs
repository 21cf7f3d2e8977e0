//! C21: init is harmless, and commands find the enclosing repository.

use crate::cli::{Db, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{fnv, read_tree, snap, snap_diff, write_tree, Node};
use serde_json::json;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "(a) init is run again, in every way of naming the same folder, with injected I/O errors, killed, and at the same time as other commands, on repositories with random histories: refs, \
HEAD and objects stay what they were. (b) Nests of repositories up to four deep, some under other names, with distinct HEADs: random commands from random directories must act on the nearest \
one and leave all others bit for bit alone. (c) Without a repository, every command that works on one fails and creates nothing. Non-trivial: an init on a repository with commits, or a \
command in a nest, distinct by command, place and what the repositories hold.",
    assumptions: &["a folder of the database's name is a repository, whatever is in it"],
    needed: &["inits_again", "inits_faulted", "inits_killed", "inits_at_the_same_time", "nested_commands", "nested_commits", "nested_inserts", "named_otherwise", "deep_directories", "without_repository", "commands_without_repository", "status_in_nest", "fresh_inits", "far_below", "through_a_link"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("again", ctx.n(480, 3000), |rng, i| again(ctx, rng, i));
    ctx.cases("nest", ctx.n(400, 3000), |rng, i| nest(ctx, rng, i));
    ctx.cases("without", ctx.n(120, 600), |rng, i| without(ctx, rng, i));
    ctx.cases("far", ctx.n(120, 600), |rng, i| far(ctx, rng, i));
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

fn again(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    // The first time.
    r.must(&["init"])?;
    let first = r.db()?;
    ensure!(first.head().as_deref() == Some("master") && first.data.is_empty() && first.reflog.is_empty(), "init-makes-no-empty-repository", "HEAD {:?}, {} objects", first.head(), first.data.len());
    ctx.count("fresh_inits", 1);
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    for i in 0..rng.below(4) {
        gen::edit(rng, &mut t, &o);
        t.dir_mut().remove(".snapcd");
        scen::commit(&r, &t, &format!("m{}", i), if rng.chance(1, 3) { Some("side") } else { None })?;
        if rng.chance(1, 3) {
            r.must(&["debug", "set-head", *rng.pick(&["side", "x", "master", "a b"])])?;
        }
    }
    if rng.chance(1, 4) {
        r.must(&["debug", "set-head", ""])?;
    }
    let commits = r.db()?.reflog.len();
    for _ in 0..rng.range(2, 6) {
        let mut db = r.db()?;
        let died = rng.chance(1, 3);
        if died {
            // The command before was killed, and has left things to be undone.
            let mut u = t.clone();
            for k in 0..rng.range(1, 40) {
                u.set(&format!("k{}", k), Some(Node::File(rng.bytes(2000))));
            }
            scen::put_root(&r, &u)?;
            let at = rng.range(1, 30);
            let run = shim::attach(r.prep(&r.root, &strs(&["commit", "-m", "killed"])), &r).env("VS_KILL", format!("{}", at));
            let o = run.go()?;
            ctx.count("inits_after_a_kill", (o.signal.is_some()) as u64);
            // What a reader finds who takes no part in this.
            let copy = r.top.join("copy");
            let _ = std::fs::remove_dir_all(&copy);
            shim::write_files(&copy, &shim::read_files(&r.root.join(".snapcd"))?)?;
            db = match crate::cli::Db::load(&copy.join("snapcd.db")) {
                Ok(d) => d,
                Err(e) => crate::viol!("database-unreadable", "after a kill at change {}: {}", at, e),
            };
            t = u;
        }
        let file = r.dbfile();
        let inode = std::os::unix::fs::MetadataExt::ino(&std::fs::metadata(&file)?);
        let abs = r.root.join(".snapcd").to_str().unwrap().to_string();
        let args = match rng.below(5) {
            0 | 1 => strs(&["init"]),
            2 => strs(&["-d", ".snapcd", "init"]),
            3 => strs(&["-d", "./.snapcd/", "init"]),
            _ => strs(&["-d", &abs, "init"]),
        };
        let cwd = r.root.clone();
        let mut run = r.prep(&cwd, &args);
        let how = rng.below(6);
        match how {
            0 => {
                let class = *rng.pick(&["db.write", "db.sync", "db.open", "db.read", "db.unlink", "cache.open", "cache.write"]);
                run = shim::attach(run, &r).env("VS_FAIL", format!("{}:{}:{}", class, rng.range(1, 10), libc::EIO));
                ctx.count("inits_faulted", 1);
            }
            1 => {
                run = shim::attach(run, &r).env("VS_KILL", format!("{}", rng.range(1, 20)));
                ctx.count("inits_killed", 1);
            }
            _ => {}
        }
        let out = if how == 2 {
            // Together with another init and a command that asks.
            let a = run.spawn()?;
            let b = r.prep(&cwd, &args).spawn()?;
            let c = r.prep(&cwd, &strs(&["debug", "get-head"])).spawn()?;
            let (oa, ob, oc) = (a.wait()?, b.wait()?, c.wait()?);
            ensure!(ob.ok() || ob.code.is_some(), "init-dies", "{}", ob.brief());
            if oc.ok() {
                ensure!(oc.text().trim_end() == format!("head: {:?}", db.head()), "init-changes-repository", "during init, get-head prints {:?}", oc.text());
            }
            ctx.count("inits_at_the_same_time", 1);
            oa
        } else {
            run.go()?
        };
        let what = format!("{:?} on a repository with {} log records ({})", args, db.reflog.len(), out.brief());
        if how > 2 {
            ensure!(out.ok(), "init-fails", "{}", what);
        }
        if let Some(d) = db.diff(&r.db()?) {
            crate::viol!("init-changes-repository", "{}: {}", what, d);
        }
        ensure!(std::os::unix::fs::MetadataExt::ino(&std::fs::metadata(&file)?) == inode, "init-changes-repository", "{}: the database is another file", what);
        let g = r.must(&["debug", "get-head"])?;
        ensure!(g.text().trim_end() == format!("head: {:?}", db.head()), "init-changes-repository", "{}: get-head prints {:?}", what, g.text());
        ctx.count("inits_again", 1);
        let fp = fnv(format!("{:?}{:?}{}", &args[..args.len().min(1)], how, db.reflog.len()).as_bytes()) ^ t.fingerprint();
        ctx.eval(if commits > 0 { Some(fp) } else { None });
    }
    if case < 3 {
        ctx.sample_in("again", json!({ "case": case, "commits": commits }));
    }
    Ok(())
}

struct Place {
    root: PathBuf,
    /// The name of the database folder, if it is not the usual one.
    name: Option<String>,
    head: String,
}

impl Place {
    fn db(&self) -> Res<Db> {
        let f = self.root.join(self.name.as_deref().unwrap_or(".snapcd")).join("snapcd.db");
        match Db::load(&f) {
            Ok(d) => Ok(d),
            Err(e) => crate::viol!("database-unreadable", "{}: {}", f.display(), e),
        }
    }
}

fn nest(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    let names = ["a", "b c", "é", "-d", "deep", "x.y", ".hidden", "snapcd"];
    // A chain of directories with side branches.
    let mut dirs: Vec<PathBuf> = vec![r.root.clone()];
    for _ in 0..rng.range(3, 9) {
        let d = rng.pick(&dirs).join(*rng.pick(&names));
        if !d.exists() {
            std::fs::create_dir(&d)?;
            std::fs::write(d.join("f"), format!("{}", rng.next()))?;
            dirs.push(d);
        }
    }
    // Repositories in some of them, the outermost last sometimes.
    let mut places: Vec<Place> = vec![];
    let mut at: Vec<PathBuf> = dirs.clone();
    rng.shuffle(&mut at);
    let n = rng.range(2, 4).min(at.len());
    at.truncate(n);
    if !at.contains(&r.root) && rng.chance(2, 3) {
        at.push(r.root.clone());
    }
    for (i, d) in at.iter().enumerate() {
        let name = if rng.chance(1, 4) { Some(rng.pick(&["other.db", ".other"]).to_string()) } else { None };
        let mut a = vec![];
        if let Some(n) = &name {
            a.extend(strs(&["-d", n]));
            ctx.count("named_otherwise", 1);
        }
        a.push("init".into());
        r.must_in(d, &a)?;
        let head = format!("head{}", i);
        let mut a: Vec<String> = a[..a.len() - 1].to_vec();
        a.extend(strs(&["debug", "set-head", &head]));
        r.must_in(d, &a)?;
        places.push(Place { root: d.clone(), name, head });
        // Both names in one directory now and then.
        if rng.chance(1, 4) {
            let p = places.last().unwrap();
            let name = match p.name {
                Some(_) => None,
                None => Some("other.db".to_string()),
            };
            let mut a = vec![];
            if let Some(n) = &name {
                a.extend(strs(&["-d", n]));
            }
            let mut b = a.clone();
            a.push("init".into());
            r.must_in(d, &a)?;
            let head = format!("second{}", i);
            b.extend(strs(&["debug", "set-head", &head]));
            r.must_in(d, &b)?;
            places.push(Place { root: d.clone(), name, head });
        }
    }
    for step in 0..rng.range(8, 16) {
        let cwd = rng.pick(&dirs).clone();
        let name = if rng.chance(1, 3) { Some(rng.pick(&["other.db", ".other"]).to_string()) } else { None };
        let nearest = places
            .iter()
            .enumerate()
            .filter(|(_, p)| p.name == name && cwd.starts_with(&p.root))
            .max_by_key(|(_, p)| p.root.components().count())
            .map(|x| x.0);
        let before: Vec<Db> = places.iter().map(|p| p.db()).collect::<Res<_>>()?;
        let files = snap(&r.root, &|_| false)?;
        let mut args: Vec<String> = vec![];
        if let Some(n) = &name {
            args.extend(strs(&["-d", n]));
        }
        let kind = rng.below(8);
        let unique = format!("{} {}", case, rng.next());
        match kind {
            0 | 1 => args.extend(strs(&["commit", "-m", &unique])),
            2 => {
                let f = r.top.join("one");
                std::fs::write(&f, &unique)?;
                args.extend(strs(&["insert", f.to_str().unwrap()]));
            }
            3 => args.extend(strs(&["debug", "get-head"])),
            4 => args.extend(strs(&["status"])),
            5 => args.extend(strs(&["debug", "set-head", &format!("h{}", step)])),
            6 => args.extend(strs(&["ref", "log"])),
            _ => args.extend(strs(&["log"])),
        }
        let out = r.run_in(&cwd, &args)?;
        let what = format!("{:?} in {} ({})", args, cwd.strip_prefix(&r.root).unwrap_or(&cwd).display(), out.brief());
        let after: Vec<Db> = places.iter().map(|p| p.db()).collect::<Res<_>>()?;
        for (i, p) in places.iter().enumerate() {
            if Some(i) != nearest {
                if let Some(d) = before[i].diff(&after[i]) {
                    crate::viol!("another-repository-changed", "{} changes the repository in {}: {}", what, p.root.display(), d);
                }
            }
        }
        let i = match nearest {
            None => {
                ensure!(!out.ok(), "works-without-repository", "{}: there is none above", what);
                if let Some(d) = snap_diff(&files, &snap(&r.root, &|_| false)?) {
                    crate::viol!("created-without-repository", "{}: {}", what, d);
                }
                ctx.count("without_repository", 1);
                continue;
            }
            Some(i) => i,
        };
        let (b, a) = (&before[i], &after[i]);
        if cwd != places[i].root {
            ctx.count("deep_directories", 1);
        }
        match kind {
            0 | 1 => {
                ensure!(out.ok(), "ordinary-command-fails", "{}", what);
                ensure!(a.reflog.len() == b.reflog.len() + 1, "nearest-repository-not-used", "{}: no record in the repository in {}", what, places[i].root.display());
                let m = scen::made(a, &Node::empty(), &unique, None)?;
                ensure!(m.refname == places[i].head, "nearest-repository-not-used", "{}: recorded as {:?}", what, m.refname);
                let mut want = match read_tree(&places[i].root)? {
                    Ok(n) => n,
                    Err(e) => crate::inconclusive!("{}", e),
                };
                want.dir_mut().remove(places[i].name.as_deref().unwrap_or(".snapcd"));
                scen::check_tree(&what, a, &m.tree, &want)?;
                ctx.count("nested_commits", 1);
            }
            2 => {
                ensure!(out.ok(), "ordinary-command-fails", "{}", what);
                let k = model::hash(&model::encode_obj(&model::Obj { typ: "FileBlob".into(), data: unique.clone().into_bytes(), keys: vec![] }));
                ensure!(a.data.contains_key(&model::dbkey(&k)), "nearest-repository-not-used", "{}: nothing inserted into the repository in {}", what, places[i].root.display());
                ctx.count("nested_inserts", 1);
            }
            3 => ensure!(out.text().trim_end() == format!("head: {:?}", Some(&places[i].head)), "nearest-repository-not-used", "{}: HEAD is {:?}", what, places[i].head),
            4 => {
                ensure!(out.ok() && out.text().starts_with(&format!("HEAD: {} ", places[i].head)), "nearest-repository-not-used", "{}: HEAD is {:?}", what, places[i].head);
                ctx.count("status_in_nest", 1);
            }
            5 => {
                ensure!(out.ok() && a.head() == Some(format!("h{}", step)), "nearest-repository-not-used", "{}: HEAD is {:?}", what, a.head());
                places[i].head = format!("h{}", step);
            }
            _ => {
                let n = a.reflog.iter().filter(|x| x.1 == places[i].head && x.2.is_none()).count();
                ensure!(out.ok() == (n > 0 || kind == 6), "nearest-repository-not-used", "{}: {} records", what, n);
                if let (true, Some(k)) = (n > 0, a.tip(&places[i].head)) {
                    ensure!(out.text().contains(&model::user_key_db(k)), "nearest-repository-not-used", "{}: its tip is not in the log", what);
                }
            }
        }
        ctx.count("nested_commands", 1);
        ctx.eval(Some(fnv(format!("{} {} {} {:?} {}", kind, i, a.reflog.len(), cwd.strip_prefix(&r.root), case).as_bytes())));
    }
    ctx.sample_in("nest", json!({ "case": case, "repositories": places.iter().map(|p| format!("{} {:?}", p.root.strip_prefix(&r.root).unwrap_or(Path::new("?")).display(), p.name)).collect::<Vec<_>>() }));
    Ok(())
}

/// A long way below the repository, through links, and where its folder is a link.
fn far(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    // The outer one is never the nearest.
    r.must(&["init"])?;
    r.must(&["debug", "set-head", "outermost"])?;
    let outer = r.db()?;
    let mut at = r.root.join("inner");
    std::fs::create_dir(&at)?;
    let place = at.clone();
    let linked = rng.chance(1, 3);
    if linked {
        // The folder is elsewhere.
        let real = r.top.join("kept elsewhere");
        std::fs::create_dir(&real)?;
        std::os::unix::fs::symlink(&real, at.join(".snapcd"))?;
        ctx.count("through_a_link", 1);
    }
    r.must_in(&at, &["init"])?;
    r.must_in(&at, &["debug", "set-head", "inner"])?;
    std::fs::write(at.join("f"), format!("{}", case))?;
    r.must_in(&at, &["commit", "-m", "m"])?;
    let file = place.join(".snapcd/snapcd.db");
    let depth = *rng.pick(&[1, 5, 10, 20, 35, 50, 80]);
    for i in 0..depth {
        at = at.join(if rng.chance(1, 8) { "d d".to_string() } else { format!("{}", i % 10) });
        std::fs::create_dir(&at)?;
        // What is not one is not taken for one: a name that is close, a link to nowhere.
        if rng.chance(1, 6) {
            std::fs::create_dir(at.join(*rng.pick(&["snapcd", ".snapcd2", ".Snapcd", "snapcd.db", ".snapcd.d"])))?;
        }
    }
    let load = |f: &Path| -> Res<Db> {
        match Db::load(f) {
            Ok(d) => Ok(d),
            Err(e) => crate::viol!("database-unreadable", "{}: {}", f.display(), e),
        }
    };
    let before = load(&file)?;
    let head = |at: &Path| r.run_in(at, &["debug", "get-head"]);
    let o = head(&at)?;
    ensure!(o.ok() && o.text().trim_end() == "head: Some(\"inner\")", "nearest-repository-not-used", "{} levels below: {}", depth, o.brief());
    let asked = r.run_in(&at, &["log"])?;
    let there = r.run_in(&place, &["log"])?;
    ensure!(asked.ok() && asked.stdout == there.stdout, "nearest-repository-not-used", "{} levels below, log: {}", depth, asked.brief());
    let asked = r.run_in(&at, &["status"])?;
    let there = r.run_in(&place, &["status"])?;
    ensure!(asked.ok() && asked.stdout == there.stdout, "nearest-repository-not-used", "{} levels below, status: {} and there {}", depth, asked.brief(), there.brief());
    let now = load(&file)?;
    ensure!(now.reflog == before.reflog && now.head() == before.head(), "answer-changes-repository", "{} levels below: {:?}", depth, before.diff(&now));
    let o = r.run_in(&at, &["commit", "-m", "from far below"])?;
    let now = load(&file)?;
    ensure!(o.ok() && now.reflog.len() == before.reflog.len() + 1, "nearest-repository-not-used", "{} levels below, commit: {}", depth, o.brief());
    let m = scen::made(&now, &Node::empty(), "from far below", None)?;
    ensure!(m.refname == "inner", "nearest-repository-not-used", "{} levels below: recorded as {:?}", depth, m.refname);
    let name = place.join(".snapcd");
    let target = if linked { Some(std::fs::read_link(&name)?) } else { None };
    if linked {
        std::fs::remove_file(&name)?;
    }
    let mut want = match read_tree(&place)? {
        Ok(n) => n,
        Err(e) => crate::inconclusive!("{}", e),
    };
    want.dir_mut().remove(".snapcd");
    if let Some(x) = target {
        std::os::unix::fs::symlink(x, &name)?;
    }
    scen::check_tree("far below", &now, &m.tree, &want)?;
    // The working directory is reached through a link that lies in the other repository, which does not count.
    let link = r.root.join("link");
    std::os::unix::fs::symlink(&at, &link)?;
    let o = head(&link)?;
    ensure!(o.ok() && o.text().trim_end() == "head: Some(\"inner\")", "nearest-repository-not-used", "through a link: {}", o.brief());
    if let Some(d) = outer.diff(&r.db()?) {
        crate::viol!("another-repository-changed", "{}", d);
    }
    ctx.count("far_below", (depth > 15) as u64);
    ctx.eval(Some(fnv(format!("far {} {} {}", depth, linked, at.display().to_string().len()).as_bytes())));
    Ok(())
}

/// Every command there is, without a repository.
fn without(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    let t = gen::tree(rng, &gen::TreeOpts { depth: 2, ..gen::TreeOpts::small() });
    let mut t = t;
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    // Siblings that have one do not count.
    let sib = r.top.join("sibling");
    std::fs::create_dir(&sib)?;
    r.must_in(&sib, &["init"])?;
    let sub = r.root.join("sub dir");
    write_tree(&sub, &Node::empty(), None)?;
    r.must_in(&sub, &["init"])?;
    // Nor does one with another name.
    if rng.chance(1, 2) {
        r.must(&["-d", "else.db", "init"])?;
    }
    let key = model::user_key(&model::hash(b"x"));
    let out = r.top.join("out");
    let o = out.to_str().unwrap();
    let all = [
        strs(&["insert", "."]),
        strs(&["commit", "-m", "m"]),
        strs(&["commit", "-m", "m", "-p", ".", "name"]),
        strs(&["fetch", &key, o]),
        strs(&["debug", "pretty-print", &key]),
        strs(&["debug", "commit-tree", &key]),
        strs(&["debug", "reflog-get", "master"]),
        strs(&["debug", "reflog-push", &key, "master"]),
        strs(&["debug", "walk-tree", &key]),
        strs(&["debug", "set-head", "x"]),
        strs(&["debug", "get-head"]),
        strs(&["show"]),
        strs(&["show", &key]),
        strs(&["log"]),
        strs(&["compare"]),
        strs(&["compare", &key]),
        strs(&["status"]),
        strs(&["checkout"]),
        strs(&["checkout-head", "x"]),
        strs(&["ref", "log"]),
        strs(&["ref", "log", "x", "y"]),
        strs(&["ref", "update", &key]),
    ];
    let skip = r.home.join("cache");
    let dirs: Vec<PathBuf> = std::iter::once(r.root.clone())
        .chain(t.paths().into_iter().filter(|p| p.1).map(|p| r.root.join(p.0)))
        .collect();
    // The cache folder is made by whichever command comes first.
    let _ = r.run(&["status"])?;
    for a in &all {
        let cwd = rng.pick(&dirs).clone();
        let mut args = vec![];
        match rng.below(4) {
            0 => args.extend(strs(&["-d", "nothing.db"])),
            1 => args.extend(strs(&["-d", r.top.join("no/such").to_str().unwrap()])),
            _ => {}
        }
        args.extend(a.clone());
        let before = snap(&r.top, &|p| p == skip)?;
        let o: Out = r.run_in(&cwd, &args)?;
        ensure!(!o.ok(), "works-without-repository", "{:?} succeeds without a repository: {}", args, o.brief());
        ensure!(o.code.is_some(), "dies-without-repository", "{:?}: {}", args, o.brief());
        if let Some(d) = snap_diff(&before, &snap(&r.top, &|p| p == skip)?) {
            crate::viol!("created-without-repository", "{:?}: {}", args, d);
        }
        ctx.count("commands_without_repository", 1);
        ctx.eval(None);
    }
    Ok(())
}
