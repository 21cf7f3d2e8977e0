//! C28: a checkout makes the working directory what was committed.

use super::c12::stealthy;
use super::c19::{bin_for_all, chown_all, NOBODY};
use crate::cli::{commit_args, Db, Out, Repo, Run};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, differences, Listing, Made};
use crate::shim;
use crate::util::{fnv, read_tree, snap, snap_diff, sync_tree, tree_diff, Node, Snap};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "The plain checkout works in one directory only, /home/jess/src/snapcd/repo. Every case makes that directory its own (a scratch directory mounted over /home in namespaces of the \
command's own, or made for the check where that is not allowed) and runs as an unprivileged user. Random trees are committed to one or two refs; the directory is then edited (missing, changed, \
emptied and additional entries, files where directories were and the other way round, same-size changes with the times put back, large files that shrink and grow, excluded names anywhere, links to what lies in and around the directory and in the database folder) and checked \
out from random places in it, with reads and writes failing, with objects damaged or gone, and without a commit. After an exit with 0 the directory must be exactly the commit plus what is \
excluded, and status must list nothing; whatever the exit, what is excluded, everything around the directory, refs, HEAD and stored objects must be as before. Non-trivial: a checkout that \
had something to change, distinct by the differences.",
    assumptions: &[
        "no file of the working directory has another name outside (a hard link), and its user may write to everything in it",
        "the patterns given to checkout are those given to the commit",
    ],
    needed: &[
        "checkouts", "nothing_to_do", "missing_directories", "missing_files", "changed_files", "extra_files", "extra_directories", "file_to_directory", "directory_to_file", "other_commits", "kept_excluded",
        "kept_inside_extra", "refused_for_excluded", "links", "dangling_links", "links_in_the_way", "stealthy_edits", "large_files", "failed", "repaired", "damaged", "said_so", "no_commits",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    // Before anything else runs: a program that is being written cannot be started.
    let _ = bin_for_all(ctx);
    ctx.cases("restore", ctx.n(500, 6000), |rng, i| restore(ctx, rng, i));
    ctx.cases("links", ctx.n(150, 2000), |rng, i| links(ctx, rng, i));
    ctx.cases("faulty", ctx.n(40, 700), |rng, i| faulty(ctx, rng, i));
    ctx.cases("damaged", ctx.n(40, 600), |rng, i| damaged(ctx, rng, i));
    ctx.cases("nohead", ctx.n(16, 200), |rng, i| nohead(ctx, rng, i));
}

const INSIDE: &str = "/home/jess/src/snapcd/repo";

/// Whether commands may have a /home of their own.
fn namespaces(ctx: &Ctx) -> bool {
    static CAN: OnceLock<bool> = OnceLock::new();
    *CAN.get_or_init(|| {
        if std::env::var_os("VMON_PLACE").map_or(false, |v| v == "real") {
            return false;
        }
        let try_it = || -> Res<bool> {
            let d = ctx.dir("probe")?;
            std::fs::create_dir_all(d.join("jess"))?;
            chown_all(&d)?;
            let mut r = Run::new(ctx, &d, &d, &["jess"]);
            r.bin = Some("/bin/ls".into());
            r.uid = Some(NOBODY);
            r.home_at = Some((d.clone(), "/home/jess".into()));
            r.env.push(("LC_ALL".into(), "C".into()));
            r.args = vec!["-d".into(), "/home/jess".into()];
            Ok(r.go()?.ok())
        };
        try_it().unwrap_or(false)
    })
}

/// A repository in the one place where checkout works.
struct Place<'a> {
    r: Repo<'a>,
    /// What is mounted over /home; none where the real one is used.
    over: Option<PathBuf>,
    bin: PathBuf,
    _only: Option<MutexGuard<'static, ()>>,
}

impl Drop for Place<'_> {
    fn drop(&mut self) {
        if self.over.is_none() {
            let _ = std::fs::remove_dir_all("/home/jess");
        }
    }
}

static ONE: Mutex<()> = Mutex::new(());

impl<'a> Place<'a> {
    fn new(ctx: &'a Ctx) -> Res<Place<'a>> {
        let mut r = Repo::bare(ctx)?;
        let bin = r.top.join("bin");
        std::fs::hard_link(bin_for_all(ctx)?, &bin)?;
        let p = if namespaces(ctx) {
            let over = r.top.join("over");
            r.root = over.join("jess/src/snapcd/repo");
            Place { r, over: Some(over), bin, _only: None }
        } else {
            let g = ONE.lock().unwrap_or_else(|e| e.into_inner());
            if std::fs::create_dir("/home/jess").is_err() {
                crate::inconclusive!("neither namespaces nor /home/jess can be had");
            }
            r.root = INSIDE.into();
            Place { r, over: None, bin, _only: Some(g) }
        };
        std::fs::create_dir_all(&p.r.root)?;
        std::fs::create_dir_all(p.r.home.join("cache"))?;
        // What lies around it, and begins like it.
        let up = p.r.root.parent().unwrap();
        for (f, c) in &[("around", "a"), ("repo2", "b"), ("rep", "c"), ("f", "d")] {
            std::fs::write(up.join(f), c)?;
        }
        std::fs::create_dir(up.join("dir"))?;
        std::fs::write(up.join("dir/inner"), "e")?;
        p.own()?;
        p.must(&p.r.root, &["init".to_string()])?;
        Ok(p)
    }

    fn own(&self) -> Res {
        if self.over.is_none() {
            chown_all(Path::new("/home/jess"))?;
        } else {
            chown_all(&self.r.top.join("over"))?;
        }
        chown_all(&self.r.home)
    }

    fn prep<S: AsRef<std::ffi::OsStr>>(&self, cwd: &Path, args: &[S]) -> Run<'a> {
        let mut run = self.r.prep(cwd, args);
        run.uid = Some(NOBODY);
        run.bin = Some(self.bin.clone());
        run.home_at = self.over.clone().map(|o| (o, Path::new(INSIDE).join(cwd.strip_prefix(&self.r.root).expect("inside"))));
        run
    }

    fn run<S: AsRef<std::ffi::OsStr>>(&self, cwd: &Path, args: &[S]) -> Res<Out> {
        self.own()?;
        self.prep(cwd, args).go()
    }

    fn must<S: AsRef<std::ffi::OsStr>>(&self, cwd: &Path, args: &[S]) -> Res<Out> {
        let o = self.run(cwd, args)?;
        ensure!(o.ok(), "command-fails", "{:?}: {}", args.iter().map(|a| a.as_ref().to_string_lossy()).collect::<Vec<_>>(), o.brief());
        Ok(o)
    }

    fn commit(&self, t: &Node, msg: &str, name: Option<&str>, excl: &[String]) -> Res<Made> {
        let mut a = excl.to_vec();
        a.extend(commit_args(msg, name));
        self.must(&self.r.root, &a)?;
        scen::made(&self.r.db()?, t, msg, name)
    }

    /// The directory without the database.
    fn tree(&self) -> Res<Node> {
        match read_tree(&self.r.root)? {
            Ok(mut n) => {
                n.dir_mut().remove(".snapcd");
                Ok(n)
            }
            Err(e) => crate::inconclusive!("{}", e),
        }
    }

    /// Everything around the directory.
    fn around(&self) -> Res<Snap> {
        let top = match &self.over {
            Some(o) => o.clone(),
            None => "/home/jess".into(),
        };
        let mut s = snap(&top, &|p| p == self.r.root)?;
        s.extend(snap(&self.r.home, &|p| p == self.r.home.join("cache"))?);
        Ok(s)
    }
}

/// Whether a name is one of those that are excluded.
fn excluded(name: &str, skip: &[&str]) -> bool {
    skip.iter().any(|s| name == *s)
}

fn without(n: &Node, skip: &[&str]) -> Node {
    match n {
        Node::File(_) => n.clone(),
        Node::Dir(d) => Node::Dir(d.iter().filter(|(k, _)| !excluded(k, skip)).map(|(k, v)| (k.clone(), without(v, skip))).collect()),
    }
}

/// What is to be there after a checkout of `want` over `have`: the one, and of the other what is excluded. None if that
/// cannot be.
fn overlaid(want: &Node, have: &Node, skip: &[&str], inside_extra: &mut bool) -> Option<Node> {
    fn only(n: &Node, skip: &[&str]) -> Option<Node> {
        let mut out = Node::empty();
        if let Node::Dir(d) = n {
            for (k, v) in d {
                if excluded(k, skip) {
                    out.set(k, Some(v.clone()));
                } else if let Some(x) = only(v, skip) {
                    out.set(k, Some(x));
                }
            }
        }
        if out.dir_mut().is_empty() {
            None
        } else {
            Some(out)
        }
    }
    let (w, h) = match (want, have) {
        (Node::Dir(w), Node::Dir(h)) => (w, h),
        (Node::Dir(_), _) => return Some(want.clone()),
        (Node::File(_), h) => return if only(h, skip).is_some() { None } else { Some(want.clone()) },
    };
    let mut out = Node::empty();
    for (k, v) in w {
        let x = match h.get(k) {
            Some(y) => overlaid(v, y, skip, inside_extra)?,
            None => v.clone(),
        };
        out.set(k, Some(x));
    }
    for (k, v) in h {
        if excluded(k, skip) {
            out.set(k, Some(v.clone()));
        } else if !w.contains_key(k) {
            if let Some(x) = only(v, skip) {
                *inside_extra = true;
                out.set(k, Some(x));
            }
        }
    }
    Some(out)
}

/// All that is excluded, with where it is.
fn kept(n: &Node, skip: &[&str], at: &str, out: &mut Vec<(String, Node)>) {
    if let Node::Dir(d) = n {
        for (k, v) in d {
            let p = format!("{}/{}", at, k);
            if excluded(k, skip) {
                out.push((p, v.clone()));
            } else {
                kept(v, skip, &p, out);
            }
        }
    }
}

/// What must not change, whatever comes of it.
fn untouched(p: &Place<'_>, what: &str, db: &Db, around: &Snap, have: &Node, skip: &[&str]) -> Res<Node> {
    let now = p.tree()?;
    let (mut a, mut b) = (vec![], vec![]);
    kept(have, skip, "", &mut a);
    kept(&now, skip, "", &mut b);
    for x in &a {
        ensure!(b.contains(x), "excluded-path-touched", "{}: {:?} is excluded, and is not what it was", what, x.0);
    }
    if let Some(d) = snap_diff(around, &p.around()?) {
        crate::viol!("outside-touched", "{}: outside of the directory: {}", what, d);
    }
    let after = p.r.db()?;
    ensure!(after.state == db.state && after.reflog == db.reflog, "refs-change", "{}: refs or HEAD changed", what);
    ensure!(after.data == db.data, "objects-change", "{}: stored objects changed", what);
    Ok(now)
}

fn observe(ctx: &Ctx, before: &Node, want: &Node) {
    let l = differences(Some(before), want);
    ctx.count("checkouts", 1);
    if l.is_empty() {
        ctx.count("nothing_to_do", 1);
        ctx.eval(None);
        return;
    }
    ctx.eval(Some(fnv(format!("{:?}", l).as_bytes())));
    let is_dir = |n: &Node, p: &str| matches!(n.get(p), Some(Node::Dir(_)));
    for x in l.added.difference(&l.deleted) {
        let x = x.trim_end_matches('/');
        ctx.count(if is_dir(want, x) { "missing_directories" } else { "missing_files" }, 1);
    }
    for x in l.deleted.difference(&l.added) {
        let x = x.trim_end_matches('/');
        ctx.count(if is_dir(before, x) { "extra_directories" } else { "extra_files" }, 1);
    }
    for (x, dir) in want.paths() {
        match before.get(&x) {
            Some(Node::File(_)) if dir => ctx.count("file_to_directory", 1),
            Some(Node::Dir(_)) if !dir => ctx.count("directory_to_file", 1),
            _ => {}
        }
    }
    ctx.count("changed_files", l.modified.len() as u64);
}

fn any_dir(rng: &mut Rng, root: &Path, t: &Node) -> PathBuf {
    super::c12::any_dir(rng, root, t)
}

fn restore(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let p = Place::new(ctx)?;
    let mut o = gen::TreeOpts::small();
    if rng.chance(1, 6) {
        o.max_blocks = 4;
        ctx.count("large_files", 1);
    }
    let skip: Vec<&str> = if rng.chance(1, 2) { vec![] } else { vec!["kept", "k.o"] };
    let excl: Vec<String> = skip.iter().flat_map(|s| vec!["-e".to_string(), format!("**/{}", s)]).collect();
    let clean = |t: &mut Node| {
        t.dir_mut().remove(".snapcd");
    };
    // Some of what is excluded, anywhere.
    let strew = |rng: &mut Rng, t: &mut Node| {
        for _ in 0..rng.below(4) {
            if skip.is_empty() {
                break;
            }
            let dirs: Vec<String> = t.paths().into_iter().filter(|q| q.1).map(|q| q.0).collect();
            let at = if dirs.is_empty() || rng.chance(1, 3) { String::new() } else { format!("{}/", rng.pick(&dirs)) };
            let f = format!("{}{}", at, rng.pick(&skip));
            let v = if rng.chance(1, 2) { Node::File(rng.bytes(3)) } else { gen::tree(rng, &gen::TreeOpts { depth: 1, width: 2, ..gen::TreeOpts::small() }) };
            t.set(&f, Some(v));
        }
    };
    let mut t = gen::tree(rng, &o);
    let mut made: Vec<Made> = vec![];
    for i in 0..rng.range(1, 3) {
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        clean(&mut t);
        strew(rng, &mut t);
        sync_tree(&p.r.root, &t, &[".snapcd"])?;
        let name = *rng.pick(&["master", "side", "a/b"]);
        made.push(p.commit(&without(&t, &skip), &format!("c{}", i), Some(name), &excl)?);
    }
    let mut log = vec![];
    for round in 0..rng.range(1, 4) {
        // HEAD may be any of the refs; its last commit counts.
        let name = rng.pick(&made).refname.clone();
        p.must(&p.r.root, &["debug", "set-head", &name])?;
        let m = made.iter().rev().find(|m| m.refname == name).unwrap();
        if m.key != made.last().unwrap().key {
            ctx.count("other_commits", 1);
        }
        match rng.below(8) {
            0 => {}
            // All of it is gone.
            1 => t = Node::empty(),
            2 => t = gen::tree(rng, &o),
            3 => {
                // What were files are directories now, and the other way round.
                for (q, dir) in m.node.paths() {
                    if rng.chance(1, 2) && t.get(&q).is_some() {
                        t.set(&q, Some(if dir { Node::File(rng.bytes(5)) } else { gen::tree(rng, &gen::TreeOpts { depth: 1, ..gen::TreeOpts::small() }) }));
                    }
                }
            }
            _ => {
                for _ in 0..rng.range(1, 6) {
                    gen::edit(rng, &mut t, &o);
                }
            }
        }
        clean(&mut t);
        strew(rng, &mut t);
        sync_tree(&p.r.root, &t, &[".snapcd"])?;
        if skip.is_empty() && rng.chance(1, 4) && stealthy(&p.r.root, &mut t, rng)? {
            ctx.count("stealthy_edits", 1);
        }
        let cwd = any_dir(rng, &p.r.root, &t);
        let db = p.r.db()?;
        p.own()?;
        let around = p.around()?;
        let mut args = excl.clone();
        args.push("checkout".into());
        let mut inside = false;
        let want = overlaid(&m.node, &t, &skip, &mut inside);
        let out = p.prep(&cwd, &args).go()?;
        let what = format!("checkout, round {} ({})", round, out.brief());
        let now = untouched(&p, &what, &db, &around, &t, &skip)?;
        log.push(out.brief());
        let want = match want {
            Some(w) => w,
            None => {
                // Something excluded lies where a file would have to be.
                ensure!(!out.ok(), "excluded-path-touched", "{}: there is no room for a file of the commit, and that is not said", what);
                ctx.count("refused_for_excluded", 1);
                t = now;
                continue;
            }
        };
        ensure!(out.ok(), "checkout-fails", "{}", what);
        if let Some(d) = tree_diff(&want, &now, "") {
            crate::viol!("not-what-was-committed", "{}: {}", what, d);
        }
        observe(ctx, &without(&t, &skip), &m.node);
        if inside {
            ctx.count("kept_inside_extra", 1);
        }
        if want != m.node {
            ctx.count("kept_excluded", 1);
        }
        if !inside {
            let mut a = excl.clone();
            a.push("status".into());
            let s = p.must(&p.r.root, &a)?;
            scen::check_listing("status after checkout", &s, &Listing::default(), true)?;
        }
        // Once more, with nothing to do.
        if rng.chance(1, 3) {
            p.must(&p.r.root, &args)?;
            let again = p.tree()?;
            ensure!(again == now, "not-what-was-committed", "a second checkout changes the directory");
            observe(ctx, &m.node, &m.node);
        }
        t = now;
        if rng.chance(1, 3) {
            for _ in 0..rng.range(1, 3) {
                gen::edit(rng, &mut t, &o);
            }
            clean(&mut t);
            sync_tree(&p.r.root, &t, &[".snapcd"])?;
            let n = *rng.pick(&["master", "side", "a/b"]);
            made.push(p.commit(&without(&t, &skip), "more", Some(n), &excl)?);
        }
    }
    if case < 4 {
        ctx.sample_in("restore", json!({ "case": case, "own_home": p.over.is_some(), "excluded": skip, "said": log, "tree": t.describe() }));
    }
    Ok(())
}

/// What links lead to is none of its business.
fn links(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let p = Place::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    t.set("file", Some(Node::File(b"one".to_vec())));
    let mut sub = Node::empty();
    sub.set("sub", Some(Node::empty()));
    t.set("dir", Some(sub));
    t.set("dir/sub/file", Some(Node::File(b"two".to_vec())));
    sync_tree(&p.r.root, &t, &[".snapcd"])?;
    let m = p.commit(&t, "m", None, &[])?;
    let mut dangling = false;
    let mut made = vec![];
    let inside = Path::new(INSIDE);
    let up = inside.parent().unwrap();
    // Some of what was committed, and new names.
    let mut at: Vec<(String, bool)> = t.paths();
    rng.shuffle(&mut at);
    at.truncate(rng.range(1, 5));
    if rng.chance(1, 2) {
        at.push((format!("{}a new link", if rng.chance(1, 2) { "dir/" } else { "" }), false));
    }
    for (q, _) in at {
        let to = match rng.below(12) {
            0 => up.join("around"),
            1 => up.join("dir/inner"),
            2 | 3 => up.join("dir"),
            4 => up.join("repo2"),
            5 => inside.join("dir"),
            6 => inside.join("file"),
            7 => inside.join("dir/sub"),
            8 => "..".into(),
            9 => ".".into(),
            10 if t.get(&q).is_some() => inside.join(rng.pick(&[".snapcd", ".snapcd/snapcd.db"])),
            11 if rng.chance(1, 3) => rng.pick(&[up.join("nothing here"), "nowhere".into()]).clone(),
            _ => up.join("around"),
        };
        // What leads into the folder of the repository, also through another link, counts as part of it.
        if t.get(&q).is_none() && made.iter().any(|m: &String| m.contains(".snapcd")) {
            continue;
        }
        let link = p.r.root.join(&q);
        match std::fs::symlink_metadata(&link) {
            Ok(x) if x.is_dir() => std::fs::remove_dir_all(&link)?,
            Ok(_) => std::fs::remove_file(&link)?,
            Err(_) => {}
        }
        if !std::fs::symlink_metadata(link.parent().unwrap()).map_or(false, |x| x.is_dir()) {
            continue;
        }
        std::os::unix::fs::symlink(&to, &link)?;
        ctx.count(if t.get(&q).is_some() { "links_in_the_way" } else { "links" }, 1);
        made.push(format!("{} -> {}", q, to.display()));
    }
    // A link to what is not there, or to a link in a circle, cannot be looked at, which is said.
    let mut all = vec![p.r.root.clone()];
    while let Some(d) = all.pop() {
        for e in std::fs::read_dir(&d)? {
            let e = e?;
            if e.file_type()?.is_dir() {
                all.push(e.path());
            } else if e.file_type()?.is_symlink() {
                let to = std::fs::read_link(e.path())?;
                let real = match to.strip_prefix("/home") {
                    Ok(rel) => p.over.clone().unwrap_or_else(|| "/home".into()).join(rel),
                    Err(_) => d.join(&to),
                };
                // Through other links it may lead anywhere.
                let plain = std::fs::symlink_metadata(&real).map_or(false, |x| !x.file_type().is_symlink());
                dangling |= !plain || std::fs::metadata(&real).is_err();
            }
        }
    }
    if dangling {
        ctx.count("dangling_links", 1);
    }
    let db = p.r.db()?;
    p.own()?;
    let around = p.around()?;
    let out = p.prep(&p.r.root, &["checkout"]).go()?;
    let what = format!("checkout with the links {:?} ({})", made, out.brief());
    if let Some(d) = snap_diff(&around, &p.around()?) {
        crate::viol!("outside-touched", "{}: outside of the directory: {}", what, d);
    }
    let after = p.r.db()?;
    ensure!(after.state == db.state && after.reflog == db.reflog, "refs-change", "{}: refs or HEAD changed", what);
    ensure!(after.data == db.data, "objects-change", "{}: stored objects changed", what);
    ctx.count("checkouts", 1);
    ctx.eval(if made.is_empty() { None } else { Some(fnv(format!("{:?}", made).as_bytes()) ^ t.fingerprint()) });
    ensure!(out.ok() || dangling, "checkout-fails", "{}", what);
    if out.ok() {
        match read_tree(&p.r.root)? {
            Ok(mut n) => {
                n.dir_mut().remove(".snapcd");
                if let Some(d) = tree_diff(&m.node, &n, "") {
                    crate::viol!("not-what-was-committed", "{}: {}", what, d);
                }
            }
            Err(e) => crate::viol!("not-what-was-committed", "{}: {}", what, e),
        }
    }
    if case < 4 {
        ctx.sample_in("links", json!({ "case": case, "links": made, "dangling": dangling, "exit": out.code }));
    }
    Ok(())
}

/// Reads and writes fail: that is said, or all is well in spite of it; and when they work again, checkout repairs what is
/// half done.
fn faulty<'a>(ctx: &'a Ctx, rng: &mut Rng, case: u64) -> Res {
    let p = Place::new(ctx)?;
    let mut o = gen::TreeOpts::small();
    if rng.chance(1, 4) {
        o.max_blocks = 3;
    }
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    t.set("always", Some(Node::File(b"one".to_vec())));
    sync_tree(&p.r.root, &t, &[".snapcd"])?;
    let m = p.commit(&t, "m", None, &[])?;
    for _ in 0..rng.below(6) {
        gen::edit(rng, &mut t, &o);
    }
    t.dir_mut().remove(".snapcd");
    let counts = p.r.home.join("cache/counts");
    let shimlib = p.r.home.join("cache/shim.so");
    std::fs::copy(&ctx.shim, &shimlib)?;
    let seen = if p.over.is_some() { Path::new(INSIDE).to_path_buf() } else { p.r.root.clone() };
    let home = p.r.home.clone();
    let with = |run: Run<'a>| -> Run<'a> {
        run.env("LD_PRELOAD", &shimlib).env("VS_DB", seen.join(".snapcd")).env("VS_CACHE", home.join("cache")).env("VS_DATA", &seen)
    };
    sync_tree(&p.r.root, &t, &[".snapcd"])?;
    p.own()?;
    with(p.prep(&p.r.root, &["checkout"])).env("VS_COUNTS", &counts).go()?;
    let n0 = shim::counts(&counts);
    for op in &["data.open", "data.write", "data.readdir", "data.stat", "data.mkdir", "data.unlink", "db.read", "db.open"] {
        let total = match n0.get(*op) {
            Some(n) if *n > 0 => *n,
            _ => continue,
        };
        let mut at: Vec<u64> = (1..=total).collect();
        rng.shuffle(&mut at);
        at.truncate(ctx.n(3, 8) as usize);
        for n in at {
            sync_tree(&p.r.root, &t, &[".snapcd"])?;
            let db = p.r.db()?;
            p.own()?;
            let around = p.around()?;
            let e = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EINTR]);
            let spec = format!("{}:{}:{}{}", op, n, e, if e != libc::EINTR && rng.chance(1, 4) { ":s" } else { "" });
            let out = with(p.prep(&p.r.root, &["checkout"])).env("VS_FAIL", &spec).go()?;
            let what = format!("checkout with {} ({})", spec, out.brief());
            let now = untouched(&p, &what, &db, &around, &t, &[])?;
            ctx.count("failed", 1);
            ctx.eval(Some(fnv(spec.as_bytes()) ^ t.fingerprint()));
            if out.ok() {
                if let Some(d) = tree_diff(&m.node, &now, "") {
                    crate::viol!("failure-not-reported", "{}: {}", what, d);
                }
                continue;
            }
            ctx.count("said_so", 1);
            let again = p.run(&p.r.root, &["checkout"])?;
            ensure!(again.ok(), "checkout-fails", "after a {}, again: {}", what, again.brief());
            if let Some(d) = tree_diff(&m.node, &p.tree()?, "") {
                crate::viol!("not-what-was-committed", "after a {}, again: {}", what, d);
            }
            ctx.count("repaired", 1);
        }
    }
    if case < 3 {
        ctx.sample_in("faulty", json!({ "case": case, "calls": n0 }));
    }
    Ok(())
}

/// Objects are damaged or gone.
fn damaged(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let p = Place::new(ctx)?;
    let mut o = gen::TreeOpts::small();
    o.max_blocks = 3;
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    t.set("always", Some(Node::File(b"one".to_vec())));
    sync_tree(&p.r.root, &t, &[".snapcd"])?;
    let m = p.commit(&t, "m", None, &[])?;
    if rng.chance(1, 2) {
        t = Node::empty();
    } else {
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        t.dir_mut().remove(".snapcd");
    }
    let good = p.r.db()?;
    let keys: Vec<Vec<u8>> = good.data.keys().cloned().collect();
    for _ in 0..ctx.n(6, 15) {
        let k = rng.pick(&keys).clone();
        let mut v = good.data[&k].clone();
        let how = rng.below(4);
        let c = match rusqlite::Connection::open(p.r.dbfile()) {
            Ok(c) => c,
            Err(e) => crate::inconclusive!("{}", e),
        };
        let done = match how {
            0 => c.execute("DELETE FROM data WHERE key=?", rusqlite::params![k]),
            _ => {
                match how {
                    1 => v.truncate(rng.below(v.len().max(1))),
                    2 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        v[i] ^= 1 << rng.below(8);
                    }
                    _ => v = good.data[rng.pick(&keys)].clone(),
                }
                c.execute("UPDATE data SET value=? WHERE key=?", rusqlite::params![v, k])
            }
        };
        if let Err(e) = done {
            crate::inconclusive!("{}", e);
        }
        drop(c);
        sync_tree(&p.r.root, &t, &[".snapcd"])?;
        let db = p.r.db()?;
        p.own()?;
        let around = p.around()?;
        let out = p.prep(&p.r.root, &["checkout"]).go()?;
        let what = format!("checkout with object {} damaged in way {} ({})", model::user_key_db(&k), how, out.brief());
        let now = untouched(&p, &what, &db, &around, &t, &[])?;
        ctx.count("damaged", 1);
        ctx.eval(Some(fnv(&k) ^ how as u64));
        if out.ok() {
            if let Some(d) = tree_diff(&m.node, &now, "") {
                crate::viol!("failure-not-reported", "{}: {}", what, d);
            }
        } else {
            ctx.count("said_so", 1);
        }
        let c = match rusqlite::Connection::open(p.r.dbfile()) {
            Ok(c) => c,
            Err(e) => crate::inconclusive!("{}", e),
        };
        if let Err(e) = c.execute("INSERT OR REPLACE INTO data VALUES (?, ?)", rusqlite::params![k, good.data[&k]]) {
            crate::inconclusive!("{}", e);
        }
    }
    Ok(())
}

/// Nothing was committed, or not to the ref HEAD names: there is nothing to check out, and nothing is touched.
fn nohead(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let p = Place::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts::small());
    t.dir_mut().remove(".snapcd");
    t.set("always", Some(Node::File(b"one".to_vec())));
    sync_tree(&p.r.root, &t, &[".snapcd"])?;
    if rng.chance(1, 2) {
        p.commit(&t, "m", Some("other"), &[])?;
    }
    let db = p.r.db()?;
    p.own()?;
    let around = p.around()?;
    let cwd = any_dir(rng, &p.r.root, &t);
    let out = p.prep(&cwd, &["checkout"]).go()?;
    ensure!(!out.ok(), "checkout-of-nothing", "without a commit, checkout says {}", out.brief());
    let now = untouched(&p, "checkout without a commit", &db, &around, &t, &[])?;
    ensure!(now == t, "checkout-of-nothing", "without a commit, checkout changes the directory");
    ctx.count("no_commits", 1);
    ctx.eval(Some(t.fingerprint()));
    Ok(())
}
