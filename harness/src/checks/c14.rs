//! C14: status and compare report exactly what differs.

use super::c12::{any_dir, relative, stealthy};
use crate::cli::{Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::shim;
use crate::scen::{self, check_listing, differences, Listing, Made};
use crate::util::{fnv, read_tree, sync_tree, write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random trees are committed and edited (content, same-size content with the times put back, new and deleted files and directories, file to directory and back, moves, swaps, \
names one of which begins with another), and status, compare, compare with an older tree, compare -p with another directory and compare -s are run from random directories of the \
repository, and of directories in which some entries are links, which count as what they lead to. What they list is parsed and must equal the difference a reference computes from the two trees alone. With reads of the directory failing, \
a command that exits with 0 must still list exactly that. Non-trivial: a comparison that has something to list, distinct by the \
listing; comparisons that have nothing are counted.",
    assumptions: &["names contain no line break (the listing could not be told apart)"],
    needed: &["compared", "nothing_to_list", "listed_added", "listed_deleted", "listed_modified", "file_dir_swaps", "from_subdirectory", "compared_with_older", "compared_other_directory", "no_commits", "stealthy_edits", "every_pair", "reads_failed", "said_so", "through_links", "through_links_nothing", "deep_differences"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("random", ctx.n(700, 12000), |rng, i| random(ctx, rng, i));
    ctx.cases("pairs", ctx.n(24, 400), |rng, i| pairs(ctx, rng, i));
    ctx.cases("faulty", ctx.n(60, 900), |rng, i| faulty(ctx, rng, i));
    ctx.cases("linked", ctx.n(60, 900), |rng, i| linked(ctx, rng, i));
    ctx.cases("wide", ctx.n(24, 300), |rng, i| wide(ctx, rng, i));
    ctx.cases("nohead", ctx.n(30, 300), |rng, i| nohead(ctx, rng, i));
}

fn observe(ctx: &Ctx, l: &Listing) {
    ctx.count("compared", 1);
    ctx.count("listed_added", l.added.len() as u64);
    ctx.count("listed_deleted", l.deleted.len() as u64);
    ctx.count("listed_modified", l.modified.len() as u64);
    ctx.count("file_dir_swaps", l.added.intersection(&l.deleted).count() as u64);
    if l.is_empty() {
        ctx.count("nothing_to_list", 1);
        ctx.eval(None);
    } else {
        ctx.eval(Some(fnv(format!("{:?}", l).as_bytes())));
    }
}

fn status_of(r: &Repo<'_>, cwd: &Path, m: &Made, l: &Listing) -> Res<Out> {
    let o = r.must_in(cwd, &["status"])?;
    let head = check_listing("status", &o, l, true)?;
    let exp = format!("HEAD: {} [{}]", m.refname, &model::user_key(&m.key)[..8]);
    ensure!(head == [exp.clone()], "status-names-wrong-commit", "status begins with {:?} instead of {:?}", head, exp);
    Ok(o)
}

/// The lines of compare -s, by name.
pub fn parse_stat(lines: &[&str]) -> Result<BTreeMap<String, (u64, u64)>, String> {
    let mut m = BTreeMap::new();
    for l in lines {
        let bad = || format!("cannot read {:?}", l);
        let i = l.rfind("  +").ok_or_else(bad)?;
        let mut it = l[i + 3..].split(" -");
        let a: u64 = it.next().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let b: u64 = it.next().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let n = l[..i].to_string();
        match m.get(&n) {
            // A file replaced by a directory of the same name is no file, so no file is there twice.
            Some(_) => return Err(format!("{:?} is listed twice", n)),
            None => m.insert(n, (a, b)),
        };
    }
    Ok(m)
}

/// The files (not directories) that differ, each once.
pub fn changed_files(old: Option<&Node>, new: &Node) -> Vec<(String, Option<Vec<u8>>, Option<Vec<u8>>)> {
    let files = |n: Option<&Node>| -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        if let Some(n) = n {
            for (p, dir) in n.paths() {
                if let (false, Some(Node::File(b))) = (dir, n.get(&p)) {
                    m.insert(p, b.clone());
                }
            }
        }
        m
    };
    let (a, b) = (files(old), files(Some(new)));
    let mut out = vec![];
    for (p, x) in &a {
        if b.get(p) != Some(x) {
            out.push((p.clone(), Some(x.clone()), b.get(p).cloned()));
        }
    }
    for (p, y) in &b {
        if !a.contains_key(p) {
            out.push((p.clone(), None, Some(y.clone())));
        }
    }
    out.sort();
    out
}

fn stat_of(r: &Repo<'_>, cwd: &Path, args: &[&str], old: &Node, new: &Node) -> Res {
    let o = r.must_in(cwd, args)?;
    let text = o.text();
    let lines: Vec<&str> = text.split('\n').filter(|x| !x.is_empty()).collect();
    let got = match parse_stat(&lines) {
        Ok(g) => g,
        Err(e) => crate::viol!("listing-unreadable", "compare -s: {}", e),
    };
    let exp = changed_files(Some(old), new);
    for (p, _, _) in &exp {
        ensure!(got.contains_key(p), "difference-not-listed", "compare -s does not list {:?}; it prints {:?}", p, text);
    }
    ensure!(got.len() == exp.len(), "non-difference-listed", "compare -s lists {} files, {} differ: {:?}", got.len(), exp.len(), text);
    Ok(())
}

/// Names of which some begin with others, besides the usual ones.
fn put_relatives(rng: &mut Rng, t: &mut Node) {
    let base = *rng.pick(&["a", "foo", "d", "x.y", "é"]);
    let suffixes = ["", "b", ".txt", "-", " ", "/a", "/ab", "!", "0", "/"];
    for _ in 0..rng.range(2, 6) {
        let s = *rng.pick(&suffixes);
        if s == "/" {
            t.set(base, Some(Node::empty()));
            continue;
        }
        let p = format!("{}{}", base, s);
        let v = match rng.below(3) {
            0 => Node::empty(),
            1 => {
                let mut n = Node::empty();
                n.set("in", Some(Node::File(rng.bytes(3))));
                n.set("inner", Some(Node::empty()));
                n
            }
            _ => Node::File(rng.bytes(4)),
        };
        if s.starts_with('/') && !matches!(t.get(base), Some(Node::Dir(_))) {
            t.set(base, Some(Node::empty()));
        }
        t.set(&p, Some(v));
    }
}

fn random(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    let mut hist: Vec<Made> = vec![];
    let none = Listing::default();
    for i in 0..rng.range(1, 3) {
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        if rng.chance(1, 2) {
            put_relatives(rng, &mut t);
        }
        t.dir_mut().remove(".snapcd");
        let m = scen::commit(&r, &t, &format!("c{}", i), None)?;
        // Directly after a commit there is nothing to report.
        let cwd = any_dir(rng, &r.root, &t);
        status_of(&r, &cwd, &m, &none)?;
        check_listing("compare", &r.must_in(&cwd, &["compare"])?, &none, false)?;
        observe(ctx, &none);
        hist.push(m);
    }
    for round in 0..rng.range(1, 3) {
        let tip = hist.last().unwrap();
        for _ in 0..rng.range(1, 6) {
            gen::edit(rng, &mut t, &o);
        }
        if rng.chance(1, 2) {
            put_relatives(rng, &mut t);
        }
        t.dir_mut().remove(".snapcd");
        sync_tree(&r.root, &t, &[".snapcd"])?;
        if rng.chance(1, 3) && stealthy(&r.root, &mut t, rng)? {
            ctx.count("stealthy_edits", 1);
        }
        let l = differences(Some(&tip.node), &t);
        let cwd = any_dir(rng, &r.root, &t);
        if cwd != r.root {
            ctx.count("from_subdirectory", 1);
        }
        status_of(&r, &cwd, tip, &l)?;
        observe(ctx, &l);
        let cwd = any_dir(rng, &r.root, &t);
        let o1 = r.must_in(&cwd, &["compare"])?;
        check_listing("compare", &o1, &l, false)?;
        stat_of(&r, &cwd, &["compare", "-s"], &tip.node, &t)?;
        // The same answer a second time, now that everything is known.
        let o2 = r.must_in(&r.root, &["compare"])?;
        ensure!(o1.stdout == o2.stdout, "answer-changes", "compare prints {:?} and then {:?}", o1.text(), o2.text());
        // Against an older tree.
        let m = rng.pick(&hist);
        let tk = model::user_key(&m.tree);
        let lo = differences(Some(&m.node), &t);
        check_listing("compare with a tree", &r.must_in(&cwd, &["compare", &tk])?, &lo, false)?;
        stat_of(&r, &cwd, &["compare", "-s", &tk], &m.node, &t)?;
        ctx.count("compared_with_older", 1);
        observe(ctx, &lo);
        // Another directory.
        if rng.chance(1, 2) {
            let d = r.top.join(format!("other{}", round));
            let mut u = if rng.chance(1, 2) { m.node.clone() } else { gen::tree(rng, &o) };
            for _ in 0..rng.below(3) {
                gen::edit(rng, &mut u, &o);
            }
            write_tree(&d, &u, None)?;
            let ld = differences(Some(&m.node), &u);
            check_listing("compare -p", &r.must_in(&cwd, &["compare", "-p", d.to_str().unwrap(), &tk])?, &ld, false)?;
            let lt = differences(Some(&tip.node), &u);
            check_listing("compare -p", &r.must_in(&cwd, &["compare", "-p", d.to_str().unwrap()])?, &lt, false)?;
            ctx.count("compared_other_directory", 1);
            observe(ctx, &ld);
        }
        // A subdirectory against what it was.
        let dirs: Vec<String> = tip.node.paths().into_iter().filter(|p| p.1 && matches!(t.get(&p.0), Some(Node::Dir(_)))).map(|p| p.0).collect();
        if !dirs.is_empty() {
            let p = rng.pick(&dirs).clone();
            let (old, new) = (tip.node.get(&p).unwrap(), t.get(&p).unwrap());
            let (k, _) = model::collect(|s| model::store_tree(old, s));
            let uk = model::user_key(&k);
            if r.run(&["debug", "pretty-print", &uk])?.ok() {
                let ls = differences(Some(old), new);
                let dir = r.root.join(&p);
                check_listing("compare -p . in a directory", &r.must_in(&dir, &["compare", "-p", ".", &uk])?, &ls, false)?;
                check_listing("compare -p", &r.must_in(&cwd, &["compare", "-p", dir.to_str().unwrap(), &uk])?, &ls, false)?;
                ctx.count("compared_subdirectory", 1);
                observe(ctx, &ls);
            }
        }
        match read_tree(&r.root)? {
            Ok(mut n) => {
                n.dir_mut().remove(".snapcd");
                ensure!(n == t, "files-changed", "asking changed the working directory");
            }
            Err(e) => crate::inconclusive!("{}", e),
        }
        if rng.chance(1, 2) {
            let m = scen::commit(&r, &t, "again", None)?;
            status_of(&r, &cwd, &m, &none)?;
            hist.push(m);
        }
    }
    ctx.sample_in("random", json!({ "case": case, "tree": hist.last().unwrap().node.describe() }));
    Ok(())
}

/// The directory cannot be read as it should: either that is said, or the answer is right all the same.
fn faulty(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    let m = scen::commit(&r, &t, "c", None)?;
    for _ in 0..rng.below(4) {
        gen::edit(rng, &mut t, &o);
    }
    t.dir_mut().remove(".snapcd");
    scen::put_root(&r, &t)?;
    let l = differences(Some(&m.node), &t);
    let cmd: &[&str] = *rng.pick(&[&["status"][..], &["compare"], &["compare", "-s"], &["checkout-head", "other"]]);
    let counts = r.top.join("counts");
    let dbdir = r.root.join(".snapcd");
    let (db, cachedir) = (shim::read_files(&dbdir)?, r.home.join("cache/snapcd"));
    let cache = shim::read_files(&cachedir)?;
    shim::attach(r.prep(&r.root, cmd), &r).env("VS_COUNTS", &counts).go()?;
    let n0 = shim::counts(&counts);
    for op in &["data.readdir", "data.open", "data.stat", "data.read", "cache.read", "cache.write", "cache.open"] {
        let total = match n0.get(*op) {
            Some(n) if *n > 0 => *n,
            _ => continue,
        };
        let mut at: Vec<u64> = (1..=total).collect();
        rng.shuffle(&mut at);
        at.truncate(ctx.n(5, 12) as usize);
        for n in at {
            shim::write_files(&dbdir, &db)?;
            if !rng.chance(1, 3) {
                shim::write_files(&cachedir, &cache)?;
            }
            let e = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EINTR]);
            let spec = format!("{}:{}:{}{}", op, n, e, if e != libc::EINTR && rng.chance(1, 4) { ":s" } else { "" });
            let mut run = shim::attach(r.prep(&r.root, cmd), &r).env("VS_FAIL", &spec);
            if rng.chance(1, 3) {
                run = run.env("VS_SHUFFLE", format!("{}", rng.next()));
            }
            let out = run.go()?;
            ctx.count("reads_failed", 1);
            if !out.ok() {
                ctx.count("said_so", 1);
                continue;
            }
            ctx.count("right_all_the_same", 1);
            ctx.eval(Some(fnv(spec.as_bytes()) ^ t.fingerprint()));
            let what = format!("{:?}, with {},", cmd, spec);
            match cmd {
                ["compare", "-s"] => {
                    let text = out.text();
                    let got = match parse_stat(&text.split('\n').filter(|x| !x.is_empty()).collect::<Vec<_>>()) {
                        Ok(g) => g,
                        Err(e) => crate::viol!("listing-unreadable", "{} prints {:?}: {}", what, text, e),
                    };
                    let exp: Vec<String> = changed_files(Some(&m.node), &t).into_iter().map(|x| x.0).collect();
                    ensure!(got.keys().eq(exp.iter()), "difference-not-listed", "{} lists {:?} where {:?} differ", what, got, exp);
                }
                ["checkout-head", ..] => {
                    ensure!(l.is_empty(), "difference-not-listed", "{} takes the directory for clean; {:?}", what, l);
                }
                _ => {
                    check_listing(&what, &out, &l, true)?;
                }
            }
        }
    }
    if case < 3 {
        ctx.sample_in("faulty", json!({ "case": case, "command": cmd, "calls": n0 }));
    }
    Ok(())
}

/// Every pair out of a family of small trees on two names, one of which begins with the other.
fn pairs(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let (a, b) = *rng.pick(&[("a", "ab"), ("a", "a.b"), ("a b", "a"), ("x", "x-"), ("dir", "dir2"), ("n", "m")]);
    let file = |s: &str| Some(Node::File(s.as_bytes().to_vec()));
    let mk = |v: &[(&str, &str)]| {
        let mut n = Node::empty();
        for (p, c) in v {
            if c.is_empty() {
                n.set(p, Some(Node::empty()));
            } else {
                n.set(p, file(c));
            }
        }
        Some(n)
    };
    let one: Vec<Option<Node>> = vec![
        None,
        file("1"),
        file("2"),
        mk(&[]),
        mk(&[("x", "1")]),
        mk(&[("x", "2")]),
        mk(&[("x", ""), ("x/y", "1")]),
        mk(&[("x", "1"), ("xy", "1")]),
        mk(&[("x", "")]),
    ];
    let mut all: Vec<Node> = vec![];
    for p in &one {
        for q in &one {
            let mut n = Node::empty();
            n.set(a, p.clone());
            n.set(b, q.clone());
            all.push(n);
        }
    }
    let store = r.top.join("store");
    let picked: Vec<usize> = (0..10).map(|_| rng.below(all.len())).collect();
    let mut keys = vec![];
    for (n, i) in picked.iter().enumerate() {
        let d = store.join(n.to_string());
        std::fs::create_dir_all(&store)?;
        write_tree(&d, &all[*i], None)?;
        keys.push(r.insert(&d)?);
    }
    for (n, i) in picked.iter().enumerate() {
        let d = store.join(n.to_string());
        for (j, k) in picked.iter().zip(&keys) {
            let l = differences(Some(&all[*j]), &all[*i]);
            let o = r.must(&["compare", "-p", d.to_str().unwrap(), k])?;
            check_listing("compare -p", &o, &l, false)?;
            observe(ctx, &l);
            ctx.count("every_pair", 1);
        }
    }
    ctx.sample_in("pairs", json!({ "case": case, "names": [a, b] }));
    Ok(())
}

/// Deep and wide directories.
fn wide(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    let mut p = String::from("deep");
    let mut bottoms = vec![];
    let depth = *rng.pick(&[20, 63, 64, 65, 127, 128, 129, 200, 255, 256, 300]);
    for i in 0..depth {
        t.set(&p, Some(Node::empty()));
        if rng.chance(1, 5) || i + 1 == depth {
            let f = format!("{}/f", p);
            t.set(&f, Some(Node::File(rng.bytes(4))));
            bottoms.push(f);
        }
        p = format!("{}/d{}", p, i % 3);
    }
    for i in 0..rng.range(10, 1500) {
        t.set(&format!("e{}", i * 7919 % 10007), Some(Node::File(rng.bytes(2))));
    }
    let m = scen::commit(&r, &t, "wide", None)?;
    status_of(&r, &r.root, &m, &Listing::default())?;
    observe(ctx, &Listing::default());
    for _ in 0..2 {
        let b = bottoms.last().unwrap().clone();
        match rng.below(4) {
            0 => t.set(&b, Some(Node::File(rng.bytes(5)))),
            1 => t.set(&b, None),
            2 => t.set(&format!("{}2", b), Some(Node::File(rng.bytes(5)))),
            _ => t.set(&format!("{}new", b), Some(Node::empty())),
        };
        if rng.chance(1, 2) {
            let f = rng.pick(&bottoms).clone();
            t.set(&f, Some(Node::File(rng.bytes(6))));
        }
        for i in 0..rng.below(40) {
            let f = format!("e{}", rng.below(10007));
            t.set(&f, if i % 2 == 0 { None } else { Some(Node::File(rng.bytes(3))) });
        }
        scen::put_root(&r, &t)?;
        let l = differences(Some(&m.node), &t);
        status_of(&r, &r.root, &m, &l)?;
        check_listing("compare", &r.must(&["compare"])?, &l, false)?;
        stat_of(&r, &r.root, &["compare", "-s"], &m.node, &t)?;
        observe(ctx, &l);
        if depth > 64 {
            ctx.count("deep_differences", 1);
        }
    }
    Ok(())
}

/// Moves some entries of the directory away and puts links to them in their places. What the links lead to is what is there.
fn link_some(rng: &mut Rng, r: &Repo<'_>, t: &Node, kept: &Path) -> Res<u64> {
    std::fs::create_dir_all(kept)?;
    let mut moved: Vec<String> = vec![];
    let mut n = 0;
    for (p, _) in t.paths() {
        // Nothing inside of what has been moved already.
        if !rng.chance(1, 3) || moved.iter().any(|m| p.starts_with(&format!("{}/", m))) {
            continue;
        }
        let (from, to) = (r.root.join(&p), kept.join(format!("k{}", n)));
        std::fs::rename(&from, &to)?;
        let here = from.parent().unwrap();
        let to = if rng.chance(1, 2) { relative(here, &to) } else { to };
        if rng.chance(1, 4) {
            let hop = kept.join(format!("hop{}", n));
            std::os::unix::fs::symlink(if to.is_absolute() { to } else { Path::new(&format!("k{}", n)).to_path_buf() }, &hop)?;
            std::os::unix::fs::symlink(&hop, &from)?;
        } else {
            std::os::unix::fs::symlink(to, &from)?;
        }
        moved.push(p);
        n += 1;
    }
    Ok(n)
}

/// Links in the directory: they count as what they lead to, to commit, status and compare alike.
fn linked(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    t.set("always", Some(Node::File(b"one".to_vec())));
    scen::put_root(&r, &t)?;
    let mut links = link_some(rng, &r, &t, &r.top.join("kept0"))?;
    r.must(&["commit", "-m", "linked"])?;
    let m = scen::made(&r.db()?, &t, "linked", None)?;
    let none = Listing::default();
    status_of(&r, &r.root, &m, &none)?;
    check_listing("compare", &r.must(&["compare"])?, &none, false)?;
    stat_of(&r, &r.root, &["compare", "-s"], &m.node, &t)?;
    if links > 0 {
        ctx.count("through_links_nothing", 1);
    }
    observe(ctx, &none);
    for round in 1..rng.range(2, 4) {
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        t.dir_mut().remove(".snapcd");
        // What was a link may now be the thing itself, and the other way round: that alone is no difference.
        sync_tree(&r.root, &Node::empty(), &[".snapcd"])?;
        scen::put_root(&r, &t)?;
        links = link_some(rng, &r, &t, &r.top.join(format!("kept{}", round)))?;
        let l = differences(Some(&m.node), &t);
        status_of(&r, &r.root, &m, &l)?;
        check_listing("compare", &r.must(&["compare"])?, &l, false)?;
        stat_of(&r, &r.root, &["compare", "-s"], &m.node, &t)?;
        let door = r.top.join(format!("door{}", round));
        std::os::unix::fs::symlink(&r.root, &door)?;
        let tk = model::user_key(&m.tree);
        let p = door.to_str().unwrap().to_string();
        check_listing("compare -p of a link", &r.must(&["compare", "-p", &p, &tk])?, &l, false)?;
        observe(ctx, &l);
        if links > 0 {
            ctx.count("through_links", 1);
        }
    }
    if case < 3 {
        ctx.sample_in("linked", json!({ "case": case, "links": links, "tree": t.describe() }));
    }
    Ok(())
}

/// HEAD without commits: there is nothing to compare with.
fn nohead(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let t = gen::tree(rng, &gen::TreeOpts::small());
    scen::put_root(&r, &t)?;
    let o = r.must(&["status"])?;
    ensure!(o.text().trim_end() == "HEAD: master (no commits on master)", "status-names-wrong-commit", "without commits, status prints {:?}", o.text());
    let c = r.run(&["compare"])?;
    ensure!(!c.ok(), "answer-without-commit", "compare without a commit and without a key succeeds: {}", c.brief());
    let m = scen::commit(&r, &t, "m", Some("other"))?;
    let o = r.must(&["status"])?;
    ensure!(o.text().trim_end() == "HEAD: master (no commits on master)", "status-names-wrong-commit", "without commits on HEAD, status prints {:?}", o.text());
    let l = differences(Some(&Node::empty()), &t);
    let e = r.top.join("e");
    std::fs::create_dir(&e)?;
    let k = r.insert(&e)?;
    check_listing("compare with the empty tree", &r.must(&["compare", &k])?, &l, false)?;
    observe(ctx, &l);
    check_listing("compare -p of nothing", &r.must(&["compare", "-p", e.to_str().unwrap(), &model::user_key(&m.tree)])?, &differences(Some(&t), &Node::empty()), false)?;
    // HEAD switched: compared with the other ref's tip.
    r.must(&["debug", "set-head", "other"])?;
    status_of(&r, &r.root, &m, &Listing::default())?;
    ctx.count("no_commits", 1);
    Ok(())
}
