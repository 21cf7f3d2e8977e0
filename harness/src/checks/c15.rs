//! C15: the hash cache never changes an answer.

use crate::cli::{Repo, Run};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, check_listing, differences, Listing, Made};
use crate::shim;
use crate::util::{fnv, sync_tree, write_tree, Node};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Trees are committed and asked about until their files are in the cache (which takes two seconds after the last change), then changed in ways that keep size and modification \
time (in place, by renaming, swapping, relinking, replacing) and asked about again with the warm cache, a cold one, one shared with other repositories, a removed, truncated or garbage \
one; files are rewritten while status reads them, or once at a chosen moment of it; files of different devices, inodes and change times are made to look alike otherwise (the metadata calls are intercepted). Every answer \
must be the difference a reference computes from the contents. Non-trivial: an answer given while the cache held entries for the asked files, distinct by the answer and the situation.",
    assumptions: &["whoever changes a file cannot set its change time (ctime)", "time does not run backwards by more than a second"],
    needed: &["warm_answers", "stealthy_changes", "cold_answers", "raced_answers", "edited_while_read", "identity_answers", "shared_answers", "odd_cache_answers", "answers_through_links"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases_on(96, "settled", ctx.n(144, 2400), |rng, i| settled(ctx, rng, i));
    ctx.cases_on(8, "racy", ctx.n(64, 1200), |rng, i| racy(ctx, rng, i));
    ctx.cases_on(96, "overtaken", ctx.n(192, 2400), |rng, i| overtaken(ctx, rng, i));
    ctx.cases("identity", ctx.n(200, 4000), |rng, i| identity(ctx, rng, i));
    ctx.cases("shared", ctx.n(200, 4000), |rng, i| shared(ctx, rng, i));
    ctx.cases_on(96, "links", ctx.n(96, 1200), |rng, i| links(ctx, rng, i));
    ctx.cases("odd", ctx.n(80, 800), |rng, i| odd(ctx, rng, i));
}

/// How many entries a cache holds.
fn entries(home: &Path) -> u64 {
    let f = home.join("cache/snapcd/cache.db");
    let get = || -> rusqlite::Result<u32> {
        let c = rusqlite::Connection::open_with_flags(&f, rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY)?;
        c.query_row("SELECT COUNT(*) FROM cache", rusqlite::NO_PARAMS, |r| r.get(0))
    };
    get().map(u64::from).unwrap_or(0)
}

/// All the commands that use the cache give the answer the contents call for.
fn ask(ctx: &Ctx, r: &Repo<'_>, m: &Made, now: &Node, tag: &str, home: &Path, meta: Option<&str>) -> Res {
    let l = differences(Some(&m.node), now);
    let go = |args: &[&str]| -> Res<crate::cli::Out> {
        let mut run = Run::new(ctx, &r.root, home, args);
        if let Some(m) = meta {
            run = shim::attach(run, r).env("VS_META", m);
        }
        run.go()
    };
    for cmd in &["status", "compare"] {
        let o = go(&[cmd])?;
        ensure!(o.ok(), "answer-fails", "{}: {} fails: {}", tag, cmd, o.brief());
        check_listing(&format!("{}: {}", tag, cmd), &o, &l, *cmd == "status")?;
    }
    let before = r.db()?.head();
    let o = go(&["checkout-head", "elsewhere"])?;
    let after = r.db()?.head();
    if l.is_empty() {
        ensure!(o.ok() && after.as_deref() == Some("elsewhere"), "clean-taken-for-dirty", "{}: checkout-head is refused although nothing differs: {}", tag, o.brief());
        r.must(&["debug", "set-head", before.as_deref().unwrap_or("master")])?;
    } else {
        ensure!(
            !o.ok() && after == before,
            "dirty-taken-for-clean",
            "{}: checkout-head switches although {:?} differ", tag, l
        );
        // what it lists is the same
        let (_, got) = match scen::parse_listing(&o.text()) {
            Ok(g) => g,
            Err(e) => crate::viol!("listing-unreadable", "{}: checkout-head: {}", tag, e),
        };
        ensure!(got == l, "difference-not-listed", "{}: checkout-head lists {:?} instead of {:?}", tag, got, l);
    }
    Ok(())
}

fn fp(tag: &str, l: &Listing) -> Option<u64> {
    Some(fnv(format!("{} {:?}", tag, l).as_bytes()))
}

fn files_of(t: &Node) -> Vec<String> {
    t.paths().into_iter().filter(|p| !p.1).map(|p| p.0).collect()
}

fn set_times(p: &Path, m: &std::fs::Metadata) -> Res {
    let h = std::fs::OpenOptions::new().write(true).open(p)?;
    h.set_times(std::fs::FileTimes::new().set_accessed(m.accessed()?).set_modified(m.modified()?))?;
    Ok(())
}

/// A change to one or two files that keeps what a careless cache looks at.
fn stealth(r: &Repo<'_>, t: &mut Node, rng: &mut Rng) -> Res<String> {
    let files: Vec<String> = files_of(t).into_iter().filter(|p| matches!(t.get(p), Some(Node::File(b)) if !b.is_empty())).collect();
    if files.is_empty() {
        return Ok(String::new());
    }
    let p = rng.pick(&files).clone();
    let q = rng.pick(&files).clone();
    let f = r.root.join(&p);
    let meta = std::fs::metadata(&f)?;
    let old = match t.get(&p) {
        Some(Node::File(b)) => b.clone(),
        _ => crate::inconclusive!("no file"),
    };
    let mut new = old.clone();
    let i = rng.below(new.len());
    new[i] ^= 1 << rng.below(8);
    let tmp = r.top.join("tmp");
    let kind = rng.below(8);
    let what = match kind {
        0 | 1 => {
            use std::os::unix::fs::FileExt;
            let h = std::fs::OpenOptions::new().write(true).open(&f)?;
            h.write_all_at(&new[i..=i], i as u64)?;
            drop(h);
            set_times(&f, &meta)?;
            "a byte changed in place"
        }
        2 => {
            std::fs::write(&f, &new)?;
            set_times(&f, &meta)?;
            "rewritten"
        }
        3 => {
            std::fs::write(&tmp, &new)?;
            set_times(&tmp, &meta)?;
            std::fs::rename(&tmp, &f)?;
            "replaced by renaming"
        }
        4 => {
            std::fs::remove_file(&f)?;
            std::fs::write(&f, &new)?;
            set_times(&f, &meta)?;
            "deleted and made again"
        }
        5 => {
            // through another name of the same file
            let _ = std::fs::remove_file(&tmp);
            std::fs::hard_link(&f, &tmp)?;
            std::fs::write(&tmp, &new)?;
            set_times(&tmp, &meta)?;
            std::fs::remove_file(&tmp)?;
            "changed through a hard link"
        }
        6 => {
            // two files change places
            let g = r.root.join(&q);
            let mg = std::fs::metadata(&g)?;
            std::fs::rename(&f, &tmp)?;
            if p != q {
                std::fs::rename(&g, &f)?;
            }
            std::fs::rename(&tmp, &g)?;
            set_times(&g, &mg)?;
            set_times(&f, &meta)?;
            let (a, b) = (t.get(&p).cloned(), t.get(&q).cloned());
            t.set(&p, b);
            t.set(&q, a);
            return Ok(format!("{:?} and {:?} changed places", p, q));
        }
        _ => {
            // longer, and short again
            let mut b = old.clone();
            b.push(b'x');
            std::fs::write(&f, &b)?;
            let h = std::fs::OpenOptions::new().write(true).open(&f)?;
            h.set_len(new.len() as u64)?;
            use std::os::unix::fs::FileExt;
            h.write_all_at(&new, 0)?;
            drop(h);
            set_times(&f, &meta)?;
            "grown, cut and changed"
        }
    };
    t.set(&p, Some(Node::File(new)));
    Ok(format!("{:?} {}", p, what))
}

fn settled(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts::small());
    t.set("one", Some(Node::File(b"one".to_vec())));
    t.set("two", Some(Node::File(b"two".to_vec())));
    t.dir_mut().remove(".snapcd");
    let m = scen::commit(&r, &t, "m", None)?;
    // A second home, which shares nothing, and a cold one each time.
    let wait = || std::thread::sleep(Duration::from_millis(2150));
    let rounds = rng.range(1, 3);
    for round in 0..rounds {
        wait();
        if rng.chance(1, 3) && round > 0 {
            ask(ctx, &r, &m, &t, "settled", &r.home, None)?;
        } else {
            r.must(&["status"])?;
        }
        let n = entries(&r.home);
        ctx.count("entries_in_cache", n);
        // Not changed: from the cache.
        ask(ctx, &r, &m, &t, "unchanged, warm", &r.home, None)?;
        ctx.count("warm_answers", 1);
        let mut what = vec![];
        for _ in 0..rng.range(1, 3) {
            what.push(stealth(&r, &mut t, rng)?);
            ctx.count("stealthy_changes", 1);
        }
        let l = differences(Some(&m.node), &t);
        let tag = format!("round {}: {:?}", round, what);
        if rng.chance(1, 4) {
            // asked only once it has settled again
            wait();
        }
        ask(ctx, &r, &m, &t, &format!("{}, warm", tag), &r.home, None)?;
        ctx.count("warm_answers", 1);
        ctx.eval(fp(&format!("{:?}", what), &l));
        ctx.count("answers_with_entries_in_cache", (n > 0) as u64);
        let cold = r.top.join(format!("cold{}", round));
        std::fs::create_dir(&cold)?;
        ask(ctx, &r, &m, &t, &format!("{}, cold", tag), &cold, None)?;
        ctx.count("cold_answers", 1);
        ctx.eval(None);
        if rng.chance(1, 3) {
            // A commit of what is there now holds what is there now.
            let k = scen::commit(&r, &t, "again", Some("side"))?;
            let db = r.db()?;
            scen::check_tree(&tag, &db, &k.tree, &t)?;
        }
        if rng.chance(1, 3) {
            // everything back as it was
            sync_tree(&r.root, &m.node, &[".snapcd"])?;
            t = m.node.clone();
            ask(ctx, &r, &m, &t, "put back", &r.home, None)?;
        }
    }
    ctx.sample_in("settled", json!({ "case": case, "files": files_of(&t).len() }));
    Ok(())
}

/// Files that are reached through symbolic links, or through other names.
fn links(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    use std::os::unix::fs::symlink;
    let r = Repo::new(ctx)?;
    let kept = r.top.join("kept");
    std::fs::create_dir_all(kept.join("dir"))?;
    let mut t = Node::empty();
    t.set("plain", Some(Node::File(b"plain".to_vec())));
    scen::put_root(&r, &t)?;
    // name in the repository, and the file it leads to
    let mut names: Vec<(String, PathBuf)> = vec![];
    for i in 0..rng.range(1, 4) {
        let len = rng.range(1, 3000);
        let b = rng.bytes(len);
        let f = kept.join(format!("f{}", i));
        std::fs::write(&f, &b)?;
        let n = format!("l{}", i);
        match rng.below(3) {
            0 => symlink(&f, r.root.join(&n))?,
            1 => {
                // a link to a link
                symlink(&f, kept.join(format!("m{}", i)))?;
                symlink(kept.join(format!("m{}", i)), r.root.join(&n))?;
            }
            _ => std::fs::hard_link(&f, r.root.join(&n))?,
        }
        t.set(&n, Some(Node::File(b)));
        names.push((n, f));
    }
    if rng.chance(1, 2) {
        // A directory through a link.
        let b = rng.bytes(20);
        let f = kept.join("dir/g");
        std::fs::write(&f, &b)?;
        symlink(kept.join("dir"), r.root.join("d"))?;
        t.set("d", Some(Node::empty()));
        t.set("d/g", Some(Node::File(b)));
        names.push(("d/g".into(), f));
    }
    r.must(&["commit", "-m", "m"])?;
    let db = r.db()?;
    let m = scen::made(&db, &t, "m", None)?;
    scen::check_tree("links", &db, &m.tree, &t)?;
    std::thread::sleep(Duration::from_millis(2150));
    r.must(&["status"])?;
    let n = entries(&r.home);
    ask(ctx, &r, &m, &t, "links, unchanged, warm", &r.home, None)?;
    for _ in 0..rng.range(1, 3) {
        let (name, f) = rng.pick(&names).clone();
        let mut new = match t.get(&name) {
            Some(Node::File(b)) => b.clone(),
            _ => crate::inconclusive!("no file"),
        };
        let i = rng.below(new.len());
        new[i] ^= 1 << rng.below(8);
        let is_link = std::fs::symlink_metadata(r.root.join(&name))?.file_type().is_symlink();
        let how = rng.below(if is_link { 3 } else { 1 });
        let meta = std::fs::metadata(&f)?;
        match how {
            0 => {
                std::fs::write(&f, &new)?;
                set_times(&f, &meta)?;
            }
            1 => {
                // The link leads to another file now.
                let g = kept.join(format!("other{}", rng.next() % 1000));
                std::fs::write(&g, &new)?;
                set_times(&g, &meta)?;
                let l = r.root.join(&name);
                std::fs::remove_file(&l)?;
                symlink(&g, &l)?;
                if let Some(x) = names.iter_mut().find(|x| x.0 == name) {
                    x.1 = g;
                }
            }
            _ => {
                // The file it leads to was replaced.
                let g = kept.join("new");
                std::fs::write(&g, &new)?;
                set_times(&g, &meta)?;
                std::fs::rename(&g, &f)?;
            }
        }
        t.set(&name, Some(Node::File(new)));
        let tag = format!("{:?} is a {} and changed in way {}", name, if is_link { "link" } else { "plain name" }, how);
        ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
        ctx.count("answers_through_links", 1);
        let l = differences(Some(&m.node), &t);
        ctx.eval(if n > 0 { fp(&format!("{} {}", tag, case), &l) } else { None });
    }
    let cold = r.top.join("cold");
    std::fs::create_dir(&cold)?;
    ask(ctx, &r, &m, &t, "links, cold", &cold, None)?;
    Ok(())
}

/// A file is rewritten while status reads it. When it is quiet again the answer is about what it then is.
fn racy(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    for i in 0..rng.range(1, 6) {
        t.set(&format!("f{}", i), Some(Node::File(vec![b'a'; rng.range(1, 3000)])));
    }
    let m = scen::commit(&r, &t, "m", None)?;
    let f = r.root.join("f0");
    let len = match t.get("f0") {
        Some(Node::File(b)) => b.len(),
        _ => 0,
    };
    let meta = std::fs::metadata(&f)?;
    let versions: Vec<Vec<u8>> = (0..4u8).map(|i| vec![b'a' + i; len]).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let style = case % 3;
    let last = std::thread::scope(|s| -> Res<usize> {
        let (stop, f, versions, meta) = (&stop, &f, &versions, &meta);
        let first = rng.below(4);
        let h = s.spawn(move || -> Res<usize> {
            use std::os::unix::fs::FileExt;
            let mut i = first;
            let from = Instant::now();
            while !stop.load(std::sync::atomic::Ordering::SeqCst) && from.elapsed() < Duration::from_secs(20) {
                i = (i + 1) % 4;
                let h = std::fs::OpenOptions::new().write(true).open(f)?;
                h.write_all_at(&versions[i], 0)?;
                if style != 0 {
                    h.set_times(std::fs::FileTimes::new().set_modified(meta.modified()?))?;
                }
                if style == 2 {
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
            Ok(i)
        });
        let mut res = Ok(());
        for _ in 0..4 {
            match r.run(&["status"]) {
                Ok(_) => {}
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
        }
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let i = h.join().expect("writer")?;
        res?;
        Ok(i)
    })?;
    t.set("f0", Some(Node::File(versions[last].clone())));
    let tag = format!("after being rewritten {} times over", last);
    ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
    if case % 4 == 0 {
        std::thread::sleep(Duration::from_millis(2100));
        ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
        ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
    }
    ctx.count("raced_answers", 1);
    ctx.eval(fp(&format!("{} {} {}", style, last, len), &differences(Some(&m.node), &t)));
    Ok(())
}

/// A file that was quiet for long is changed once, at some moment of its being read: what was read of
/// it then is neither what it was nor what it is.
fn overtaken(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    let len = match case % 3 {
        0 => rng.range(1, 3000),
        1 => rng.range(65_000, 400_000),
        _ => rng.range(400_000, 2_000_000),
    };
    let mut c = vec![b'a'; len];
    if rng.chance(1, 2) {
        let v = rng.bytes(4096);
        for (d, w) in c.iter_mut().zip(v.iter().cycle()) {
            *d = *w;
        }
    }
    t.set("f0", Some(Node::File(c.clone())));
    for i in 1..rng.range(1, 5) {
        t.set(&format!("f{}", i), Some(Node::File(rng.bytes(300))));
    }
    let m = scen::commit(&r, &t, "m", None)?;
    std::thread::sleep(Duration::from_millis(2100));
    let f = r.root.join("f0");
    let reads = len / 65_536 + 2;
    let off = match rng.below(4) {
        0 => 0,
        1 => len - 1,
        2 => len, // it grows
        _ => rng.below(len),
    };
    let spec = format!("{}:{}:{}", rng.range(1, reads + 4), off, f.display());
    let cmd = *rng.pick(&["status", "status", "compare", "checkout-head"]);
    let mut args = vec![cmd];
    if cmd == "checkout-head" {
        args.push("nowhere");
    }
    let o = shim::attach(r.prep(&r.root, &args), &r).env("VS_DATA", &r.top).env("VS_EDIT", &spec).go()?;
    let now = std::fs::read(&f)?;
    if now != c {
        ctx.count("edited_while_read", 1);
    } else {
        ensure!(o.ok(), "answer-fails", "{} of what nobody changes fails: {}", cmd, o.brief());
    }
    r.must(&["debug", "set-head", "master"])?;
    t.set("f0", Some(Node::File(now)));
    let tag = format!("after it was changed at {} ({}) while {} read it", off, spec.split(':').next().unwrap_or(""), cmd);
    ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
    if case % 3 == 0 {
        std::thread::sleep(Duration::from_millis(2100));
        ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
        ask(ctx, &r, &m, &t, &tag, &r.home, None)?;
    }
    ctx.count("overtaken_answers", 1);
    ctx.eval(fp(&format!("{} {} {}", cmd, off, len), &differences(Some(&m.node), &t)));
    Ok(())
}

/// Files that look the same except for one thing that tells them apart.
fn identity(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let len = rng.range(1, 2000);
    let mut t = Node::empty();
    let c = rng.bytes(len);
    t.set("f", Some(Node::File(c.clone())));
    let m = scen::commit(&r, &t, "m", None)?;
    let old = 1_000_000_000 + rng.below(1000);
    let (dev, ino) = (rng.range(1, 200), rng.range(1, 1 << 40));
    let nsec = rng.range(1, 500_000_000);
    let meta = |d: usize, i: usize, s: usize, n: usize| format!("{}:{}:{}.{}:{}.{}", d, i, old, nsec, old + s, n);
    let first = meta(dev, ino, 0, nsec);
    ask(ctx, &r, &m, &t, "first", &r.home, Some(&first))?;
    ctx.count("entries_in_cache", entries(&r.home));
    ask(ctx, &r, &m, &t, "first, again", &r.home, Some(&first))?;
    // Another file, as long, in the same place.
    let mut d = c;
    let i = rng.below(d.len());
    d[i] ^= 0x20;
    let mut u = t.clone();
    u.set("f", Some(Node::File(d)));
    sync_tree(&r.root, &u, &[".snapcd"])?;
    // Any bit may be the one that tells them apart.
    let (second, what) = match case % 4 {
        0 => (meta(dev ^ 1 << rng.below(28), ino, 0, nsec), "on another device"),
        1 => (meta(dev, ino ^ 1 << rng.below(63), 0, nsec), "of another inode"),
        2 => (meta(dev, ino, 1 << rng.below(28), nsec), "changed at another second"),
        _ => (meta(dev, ino, 0, nsec ^ 1 << rng.below(28)), "changed at another nanosecond"),
    };
    let l = differences(Some(&m.node), &u);
    ask(ctx, &r, &m, &u, &format!("a file {}", what), &r.home, Some(&second))?;
    ask(ctx, &r, &m, &u, &format!("a file {}, again", what), &r.home, Some(&second))?;
    // The first is still the first.
    sync_tree(&r.root, &t, &[".snapcd"])?;
    ask(ctx, &r, &m, &t, "the first, again", &r.home, Some(&first))?;
    ctx.count("identity_answers", 2);
    ctx.eval(fp(&format!("{} {} {}", what, second, len), &l));
    Ok(())
}

/// Repositories of one user share a cache. Each must hold what it is asked about itself.
fn shared(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let a = Repo::new(ctx)?;
    let mut b = Repo::new(ctx)?;
    let own = std::mem::replace(&mut b.home, a.home.clone());
    let d: PathBuf = a.top.join("common");
    let mut t = gen::tree(rng, &gen::TreeOpts { max_blocks: 2, ..gen::TreeOpts::small() });
    t.set("some", Some(Node::File(rng.bytes(2000))));
    write_tree(&d, &t, None)?;
    let e = a.top.join("e");
    std::fs::create_dir(&e)?;
    // Everything is taken for settled.
    let old = "-:-:1000000000:1000000000";
    let age = |r: &Repo<'_>, x: Run<'_>| -> Res<crate::cli::Out> { shim::attach(x, r).env("VS_DATA", &d).env("VS_META", old).go() };
    let empty = Node::empty();
    let la = differences(Some(&empty), &t);
    let ka = a.insert(&e)?;
    let kb = b.insert(&e)?;
    let p = d.to_str().unwrap();
    // a learns all the files; b has never seen them.
    let o = age(&a, a.prep(&a.root, &["compare", "-p", p, &ka]))?;
    ensure!(o.ok(), "answer-fails", "{}", o.brief());
    check_listing("compare in the first repository", &o, &la, false)?;
    ctx.count("entries_in_cache", entries(&a.home));
    let how = case % 4;
    if how == 1 {
        // The first is made anew, and has never seen them either.
        std::fs::remove_dir_all(a.root.join(".snapcd"))?;
        a.must(&["init"])?;
        a.insert(&e)?;
    }
    let x = if how == 1 { &a } else { &b };
    let k = if how == 1 { &ka } else { &kb };
    let o = age(x, x.prep(&x.root, &["compare", "-p", p, k]))?;
    ensure!(o.ok(), "answer-fails", "compare in a second repository that shares the cache fails: {}", o.brief());
    check_listing("compare in a second repository", &o, &la, false)?;
    // -s reads what is in the files, out of the repository.
    let o = age(x, x.prep(&x.root, &["compare", "-s", "-p", p, k]))?;
    ensure!(o.ok(), "answer-fails", "compare -s in a second repository that shares the cache fails: {}", o.brief());
    let n = super::c14::changed_files(Some(&empty), &t).len();
    ensure!(o.text().lines().count() == n, "difference-not-listed", "compare -s lists {:?}, {} files differ", o.text(), n);
    // A commit holds everything.
    let o = age(x, x.prep(&x.root, &["commit", "-p", p, "-m", "m"]))?;
    ensure!(o.ok(), "answer-fails", "{}", o.brief());
    let db = x.db()?;
    let m = scen::made(&db, &t, "m", None)?;
    scen::check_tree("committed in a second repository", &db, &m.tree, &t)?;
    if let Err(e) = model::fsck(&db, &[]) {
        crate::viol!("cache-hides-missing-object", "after a commit in a second repository: {}", e);
    }
    // One of them changes; both see it.
    let mut u = t.clone();
    if super::c12::stealthy(&d, &mut u, rng)? {
        let l = differences(Some(&t), &u);
        let o = x.must(&["compare", "-p", p, &model::user_key(&m.tree)])?;
        check_listing("compare after a change", &o, &l, false)?;
        ctx.eval(fp(&format!("shared {}", how), &l));
    }
    ctx.eval(fp(&format!("shared {}", how), &la));
    ctx.count("shared_answers", 1);
    drop(own);
    Ok(())
}

/// A cache that is missing, empty, garbage, of another program, not a file.
fn odd(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(rng, &gen::TreeOpts::small());
    t.set("one", Some(Node::File(b"one".to_vec())));
    t.dir_mut().remove(".snapcd");
    let m = scen::commit(&r, &t, "m", None)?;
    let o = shim::attach(r.prep(&r.root, &["status"]), &r).env("VS_META", "-:-:-:1000000000").go()?;
    ensure!(o.ok(), "answer-fails", "{}", o.brief());
    ctx.count("entries_in_cache", entries(&r.home));
    for _ in 0..2 {
        gen::edit(rng, &mut t, &gen::TreeOpts::small());
    }
    t.dir_mut().remove(".snapcd");
    sync_tree(&r.root, &t, &[".snapcd"])?;
    let dir = r.home.join("cache/snapcd");
    let f = dir.join("cache.db");
    let must = match case % 8 {
        0 => {
            std::fs::remove_dir_all(r.home.join("cache"))?;
            true
        }
        1 => {
            std::fs::remove_file(&f)?;
            true
        }
        2 => {
            std::fs::write(&f, b"")?;
            true
        }
        3 => {
            std::fs::write(&f, rng.bytes(9000))?;
            false
        }
        4 => {
            let mut b = std::fs::read(&f)?;
            b.truncate(b.len() / 2);
            std::fs::write(&f, b)?;
            false
        }
        5 => {
            let c = rusqlite::Connection::open(&f)?;
            c.execute("DELETE FROM cache WHERE rowid % 2 = 0", rusqlite::NO_PARAMS).or_else(|_| c.execute("DELETE FROM cache", rusqlite::NO_PARAMS))?;
            true
        }
        6 => {
            std::fs::remove_dir_all(&dir)?;
            std::fs::write(&dir, b"no directory")?;
            false
        }
        _ => {
            // names of objects that are nowhere
            let c = rusqlite::Connection::open(&f)?;
            let mut k = vec![1];
            k.extend_from_slice(&model::hash(b"nowhere"));
            c.execute("UPDATE cache SET value = ?", &[&k])?;
            true
        }
    };
    let l = differences(Some(&m.node), &t);
    for cmd in &["status", "compare"] {
        let o = r.run(&[cmd])?;
        if !must && !o.ok() {
            continue;
        }
        ensure!(o.ok(), "answer-fails", "{} with a cache of kind {} fails: {}", cmd, case % 8, o.brief());
        check_listing(&format!("{} with a cache of kind {}", cmd, case % 8), &o, &l, *cmd == "status")?;
    }
    // What was committed with it is whole.
    if must {
        let k = scen::commit(&r, &t, "n", None)?;
        let db = r.db()?;
        scen::check_tree("committed", &db, &k.tree, &t)?;
    }
    ctx.count("odd_cache_answers", 1);
    ctx.eval(fp(&format!("odd {}", case % 8), &l));
    Ok(())
}
