//! C05: fetching never overwrites anything and never escapes its destination.

use crate::cli::Repo;
use crate::ensure;
use crate::gen;
use crate::model::{self, Obj};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::shim;
use crate::util::{read_tree, snap, snap_diff, write_tree, Entry, Node, Snap};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Trees are fetched into places where some of their paths already exist (the same or another file, a directory, \
a link to a file or a directory, a dangling link, a read-only file, a FIFO), and trees with hostile names (.., absolute, with slashes, empty) that only a \
crafted database can hold are fetched, at any depth. Everything in the scratch area is photographed before and after: type, inode, mode, owner, \
mtime and bytes of every file that existed must be the same, and nothing new may lie outside the destination. A fetch that met a file of its own \
must fail. In races somebody else creates a file or a link just before the fetch creates the same path, at every such call: what was there first \
stays. And names that a fetch uses only in passing (in its log of calls, but not in the tree) are given to files of the user, which must stay. Non-trivial: at least one pre-existing path in the way, or one hostile name. Distinct by tree and obstacle.",
    assumptions: &[
        "a directory that existed before at a place where the tree has a directory is no conflict",
        "the destination itself may be, or be reached through, a link",
    ],
    needed: &["links_to_directories_in_the_way", "races", "races_won_by_the_other", "fetches_watched", "fetches_with_obstacles", "conflicts_refused", "hostile_names_fetched"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("obstacles", ctx.n(4500, 30000), |rng, _| obstacles(ctx, rng));
    ctx.cases("single", ctx.n(1200, 8000), |rng, i| single(ctx, rng, i));
    ctx.cases("race", ctx.n(1500, 10000), |rng, _| race(ctx, rng));
    ctx.cases("in passing", ctx.n(500, 4000), |rng, _| in_passing(ctx, rng));
    ctx.cases("hostile", ctx.n(6000, 40000), |rng, _| hostile(ctx, rng));
}

/// Directories get a new mtime when something is created in them.
fn without_dir_times(s: &Snap) -> Snap {
    s.iter()
        .map(|(k, v)| {
            let mut e: Entry = v.clone();
            if e.kind == 'd' {
                e.mtime = (0, 0);
                e.nlink = 0;
            }
            (k.clone(), e)
        })
        .collect()
}

/// What existed is unchanged, and what is new is in `dest`.
fn judge(before: &Snap, after: &Snap, dest: &Path) -> Option<(String, bool)> {
    let (b, a) = (without_dir_times(before), without_dir_times(after));
    let mut a2 = Snap::new();
    for (k, v) in &a {
        if b.contains_key(k) {
            a2.insert(k.clone(), v.clone());
        } else if !k.starts_with(dest) && !dest.starts_with(k) {
            return Some((format!("{} was created", k.display()), true));
        }
    }
    snap_diff(&b, &a2).map(|d| (d, false))
}

fn skip_db(r: &Repo<'_>) -> impl Fn(&Path) -> bool {
    let a = r.root.join(".snapcd");
    let c = r.home.clone();
    move |p: &Path| p == a || p == c
}

fn obstacles(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(
        rng,
        &gen::TreeOpts {
            depth: 3,
            width: 4,
            ..gen::TreeOpts::small()
        },
    );
    t.set("some", Some(Node::File(gen::small_content(rng))));
    let src = r.top.join("src");
    write_tree(&src, &t, None)?;
    let key = r.insert(&src)?;
    let dest = r.top.join("dest/out");
    std::fs::create_dir_all(&dest)?;
    let victim = r.top.join("victim");
    std::fs::write(&victim, b"precious")?;
    std::fs::create_dir(r.top.join("elsewhere"))?;
    // Prepare obstacles at some of its paths.
    let mut conflict = false;
    let mut what = Vec::new();
    for _ in 0..rng.range(1, 3) {
        let paths = t.paths();
        let (p, is_dir) = rng.pick(&paths).clone();
        let at = dest.join(&p);
        if let Some(par) = at.parent() {
            if std::fs::create_dir_all(par).is_err() {
                continue;
            }
        }
        if std::fs::symlink_metadata(&at).is_ok() {
            continue;
        }
        let k = rng.below(10);
        let same = match t.get(&p) {
            Some(Node::File(b)) => b.clone(),
            _ => vec![],
        };
        let (label, c) = match k {
            0 => {
                std::fs::write(&at, b"mine")?;
                ("a file", true)
            }
            1 => {
                std::fs::write(&at, &same)?;
                ("a file with the same bytes", true)
            }
            2 => {
                let n = same.len() + 100;
                std::fs::write(&at, vec![b'z'; n])?;
                ("a longer file", true)
            }
            3 => {
                std::fs::write(&at, b"")?;
                ("an empty file", true)
            }
            4 => {
                symlink(&victim, &at)?;
                ("a link to a file", true)
            }
            5 => {
                symlink(r.top.join("elsewhere/new"), &at)?;
                ("a dangling link", true)
            }
            6 => {
                std::fs::hard_link(&victim, &at)?;
                ("another name of a file", true)
            }
            7 => {
                std::fs::create_dir(&at)?;
                ("a directory", !is_dir)
            }
            8 => {
                symlink(rng.pick(&[r.top.join("elsewhere"), "..".into(), ".".into()]), &at)?;
                ctx.count("links_to_directories_in_the_way", 1);
                ("a link to a directory", true)
            }
            _ => {
                std::fs::write(&at, b"ro")?;
                let mut pm = std::fs::metadata(&at)?.permissions();
                use std::os::unix::fs::PermissionsExt;
                pm.set_mode(0o444);
                std::fs::set_permissions(&at, pm)?;
                ("a read-only file", true)
            }
        };
        conflict |= c;
        what.push(format!("{} at {:?}", label, p));
    }
    // And things that are not in the way.
    if rng.chance(1, 2) {
        std::fs::write(dest.join("zz unrelated zz"), b"other")?;
    }
    let before = snap(&r.top, &skip_db(&r))?;
    let o = r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&key), dest.as_os_str()])?;
    let after = snap(&r.top, &skip_db(&r))?;
    ctx.eval(if what.is_empty() {
        None
    } else {
        Some(t.fingerprint() ^ crate::util::fnv(what.join(",").as_bytes()))
    });
    ctx.count("fetches_with_obstacles", 1);
    ctx.count("paths_photographed", before.len() as u64);
    let what = what.join(", ");
    if let Some((d, outside)) = judge(&before, &after, &dest) {
        return crate::report::violation(
            if outside { "escaped" } else { "overwrote" },
            format!("fetch with {}: {}", what, d),
            json!({ "tree": t.describe() }),
        );
    }
    if conflict {
        crate::ensure!(!o.ok(), "conflict-ignored", "fetch with {} reports success", what);
        ctx.count("conflicts_refused", 1);
    } else {
        crate::ensure!(o.ok(), "no-conflict-refused", "fetch with {} fails: {}", what, o.brief());
    }
    ctx.sample_in("obstacles", json!({ "obstacles": what, "tree": t.describe() }));
    Ok(())
}

/// A single file or directory fetched onto something.
fn single(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    let file = rng.chance(1, 2);
    let t = if file {
        Node::File(gen::small_content(rng))
    } else {
        gen::tree(rng, &gen::TreeOpts::small())
    };
    let src = r.top.join("src");
    write_tree(&src, &t, None)?;
    let key = r.insert(&src)?;
    let victim = r.top.join("victim");
    std::fs::write(&victim, b"precious")?;
    let dest = r.top.join("dest");
    let (label, conflict) = match i % 6 {
        0 => {
            std::fs::write(&dest, b"mine")?;
            ("a file", true)
        }
        1 if file => {
            symlink(&victim, &dest)?;
            ("a link to a file", true)
        }
        2 if file => {
            symlink(r.top.join("new"), &dest)?;
            ("a dangling link", true)
        }
        3 => {
            std::fs::create_dir(&dest)?;
            std::fs::write(dest.join("in"), b"x")?;
            ("a directory", file || t.get("in").is_some())
        }
        4 => {
            std::fs::write(&dest, b"mine")?;
            ("a file, fetching below it", true)
        }
        _ => {
            std::fs::hard_link(&victim, &dest)?;
            ("another name of a file", true)
        }
    };
    let arg: PathBuf = if i % 6 == 4 { dest.join("below") } else { dest.clone() };
    let before = snap(&r.top, &skip_db(&r))?;
    let o = r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&key), arg.as_os_str()])?;
    let after = snap(&r.top, &skip_db(&r))?;
    ctx.eval(Some(t.fingerprint() ^ i % 6));
    ctx.count("fetches_with_obstacles", 1);
    if let Some((d, outside)) = judge(&before, &after, &dest) {
        crate::viol!(
            if outside { "escaped" } else { "overwrote" },
            "fetch of a {} onto {}: {}",
            if file { "file" } else { "directory" },
            label,
            d
        );
    }
    if conflict {
        crate::ensure!(!o.ok(), "conflict-ignored", "fetch onto {} reports success", label);
        ctx.count("conflicts_refused", 1);
    } else {
        crate::ensure!(o.ok(), "no-conflict-refused", "fetch onto {} fails: {}", label, o.brief());
    }
    // Twice the same: everything is in the way now.
    let out = r.top.join("again");
    let fetch = || r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&key), out.as_os_str()]);
    let o = fetch()?;
    crate::ensure!(o.ok(), "no-conflict-refused", "fetch into nothing fails: {}", o.brief());
    let before = snap(&r.top, &skip_db(&r))?;
    let o = fetch()?;
    let after = snap(&r.top, &skip_db(&r))?;
    if let Some((d, _)) = judge(&before, &after, &out) {
        crate::viol!("overwrote", "fetching a second time: {}", d);
    }
    crate::ensure!(
        !o.ok() || t.shape().0 == 0,
        "conflict-ignored",
        "fetching a second time onto {} files reports success",
        t.shape().0
    );
    Ok(())
}

/// Somebody else creates the same path at the same time, and is first.
fn race(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let single = rng.chance(1, 6);
    let t = if single {
        Node::File(gen::small_content(rng))
    } else {
        gen::tree(rng, &gen::TreeOpts { depth: 3, width: 4, ..gen::TreeOpts::small() })
    };
    let src = r.top.join("src");
    write_tree(&src, &t, None)?;
    let key = r.insert(&src)?;
    let victim = r.top.join("victim");
    std::fs::write(&victim, b"precious")?;
    let dest = r.top.join("dest/out");
    if rng.chance(1, 2) {
        std::fs::create_dir_all(if single { dest.parent().unwrap() } else { &dest })?;
    }
    let target = match rng.below(4) {
        0 => Some(victim.clone()),
        1 => Some(r.top.join("made through the link")),
        _ => None,
    };
    let n = rng.range(1, t.paths().len() + 3);
    let plant = match &target {
        None => format!("{}", n),
        Some(p) => format!("{}:{}", n, p.display()),
    };
    let list = r.top.join("list");
    let before = snap(&r.top, &skip_db(&r))?;
    let args = [OsString::from("fetch"), OsString::from(&key), dest.clone().into_os_string()];
    let o = shim::attach(r.prep(&r.root, &args), &r).env("VS_PATHS", &list).env("VS_PLANT", &plant).go()?;
    let calls = shim::paths(&list);
    let _ = std::fs::remove_file(&list);
    ctx.count("races", 1);
    let planted = calls.iter().find(|c| c.0 == "planted").map(|c| c.1.clone());
    let after = snap(&r.top, &skip_db(&r))?;
    let top = r.top.join("dest");
    if let Some((d, outside)) = judge(&before, &after, &top) {
        crate::viol!(if outside { "escaped" } else { "overwrote" }, "fetch while somebody else makes {:?}: {}", planted, d);
    }
    let at = match planted {
        Some(p) => p,
        None => {
            ctx.eval(None);
            ensure!(o.ok(), "no-conflict-refused", "fetch fails: {}", o.brief());
            return Ok(());
        }
    };
    ctx.count("races_won_by_the_other", 1);
    let what = if target.is_some() { "link" } else { "file" };
    ctx.eval(Some(t.fingerprint() ^ crate::util::fnv(format!("{:?}{}", at.strip_prefix(&r.top), what).as_bytes())));
    let kept = match &target {
        None => std::fs::symlink_metadata(&at).map_or(false, |m| m.is_file()) && std::fs::read(&at)? == b"planted",
        Some(p) => std::fs::read_link(&at).map_or(false, |q| q == *p),
    };
    ensure!(kept, "overwrote", "the {} that somebody else made at {} just before fetch did is gone or changed: {}", what, at.display(), o.brief());
    // On the way to the destination, or at a path of the tree, it is in the way.
    let in_tree = match at.strip_prefix(&dest) {
        Ok(rel) if rel.as_os_str().is_empty() => true,
        Ok(rel) => rel.to_str().map_or(false, |x| t.get(x).is_some()),
        Err(_) => dest.starts_with(&at),
    };
    if in_tree {
        ensure!(!o.ok(), "conflict-ignored", "somebody else made a {} at {} just before fetch did, which reports success", what, at.display());
    }
    ctx.sample_in("race", json!({ "tree": t.describe(), "planted": what, "before call": n, "at": at.strip_prefix(&r.top).ok().map(|p| p.display().to_string()) }));
    Ok(())
}

/// Names that a fetch uses on its way and that are not in the tree may be in use.
fn in_passing(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let t = gen::tree(rng, &gen::TreeOpts { depth: 2, width: 4, ..gen::TreeOpts::small() });
    let src = r.top.join("src");
    write_tree(&src, &t, None)?;
    let key = r.insert(&src)?;
    let fetch = |dest: &Path| -> Res<(crate::cli::Out, Vec<PathBuf>)> {
        let list = r.home.join("list");
        let args = [OsString::from("fetch"), OsString::from(&key), dest.as_os_str().to_os_string()];
        let o = shim::attach(r.prep(&r.root, &args), &r).env("VS_PATHS", &list).go()?;
        let calls = shim::paths(&list);
        let _ = std::fs::remove_file(&list);
        let inside = calls.into_iter().map(|c| c.1).filter(|p| p.starts_with(&r.top) && !p.starts_with(r.root.join(".snapcd")) && !p.starts_with(&r.home));
        Ok((o, inside.collect()))
    };
    let first = r.top.join("dest/first/out");
    let (o, seen) = fetch(&first)?;
    ensure!(o.ok(), "no-conflict-refused", "fetch into nothing fails: {}", o.brief());
    ctx.count("fetches_watched", 1);
    ctx.count("paths_touched_by_fetches", seen.len() as u64);
    ctx.eval(if t.paths().is_empty() { None } else { Some(t.fingerprint()) });
    let dir = r.top.join("dest/first");
    let dest = r.top.join("dest/second/out");
    let mut others = 0;
    std::fs::create_dir_all(dest.parent().unwrap())?;
    for p in &seen {
        let known = match p.strip_prefix(&first) {
            Ok(rel) if rel.as_os_str().is_empty() => true,
            Ok(rel) => rel.to_str().map_or(false, |x| t.get(x).is_some()),
            Err(_) => first.starts_with(p),
        };
        if known {
            continue;
        }
        let rel = match p.strip_prefix(&dir) {
            Ok(rel) => rel,
            Err(_) => crate::viol!("escaped", "fetch touches {}", p.display()),
        };
        let q = dir.parent().unwrap().join("second").join(rel);
        if std::fs::create_dir_all(q.parent().unwrap()).is_err() || q.symlink_metadata().is_ok() {
            continue;
        }
        std::fs::write(&q, b"mine")?;
        others += 1;
    }
    if others > 0 {
        ctx.count("names_used_in_passing", others);
        let before = snap(&r.top, &skip_db(&r))?;
        let (o, _) = fetch(&dest)?;
        let after = snap(&r.top, &skip_db(&r))?;
        if let Some((d, outside)) = judge(&before, &after, &dest) {
            crate::viol!(if outside { "escaped" } else { "overwrote" }, "fetch where its temporary names are in use ({}): {}", o.brief(), d);
        }
    }
    Ok(())
}

fn hostile_name(rng: &mut Rng, r: &Repo<'_>) -> String {
    let up = |n: usize| "../".repeat(n);
    let top = r.top.to_string_lossy().to_string();
    match rng.below(16) {
        0 => "..".into(),
        1 => ".".into(),
        2 => "".into(),
        3 => "a/b".into(),
        4 => format!("{}evil", up(rng.range(1, 3))),
        5 => format!("{}/evil-abs", top),
        6 => format!("x/{}evil", up(rng.range(2, 4))),
        7 => "a/".into(),
        8 => "./a".into(),
        9 => format!("//{}/evil2", top.trim_start_matches('/')),
        10 => "a\0b".into(),
        11 => "../src/some".into(),
        12 => format!("{}/victim", top),
        13 => "../victim".into(),
        14 => "a//b".into(),
        _ => "../out/../../evil".into(),
    }
}

/// A tree that only a crafted database can hold.
fn hostile(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let victim = r.top.join("victim");
    std::fs::write(&victim, b"precious")?;
    std::fs::create_dir(r.top.join("d"))?;
    std::fs::write(r.top.join("d/victim"), b"precious")?;
    // Keep anything that escapes within the scratch directory: at most 3 levels up from 5 deep.
    let dest = r.top.join("d/e/f/g/out");
    std::fs::create_dir_all(dest.parent().unwrap())?;

    let mut rows: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut put = |o: Obj| -> model::Key {
        let b = model::encode_obj(&o);
        let k = model::hash(&b);
        rows.insert(model::dbkey(&k), b);
        k
    };
    let body = b"evil content".to_vec();
    let blob = put(Obj {
        typ: "FileBlob".into(),
        data: body.clone(),
        keys: vec![],
    });
    let file = put(Obj {
        typ: "FSItemFile".into(),
        data: model::item_data(false, body.len() as u64, &[]),
        keys: vec![blob],
    });
    let empty = put(Obj {
        typ: "FSItemDir".into(),
        data: model::item_data(true, 0, &[]),
        keys: vec![],
    });
    let full = put(Obj {
        typ: "FSItemDir".into(),
        data: model::item_data(true, 1, &["inner".to_string()]),
        keys: vec![file],
    });
    let mut names = vec![hostile_name(rng, &r)];
    let mut kids = vec![*rng.pick(&[file, empty, full])];
    for _ in 0..rng.below(3) {
        let n = if rng.chance(1, 4) {
            hostile_name(rng, &r)
        } else {
            gen::name(rng, true)
        };
        let k = *rng.pick(&[file, empty, full]);
        let i = rng.below(names.len() + 1);
        names.insert(i, n);
        kids.insert(i, k);
    }
    let mut top = put(Obj {
        typ: "FSItemDir".into(),
        data: model::item_data(true, names.len() as u64, &names),
        keys: kids,
    });
    for _ in 0..rng.below(3) {
        let n = gen::name(rng, true);
        top = put(Obj {
            typ: "FSItemDir".into(),
            data: model::item_data(true, 2, &["A0".to_string(), n]),
            keys: vec![file, top],
        });
    }
    drop(put);
    add_rows(&r, &rows)?;
    if rng.chance(1, 2) {
        std::fs::create_dir(&dest)?;
    }
    let before = snap(&r.top, &skip_db(&r))?;
    let id = model::user_key(&top);
    let o = r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&id), dest.as_os_str()])?;
    let after = snap(&r.top, &skip_db(&r))?;
    ctx.eval(Some(crate::util::fnv(&top)));
    ctx.count("hostile_names_fetched", 1);
    if let Some((d, outside)) = judge(&before, &after, &dest) {
        crate::viol!(
            if outside { "escaped" } else { "overwrote" },
            "fetch of a tree with the names {:?}: {}",
            names,
            d
        );
    }
    if o.ok() {
        // Then it must at least have made what it was told to, where it was told to.
        ctx.count("hostile_names_accepted", 1);
        if !matches!(read_tree(&dest), Ok(Ok(_))) {
            crate::viol!("hostile-success", "fetch of the names {:?} succeeds without result", names);
        }
    }
    ctx.sample_in("hostile", json!({ "names": names, "exit": o.code }));
    Ok(())
}

pub fn add_rows(r: &Repo<'_>, rows: &BTreeMap<Vec<u8>, Vec<u8>>) -> Res {
    let c = rusqlite::Connection::open(r.dbfile())?;
    c.execute_batch("PRAGMA synchronous=OFF; BEGIN")?;
    for (k, v) in rows {
        c.execute("INSERT OR IGNORE INTO data VALUES (?, ?)", rusqlite::params![k, v])?;
    }
    c.execute_batch("COMMIT")?;
    Ok(())
}
