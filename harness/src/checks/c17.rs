//! C17: excluded paths and the repository itself are never archived; all else is.

use super::c12::{any_dir, relative};
use crate::cli::{inserted_key, Db, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{check_listing, differences, parse_key, Listing};
use crate::util::{fnv, sync_tree, tree_diff, write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random trees with decoys (names that begin like the database folder, nested folders of the same name, links to the database and into it) are committed, inserted and compared, \
with the database at its usual place, under other names, deep inside the tree, outside of it and behind a link, from random directories, with random exclude patterns derived from the \
paths. A reference with its own glob matcher says what belongs into the snapshot; the stored tree must be exactly that, and status and compare must list exactly the differences between \
what is left of both sides. Non-trivial: a snapshot from which something was left out and in which something was kept, distinct by both.",
    assumptions: &[
        "patterns are matched against the path as it is reached from the path given (or the repository's folder), without a leading ./",
        "a path that is itself named to be archived is archived",
    ],
    needed: &[
        "snapshots", "paths_excluded", "paths_kept", "directories_excluded", "db_elsewhere", "db_linked", "db_deep", "links_to_db", "decoys_kept", "compares_with_patterns",
        "compares_without_patterns", "status_with_patterns", "relative_paths", "invalid_patterns", "files_linked",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("random", ctx.n(1800, 14000), |rng, i| random(ctx, rng, i));
    ctx.cases("invalid", ctx.n(40, 200), |rng, i| invalid(ctx, rng, i));
}

// ---------------------------------------------------------------------------------------------
// Globs

#[derive(Debug, Clone)]
enum G {
    Lit(u8),
    Any,
    Star,
    Class(bool, Vec<(u8, u8)>),
    /// `**/` at the beginning
    Prefix,
    /// `/**/`
    Middle,
    /// `/**` at the end
    Suffix,
    Alt(Vec<Vec<G>>),
}

fn matches(g: &[G], s: &[u8]) -> bool {
    fn go(g: &[G], s: &[u8], rest: &mut dyn FnMut(&[u8]) -> bool) -> bool {
        let (t, g) = match g.split_first() {
            Some(x) => x,
            None => return rest(s),
        };
        match t {
            G::Lit(c) => s.first() == Some(c) && go(g, &s[1..], rest),
            G::Any => s.first().map_or(false, |c| *c != b'\n') && go(g, &s[1..], rest),
            G::Class(neg, r) => match s.first() {
                Some(c) => r.iter().any(|(a, b)| a <= c && c <= b) != *neg && go(g, &s[1..], rest),
                None => false,
            },
            G::Star => (0..=s.len()).any(|i| go(g, &s[i..], rest)),
            G::Prefix => {
                go(g, s, rest)
                    || (0..s.len()).any(|i| s[i] == b'/' && go(g, &s[i + 1..], rest))
            }
            G::Middle => {
                s.first() == Some(&b'/')
                    && (0..s.len()).any(|i| s[i] == b'/' && go(g, &s[i + 1..], rest))
            }
            G::Suffix => {
                go(g, s, rest)
                    || (s.first() == Some(&b'/') && (1..=s.len()).any(|i| go(g, &s[i..], rest)))
            }
            G::Alt(v) => v.iter().any(|a| go(a, s, &mut |s: &[u8]| go(g, s, rest))),
        }
    }
    go(g, s, &mut |s: &[u8]| s.is_empty())
}

fn lit(s: &str) -> Vec<G> {
    s.bytes().map(G::Lit).collect()
}

/// The text of a pattern.
fn show(g: &[G], rng: &mut Rng) -> String {
    let mut s: Vec<u8> = vec![];
    for t in g {
        match t {
            G::Lit(c) => {
                if b"*?[]{}\\,!".contains(c) {
                    if b"*?{}".contains(c) && rng.chance(1, 3) {
                        s.extend_from_slice(&[b'[', *c, b']']);
                    } else {
                        s.extend_from_slice(&[b'\\', *c]);
                    }
                } else {
                    s.push(*c);
                }
            }
            G::Any => s.push(b'?'),
            G::Star => s.push(b'*'),
            G::Class(neg, r) => {
                s.push(b'[');
                if *neg {
                    s.push(b'!');
                }
                for (a, b) in r {
                    if a == b {
                        s.push(*a);
                    } else {
                        s.extend_from_slice(&[*a, b'-', *b]);
                    }
                }
                s.push(b']');
            }
            G::Prefix => s.extend_from_slice(b"**/"),
            G::Middle => s.extend_from_slice(b"/**/"),
            G::Suffix => s.extend_from_slice(b"/**"),
            G::Alt(v) => {
                s.push(b'{');
                for (i, a) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(b',');
                    }
                    s.extend_from_slice(show(a, rng).as_bytes());
                }
                s.push(b'}');
            }
        }
    }
    String::from_utf8(s).expect("patterns are UTF-8")
}

/// A pattern that has something to do with one of these paths.
fn pattern(rng: &mut Rng, walked: &[String]) -> Vec<G> {
    let p = rng.pick(walked).clone();
    let name = p.rsplit('/').next().unwrap().to_string();
    let plain: Vec<usize> = (0..name.len()).filter(|i| name.is_char_boundary(*i)).collect();
    let cut = *rng.pick(&plain);
    let mut g = match rng.below(12) {
        0 => lit(&p),
        1 => {
            let mut g = vec![G::Star];
            g.extend(lit(&name[cut..]));
            g
        }
        2 => {
            let mut g = vec![G::Star, G::Lit(b'/')];
            g.extend(lit(&name));
            g
        }
        3 => {
            let mut g = vec![G::Prefix];
            g.extend(lit(&name));
            g
        }
        4 => {
            let mut g = lit(&p);
            g.extend(vec![G::Lit(b'/'), G::Star]);
            g
        }
        5 => lit(&name),
        6 => {
            let mut g = vec![G::Star];
            g.extend(lit(&name));
            g.push(G::Star);
            g
        }
        7 => {
            let q = rng.pick(walked).clone();
            vec![G::Alt(vec![lit(&p), lit(&q)])]
        }
        8 => {
            let mut g = vec![G::Prefix];
            g.extend(lit(&name[..cut]));
            g.push(G::Star);
            g
        }
        9 => {
            let mut g = lit(&p);
            g.push(G::Suffix);
            g
        }
        10 if p.contains('/') => {
            let i = p.find('/').unwrap();
            // An absolute path begins with its only slash that will do.
            let (a, b) = if i == 0 { ("", name.as_str()) } else { (&p[..i], name.as_str()) };
            let mut g = lit(a);
            if a.is_empty() {
                g = vec![G::Prefix];
            } else {
                g.push(G::Middle);
            }
            g.extend(lit(b));
            g
        }
        _ => {
            let mut g = vec![G::Prefix];
            g.extend(lit(&name));
            if rng.chance(1, 2) {
                g.extend(lit("/"));
                g.push(G::Star);
            }
            g
        }
    };
    // Some characters become wildcards.
    for t in g.iter_mut() {
        if let G::Lit(c) = t {
            if c.is_ascii_alphanumeric() && rng.chance(1, 12) {
                *t = match rng.below(4) {
                    0 => G::Any,
                    1 => G::Class(false, vec![(*c, *c), (b'0', b'9')]),
                    2 => G::Class(true, vec![(*c, *c)]),
                    _ => G::Class(false, vec![(b'a', b'm')]),
                };
            }
        }
    }
    if rng.chance(1, 12) {
        // Case matters.
        for t in g.iter_mut() {
            if let G::Lit(c) = t {
                c.make_ascii_uppercase();
            }
        }
    }
    g
}

// ---------------------------------------------------------------------------------------------

/// A tree in which some entries are links or belong to the database.
#[derive(Clone)]
struct World {
    files: Node,
    /// Paths (relative to the top) that are the database folder or lead into it.
    db: Vec<String>,
}

struct Left {
    node: Node,
    out: usize,
    dirs_out: usize,
    kept: usize,
    what: Vec<String>,
}

/// What is left of the part of the tree at `at`, reached as `walked`.
fn left(w: &World, at: &str, walked: &str, pats: &[Vec<G>]) -> Left {
    fn go(w: &World, n: &Node, at: &str, walked: &str, pats: &[Vec<G>], l: &mut Left) -> Node {
        let d = match n {
            Node::File(b) => return Node::File(b.clone()),
            Node::Dir(d) => d,
        };
        let mut out = BTreeMap::new();
        for (k, v) in d {
            let a = if at.is_empty() { k.clone() } else { format!("{}/{}", at, k) };
            let p = if walked.is_empty() {
                k.clone()
            } else if walked.ends_with('/') {
                format!("{}{}", walked, k)
            } else {
                format!("{}/{}", walked, k)
            };
            if w.db.contains(&a) {
                continue;
            }
            if pats.iter().any(|g| matches(g, p.as_bytes())) {
                l.out += 1;
                l.what.push(p.clone());
                if let Node::Dir(_) = v {
                    l.dirs_out += 1;
                }
                continue;
            }
            l.kept += 1;
            let n = go(w, v, &a, &p, pats, l);
            out.insert(k.clone(), n);
        }
        Node::Dir(out)
    }
    let mut l = Left {
        node: Node::empty(),
        out: 0,
        dirs_out: 0,
        kept: 0,
        what: vec![],
    };
    let n = w.files.get(at).expect("part").clone();
    l.node = go(w, &n, at, walked, pats, &mut l);
    l
}

fn all_walked(w: &World, at: &str, walked: &str) -> Vec<String> {
    let mut v: Vec<String> = match w.files.get(at) {
        Some(n) => n
            .paths()
            .into_iter()
            .map(|p| if walked.is_empty() { p.0 } else { format!("{}/{}", walked, p.0) })
            .collect(),
        None => vec![],
    };
    v.retain(|p| !p.is_empty());
    if v.is_empty() {
        v.push("nothing".into());
    }
    v
}

fn args(pats: &[String], db: &Option<OsString>, rng: &mut Rng, cmd: &[&str]) -> Vec<OsString> {
    let mut a: Vec<OsString> = vec![];
    if let Some(d) = db {
        a.push("-d".into());
        a.push(d.clone());
    }
    let long = rng.chance(1, 4);
    let after = rng.chance(1, 2);
    let e: Vec<OsString> = pats
        .iter()
        .flat_map(|p| {
            if long || p.starts_with('-') {
                vec![OsString::from(format!("--exclude={}", p))]
            } else {
                vec!["-e".into(), p.into()]
            }
        })
        .collect();
    if !after {
        a.extend(e.clone());
    }
    a.push(cmd[0].into());
    if after {
        a.extend(e);
    }
    a.extend(cmd[1..].iter().map(|x| x.into()));
    a
}

/// checkout-head ignores what status ignores.
#[allow(clippy::too_many_arguments)]
fn switch(ctx: &Ctx, r: &Repo<'_>, cwd: &Path, go: &[OsString], back: &[OsString], dbdir: &Path, clean: bool, what: &str) -> Res {
    let head = || match Db::load(&dbdir.join("snapcd.db")) {
        Ok(d) => Ok(d.head()),
        Err(e) => crate::viol!("database-unreadable", "{}", e),
    };
    let o = r.run_in(cwd, go)?;
    let h = head()?;
    if clean {
        ensure!(o.ok() && h.as_deref() == Some("elsewhere"), "checkout-head-differs", "nothing differs {}, but checkout-head: {}, HEAD is {:?}", what, o.brief(), h);
        r.must_in(cwd, back)?;
        ctx.count("switched_with_patterns", 1);
    } else {
        ensure!(!o.ok() && h.as_deref() == Some("master"), "checkout-head-differs", "something differs {}, but checkout-head: {}, HEAD is {:?}", what, o.brief(), h);
        ctx.count("not_switched_with_patterns", 1);
    }
    Ok(())
}

fn random(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    let o = gen::TreeOpts { width: 6, ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    // Decoys: all of these belong into a snapshot.
    let decoys = [".snapcd2", ".snapcd.bak", ".snap", "snapcd", ".SNAPCD", "store2", "x.db2", "snapcd.db"];
    for d in &decoys {
        if rng.chance(1, 3) {
            let mut n = Node::empty();
            n.set("snapcd.db", Some(Node::File(b"decoy".to_vec())));
            t.set(d, Some(if rng.chance(1, 2) { n } else { Node::File(b"decoy file".to_vec()) }));
        }
    }
    let mut w = World {
        files: t.clone(),
        db: vec![],
    };
    write_tree(&r.root.join("x"), &Node::empty(), None)?;
    std::fs::remove_dir(r.root.join("x"))?;
    sync_tree(&r.root, &t, &[])?;
    // Where the database is: its path as given, and where its folder and so the repository are.
    // SQLite takes no paths above some 500 bytes.
    let dirs: Vec<String> = t.paths().into_iter().filter(|p| p.1 && p.0.len() < 300).map(|p| p.0).collect();
    let place = rng.below(7);
    // (argument, folder relative to root if inside)
    let mut repo_at = String::new();
    let mut walked_repo = r.root.clone();
    let (arg, inside): (Option<OsString>, Option<String>) = match place {
        0 | 1 => (None, Some(".snapcd".into())),
        2 => (Some("x.db".into()), Some("x.db".into())),
        3 if !dirs.is_empty() => {
            let d = rng.pick(&dirs).clone();
            repo_at = d.clone();
            walked_repo = r.root.join(&d);
            let p = format!("{}/.st", d);
            (Some(r.root.join(&p).into_os_string()), Some(p))
        }
        4 => (Some(r.top.join("outside/.snapcd").into_os_string()), None),
        5 => {
            // A link to a folder in the tree.
            std::fs::create_dir(r.root.join("store"))?;
            std::os::unix::fs::symlink("store", r.root.join(".snapcd"))?;
            w.db.push("store".into());
            ctx.count("db_linked", 1);
            (None, Some(".snapcd".into()))
        }
        _ => {
            std::fs::create_dir_all(r.top.join("far/store"))?;
            std::os::unix::fs::symlink("../far/store", r.root.join(".snapcd"))?;
            ctx.count("db_linked", 1);
            (None, Some(".snapcd".into()))
        }
    };
    match place {
        2 | 4 => ctx.count("db_elsewhere", 1),
        3 if arg.is_some() => ctx.count("db_deep", 1),
        _ => {}
    }
    w.files.dir_mut().remove("store");
    if let Some(i) = &inside {
        w.db.push(i.clone());
        w.files.set(i, None);
        if place == 5 {
            w.files.dir_mut().remove(".snapcd");
        }
    }
    if place == 4 {
        std::fs::create_dir(r.top.join("outside"))?;
        repo_at = "-".into();
    }
    let mut ia: Vec<OsString> = vec![];
    if let Some(a) = &arg {
        ia.push("-d".into());
        ia.push(a.clone());
    }
    ia.push("init".into());
    r.must(&ia)?;
    let dbdir = match &inside {
        Some(i) => r.root.join(i),
        None => r.top.join("outside/.snapcd"),
    };
    ensure!(dbdir.join("snapcd.db").exists(), "init-elsewhere", "init with -d {:?} does not create {}", arg, dbdir.display());
    // Links to the database and into it, and links to files.
    for k in 0..rng.below(3) {
        let n = format!("link{}", k);
        let (to, isdb) = match rng.below(4) {
            0 => (dbdir.clone(), true),
            1 => (dbdir.join("snapcd.db"), true),
            _ => {
                let f = r.top.join(format!("target{}", k));
                std::fs::write(&f, format!("linked {}", k))?;
                (f, false)
            }
        };
        std::os::unix::fs::symlink(&to, r.root.join(&n))?;
        if isdb {
            w.db.push(n);
            ctx.count("links_to_db", 1);
        } else {
            w.files.set(&n, Some(Node::File(format!("linked {}", k).into_bytes())));
            ctx.count("files_linked", 1);
        }
    }
    // Nested folders named like the database are user data; commands are not run below them.
    let mut bases: Vec<PathBuf> = vec![r.root.clone()];
    if rng.chance(1, 3) {
        let mut n = Node::empty();
        n.set("snapcd.db", Some(Node::File(b"not a database".to_vec())));
        n.set("in", Some(Node::empty()));
        let mut m = Node::empty();
        m.set(".snapcd", Some(n.clone()));
        m.set("x.db", Some(n));
        write_tree(&r.root.join("nested"), &m, None).or_else(|_| {
            std::fs::remove_dir_all(r.root.join("nested"))?;
            write_tree(&r.root.join("nested"), &m, None)
        })?;
        w.files.set("nested", Some(m));
        ctx.count("decoys_kept", 1);
    }
    for _ in 0..2 {
        bases.push(any_dir(rng, &r.root, &t));
    }
    // For the databases found by name, commands run below the repository; for the absolute ones, anywhere.
    if arg.as_ref().map_or(false, |a| Path::new(a).is_absolute()) {
        bases.push(r.top.clone());
    }
    let load = || -> Res<Db> {
        match Db::load(&dbdir.join("snapcd.db")) {
            Ok(d) => Ok(d),
            Err(e) => crate::viol!("database-unreadable", "{}", e),
        }
    };

    for round in 0..rng.range(1, 3) {
        let cwd = rng.pick(&bases).clone();
        if !cwd.is_dir() {
            continue;
        }
        // Which part, and how it is named.
        let default = place != 4 && rng.chance(1, 2);
        let (path_arg, at, walked): (Option<String>, String, String) = if default {
            (None, repo_at.clone(), walked_repo.to_str().unwrap().into())
        } else {
            let other = any_dir(rng, &r.root, &t);
            let target = rng.pick(&[r.root.clone(), other, cwd.clone()]).clone();
            let at = match target.strip_prefix(&r.root) {
                Ok(a) => a.to_str().unwrap().to_string(),
                Err(_) => String::new(),
            };
            let target = r.root.join(&at);
            // The database and what lies in the nested folders stay out of this.
            if !matches!(w.files.get(&at), Some(Node::Dir(_))) || w.db.iter().any(|d| at == *d || at.starts_with(&format!("{}/", d))) {
                continue;
            }
            if rng.chance(1, 3) {
                let s = target.to_str().unwrap().trim_end_matches('/').to_string();
                (Some(s.clone()), at, s)
            } else {
                ctx.count("relative_paths", 1);
                let rel = relative(&cwd, &target).to_str().unwrap().to_string();
                if rel == "." {
                    (Some(if rng.chance(1, 2) { ".".into() } else { "./".into() }), at, String::new())
                } else {
                    match rng.below(3) {
                        0 => (Some(format!("{}/", rel)), at, rel),
                        1 => (Some(format!("./{}", rel)), at, rel),
                        _ => (Some(rel.clone()), at, rel),
                    }
                }
            }
        };
        if default && !matches!(w.files.get(&at), Some(Node::Dir(_))) {
            crate::inconclusive!("the repository's folder is gone");
        }
        let ws = all_walked(&w, &at, &walked);
        let pats: Vec<Vec<G>> = (0..rng.below(4)).map(|_| pattern(rng, &ws)).collect();
        let strs: Vec<String> = pats.iter().map(|g| show(g, rng)).collect();
        let l = left(&w, &at, &walked, &pats);
        let what = format!("with patterns {:?}, database {}, path {:?} from {}", strs, dbdir.display(), path_arg, cwd.display());

        // insert
        let target = path_arg.clone().unwrap_or_else(|| walked.clone());
        let dashed = target.starts_with('-');
        let o1 = if dashed {
            r.must_in(&cwd, &args(&strs, &arg, rng, &["insert", "--", &target]))?
        } else {
            r.must_in(&cwd, &args(&strs, &arg, rng, &["insert", &target]))?
        };
        let ik = parse_key(&inserted_key(&o1)?)?;
        compare_stored(&format!("insert {}", what), &load()?, &ik, &l)?;

        // commit
        let opt = path_arg.as_ref().map(|p| format!("--path={}", p));
        let mut c: Vec<&str> = vec!["commit", "-m", "m"];
        if let Some(p) = &opt {
            c.push(p);
        }
        r.must_in(&cwd, &args(&strs, &arg, rng, &c))?;
        let db = load()?;
        let k = match db.tip("master").map(|k| model::from_dbkey(k)) {
            Some(Ok(k)) => k,
            _ => crate::viol!("commit-not-recorded", "commit {}: no key recorded", what),
        };
        let cm = match model::commit(&db.data, &k) {
            Ok(c) => c,
            Err(e) => crate::viol!("commit-not-stored", "{}", e),
        };
        compare_stored(&format!("commit {}", what), &db, &cm.tree, &l)?;
        ctx.count("snapshots", 2);
        ctx.count("paths_excluded", l.out as u64);
        ctx.count("directories_excluded", l.dirs_out as u64);
        ctx.count("paths_kept", l.kept as u64);
        let fp = fnv(format!("{:?} {}", l.what, l.node.fingerprint()).as_bytes());
        ctx.eval(if l.out > 0 && l.kept > 0 { Some(fp) } else { None });

        // compare with the same patterns: nothing; then after edits.
        let tk = model::user_key(&cm.tree);
        let mut cc: Vec<&str> = vec!["compare"];
        if let Some(p) = &opt {
            cc.push(p);
        }
        if rng.chance(1, 2) {
            cc.push(&tk);
        }
        let o = r.must_in(&cwd, &args(&strs, &arg, rng, &cc))?;
        check_listing(&format!("compare {}", what), &o, &Listing::default(), false)?;
        if default {
            let o = r.must_in(&cwd, &args(&strs, &arg, rng, &["status"]))?;
            check_listing(&format!("status {}", what), &o, &Listing::default(), true)?;
            ctx.count("status_with_patterns", 1);
            switch(ctx, &r, &cwd, &args(&strs, &arg, rng, &["checkout-head", "elsewhere"]), &args(&[], &arg, rng, &["debug", "set-head", "master"]), &dbdir, true, &what)?;
        }
        let mut u = w.files.get(&at).unwrap().clone();
        let before = u.clone();
        for _ in 0..rng.range(1, 4) {
            gen::edit(rng, &mut u, &o_text());
        }
        // Links stay what they are, and what stands for the database is not made a file.
        let fixed: Vec<String> = (0..3)
            .map(|k| format!("link{}", k))
            .chain(vec!["nested".to_string()])
            .chain(w.db.iter().map(|d| d.rsplit('/').next().unwrap().to_string()))
            .collect();
        for f in &fixed {
            match before.dir().get(f) {
                Some(n) => {
                    u.set(f, Some(n.clone()));
                }
                None => {
                    u.dir_mut().remove(f);
                }
            }
        }
        // A path on the way to the database stays a directory.
        let keeps = |d: &String| -> bool {
            let rel = if at.is_empty() {
                d.clone()
            } else if d.starts_with(&format!("{}/", at)) {
                d[at.len() + 1..].to_string()
            } else {
                return true;
            };
            match rel.rfind('/') {
                Some(i) => matches!(u.get(&rel[..i]), Some(Node::Dir(_))),
                None => true,
            }
        };
        if w.db.iter().all(keeps) && deep_keep(&w, &at, &u) {
            let mut v = w.clone();
            if at.is_empty() {
                v.files = u.clone();
            } else {
                v.files.set(&at, Some(u.clone()));
            }
            sync_world(&r.root, &v)?;
            if cwd.is_dir() {
                let lv = left(&v, &at, &walked, &pats);
                let d = differences(Some(&l.node), &lv.node);
                let o = r.must_in(&cwd, &args(&strs, &arg, rng, &cc))?;
                check_listing(&format!("compare {}", what), &o, &d, false)?;
                if default {
                    let o = r.must_in(&cwd, &args(&strs, &arg, rng, &["status"]))?;
                    check_listing(&format!("status {}", what), &o, &d, true)?;
                    switch(ctx, &r, &cwd, &args(&strs, &arg, rng, &["checkout-head", "elsewhere"]), &args(&[], &arg, rng, &["debug", "set-head", "master"]), &dbdir, d.is_empty(), &what)?;
                }
                ctx.count("compares_with_patterns", 1);
                let all = left(&v, &at, &walked, &[]);
                let d2 = differences(Some(&l.node), &all.node);
                let o = r.must_in(&cwd, &args(&[], &arg, rng, &cc))?;
                check_listing(&format!("compare without the patterns, {}", what), &o, &d2, false)?;
                ctx.count("compares_without_patterns", 1);
                ctx.eval(Some(fnv(format!("{:?}{:?}", d, d2).as_bytes())));
            }
            w = v;
            t = u_dirs(&w);
        }
        ctx.sample_in("random", json!({ "case": case, "round": round, "patterns": strs, "path": path_arg, "database": dbdir.display().to_string(), "left_out": l.what }));
    }
    Ok(())
}

fn o_text() -> gen::TreeOpts {
    gen::TreeOpts::small()
}

/// Directories to stand in: not the nested ones, in which another database would be found.
fn u_dirs(w: &World) -> Node {
    let mut t = w.files.clone();
    t.dir_mut().remove("nested");
    t
}

/// No edit put something where the database is.
fn deep_keep(w: &World, at: &str, u: &Node) -> bool {
    w.db.iter().all(|d| {
        let rel = if at.is_empty() {
            d.as_str()
        } else if d.starts_with(&format!("{}/", at)) {
            &d[at.len() + 1..]
        } else {
            return true;
        };
        u.get(rel).is_none()
    })
}

/// Makes the files of the world be as they should, leaving links and the database alone.
fn sync_world(root: &Path, w: &World) -> Res {
    fn go(p: &Path, at: &str, n: &Node, w: &World) -> Res {
        let d = match n {
            Node::Dir(d) => d,
            Node::File(_) => return Ok(sync_tree(p, n, &[])?),
        };
        let join = |k: &str| if at.is_empty() { k.to_string() } else { format!("{}/{}", at, k) };
        let below = |a: &str| w.db.iter().any(|x| x.starts_with(&format!("{}/", a)));
        match std::fs::symlink_metadata(p) {
            Ok(m) if m.is_dir() => {}
            Ok(_) => {
                std::fs::remove_file(p)?;
                std::fs::create_dir(p)?;
            }
            Err(_) => std::fs::create_dir(p)?,
        }
        for e in std::fs::read_dir(p)? {
            let e = e?;
            let k = e.file_name().to_string_lossy().to_string();
            let a = join(&k);
            if w.db.contains(&a) || d.contains_key(&k) {
                continue;
            }
            if below(&a) {
                crate::inconclusive!("the database would be removed");
            }
            if e.file_type()?.is_dir() {
                std::fs::remove_dir_all(e.path())?;
            } else {
                std::fs::remove_file(e.path())?;
            }
        }
        for (k, v) in d {
            let q = p.join(k);
            if at.is_empty() && k.starts_with("link") && q.is_symlink() {
                continue;
            }
            go(&q, &join(k), v, w)?;
        }
        Ok(())
    }
    go(root, "", &w.files, w)
}

fn compare_stored(what: &str, db: &Db, k: &model::Key, l: &Left) -> Res {
    let got = match model::tree(&db.data, k) {
        Ok(g) => g,
        Err(e) => crate::viol!("stored-tree-incomplete", "{}: {}", what, e),
    };
    if let Some(d) = tree_diff(&l.node, &got, "") {
        let sig = if d.ends_with("is extra") {
            "excluded-path-archived"
        } else if d.ends_with("is missing") {
            "path-left-out"
        } else {
            "stored-tree-differs"
        };
        crate::viol!(sig, "{}: {}", what, d);
    }
    Ok(())
}

/// A pattern that makes no sense makes the command fail, and leaves no commit.
fn invalid(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let t = gen::tree(rng, &gen::TreeOpts::small());
    crate::scen::put_root(&r, &t)?;
    let before = r.db()?;
    let p = *rng.pick(&["[", "[a", "{a", "{a,b", "[z-a]", "{{a}"]);
    for c in &[&["commit", "-m", "m"][..], &["insert", "."][..]] {
        let o = r.run(&args(&[p.to_string()], &None, rng, c))?;
        ensure!(!o.ok(), "invalid-pattern-ignored", "{:?} with the pattern {:?}: {}", c, p, o.brief());
    }
    if let Some(d) = before.diff(&r.db()?) {
        crate::viol!("failed-command-changed-repository", "{}", d);
    }
    ctx.count("invalid_patterns", 1);
    ctx.eval(None);
    Ok(())
}
