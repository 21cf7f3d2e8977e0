//! C22: existing repositories stay readable, and their keys stay valid.

use crate::cli::{inserted_key, Db, Repo};
use crate::ensure;
use crate::gen;
use crate::model::{self, Key};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, check_listing, Listing};
use crate::util::{fnv, hex, read_tree, sync_tree, write_tree, Node};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "(a) Repositories kept in /verif/golden, written by the original build and by the repaired one, are opened by the current build: every ref and its log, HEAD, every commit, every tree, every \
file must be what was recorded when they were written; storing the old content again adds nothing, its keys are the old ones, status reports nothing, and new commits go on top. (b) Random \
content, trees and commits are stored, and every row of the database must be, byte for byte, the object that an independent implementation of the format computes, under its key, and nothing \
else. Non-trivial: a stored object of more than trivial content, distinct by key.",
    assumptions: &["the recorded repositories stand for those of earlier builds; repositories of builds that are still older are not available"],
    needed: &["golden_repositories", "golden_commits_read", "golden_trees_fetched", "golden_files_fetched", "golden_refs", "golden_files_stored_again", "objects_predicted", "commits_predicted", "large_files", "golden_extended"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    if let Some(out) = std::env::var_os("VMON_GOLDEN_OUT") {
        if let Err(e) = write(ctx, &PathBuf::from(out)) {
            ctx.note_fail("write", 0, e);
        }
        return;
    }
    ctx.cases("golden", ctx.n(40, 200), |rng, i| golden(ctx, rng, i));
    ctx.cases("format", ctx.n(4000, 30000), |rng, i| format_of(ctx, rng, i));
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

// ---------------------------------------------------------------------------------------------
// What is kept of a tree: its directories, and size and hash of its files.

fn outline(n: &Node) -> BTreeMap<String, Option<(u64, String)>> {
    let mut m = BTreeMap::new();
    for (p, dir) in n.paths() {
        let v = match n.get(&p) {
            Some(Node::File(b)) if !dir => Some((b.len() as u64, hex(&model::hash(b)))),
            _ => None,
        };
        m.insert(p, v);
    }
    m
}

fn outline_json(o: &BTreeMap<String, Option<(u64, String)>>) -> Value {
    Value::Array(
        o.iter()
            .map(|(p, v)| match v {
                None => json!([p]),
                Some((n, h)) => json!([p, n, h]),
            })
            .collect(),
    )
}

fn outline_of(v: &Value) -> BTreeMap<String, Option<(u64, String)>> {
    let mut m = BTreeMap::new();
    for e in v.as_array().into_iter().flatten() {
        let p = e[0].as_str().unwrap_or("").to_string();
        let w = e[1].as_u64().map(|n| (n, e[2].as_str().unwrap_or("").to_string()));
        m.insert(p, w);
    }
    m
}

// ---------------------------------------------------------------------------------------------

/// Writes a repository and what is in it. Run once per recorded build, see DESIGN.md.
fn write(ctx: &Ctx, out: &Path) -> Res {
    let mut rng = Rng::derive(ctx.seed, &[b"golden"], 0);
    let rng = &mut rng;
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { width: 6, ..gen::TreeOpts::small() };
    let mut t = Node::empty();
    for n in ["empty", "text", "a b", "ünïcode", "日本語", "quote\"q", "back\\slash", "-dash", "...", "tab\there"] {
        t.set(n, Some(gen::file(rng, &o)));
    }
    t.set("empty", Some(Node::File(vec![])));
    t.set("empty dir", Some(Node::empty()));
    t.set("dir", Some(gen::tree(rng, &o)));
    t.set("dir/deep", Some(Node::empty()));
    t.set("dir/deep/er", Some(Node::empty()));
    t.set("dir/deep/er/file", Some(Node::File(b"deep\n".to_vec())));
    for n in [32767, 32768, 32769, 65535, 65536, 65537] {
        t.set(&format!("size {}", n), Some(Node::File(vec![b'x'; n])));
    }
    let b = rng.bytes(230_000);
    t.set("large", Some(Node::File(b)));
    t.set("scripted", Some(Node::File(gen::content_of(rng, gen::Kind::Scripted, 12))));
    let mut made = vec![];
    let mut msgs: Vec<(String, Option<&str>)> = vec![
        ("first".into(), None),
        ("second\nwith two lines\n".into(), None),
        ("æøå 日本".into(), None),
        ("".into(), Some("side")),
        ("on a branch".into(), Some("a/b c")),
        ("again on side".into(), Some("side")),
    ];
    for i in 0..4 {
        msgs.push((format!("more {}", i), None));
    }
    for (msg, name) in &msgs {
        made.push(scen::commit(&r, &t, msg, *name)?);
        for _ in 0..3 {
            gen::edit(rng, &mut t, &gen::TreeOpts { plain_names: true, ..gen::TreeOpts::small() });
        }
        if let Some(Node::File(b)) = t.get_mut("large") {
            b.extend_from_slice(b"appended");
            let i = rng.below(b.len());
            b[i] ^= 1;
        }
        t.dir_mut().remove(".snapcd");
    }
    // A merge, refs that were moved, remotes, HEAD elsewhere.
    let (a, b) = (&made[2], &made[5]);
    let k = |k: &Key| model::user_key(k);
    // (The original build does not take every full key, but shorter ones.)
    let try_all = |args: &[&str]| -> Res<String> {
        for n in [53, 50, 40, 30, 20, 12] {
            let a: Vec<&str> = args.iter().map(|x| if x.len() == 53 { &x[..n] } else { *x }).collect();
            let o = r.run(&a)?;
            if o.ok() && !o.text().contains("fatal") {
                return Ok(o.text().trim().to_string());
            }
        }
        crate::inconclusive!("cannot run {:?}", args)
    };
    let m = try_all(&["debug", "commit-tree", &k(&b.tree), &k(&a.key), &k(&b.key)])?;
    try_all(&["ref", "update", &m, "merged"])?;
    for i in [0, 3, 0] {
        try_all(&["ref", "update", &k(&made[i].key), "moved"])?;
    }
    try_all(&["debug", "reflog-push", &k(&made[1].key), "master", "origin"])?;
    try_all(&["debug", "reflog-push", &k(&made[4].key), "side", "up stream"])?;
    r.must(&["debug", "set-head", "side"])?;
    let db = r.db()?;
    let mut refs: Vec<Value> = vec![];
    let mut names: Vec<(String, Option<String>)> = db.reflog.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
    names.sort();
    names.dedup();
    for (n, rem) in &names {
        let log: Vec<String> = db.reflog.iter().rev().filter(|x| x.1 == *n && x.2 == *rem).map(|x| model::user_key_db(&x.3)).collect();
        refs.push(json!({ "name": n, "remote": rem, "log": log }));
    }
    let mut commits = vec![];
    let mut trees: BTreeMap<String, Value> = BTreeMap::new();
    for m in &made {
        trees.insert(k(&m.tree), outline_json(&outline(&m.node)));
    }
    for (dk, v) in &db.data {
        let ob = model::decode_obj(v).expect("object");
        if ob.typ == "Commit" {
            let c = model::decode_commit(&ob).expect("commit");
            let parents: Vec<String> = c.parents.iter().map(|p| k(p)).collect();
            commits.push(json!({ "key": model::user_key_db(dk), "tree": k(&c.tree), "parents": parents, "message": c.message }));
        }
    }
    let rows: Vec<Value> = db.data.iter().map(|(dk, v)| json!([model::user_key_db(dk), v.len(), hex(&model::hash(v))])).collect();
    std::fs::create_dir_all(out)?;
    // One file, nothing beside it.
    drop(db);
    std::fs::copy(r.dbfile(), out.join("snapcd.db"))?;
    let e = json!({ "head": "side", "refs": refs, "commits": commits, "trees": trees, "objects": rows });
    std::fs::write(out.join("expected.json"), serde_json::to_string(&e).expect("json"))?;
    Ok(())
}

fn fetched(r: &Repo<'_>, key: &str, what: &str) -> Res<Node> {
    let d = r.top.join("fetched");
    let _ = std::fs::remove_dir_all(&d);
    let _ = std::fs::remove_file(&d);
    let o = r.run(&["fetch", key, d.to_str().unwrap()])?;
    ensure!(o.ok(), "old-content-unreadable", "{}: {} cannot be fetched: {}", what, key, o.brief());
    match read_tree(&d)? {
        Ok(n) => Ok(n),
        Err(e) => crate::viol!("old-content-changed", "{}: {}", what, e),
    }
}

fn golden(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let which = ["original", "repaired"][(case % 2) as usize];
    let dir = ctx.verif.join("golden").join(which);
    let e: Value = match serde_json::from_slice(&std::fs::read(dir.join("expected.json"))?) {
        Ok(v) => v,
        Err(e) => crate::inconclusive!("expected.json: {}", e),
    };
    let r = Repo::bare(ctx)?;
    std::fs::create_dir(r.root.join(".snapcd"))?;
    std::fs::copy(dir.join("snapcd.db"), r.dbfile())?;
    let what = format!("the repository written by the {} build", which);
    let text = |v: &Value| v.as_str().unwrap_or("").to_string();
    let before = r.db()?;

    // HEAD and refs.
    let g = r.must(&["debug", "get-head"])?;
    ensure!(g.text().trim_end() == format!("head: {:?}", Some(text(&e["head"]))), "old-head-changed", "{}: {:?}", what, g.text());
    for f in e["refs"].as_array().into_iter().flatten() {
        let name = text(&f["name"]);
        let mut a = strs(&["ref", "log", "--", &name]);
        let mut b = strs(&["debug", "reflog-get", "--", &name]);
        if let Some(x) = f["remote"].as_str() {
            a.push(x.into());
            b.push(x.into());
        }
        let log: Vec<String> = f["log"].as_array().into_iter().flatten().map(text).collect();
        let o = r.must(&a)?;
        match super::c08::parse_ref_log(&o) {
            Ok(got) => ensure!(got.iter().map(|k| k.1.clone()).collect::<Vec<_>>() == log, "old-ref-changed", "{}: {:?} prints {:?}", what, a, o.text()),
            Err(x) => crate::viol!("old-ref-changed", "{}: {:?}: {}", what, a, x),
        }
        let o = r.must(&b)?;
        ensure!(o.text().trim_end() == log[0], "old-ref-changed", "{}: {:?} prints {:?}", what, b, o.text());
        // By its name as an id.
        let id = format!("{}/{}", f["remote"].as_str().unwrap_or(""), name);
        if !name.contains('/') {
            let p = r.must(&["debug", "pretty-print", &id])?;
            let q = r.must(&["debug", "pretty-print", &log[0]])?;
            ensure!(p.stdout == q.stdout, "old-ref-changed", "{}: {:?} is not {}", what, id, log[0]);
        }
        ctx.count("golden_refs", 1);
        ctx.eval(None);
    }

    // Commits: log from each gives the messages along the first parents.
    let commits: HashMap<String, Value> = e["commits"].as_array().into_iter().flatten().map(|c| (text(&c["key"]), c.clone())).collect();
    for (k, _) in &commits {
        let o = r.must(&["log", k])?;
        let mut chain = vec![];
        let mut at = Some(k.clone());
        while let Some(c) = at {
            at = commits[&c]["parents"].as_array().and_then(|p| p.first()).map(text);
            chain.push(c);
        }
        let got: Vec<String> = o.text().lines().filter_map(|l| l.strip_prefix("commit: ").map(|x| x.to_string())).collect();
        ensure!(got == chain, "old-log-changed", "{}: log {} lists {:?} instead of {:?}", what, k, got, chain);
        let mut rest = o.text();
        for c in &chain {
            let m = text(&commits[c]["message"]);
            match rest.find(&format!("commit: {}", c)).and_then(|i| rest[i..].find(&m).map(|j| i + j)) {
                Some(i) => rest = rest[i..].to_string(),
                None => crate::viol!("old-log-changed", "{}: log {} does not give the message {:?} of {}", what, k, m, c),
            }
        }
        ctx.count("golden_commits_read", 1);
        ctx.eval(Some(fnv(k.as_bytes())));
    }

    // Trees and what is in them.
    let mut nodes: Vec<(String, Node)> = vec![];
    for (k, v) in e["trees"].as_object().into_iter().flatten() {
        let n = fetched(&r, k, &what)?;
        let (exp, got) = (outline_of(v), outline(&n));
        if exp != got {
            let d = exp.iter().find(|(p, v)| got.get(*p) != Some(*v)).map(|x| x.0).or_else(|| got.keys().find(|p| !exp.contains_key(*p)));
            crate::viol!("old-content-changed", "{}: the tree {} differs in {:?}", what, k, d);
        }
        let w = r.must(&["debug", "walk-tree", k])?;
        ensure!(w.text().lines().count() == exp.len(), "old-content-changed", "{}: walk-tree {} prints {} lines for {} paths", what, k, w.text().lines().count(), exp.len());
        ctx.count("golden_trees_fetched", 1);
        ctx.eval(Some(fnv(k.as_bytes())));
        nodes.push((k.clone(), n));
    }
    // The same objects are still the same.
    if let Some(d) = before.diff(&r.db()?) {
        crate::viol!("old-repository-changed", "{}: reading changes it: {}", what, d);
    }

    // Storing the old content again gives the old keys, and adds nothing.
    let (tk, n) = rng.pick(&nodes).clone();
    sync_tree(&r.root, &n, &[".snapcd"])?;
    let mut files: Vec<String> = n.paths().into_iter().filter(|p| !p.1 && !p.0.starts_with('-')).map(|p| p.0).collect();
    rng.shuffle(&mut files);
    files.truncate(12);
    files.extend(["large", "scripted"].iter().filter(|p| matches!(n.get(p), Some(Node::File(_)))).map(|x| x.to_string()));
    for f in &files {
        let k = inserted_key(&r.must(&["insert", f])?)?;
        let again = fetched(&r, &k, &what)?;
        ensure!(Some(&again) == n.get(f), "old-content-changed", "{}: {:?}", what, f);
        ctx.count("golden_files_stored_again", 1);
        ctx.count("golden_files_fetched", 1);
    }
    if let Some(d) = before.diff(&r.db()?) {
        crate::viol!("old-content-stored-again", "{}: storing content of {} again: {}", what, tk, d);
    }
    let o = r.must(&["compare", &tk])?;
    check_listing("compare with an old tree", &o, &Listing::default(), false)?;
    // The original build listed directories in the order of the file system, so theirs may have other keys.
    let ik = inserted_key(&r.must(&["insert", "."])?)?;
    if which == "repaired" {
        ensure!(ik == tk, "old-key-changed", "{}: the tree {} gets the key {}", what, tk, ik);
        if let Some(d) = before.diff(&r.db()?) {
            crate::viol!("old-content-stored-again", "{}: {}", what, d);
        }
    }
    // And on it goes.
    let mut t = n.clone();
    t.set("a new file", Some(Node::File(format!("{}", rng.next()).into_bytes())));
    let m = scen::commit(&r, &t, "continued", None)?;
    let db = r.db()?;
    let c = match model::commit(&db.data, &m.key) {
        Ok(c) => c,
        Err(x) => crate::viol!("commit-not-stored", "{}", x),
    };
    let tip = before.tip(&text(&e["head"])).and_then(|k| model::from_dbkey(k).ok());
    ensure!(c.parents.len() == 1 && Some(c.parents[0]) == tip, "old-history-cut", "{}: the new commit has the parents {:?}", what, c.parents);
    let o = r.must(&["status"])?;
    check_listing("status", &o, &Listing::default(), true)?;
    for (k, v) in &before.data {
        ensure!(db.data.get(k) == Some(v), "old-repository-changed", "{}: {} is gone or changed", what, model::user_key_db(k));
    }
    ctx.count("golden_extended", 1);
    ctx.count("golden_repositories", 1);
    ctx.sample_in("golden", json!({ "case": case, "repository": which, "objects": before.data.len() }));
    Ok(())
}

/// Every row there is, predicted.
fn format_of(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { max_blocks: 3, ..gen::TreeOpts::small() };
    let mut want: HashMap<Key, Vec<u8>> = HashMap::new();
    let mut parents: HashMap<String, Key> = HashMap::new();
    let mut log: Vec<(String, Key)> = vec![];
    for _ in 0..rng.range(1, 3) {
        match rng.below(3) {
            0 => {
                // A file or tree inserted.
                let n = if rng.chance(1, 2) { Node::File(gen::content(rng, 12).0) } else { gen::tree(rng, &o) };
                let p = r.top.join("new");
                let _ = std::fs::remove_dir_all(&p);
                let _ = std::fs::remove_file(&p);
                write_tree(&p, &n, Some(rng))?;
                let k = r.insert(&p)?;
                let (mk, m) = model::collect(|s| model::store_tree(&n, s));
                ensure!(k == model::user_key(&mk), "key-changed", "the key of given content is {} and should be {}: {}", k, model::user_key(&mk), n.describe());
                if let Node::File(b) = &n {
                    if b.len() > 1 << 16 {
                        ctx.count("large_files", 1);
                    }
                }
                want.extend(m);
            }
            _ => {
                let mut t = gen::tree(rng, &o);
                t.dir_mut().remove(".snapcd");
                scen::put_root(&r, &t)?;
                let name = *rng.pick(&["master", "x", "a b"]);
                let msg = gen::message(rng);
                r.commit(&msg, Some(name))?;
                let (tk, m) = model::collect(|s| model::store_tree(&t, s));
                want.extend(m);
                let mut keys = vec![tk];
                keys.extend(parents.get(name).copied());
                let b = model::encode_obj(&model::Obj { typ: "Commit".into(), data: model::commit_data(&msg), keys });
                let ck = model::hash(&b);
                want.insert(ck, b);
                parents.insert(name.to_string(), ck);
                log.push((name.to_string(), ck));
                ctx.count("commits_predicted", 1);
            }
        }
    }
    let db = r.db()?;
    same_rows(&db, &want)?;
    let got: Vec<(String, Vec<u8>)> = db.reflog.iter().map(|x| (x.1.clone(), x.3.clone())).collect();
    let exp: Vec<(String, Vec<u8>)> = log.iter().map(|(n, k)| (n.clone(), model::dbkey(k))).collect();
    ensure!(got == exp && db.reflog.iter().all(|x| x.2.is_none()), "log-format-changed", "the records of refs are {:?}", got);
    for k in want.keys() {
        ctx.count("objects_predicted", 1);
        ctx.eval(if want[k].len() > 60 { Some(fnv(k)) } else { None });
    }
    if case < 2 {
        ctx.sample_in("format", json!({ "case": case, "objects": want.len() }));
    }
    Ok(())
}

fn same_rows(db: &Db, want: &HashMap<Key, Vec<u8>>) -> Res {
    for (k, v) in want {
        match db.data.get(&model::dbkey(k)) {
            Some(w) if w == v => {}
            Some(w) => crate::viol!("object-format-changed", "{} is stored as {} bytes that are not the {} expected", model::user_key(k), w.len(), v.len()),
            None => crate::viol!("object-format-changed", "{} is expected and not stored", model::user_key(k)),
        }
    }
    for k in db.data.keys() {
        ensure!(model::from_dbkey(k).map_or(false, |k| want.contains_key(&k)), "object-format-changed", "{} is stored and not expected", model::user_key_db(k));
    }
    Ok(())
}
