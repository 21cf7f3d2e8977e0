//! C18: damaged or missing objects never yield wrong data.

use crate::cli::{Db, Repo};
use crate::ensure;
use crate::gen;
use crate::model::{self, Key};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::util::{fnv, read_tree, sync_tree, tree_diff, Node};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

pub const META: Meta = Meta {
    level: "fault_enumeration",
    rule: "Repositories with a history of commits, among them files of several chunks, are damaged one object at a time: bits flipped (through SQLite and in the file itself), bytes cut off or \
added, emptied, zeroed, removed, swapped with another object of the same or another type, replaced by another object or by a differently encoded one of the same meaning. Every reading \
command then either fails or prints and writes exactly what it did before; a fetch, walk or print of anything that reaches the damaged object must fail, and of anything that does not must \
succeed. Non-trivial: a damage that at least one command depends on, distinct by damage and object.",
    assumptions: &["BLAKE3 is collision resistant", "damage to refs and HEAD, which are not objects, is not covered"],
    needed: &[
        "damages", "failed_on_damage", "unaffected", "damaged_FileBlob", "damaged_FileBlobTree", "damaged_FSItemDir", "damaged_FSItemFile", "damaged_Commit", "by_flip", "by_truncation",
        "by_removal", "by_swap", "by_replacement", "by_reencoding", "by_flip_in_file", "fetches", "logs", "shows", "compares",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("random", ctx.n(105, 900), |rng, i| random(ctx, rng, i));
}

fn reach(db: &Db, k: &Key, items_only: bool, into: &mut HashSet<Key>) {
    if !into.insert(*k) {
        return;
    }
    if let Ok(o) = model::get(&db.data, k) {
        if items_only && o.typ == "FSItemFile" {
            return;
        }
        for c in &o.keys {
            reach(db, c, items_only, into);
        }
    }
}

struct Cmd {
    args: Vec<String>,
    /// Objects without which it cannot succeed.
    need: HashSet<Key>,
    /// Every object it may look at, if that is certain.
    may: Option<HashSet<Key>>,
    dest: Option<Node>,
    base: Vec<u8>,
    kind: &'static str,
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

fn sorted(b: &[u8]) -> Vec<u8> {
    let mut l: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    l.sort();
    l.join(&b'\n')
}

fn damage(rng: &mut Rng, db: &Db, k: &Key) -> (BTreeMap<Vec<u8>, Option<Vec<u8>>>, &'static str, String) {
    let dk = model::dbkey(k);
    let v = db.data[&dk].clone();
    let o = model::get(&db.data, k).expect("object");
    let mut m = BTreeMap::new();
    let other = |rng: &mut Rng, same_type: bool| -> Option<(Vec<u8>, Vec<u8>)> {
        let c: Vec<(&Vec<u8>, &Vec<u8>)> = db
            .data
            .iter()
            .filter(|(x, b)| **x != dk && (!same_type || model::decode_obj(b).map(|y| y.typ == o.typ).unwrap_or(false)))
            .collect();
        if c.is_empty() {
            None
        } else {
            let x = rng.pick(&c);
            Some((x.0.clone(), x.1.clone()))
        }
    };
    let mut w = v.clone();
    let (what, detail) = match rng.below(14) {
        0 | 1 => {
            // Where the content is: the last byte of the data or somewhere within it.
            let i = match rng.below(4) {
                0 => w.len() - 1,
                1 => 0,
                _ => rng.below(w.len()),
            };
            let bit = rng.below(8);
            w[i] ^= 1 << bit;
            ("by_flip", format!("bit {} of byte {} of {}", bit, i, w.len()))
        }
        2 if o.data.len() > 3 => {
            // A byte of the data, exactly.
            let at = w.windows(o.data.len()).position(|x| x == &o.data[..]);
            let i = at.unwrap_or(0) + rng.below(o.data.len());
            w[i] = w[i].wrapping_add(1);
            ("by_flip", format!("data byte {}", i))
        }
        3 => {
            let n = *rng.pick(&[0, 1, w.len() / 2, w.len() - 1, w.len() - 1, w.len() - 1]);
            w.truncate(n);
            ("by_truncation", format!("{} of {} bytes", n, v.len()))
        }
        4 => {
            let n = rng.range(1, 9);
            let t = rng.bytes(n);
            w.extend(if rng.chance(1, 2) { vec![0; n] } else { t });
            ("by_extension", format!("{} bytes", n))
        }
        5 => {
            w = vec![0; w.len()];
            ("by_zeroing", String::new())
        }
        6 | 7 => {
            m.insert(dk.clone(), None);
            return (m, "by_removal", String::new());
        }
        8 | 9 | 10 => {
            let same = rng.chance(3, 4);
            match other(rng, same) {
                Some((ok, ov)) => {
                    m.insert(dk.clone(), Some(ov));
                    m.insert(ok.clone(), Some(v));
                    return (m, "by_swap", model::user_key_db(&ok));
                }
                None => {
                    m.insert(dk.clone(), None);
                    return (m, "by_removal", String::new());
                }
            }
        }
        11 | 12 => {
            let mut p = o.clone();
            let d = match rng.below(6) {
                0 => match other(rng, true) {
                    Some((k2, ov)) => {
                        m.insert(dk, Some(ov));
                        return (m, "by_replacement", model::user_key_db(&k2));
                    }
                    None => {
                        p.data.push(0);
                        "one byte more of data"
                    }
                },
                1 => {
                    p.data.push(b'x');
                    "one byte more of data"
                }
                2 if !p.data.is_empty() => {
                    p.data.pop();
                    "one byte less of data"
                }
                3 if p.keys.len() > 1 => {
                    p.keys.pop();
                    "one key less"
                }
                4 if p.keys.len() > 1 => {
                    p.keys.swap(0, 1);
                    "two keys swapped"
                }
                5 if !p.keys.is_empty() => {
                    let last = *p.keys.last().unwrap();
                    p.keys.push(last);
                    "one key twice"
                }
                _ => {
                    p.typ = rng.pick(&["FileBlob", "FileBlobTree", "FSItemFile", "FSItemDir", "Commit", "Else"]).to_string();
                    "another type"
                }
            };
            if p == o {
                p.data.push(1);
            }
            w = model::encode_obj(&p);
            ("by_replacement", d.to_string())
        }
        _ => {
            // The same object, its fields in another order.
            let val = model::obj_value(&o);
            if let crate::cbor::V::M(mut f) = val {
                f.reverse();
                w = crate::cbor::enc(&crate::cbor::V::M(f));
            }
            ("by_reencoding", String::new())
        }
    };
    if w == v {
        w.push(0);
    }
    m.insert(dk, Some(w));
    (m, what, detail)
}

fn random(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    // show works for text only.
    let text = rng.chance(1, 2);
    let o = gen::TreeOpts { width: 4, text_only: text, ..gen::TreeOpts::small() };
    let large = |rng: &mut Rng, n: usize| -> Vec<u8> {
        let b = rng.bytes(n);
        if text {
            b.into_iter().map(|x| if x < 6 { b'\n' } else { b'a' + x % 26 }).collect()
        } else {
            b
        }
    };
    // A file of several chunks and a line file, besides the rest.
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    let n = rng.range(70_000, 200_000);
    t.set("large", Some(Node::File(large(rng, n))));
    let lines = rng.range(3, 12);
    t.set("text", Some(Node::File(gen::text(rng, lines))));
    let mut hist = vec![];
    for i in 0..rng.range(2, 4) {
        if i > 0 {
            for _ in 0..rng.range(1, 3) {
                gen::edit(rng, &mut t, &o);
            }
            let lines = rng.range(3, 12);
            t.set("text", Some(Node::File(gen::text(rng, lines))));
            if let Some(Node::File(b)) = t.get_mut("large") {
                let i = rng.below(b.len().max(1));
                if let Some(x) = b.get_mut(i) {
                    *x = if *x == b'Z' { b'Y' } else { b'Z' };
                }
            }
        }
        hist.push(scen::commit(&r, &t, &format!("m{}", i), None)?);
    }
    // The working directory differs a little.
    let mut u = t.clone();
    gen::edit(rng, &mut u, &o);
    u.dir_mut().remove(".snapcd");
    sync_tree(&r.root, &u, &[".snapcd"])?;
    r.must(&["status"])?;
    let db = r.db()?;
    let file = r.dbfile();
    let clean = r.top.join("clean.db");
    std::fs::copy(&file, &clean)?;

    // Commands, with what they say when nothing is wrong.
    let mut cmds: Vec<Cmd> = vec![];
    let full = |k: &Key| {
        let mut s = HashSet::new();
        reach(&db, k, false, &mut s);
        s
    };
    let items = |k: &Key| {
        let mut s = HashSet::new();
        reach(&db, k, true, &mut s);
        s
    };
    let one = |v: &[Key]| -> HashSet<Key> { v.iter().cloned().collect() };
    let chain = |i: usize| -> HashSet<Key> { hist[..=i].iter().flat_map(|m| vec![m.key, m.tree]).collect() };
    let tip = hist.last().unwrap();
    for m in [rng.pick(&hist), tip] {
        let uk = model::user_key(&m.tree);
        cmds.push(Cmd { args: strs(&["fetch", &uk, "DEST"]), need: full(&m.tree), may: Some(full(&m.tree)), dest: Some(m.node.clone()), base: vec![], kind: "fetches" });
        cmds.push(Cmd { args: strs(&["debug", "walk-tree", &uk]), need: items(&m.tree), may: Some(items(&m.tree)), dest: None, base: vec![], kind: "walks" });
        cmds.push(Cmd { args: strs(&["compare", &uk]), need: one(&[m.tree]), may: None, dest: None, base: vec![], kind: "compares" });
        cmds.push(Cmd { args: strs(&["compare", "-s", &uk]), need: one(&[m.tree]), may: None, dest: None, base: vec![], kind: "compares" });
    }
    // Parts of a tree, by their own keys.
    let mut all: Vec<(String, Node)> = t.paths().into_iter().map(|p| (p.0.clone(), t.get(&p.0).unwrap().clone())).collect();
    rng.shuffle(&mut all);
    all.truncate(2);
    all.push(("large".into(), t.get("large").cloned().unwrap_or_else(Node::empty)));
    for (_, n) in &all {
        let (k, _) = model::collect(|s| model::store_tree(n, s));
        if db.data.contains_key(&model::dbkey(&k)) {
            cmds.push(Cmd { args: strs(&["fetch", &model::user_key(&k), "DEST"]), need: full(&k), may: Some(full(&k)), dest: Some(n.clone()), base: vec![], kind: "fetches" });
        }
    }
    let i = rng.below(hist.len());
    cmds.push(Cmd { args: strs(&["log"]), need: chain(hist.len() - 1), may: None, dest: None, base: vec![], kind: "logs" });
    cmds.push(Cmd { args: strs(&["log", &model::user_key(&hist[i].key)]), need: chain(i), may: None, dest: None, base: vec![], kind: "logs" });
    cmds.push(Cmd { args: strs(&["show"]), need: one(&[tip.key, tip.tree]), may: None, dest: None, base: vec![], kind: "shows" });
    cmds.push(Cmd { args: strs(&["show", &model::user_key(&hist[i].key)]), need: one(&[hist[i].key, hist[i].tree]), may: None, dest: None, base: vec![], kind: "shows" });
    cmds.push(Cmd { args: strs(&["status"]), need: one(&[tip.key, tip.tree]), may: None, dest: None, base: vec![], kind: "compares" });
    cmds.push(Cmd { args: strs(&["compare"]), need: one(&[tip.key, tip.tree]), may: None, dest: None, base: vec![], kind: "compares" });
    cmds.push(Cmd { args: strs(&["ref", "log"]), need: HashSet::new(), may: Some(HashSet::new()), dest: None, base: vec![], kind: "ref_logs" });

    let dest: PathBuf = r.top.join("dest");
    let go = |c: &Cmd| -> Res<(crate::cli::Out, Option<Node>)> {
        let _ = std::fs::remove_file(&dest);
        let _ = std::fs::remove_dir_all(&dest);
        let a: Vec<String> = c.args.iter().map(|x| if x == "DEST" { dest.to_str().unwrap().to_string() } else { x.clone() }).collect();
        let o = r.run(&a)?;
        let got = if c.dest.is_some() && o.ok() {
            match std::fs::symlink_metadata(&dest) {
                Ok(_) => match read_tree(&dest)? {
                    Ok(n) => Some(n),
                    Err(e) => crate::viol!("wrong-data", "{:?}: {}", c.args, e),
                },
                Err(_) => None,
            }
        } else {
            None
        };
        Ok((o, got))
    };
    let mut fails = vec![];
    for (i, c) in cmds.iter_mut().enumerate() {
        let (o, got) = go(c)?;
        if c.kind == "shows" && !o.ok() && !text {
            // There is no patch of what is not text.
            fails.push(i);
            continue;
        }
        ensure!(o.ok(), "ordinary-command-fails", "{:?}: {}", c.args, o.brief());
        if let Some(d) = &c.dest {
            ensure!(got.as_ref() == Some(d), "wrong-data", "{:?} on an undamaged repository", c.args);
        }
        c.base = sorted(&o.stdout);
    }
    for i in fails.into_iter().rev() {
        cmds.remove(i);
    }

    let mut by_type: BTreeMap<String, Vec<Key>> = BTreeMap::new();
    for (k, v) in &db.data {
        if let (Ok(k), Ok(o)) = (model::from_dbkey(k), model::decode_obj(v)) {
            by_type.entry(o.typ).or_default().push(k);
        }
    }
    let types: Vec<String> = by_type.keys().cloned().collect();
    let damaged_db = r.top.join("damaged.db");
    for step in 0..rng.range(8, 12) {
        let ty = if step < types.len() { types[step].clone() } else { rng.pick(&types).clone() };
        let k = *rng.pick(&by_type[&ty]);
        std::fs::copy(&clean, &damaged_db)?;
        let mut changed: HashSet<Key> = HashSet::new();
        let (what, detail);
        let in_file = rng.chance(1, 8).then(|| -> std::io::Result<bool> {
            // In the file itself, where a piece of the object is found exactly once.
            let v = &db.data[&model::dbkey(&k)];
            let mut f = std::fs::read(&damaged_db)?;
            if v.len() < 24 {
                return Ok(false);
            }
            let at = rng.below(v.len() - 20);
            let w = &v[at..at + 20];
            let hits: Vec<usize> = (0..f.len() - 20).filter(|i| &f[*i..*i + 20] == w).take(2).collect();
            if hits.len() != 1 {
                return Ok(false);
            }
            f[hits[0] + rng.below(20)] ^= 1 << rng.below(8);
            std::fs::write(&damaged_db, f)?;
            Ok(true)
        });
        if let Some(true) = in_file.transpose()? {
            what = "by_flip_in_file";
            detail = String::new();
            changed.insert(k);
        } else {
            let (m, w, d) = damage(rng, &db, &k);
            let c = rusqlite::Connection::open(&damaged_db)?;
            for (dk, v) in &m {
                changed.insert(model::from_dbkey(dk).expect("key"));
                match v {
                    Some(v) => c.execute("UPDATE data SET value=? WHERE key=?", rusqlite::params![v, dk])?,
                    None => c.execute("DELETE FROM data WHERE key=?", rusqlite::params![dk])?,
                };
            }
            what = w;
            detail = d;
        }
        ctx.count("damages", 1);
        ctx.count(what, 1);
        ctx.count(&format!("damaged_{}", ty), 1);
        let mut mattered = false;
        let mut order: Vec<usize> = (0..cmds.len()).collect();
        rng.shuffle(&mut order);
        let own = Cmd { args: strs(&["debug", "pretty-print", &model::user_key(&k)]), need: one(&[k]), may: None, dest: None, base: vec![], kind: "prints" };
        for c in order.iter().map(|i| &cmds[*i]).chain(std::iter::once(&own)) {
            // Some commands store what they read, and so may mend the damage.
            std::fs::copy(&damaged_db, &file)?;
            for s in &["snapcd.db-journal", "snapcd.db-wal", "snapcd.db-shm"] {
                let _ = std::fs::remove_file(file.with_file_name(s));
            }
            let (o, got) = go(c)?;
            let says = || format!("with the {} {} damaged {} ({}), {:?}", ty, model::user_key(&k), what, detail, c.args);
            ctx.count(c.kind, 1);
            if o.ok() {
                ensure!(c.need.is_disjoint(&changed), "damage-not-noticed", "{} succeeds: {}", says(), o.brief());
                if let Some(d) = &c.dest {
                    match got {
                        Some(g) => {
                            if let Some(x) = tree_diff(d, &g, "") {
                                crate::viol!("wrong-data", "{} succeeds and gives something else: {}", says(), x);
                            }
                        }
                        None => crate::viol!("wrong-data", "{} succeeds and writes nothing", says()),
                    }
                }
                ensure!(sorted(&o.stdout) == c.base, "wrong-data", "{} succeeds and prints {:?}", says(), o.text());
                ctx.count("unaffected", 1);
            } else {
                mattered = true;
                ctx.count("failed_on_damage", 1);
                if let Some(may) = &c.may {
                    ensure!(!may.is_disjoint(&changed), "undamaged-unreadable", "{} does not depend on it and fails: {}", says(), o.brief());
                }
                ensure!(!o.spun(), "does-not-terminate", "{} does not end", says());
            }
        }
        ctx.eval(if mattered { Some(fnv(format!("{} {} {}", what, detail, model::user_key(&k)).as_bytes())) } else { None });
        if case < 4 && step == 0 {
            ctx.sample_in("random", json!({ "case": case, "object": ty, "damage": what, "detail": detail }));
        }
    }
    std::fs::copy(&clean, &file)?;
    Ok(())
}
