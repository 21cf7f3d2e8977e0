//! C26: the inspection commands show exactly what is there.

use super::c05::add_rows;
use super::c12::any_dir;
use crate::cli::{inserted_key, Db, Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model::{self, Key, Obj};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::shim;
use crate::util::{fnv, hex, lossy, write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "debug walk-tree of random, shared, deep and wide snapshots (whole, of a directory in them, of a file) is parsed and must be exactly the paths, keys and kinds that an independent \
decoder finds in the database, and that the directory had which was stored; debug walk-fs-tree of directories on disk (any bytes in names, links, from any working directory, given in any way, \
with I/O errors) must be exactly what a walk of the harness finds, or fail; debug pretty-print of every kind of object, ordinary ones and made ones with chosen numbers of references and data \
of chosen lengths, must show type, all references in order and all data. Non-trivial: an output with at least one entry, distinct by it.",
    assumptions: &["the directory walked does not change meanwhile"],
    needed: &[
        "walked_trees", "walked_paths", "walked_files", "walked_empty", "shared_subtrees", "deep", "wide", "disk_walks", "disk_paths", "odd_names", "links", "unwalkable", "reads_failed", "said_so",
        "printed", "printed_blobs", "printed_chunk_trees", "printed_items", "printed_commits", "printed_unknown", "no_references", "no_data",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("stored", ctx.n(1600, 14000), |rng, i| stored(ctx, rng, i));
    ctx.cases("large", ctx.n(8, 60), |rng, i| large(ctx, rng, i));
    ctx.cases("disk", ctx.n(1600, 14000), |rng, i| disk(ctx, rng, i));
    ctx.cases("made", ctx.n(300, 3000), |rng, i| made(ctx, rng, i));
}

type Walk = BTreeMap<Vec<u8>, (Key, bool)>;

/// Undoes the quoting of a string in debug output; gives the rest.
fn unquote(s: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    let s = s.strip_prefix(b"\"")?;
    let mut out = vec![];
    let mut i = 0;
    loop {
        match *s.get(i)? {
            b'"' => return Some((out, &s[i + 1..])),
            b'\\' => {
                i += 1;
                match *s.get(i)? {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'0' => out.push(0),
                    b'x' => {
                        let h = std::str::from_utf8(s.get(i + 1..i + 3)?).ok()?;
                        out.push(u8::from_str_radix(h, 16).ok()?);
                        i += 2;
                    }
                    b'u' => {
                        let e = s[i..].iter().position(|x| *x == b'}')?;
                        let h = std::str::from_utf8(s.get(i + 2..i + e)?).ok()?;
                        let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                        out.extend_from_slice(c.to_string().as_bytes());
                        i += e;
                    }
                    c => out.push(c),
                }
                i += 1;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
}

/// Blake3B([..]) at the beginning; gives the rest.
fn debug_key(s: &[u8]) -> Option<(Key, &[u8])> {
    let s = s.strip_prefix(b"Blake3B([")?;
    let e = s.iter().position(|x| *x == b']')?;
    let mut k = [0u8; 32];
    let text = std::str::from_utf8(&s[..e]).ok()?;
    let v: Option<Vec<u8>> = text.split(", ").map(|x| x.parse().ok()).collect();
    let v = v?;
    if v.len() != 32 {
        return None;
    }
    k.copy_from_slice(&v);
    Some((k, s[e + 1..].strip_prefix(b")")?))
}

fn parse_walk(what: &str, o: &Out) -> Res<Walk> {
    let mut w = Walk::new();
    for l in o.stdout.split(|x| *x == b'\n').filter(|x| !x.is_empty()) {
        let one = || -> Option<(Vec<u8>, Key, bool)> {
            let (p, rest) = unquote(l.strip_prefix(b"(")?)?;
            let (k, rest) = debug_key(rest.strip_prefix(b", (")?)?;
            match rest {
                b", true))" => Some((p, k, true)),
                b", false))" => Some((p, k, false)),
                _ => None,
            }
        };
        match one() {
            Some((p, k, d)) => {
                ensure!(w.insert(p.clone(), (k, d)).is_none(), "listed-twice", "{}: {:?} is there twice", what, lossy(&p));
            }
            None => crate::viol!("listing-unreadable", "{}: {:?}", what, lossy(l)),
        }
    }
    Ok(w)
}

/// The same from the database.
fn stored_walk(db: &Db, k: &Key, at: &[u8], w: &mut Walk) -> Result<(), String> {
    let it = model::decode_item(&model::get(&db.data, k)?)?;
    if !it.dir || !at.is_empty() {
        w.insert(at.to_vec(), (*k, it.dir));
    }
    if it.dir {
        for (n, c) in it.names.iter().zip(&it.keys) {
            let mut p = at.to_vec();
            if !p.is_empty() {
                p.push(b'/');
            }
            p.extend_from_slice(n.as_bytes());
            stored_walk(db, c, &p, w)?;
        }
    }
    Ok(())
}

fn check_walk(ctx: &Ctx, r: &Repo<'_>, cwd: &Path, db: &Db, k: &Key, t: &Node, what: &str) -> Res<Walk> {
    let id = model::user_key(k);
    let o = r.must_in(cwd, &["debug", "walk-tree", &id])?;
    let got = parse_walk(what, &o)?;
    let mut exp = Walk::new();
    if let Err(e) = stored_walk(db, k, b"", &mut exp) {
        crate::viol!("stored-tree-incomplete", "{}: {}", what, e);
    }
    for (p, v) in &exp {
        match got.get(p) {
            None => crate::viol!("path-not-listed", "{}: {:?} is in the snapshot and not in the listing of {} paths", what, lossy(p), got.len()),
            Some(g) => ensure!(
                g == v,
                "path-listed-wrong",
                "{}: {:?} is {} {}, listed as {} {}",
                what,
                lossy(p),
                if v.1 { "directory" } else { "file" },
                model::user_key(&v.0),
                if g.1 { "directory" } else { "file" },
                model::user_key(&g.0)
            ),
        }
    }
    if let Some(p) = got.keys().find(|p| !exp.contains_key(*p)) {
        crate::viol!("listed-too-much", "{}: {:?} is listed and not in the snapshot", what, lossy(p));
    }
    // And that is what was stored.
    match t {
        Node::File(_) => ensure!(got.len() == 1 && got.contains_key(&b""[..]), "path-listed-wrong", "{}: a file is listed as {:?}", what, o.text()),
        Node::Dir(_) => {
            let ps = t.paths();
            ensure!(ps.len() == got.len(), "path-not-listed", "{}: {} paths were stored, {} are listed", what, ps.len(), got.len());
            for (p, d) in ps {
                match got.get(p.as_bytes()) {
                    Some(g) if g.1 == d => {}
                    _ => crate::viol!("path-not-listed", "{}: {:?} was stored and is not listed so", what, p),
                }
            }
        }
    }
    ctx.count("walked_trees", 1);
    ctx.count("walked_paths", got.len() as u64);
    if got.is_empty() {
        ctx.count("walked_empty", 1);
        ctx.eval(None);
    } else {
        ctx.eval(Some(fnv(format!("{:?}", got).as_bytes())));
    }
    Ok(got)
}

fn stored(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = if rng.chance(1, 20) { Node::empty() } else { gen::tree(rng, &o) };
    t.dir_mut().remove(".snapcd");
    if rng.chance(1, 2) {
        // The same below two names.
        let ps = t.paths();
        if !ps.is_empty() {
            let p = rng.pick(&ps).0.clone();
            let n = t.get(&p).unwrap().clone();
            let at: Vec<String> = ps.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
            let to = if at.is_empty() || rng.chance(1, 2) { "again".to_string() } else { format!("{}/again", rng.pick(&at)) };
            if !to.starts_with(&format!("{}/", p)) {
                t.set(&to, Some(n));
                ctx.count("shared_subtrees", 1);
            }
        }
    }
    let commit = rng.chance(1, 2);
    let tree = if commit {
        let m = scen::commit(&r, &t, &gen::message(rng), None)?;
        m.tree
    } else {
        scen::put_root(&r, &t)?;
        let o = r.must(&["insert", "."])?;
        scen::parse_key(&inserted_key(&o)?)?
    };
    let db = r.db()?;
    let cwd = any_dir(rng, &r.root, &t);
    let w = check_walk(ctx, &r, &cwd, &db, &tree, &t, "walk-tree of a snapshot")?;
    // What is in it.
    let ws: Vec<(&Vec<u8>, &(Key, bool))> = w.iter().collect();
    for _ in 0..2.min(ws.len()) {
        let (p, (k, dir)) = rng.pick(&ws);
        let p = lossy(p);
        let n = match t.get(&p) {
            Some(n) => n,
            None => continue,
        };
        check_walk(ctx, &r, &cwd, &db, k, n, &format!("walk-tree of {:?} in a snapshot", p))?;
        if !dir {
            ctx.count("walked_files", 1);
        }
        // The key listed for a path is the key that path is stored under.
        if rng.chance(1, 3) {
            let mut arg = OsString::from("./");
            arg.push(&p);
            let o = r.must(&[OsString::from("insert"), arg])?;
            let again = scen::parse_key(&inserted_key(&o)?)?;
            ensure!(again == *k, "path-listed-wrong", "insert of {:?} gives {}, walk-tree lists it as {}", p, model::user_key(&again), model::user_key(k));
        }
    }
    // The objects that make it up.
    let keys: Vec<Vec<u8>> = db.data.keys().cloned().collect();
    for _ in 0..3 {
        let k = match model::from_dbkey(rng.pick(&keys)) {
            Ok(k) => k,
            Err(e) => crate::viol!("database-unreadable", "{}", e),
        };
        print(ctx, &r, &cwd, &db, &k)?;
    }
    if commit {
        if let Some(k) = db.tip("master") {
            if let Ok(k) = model::from_dbkey(k) {
                print(ctx, &r, &cwd, &db, &k)?;
            }
        }
    }
    ctx.sample_in("stored", json!({ "case": case, "paths": w.len() }));
    Ok(())
}

fn large(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    if case % 2 == 0 {
        let depth = rng.range(40, if ctx.quick() { 90 } else { 300 });
        let mut p = String::new();
        for i in 0..depth {
            p = if i == 0 { "d".into() } else { format!("{}/{}", p, rng.pick(&["d", "e", "f g"])) };
            t.set(&p, Some(Node::empty()));
            if rng.chance(1, 4) {
                t.set(&format!("{}/file", p), Some(Node::File(gen::small_content(rng))));
            }
        }
        ctx.count("deep", 1);
        ctx.max("greatest_depth", depth as u64);
    } else {
        let n = rng.range(300, if ctx.quick() { 1200 } else { 6000 });
        for i in 0..n {
            t.set(&format!("{}{}", rng.pick(&["a", "b/", "b/c/"]).replace('/', "_"), i), Some(if rng.chance(1, 9) { Node::empty() } else { Node::File(format!("{}", i % 7).into_bytes()) }));
        }
        ctx.count("wide", 1);
        ctx.max("greatest_width", n as u64);
    }
    scen::put_root(&r, &t)?;
    let k = scen::parse_key(&inserted_key(&r.must(&["insert", "."])?)?)?;
    let db = r.db()?;
    check_walk(ctx, &r, &r.root, &db, &k, &t, "walk-tree of a large snapshot")?;
    print(ctx, &r, &r.root, &db, &k)?;
    // The same on disk.
    let side = r.top.join("side");
    write_tree(&side, &t, None)?;
    disk_walk(ctx, &r, &r.root, &side, &side.clone().into_os_string(), None)
}

/// What a walk of a directory gives: path, is it a directory; nothing if there is something that is neither.
fn real(p: &Path, at: &[u8], out: &mut BTreeMap<Vec<u8>, bool>) -> std::io::Result<bool> {
    for e in std::fs::read_dir(p)? {
        let e = e?;
        let mut q = at.to_vec();
        if !q.is_empty() {
            q.push(b'/');
        }
        q.extend_from_slice(e.file_name().as_bytes());
        let m = match std::fs::metadata(e.path()) {
            Ok(m) => m,
            Err(_) => return Ok(false),
        };
        if m.is_dir() {
            out.insert(q.clone(), true);
            if !real(&e.path(), &q, out)? {
                return Ok(false);
            }
        } else if m.is_file() {
            out.insert(q, false);
        } else {
            return Ok(false);
        }
    }
    Ok(true)
}

fn disk_walk(ctx: &Ctx, r: &Repo<'_>, cwd: &Path, dir: &Path, arg: &OsString, fault: Option<String>) -> Res {
    let mut exp = BTreeMap::new();
    let walkable = real(dir, b"", &mut exp)?;
    let args = [OsString::from("debug"), OsString::from("walk-fs-tree"), arg.clone()];
    let mut run = r.prep(cwd, &args);
    if let Some(f) = &fault {
        run = shim::attach(run, r).env("VS_DATA", dir).env("VS_FAIL", f);
    }
    let o = run.go()?;
    let what = format!("walk-fs-tree of {} paths, given as {:?} ({}{})", exp.len(), arg, o.brief(), fault.as_ref().map(|x| format!(", with {}", x)).unwrap_or_default());
    ctx.count("disk_walks", 1);
    if !walkable {
        ctx.count("unwalkable", 1);
        ensure!(!o.ok(), "walk-hides-something", "{}: there is something that is neither file nor directory", what);
        ctx.eval(None);
        return Ok(());
    }
    if fault.is_some() {
        ctx.count("reads_failed", 1);
        if !o.ok() {
            ctx.count("said_so", 1);
            ctx.eval(None);
            return Ok(());
        }
    }
    ensure!(o.ok(), "ordinary-command-fails", "{}", what);
    let mut got = BTreeMap::new();
    for l in o.stdout.split(|x| *x == b'\n').filter(|x| !x.is_empty()) {
        let one = || -> Option<(Vec<u8>, bool)> {
            let (p, rest) = unquote(l)?;
            match rest {
                b", true" => Some((p, true)),
                b", false" => Some((p, false)),
                _ => None,
            }
        };
        match one() {
            Some((p, d)) => ensure!(got.insert(p.clone(), d).is_none(), "listed-twice", "{}: {:?} is there twice", what, lossy(&p)),
            None => crate::viol!("listing-unreadable", "{}: {:?}", what, lossy(l)),
        }
    }
    for (p, d) in &exp {
        ensure!(got.get(p) == Some(d), "path-not-listed", "{}: {:?} ({}) is not listed so", what, lossy(p), if *d { "directory" } else { "file" });
    }
    if let Some(p) = got.keys().find(|p| !exp.contains_key(*p)) {
        crate::viol!("listed-too-much", "{}: {:?} is listed and not there", what, lossy(p));
    }
    ctx.count("disk_paths", exp.len() as u64);
    ctx.eval(if exp.is_empty() { None } else { Some(fnv(format!("{:?}", exp).as_bytes())) });
    Ok(())
}

fn disk(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = if rng.chance(1, 2) { Repo::new(ctx)? } else { Repo::bare(ctx)? };
    let t = gen::tree(rng, &gen::TreeOpts::small());
    let inside = rng.chance(1, 2);
    let dir = if inside { r.root.join("the dir") } else { r.top.join("side") };
    write_tree(&dir, &t, Some(rng))?;
    let dirs: Vec<PathBuf> = std::iter::once(dir.clone()).chain(t.paths().into_iter().filter(|x| x.1).map(|x| dir.join(x.0))).collect();
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 4) {
            let n: Vec<u8> = (0..rng.range(1, 12)).map(|_| *rng.pick(b"\x01\x7f\x80\xff\xc3\xa9\xe2\n\t\r \"\\'{}a\xf0\x9f\x98\x80*?[")).collect();
            let p = rng.pick(&dirs).join(OsString::from_vec(n));
            let ok = if rng.chance(1, 3) { std::fs::create_dir(&p).is_ok() } else { std::fs::OpenOptions::new().write(true).create_new(true).open(&p).is_ok() };
            if ok {
                ctx.count("odd_names", 1);
            }
        }
    }
    if rng.chance(1, 4) {
        let to = match rng.below(4) {
            0 => r.top.join("elsewhere"),
            1 => r.top.join("a file"),
            _ => r.top.join("elsewhere/below"),
        };
        std::fs::create_dir_all(r.top.join("elsewhere/below/it"))?;
        std::fs::write(r.top.join("elsewhere/file"), "x")?;
        std::fs::write(r.top.join("a file"), "x")?;
        if std::os::unix::fs::symlink(to, rng.pick(&dirs).join("a link")).is_ok() {
            ctx.count("links", 1);
        }
    }
    match rng.below(24) {
        0 => {
            let _ = std::os::unix::fs::symlink("nowhere at all", rng.pick(&dirs).join("dangling"));
        }
        1 => {
            let _ = std::os::unix::net::UnixListener::bind(dir.join("sock"));
        }
        _ => {}
    }
    for _ in 0..2 {
        let d = if rng.chance(2, 3) { dir.clone() } else { rng.pick(&dirs).clone() };
        let (cwd, arg): (PathBuf, OsString) = match rng.below(5) {
            0 => (d.clone(), ".".into()),
            1 => (d.parent().unwrap().to_path_buf(), {
                let mut a = OsString::from("./");
                a.push(d.file_name().unwrap());
                a
            }),
            2 => (rng.pick(&dirs).clone(), {
                let mut a = d.clone().into_os_string();
                a.push("/");
                a
            }),
            3 if d != dir => {
                let mut up = OsString::from(".");
                let below = d.strip_prefix(&dir).unwrap().components().count();
                for _ in 0..below {
                    up.push("/..");
                }
                up.push("/");
                up.push(d.strip_prefix(&dir).unwrap());
                (d.clone(), up)
            }
            _ => (r.top.clone(), d.clone().into_os_string()),
        };
        let fault = if rng.chance(1, 4) {
            let class = *rng.pick(&["data.stat", "data.open", "data.readdir", "data.readdir"]);
            let errno = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOENT]);
            Some(format!("{}:{}:{}{}", class, rng.range(1, 12), errno, if rng.chance(1, 3) { ":s" } else { "" }))
        } else {
            None
        };
        disk_walk(ctx, &r, &cwd, &d, &arg, fault)?;
    }
    // What is not there has no listing.
    let o = r.run(&["debug", "walk-fs-tree", "not there"])?;
    ensure!(!o.ok(), "walk-of-nothing", "walk-fs-tree of what is not there: {}", o.brief());
    ctx.sample_in("disk", json!({ "case": case, "paths": t.paths().len() }));
    Ok(())
}

/// pretty-print of an object, compared with what is stored.
fn print(ctx: &Ctx, r: &Repo<'_>, cwd: &Path, db: &Db, k: &Key) -> Res {
    let obj = match model::get(&db.data, k) {
        Ok(o) => o,
        Err(e) => crate::viol!("stored-tree-incomplete", "{}", e),
    };
    let o = r.must_in(cwd, &["debug", "pretty-print", &model::user_key(k)])?;
    let what = format!("pretty-print of a {} with {} references and {} bytes", obj.typ, obj.keys.len(), obj.data.len());
    let text = match std::str::from_utf8(&o.stdout) {
        Ok(t) => t,
        Err(_) => crate::viol!("print-unreadable", "{}: {:?}", what, lossy(&o.stdout)),
    };
    let section = |from: &str, to: &str| -> Option<&str> {
        let i = text.find(&format!("{}\n", from))? + from.len() + 1;
        let j = i + text[i..].find(&format!("{}\n", to))?;
        Some(&text[i..j])
    };
    let known = ["FileBlobTree", "FileBlob", "Commit", "FSItemDir", "FSItemFile"];
    let typ = if known.contains(&obj.typ.as_str()) { obj.typ.as_str() } else { "Unknown" };
    ensure!(text.lines().next() == Some(&format!("--type: {}--", typ)), "wrong-type-shown", "{}: begins with {:?}", what, text.lines().next());
    let (keys, data) = match (section("--keys--", "-/keys--"), section("--data--", "-/data--")) {
        (Some(a), Some(b)) => (a, b),
        _ => crate::viol!("print-unreadable", "{}: {:?}", what, text),
    };
    let mut user = vec![];
    let mut debug = vec![];
    for l in keys.lines().filter(|x| !x.is_empty()) {
        match (model::parse_user_key(l), debug_key(l.as_bytes())) {
            (Some(k), _) => user.push(k),
            (None, Some((k, rest))) if rest.is_empty() => debug.push(k),
            _ => crate::viol!("print-unreadable", "{}: {:?}", what, l),
        }
    }
    ensure!(user == obj.keys && debug == obj.keys, "references-not-shown", "{}: {} and {} are shown, or others, or in another order", what, user.len(), debug.len());
    let all: String = data.split_whitespace().collect();
    ensure!(all == hex(&obj.data), "data-not-shown", "{}: the data shown is {}, it is {}", what, all.chars().take(300).collect::<String>(), hex(&obj.data).chars().take(300).collect::<String>());
    // Decoded, names and messages can be read.
    let decoded = match section("--deserialised data--", "--/deserialised data--") {
        Some(d) => d,
        None => crate::viol!("print-unreadable", "{}: {:?}", what, text),
    };
    match typ {
        "FSItemDir" | "FSItemFile" => {
            if let Ok(it) = model::decode_item(&obj) {
                let names: Vec<String> = it.names.iter().map(|n| format!("Text({:?})", n)).collect();
                let list = format!("[{}]", names.join(", "));
                ensure!(decoded.contains(&list) && decoded.contains(&format!("Integer({})", it.size)), "names-not-shown", "{}: {:?} does not show {}", what, decoded, list);
            }
            ctx.count("printed_items", 1);
        }
        "Commit" => {
            if let Ok(c) = model::decode_commit(&obj) {
                ensure!(decoded.contains(&format!("Text({:?})", c.message)), "names-not-shown", "{}: {:?} does not show {:?}", what, decoded, c.message);
            }
            ctx.count("printed_commits", 1);
        }
        "FileBlob" => ctx.count("printed_blobs", 1),
        "FileBlobTree" => ctx.count("printed_chunk_trees", 1),
        _ => ctx.count("printed_unknown", 1),
    }
    ctx.count("printed", 1);
    if obj.keys.is_empty() {
        ctx.count("no_references", 1);
    }
    if obj.data.is_empty() {
        ctx.count("no_data", 1);
    }
    ctx.eval(Some(fnv(&o.stdout)));
    Ok(())
}

fn made(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut rows = BTreeMap::new();
    let mut keys: Vec<Key> = (0..3u8).map(|i| model::hash(&[i])).collect();
    let mut ks = vec![];
    for _ in 0..10 {
        let typ = *rng.pick(&["FileBlob", "FileBlob", "FileBlobTree", "FileBlobTree", "FSItemDir", "FSItemFile", "Commit", "Something", "fileblob"]);
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => rng.range(30, 300),
            _ => rng.range(3, 8),
        };
        let mut refs: Vec<Key> = (0..n).map(|_| *rng.pick(&keys)).collect();
        if rng.chance(1, 3) {
            refs.sort();
            refs.reverse();
        }
        let len = *rng.pick(&[0, 1, 2, 19, 20, 21, 39, 40, 41, 60, 1000, 32768]);
        let data = match typ {
            "Commit" if rng.chance(1, 2) => model::commit_data(&gen::message(rng)),
            "FSItemDir" if rng.chance(1, 2) => {
                let names: Vec<String> = (0..rng.below(5)).map(|i| format!("{}{}", gen::name(rng, false), i)).collect();
                model::item_data(true, rng.below(1 << 40) as u64, &names)
            }
            _ => match rng.below(3) {
                0 => vec![*rng.pick(&[0u8, 0x0a, 0x80, 0x60, 0xff, b'-']); len],
                1 => gen::text(rng, 3),
                _ => (0..len).map(|_| rng.below(256) as u8).collect(),
            },
        };
        let b = model::encode_obj(&Obj { typ: typ.into(), data, keys: refs });
        let k = model::hash(&b);
        rows.insert(model::dbkey(&k), b);
        keys.push(k);
        ks.push(k);
    }
    add_rows(&r, &rows)?;
    let db = r.db()?;
    for k in &ks {
        print(ctx, &r, &r.root, &db, k)?;
    }
    ctx.sample_in("made", json!({ "case": case, "objects": ks.len() }));
    Ok(())
}
