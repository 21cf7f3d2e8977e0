//! C12: a commit records exactly the snapshot, its predecessor and the message, and moves one ref.

use super::c08::NAMES;
use crate::cli::{Db, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::util::{fnv, sync_tree, tree_diff, write_tree, Node};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random command sequences in which the committed path (root, directory, file, outside, given relative or absolute, from any directory), the ref (HEAD's, new, hostile \
names, a remote of the same name exists), the message and the contents (edits that keep size and times, type changes, swaps, thousands of entries) vary, and refs and HEAD are moved \
between commits. After every commit the database is decoded by an independent reader and compared with a shadow state: tree, parents, message, the one new log record, everything else \
as before. Non-trivial: a commit, distinct by its tree, parent, message and ref.",
    assumptions: &["the committed files do not change while the commit runs"],
    needed: &[
        "commits", "commits_with_parent", "commits_without_parent", "commits_of_subdirectory", "commits_of_file", "commits_outside_repo",
        "commits_after_moved_ref", "commits_after_moved_head", "commits_beside_remote_ref", "stealthy_edits", "long_messages",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("sequence", ctx.n(1200, 12000), |rng, i| sequence(ctx, rng, i));
    ctx.cases("wide", ctx.n(4, 60), |rng, i| wide(ctx, rng, i));
}

/// Changes a file without changing its size, and puts its times back.
pub fn stealthy(root: &Path, t: &mut Node, rng: &mut Rng) -> Res<bool> {
    let files: Vec<String> = t
        .paths()
        .into_iter()
        .filter(|(p, d)| !*d && matches!(t.get(p), Some(Node::File(b)) if !b.is_empty()))
        .map(|p| p.0)
        .collect();
    if files.is_empty() {
        return Ok(false);
    }
    let p = rng.pick(&files).clone();
    let f = root.join(&p);
    let meta = std::fs::metadata(&f)?;
    if let Some(Node::File(b)) = t.get_mut(&p) {
        let i = rng.below(b.len());
        b[i] ^= 1 << rng.below(7);
        if rng.chance(1, 2) {
            // in place
            use std::os::unix::fs::FileExt;
            std::fs::OpenOptions::new().write(true).open(&f)?.write_all_at(b, 0)?;
        } else {
            let tmp = root.with_extension("tmp");
            std::fs::write(&tmp, &b)?;
            std::fs::rename(&tmp, &f)?;
        }
    }
    let h = std::fs::OpenOptions::new().write(true).open(&f)?;
    h.set_times(std::fs::FileTimes::new().set_accessed(meta.accessed()?).set_modified(meta.modified()?))?;
    Ok(true)
}

fn refname(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => (*rng.pick(NAMES)).to_string(),
        1 => (*rng.pick(&["master", "other", "a/b", "x"])).to_string(),
        2 => format!("r{}", rng.below(5)),
        _ => "side".to_string(),
    }
}

pub fn message(rng: &mut Rng) -> String {
    if rng.chance(1, 12) {
        // As long as the operating system lets an argument be, or around the sizes at which encodings change.
        let n = *rng.pick(&[23, 24, 255, 256, 4096, 65534, 65535, 65536, 65537, 70_000, 131_000]);
        let c = *rng.pick(&["m", "line\n", "\u{e9}", "\u{1f600}"]);
        let mut s = c.repeat(n / c.len());
        s.push_str(&"e".repeat(n - s.len()));
        return s;
    }
    match rng.below(5) {
        0 => {
            let odd = [
                "", " ", "\n", "a\r\nb", "\u{feff}bom", "e\u{301}\u{200d}\u{1f600}", "%s %n {}", "\\n", "$(x) `y`", "--", "-m", "--message=x", "a\u{85}b", "  lead and trail  ",
                "\ttab", "\u{1b}[0m", "-q", "tree: x", "fatal: no",
                // What editors and other tools would take for something else.
                "one\n#2 is fixed\nthree", "#1", "# one\ntwo", "one\n# two", "a\n\n\n\nb", "\n\na\n\n", "one\n; two\n// three\n> four", "a \nb\t\n c",
                "one\n\nSigned-off-by: x <x@y>\nCo-authored-by: z", "one\n# ------------------------ >8 ------------------------\ntwo", "a\n---\nb\n+++\nc", "a\rb\r\nc\n\r",
                "one\n.\ntwo", "From x\n>From y", "\"quoted\"", "'quoted'", "@file", "~", "*", "a\\\nb", "a\u{2028}b\u{2029}c", "\u{b}\u{c}", "\u{200b}",
            ];
            (*rng.pick(&odd)).to_string()
        }
        1 => {
            let n = rng.range(20, 300);
            (0..n)
                .map(|_| loop {
                    // No NUL: the operating system does not pass it on.
                    if let Some(c) = char::from_u32(rng.range(1, 0x2ffff) as u32) {
                        break c;
                    }
                })
                .collect()
        }
        _ => gen::message(rng),
    }
}

/// `path` relative to `cwd`, both inside `top`.
pub fn relative(cwd: &Path, path: &Path) -> PathBuf {
    let (a, b): (Vec<_>, Vec<_>) = (cwd.components().collect(), path.components().collect());
    let same = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let mut p = PathBuf::new();
    for _ in same..a.len() {
        p.push("..");
    }
    for c in &b[same..] {
        p.push(c);
    }
    if p.as_os_str().is_empty() {
        p.push(".");
    }
    p
}

pub fn any_dir(rng: &mut Rng, root: &Path, t: &Node) -> PathBuf {
    let dirs: Vec<String> = t.paths().into_iter().filter(|p| p.1).map(|p| p.0).collect();
    if dirs.is_empty() || rng.chance(1, 3) {
        root.to_path_buf()
    } else {
        root.join(rng.pick(&dirs))
    }
}

struct Asked {
    tree: Node,
    parent: Option<Vec<u8>>,
    message: String,
    refname: String,
}

fn judge(what: &str, before: &Db, after: &Db, want: &Asked) -> Res<model::Key> {
    ensure!(before.state == after.state, "commit-changes-head", "{} changes HEAD from {:?} to {:?}", what, before.head(), after.head());
    let n = before.reflog.len();
    ensure!(
        after.reflog.len() == n + 1 && after.reflog[..n] == before.reflog[..],
        "commit-changes-other-refs",
        "{}: {} log records before, {} after, the old ones {}",
        what, n, after.reflog.len(),
        if after.reflog.len() >= n && after.reflog[..n] == before.reflog[..] { "as they were" } else { "changed" }
    );
    let (_, name, remote, k) = &after.reflog[n];
    ensure!(
        name == &want.refname && remote.is_none(),
        "commit-moves-wrong-ref",
        "{}: recorded for {:?} of {:?}, and asked for {:?}", what, name, remote, want.refname
    );
    for (k, v) in &before.data {
        ensure!(after.data.get(k) == Some(v), "commit-alters-objects", "{}: object {} is not as it was", what, model::user_key_db(k));
    }
    let key = match model::from_dbkey(k) {
        Ok(k) => k,
        Err(e) => crate::viol!("commit-records-no-key", "{}: {}", what, e),
    };
    let c = match model::commit(&after.data, &key) {
        Ok(c) => c,
        Err(e) => crate::viol!("commit-not-stored", "{}: {}", what, e),
    };
    ensure!(c.message == want.message, "message-differs", "{}: the message is {:?}, given was {:?}", what, c.message, want.message);
    let parents: Vec<Vec<u8>> = c.parents.iter().map(model::dbkey).collect();
    let exp: Vec<Vec<u8>> = want.parent.iter().cloned().collect();
    ensure!(
        parents == exp,
        "wrong-parent",
        "{}: its parents are {:?}, the tip of {:?} was {:?}",
        what,
        parents.iter().map(|k| model::user_key_db(k)).collect::<Vec<_>>(),
        want.refname,
        exp.iter().map(|k| model::user_key_db(k)).collect::<Vec<_>>()
    );
    let got = match model::tree(&after.data, &c.tree) {
        Ok(t) => t,
        Err(e) => crate::viol!("snapshot-incomplete", "{}: {}", what, e),
    };
    if let Some(d) = tree_diff(&want.tree, &got, "") {
        crate::viol!("snapshot-differs", "{}: {}", what, d);
    }
    Ok(key)
}

fn sequence(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { max_blocks: 2, ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    let outside = r.top.join("outside");
    let mut ot = gen::tree(rng, &o);
    write_tree(&outside, &ot, None)?;
    // The shadow state: newest value of each local ref, and HEAD.
    let mut tips: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut remote_tips: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut head = "master".to_string();
    let mut known: Vec<Vec<u8>> = Vec::new();
    let (mut moved_ref, mut moved_head) = (None::<String>, false);
    for step in 0..rng.range(5, 12) {
        // Something in between.
        match rng.below(7) {
            0 if !known.is_empty() => {
                let k = rng.pick(&known).clone();
                let n = if rng.chance(1, 2) { head.clone() } else { refname(rng) };
                let u = model::user_key_db(&k);
                if n.starts_with('-') {
                    r.must(&["ref", "update", &u, "--", &n])?;
                } else {
                    r.must(&["ref", "update", &u, &n])?;
                }
                tips.insert(n.clone(), k);
                moved_ref = Some(n);
            }
            1 if !known.is_empty() => {
                let k = rng.pick(&known).clone();
                let n = if rng.chance(1, 2) { head.clone() } else { refname(rng) };
                let u = model::user_key_db(&k);
                r.must(&["debug", "reflog-push", "--", &u, &n, *rng.pick(&["origin", "", "x"])])?;
                remote_tips.insert(n, k);
            }
            2 => {
                let n = refname(rng);
                r.must(&["debug", "set-head", "--", &n])?;
                head = n;
                moved_head = true;
            }
            3 => {
                // Forgets nothing, changes nothing.
                r.must(&["status"])?;
            }
            _ => {}
        }
        for _ in 0..rng.below(4) {
            gen::edit(rng, &mut t, &o);
        }
        t.dir_mut().remove(".snapcd");
        sync_tree(&r.root, &t, &[".snapcd"])?;
        if rng.chance(1, 3) {
            // Known to the cache as it was, then changed.
            if head_ok(&tips, &head) {
                r.must(&["status"])?;
            }
            if stealthy(&r.root, &mut t, rng)? {
                ctx.count("stealthy_edits", 1);
            }
        }
        // What to commit.
        let paths = t.paths();
        let cwd = any_dir(rng, &r.root, &t);
        let (target, tree): (Option<PathBuf>, Node) = match rng.below(6) {
            0 | 1 => (None, t.clone()),
            2 => {
                ctx.count("commits_of_root_by_path", 1);
                (Some(r.root.clone()), t.clone())
            }
            3 if paths.iter().any(|p| p.1) => {
                let d: Vec<_> = paths.iter().filter(|p| p.1).collect();
                let p = rng.pick(&d).0.clone();
                ctx.count("commits_of_subdirectory", 1);
                (Some(r.root.join(&p)), t.get(&p).unwrap().clone())
            }
            4 if paths.iter().any(|p| !p.1) => {
                let d: Vec<_> = paths.iter().filter(|p| !p.1).collect();
                let p = rng.pick(&d).0.clone();
                ctx.count("commits_of_file", 1);
                (Some(r.root.join(&p)), t.get(&p).unwrap().clone())
            }
            _ => {
                gen::edit(rng, &mut ot, &o);
                sync_tree(&outside, &ot, &[])?;
                ctx.count("commits_outside_repo", 1);
                (Some(outside.clone()), ot.clone())
            }
        };
        let msg = message(rng);
        let named = if rng.chance(1, 2) { None } else { Some(refname(rng)) };
        let mut args: Vec<OsString> = vec!["commit".into()];
        let given = target.as_ref().map(|p| {
            let p = if rng.chance(1, 2) { relative(&cwd, p) } else { p.clone() };
            if p.is_relative() && rng.chance(1, 4) {
                Path::new(".").join(p)
            } else {
                p
            }
        });
        if let Some(p) = &given {
            let mut a = OsString::from("--path=");
            a.push(p);
            args.push(a);
        }
        args.push(format!("--message={}", msg).into());
        if let Some(n) = &named {
            args.push("--".into());
            args.push(n.into());
        }
        let name = named.clone().unwrap_or_else(|| head.clone());
        let before = r.db()?;
        let out = crate::shim::false_sizes(rng, r.prep(&cwd, &args), &r).go()?;
        ensure!(out.ok(), "commit-fails", "{}", out.brief());
        let after = r.db()?;
        let want = Asked { tree, parent: tips.get(&name).cloned(), message: msg.clone(), refname: name.clone() };
        let what = format!("step {}: commit of {:?} from {:?} on {:?}", step, given, cwd.strip_prefix(&r.top).unwrap_or(&cwd), named);
        let key = judge(&what, &before, &after, &want)?;
        ctx.count("commits", 1);
        if msg.len() > 65535 {
            ctx.count("long_messages", 1);
        }
        ctx.count(if want.parent.is_some() { "commits_with_parent" } else { "commits_without_parent" }, 1);
        if moved_ref.as_deref() == Some(&name) {
            ctx.count("commits_after_moved_ref", 1);
        }
        if moved_head && named.is_none() {
            ctx.count("commits_after_moved_head", 1);
        }
        if remote_tips.contains_key(&name) && remote_tips.get(&name) != tips.get(&name) {
            ctx.count("commits_beside_remote_ref", 1);
        }
        ctx.eval(Some(fnv(&model::dbkey(&key)) ^ fnv(name.as_bytes())));
        let k = model::dbkey(&key);
        tips.insert(name.clone(), k.clone());
        known.push(k.clone());
        moved_ref = None;
        moved_head = false;
        // What the program itself says agrees.
        let g = r.must(&["debug", "reflog-get", "--", &name])?;
        ensure!(g.text().trim_end() == model::user_key_db(&k), "commit-moves-wrong-ref", "{}: reflog-get says {:?}", what, g.text());
        if rng.chance(1, 5) {
            let dest = r.top.join(format!("f{}", step));
            r.must(&[OsStr::new("fetch"), OsStr::new(&model::user_key(&model::commit(&after.data, &key).unwrap().tree)), dest.as_os_str()])?;
            match crate::util::read_tree(&dest)? {
                Ok(n) => {
                    if let Some(d) = tree_diff(&want.tree, &n, "") {
                        crate::viol!("snapshot-differs", "{}: fetched: {}", what, d);
                    }
                }
                Err(e) => crate::viol!("snapshot-differs", "{}: fetched: {}", what, e),
            }
        }
    }
    // The shadow state is what is there.
    let db = r.db()?;
    ensure!(db.head().as_deref() == Some(&head), "commit-changes-head", "HEAD is {:?} and should be {:?}", db.head(), head);
    for (n, k) in &tips {
        ensure!(db.tip(n) == Some(k), "commit-moves-wrong-ref", "{:?} is not what was last recorded for it", n);
    }
    ctx.sample_in("sequence", json!({ "case": case, "refs": tips.len(), "commits": known.len() }));
    Ok(())
}

fn head_ok(tips: &BTreeMap<String, Vec<u8>>, head: &str) -> bool {
    tips.contains_key(head)
}

/// Many entries, long names, a deep path: everything of it is in the commit.
fn wide(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    for i in 0..rng.range(300, 2500) {
        let b = if i % 7 == 0 { rng.bytes(3) } else { format!("{}", i % 50).into_bytes() };
        t.set(&format!("entry {}", i * 7919 % 10007), Some(Node::File(b)));
    }
    let mut p = String::from("deep");
    for i in 0..rng.range(20, 100) {
        t.set(&p, Some(Node::empty()));
        p = format!("{}/d{}", p, i % 3);
    }
    t.set(&p, Some(Node::File(b"bottom".to_vec())));
    scen::put_root(&r, &t)?;
    let before = r.db()?;
    r.commit("wide", None)?;
    let after = r.db()?;
    let mut want = Asked { tree: t.clone(), parent: None, message: "wide".into(), refname: "master".into() };
    let k = judge("a wide commit", &before, &after, &want)?;
    ctx.count("commits", 1);
    ctx.eval(Some(fnv(&k)));
    t.set("entry 7919", Some(Node::File(b"other".to_vec())));
    t.set(&p, Some(Node::File(b"Bottom".to_vec())));
    scen::put_root(&r, &t)?;
    r.commit("wide again", None)?;
    let last = r.db()?;
    want = Asked { tree: t, parent: Some(model::dbkey(&k)), message: "wide again".into(), refname: "master".into() };
    let k = judge("a second wide commit", &after, &last, &want)?;
    ctx.eval(Some(fnv(&k)));
    ctx.count("commits", 1);
    Ok(())
}
