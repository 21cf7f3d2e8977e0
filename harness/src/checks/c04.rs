//! C04: inserting a directory and fetching it recreates the same tree.

use crate::cli::{inserted_key, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::{os, read_tree, tree_diff, write_tree, Node};
use serde_json::json;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random trees (names of every kind, empty files and directories, the same content in several places, large \
files, hundreds of entries (a few: more than 65536), deep nesting, files of equal size and times) are inserted or committed, then fetched into an empty place under a full or shortened key, \
from several current directories; the result is compared entry by entry with the harness's own copy. Things that \
have no representation (non-UTF-8 names, FIFOs, sockets, dangling links, unreadable entries) are put in random places of a tree and \
the insertion must fail and store nothing; regular files that report a false size are stored whole. Non-trivial: a tree with at least one entry. Distinct by tree.",
    assumptions: &[
        "modes, times, links and other metadata are not part of the tree",
        "a symbolic link stands for what it points at",
    ],
    needed: &["trees_fetched", "commits_fetched", "empty_dirs_fetched", "unrepresentable_refused", "trees_with_equal_times", "commands_with_false_sizes"],
    needed_inproc: &["trees_fetched_in_process"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    ctx.cases("inproc", ctx.n(12000, 40000), |rng, i| inproc(ctx, rng, i));
    ctx.cases("program", ctx.n(3000, 12000), |rng, i| program(ctx, rng, i));
    ctx.cases("crowd", ctx.n(2, 8), |rng, i| crowd(ctx, rng, i));
    ctx.cases("unrepresentable", ctx.n(600, 2000), |rng, i| refuse(ctx, rng, i));
}

fn make(rng: &mut Rng, i: u64) -> Node {
    match i % 10 {
        8 => {
            // wide
            let mut t = Node::empty();
            let n = if i % 1000 == 8 { rng.range(4100, 5000) } else { rng.range(100, 600) };
            for k in 0..n {
                let nm = format!("{}{}", gen::name(rng, true), k);
                let v = if k % 7 == 0 {
                    Node::empty()
                } else {
                    Node::File(gen::small_content(rng))
                };
                t.set(&nm, Some(v));
            }
            t
        }
        9 => {
            // deep
            let mut t = if rng.chance(1, 2) {
                Node::empty()
            } else {
                Node::File(gen::small_content(rng))
            };
            for _ in 0..rng.range(5, 60) {
                let mut d = gen::tree(
                    rng,
                    &gen::TreeOpts {
                        depth: 0,
                        width: 2,
                        ..gen::TreeOpts::small()
                    },
                );
                let n = gen::name(rng, true);
                d.set(&n, Some(t));
                t = d;
            }
            t
        }
        7 => gen::file(
            rng,
            &gen::TreeOpts {
                max_blocks: 8,
                ..gen::TreeOpts::small()
            },
        ),
        6 => gen::tree(
            rng,
            &gen::TreeOpts {
                max_blocks: 12,
                ..gen::TreeOpts::small()
            },
        ),
        _ => gen::tree(
            rng,
            &gen::TreeOpts {
                depth: 5,
                width: 6,
                ..gen::TreeOpts::small()
            },
        ),
    }
}

/// Names that mean something to this program, to others, or to those who print them, somewhere
/// below the top (where commands run, `.snapcd` would be another repository).
fn salt(rng: &mut Rng, t: &mut Node) {
    let names = [
        ".snapcd", ".snapcd", ".snapcd/snapcd.db", ".snapcd/x/y", "snapcd.db", "snapcd.db-journal", "snapcd.db-wal", ".snapcd.bak",
        ".snapcdignore", ".gitignore", ".git/HEAD", ".ignore", "target/debug/x", "node_modules/x", "lost+found", "core", "HEAD",
        "CON", "Thumbs.db", ".DS_Store", "x.swp", "x~", "x.tmp", ".#x", "a\nb", "\r", "\u{1}", "\u{1b}[31m", "\u{202e}x", "a\n",
        "é", "e\u{301}", "E", "e", "\u{fffd}", "\u{feff}x", " ", "  ", "-", "--", "-x", "....", ". .", "..data", ".\u{200b}", "0", "null",
    ];
    let dirs: Vec<String> = t.paths().into_iter().filter(|p| p.1).map(|p| p.0).collect();
    for _ in 0..rng.range(1, 4) {
        let at = if dirs.is_empty() { "d".to_string() } else { rng.pick(&dirs).clone() };
        let mut name = rng.pick(&names).to_string();
        if rng.chance(1, 12) {
            name = "é".repeat(127);
        }
        if rng.chance(1, 12) {
            let mut k = [0; 32];
            k.copy_from_slice(&rng.bytes(32));
            name = model::user_key(&k);
        }
        let n = if rng.chance(1, 3) { Node::empty() } else { Node::File(gen::small_content(rng)) };
        t.put(&format!("{}/{}", at, name), n);
    }
}

fn nontrivial(t: &Node) -> Option<u64> {
    match t {
        Node::Dir(d) if d.is_empty() => None,
        t => Some(t.fingerprint()),
    }
}

fn empties(t: &Node) -> u64 {
    match t {
        Node::File(_) => 0,
        Node::Dir(d) if d.is_empty() => 1,
        Node::Dir(d) => d.values().map(empties).sum(),
    }
}

pub fn same(out: &Path, t: &Node, how: &str) -> Res {
    let back = match read_tree(out) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => crate::viol!("tree-differs", "{}: {}", how, e),
        Err(e) => crate::viol!("tree-differs", "{}: nothing there: {}", how, e),
    };
    if let Some(d) = tree_diff(t, &back, "") {
        return crate::report::violation(
            "tree-differs",
            format!("{}: {}", how, d),
            json!({ "tree": t.describe() }),
        );
    }
    Ok(())
}

#[cfg(feature = "inproc")]
fn inproc(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    use crate::memds::*;
    let mut t = make(rng, i);
    if i % 4 == 0 && matches!(t, Node::Dir(_)) {
        salt(rng, &mut t);
    }
    let top = ctx.dir("t")?;
    let _rm = Rm(top.clone());
    let p = top.join("in");
    write_tree(&p, &t, Some(&mut rng.clone()))?;
    rng.next();
    let mut ds = MemDs::default();
    let key = match guarded(|| snapcd::dir::put_fs_item(&mut ds, &p, &|_| true)) {
        Ok(k) => k,
        Err(e) => crate::viol!("insert-fails", "storing a tree fails: {}", e),
    };
    let out = top.join("out");
    let r = guarded(|| snapcd::dir::get_fs_item(&ds, key.into(), &out));
    ctx.eval(nontrivial(&t));
    ctx.count("trees_fetched_in_process", 1);
    if let Err(e) = r {
        crate::viol!("fetch-fails", "fetching a stored tree fails: {}", e);
    }
    same(&out, &t, "stored and fetched in process")?;
    ctx.sample_in("inproc", t.describe());
    Ok(())
}

pub struct Rm(pub PathBuf);
impl Drop for Rm {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn program(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = make(rng, i);
    if i % 4 == 0 && matches!(t, Node::Dir(_)) {
        salt(rng, &mut t);
        ctx.count("trees_with_special_names", 1);
    }
    let by_commit = matches!(t, Node::Dir(_)) && rng.chance(1, 2);
    // Unpacked or copied with their times, all files have the same ones; many of them the same size, too.
    let equal_times = rng.chance(1, 3);
    let at = rng.below(2_000_000_000) as u64;
    if equal_times {
        if let Node::Dir(_) = t {
            let n = rng.range(2, 5);
            for k in 0..n {
                let d = if k % 2 == 0 { "" } else { "same size/" };
                t.put(&format!("{}equal {}", d, k), Node::File(format!("{:05}", rng.below(100_000)).into_bytes()));
            }
        }
        ctx.count("trees_with_equal_times", 1);
    }
    let key = if by_commit {
        crate::scen::put_root(&r, &t)?;
        if equal_times {
            crate::util::same_times(&r.root, at)?;
        }
        r.commit("m", None)?;
        model::user_key(&crate::scen::made(&r.db()?, &t, "m", None)?.tree)
    } else {
        let p = if rng.chance(1, 2) {
            r.top.join("in")
        } else {
            r.root.join("in")
        };
        write_tree(&p, &t, Some(&mut rng.clone()))?;
        rng.next();
        if equal_times {
            crate::util::same_times(&p, at)?;
        }
        let run = match rng.below(3) {
            0 => r.prep(&r.root, &["insert".as_ref(), p.as_os_str()]),
            1 => {
                // relative
                let rel = if p.starts_with(&r.root) { "in" } else { "../in" };
                r.prep(&r.root, &["insert", rel])
            }
            _ if p.starts_with(&r.root) && p.is_dir() => r.prep(&p, &["insert", "."]),
            _ => r.prep(&r.root, &["insert".as_ref(), p.as_os_str()]),
        };
        let o = crate::shim::false_sizes(rng, run, &r).go()?;
        ensure!(o.ok(), "insert-fails", "{}", o.brief());
        let k = inserted_key(&o)?;
        if rng.chance(1, 2) {
            // the source is gone
            let _ = std::fs::remove_dir_all(&p);
            let _ = std::fs::remove_file(&p);
        }
        k
    };
    // Other things are stored meanwhile.
    if rng.chance(1, 3) {
        let other = make(rng, 0);
        let p = r.top.join("other");
        write_tree(&p, &other, None)?;
        r.insert(&p)?;
    }
    let id = match rng.below(3) {
        0 => key[..30].to_string(),
        _ => key.clone(),
    };
    let dest = r.top.join("dest");
    let (out, cwd) = match rng.below(4) {
        0 => (dest.join("out"), r.root.clone()),
        1 => (dest.join("deep/er/out"), r.root.clone()),
        2 => {
            std::fs::create_dir(&dest)?;
            std::fs::create_dir(dest.join("out"))?;
            if let Node::File(_) = t {
                std::fs::remove_dir(dest.join("out"))?;
            }
            (dest.join("out"), r.root.clone())
        }
        _ => {
            std::fs::create_dir_all(r.root.join("sub/dir"))?;
            (r.root.join("sub/dir/out"), r.root.join("sub/dir"))
        }
    };
    let arg: PathBuf = if out.starts_with(&cwd) && rng.chance(1, 2) {
        out.strip_prefix(&cwd).unwrap().to_path_buf()
    } else {
        out.clone()
    };
    let o = r.run_in(&cwd, &["fetch".as_ref(), std::ffi::OsStr::new(&id), arg.as_os_str()])?;
    ctx.eval(nontrivial(&t));
    ctx.count("trees_fetched", 1);
    ctx.count("empty_dirs_fetched", empties(&t));
    ctx.count("entries_compared", t.paths().len() as u64);
    if by_commit {
        ctx.count("commits_fetched", 1);
    }
    ensure!(o.ok(), "fetch-fails", "fetch {} fails: {}", id, o.brief());
    same(&out, &t, if by_commit { "commit and fetch" } else { "insert and fetch" })?;
    // Any part of it, too.
    let paths = t.paths();
    if !paths.is_empty() && rng.chance(1, 2) {
        let (p, _) = rng.pick(&paths).clone();
        let sub = t.get(&p).unwrap();
        let src = r.top.join("part");
        write_tree(&src, sub, None)?;
        let k = r.insert(&src)?;
        let out = r.top.join("partout");
        let o = r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&k), out.as_os_str()])?;
        ensure!(o.ok(), "fetch-fails", "fetch of a part fails: {}", o.brief());
        same(&out, sub, "insert and fetch a part")?;
        ctx.count("parts_fetched", 1);
    }
    ctx.sample_in("program", json!({ "key": key, "tree": t.describe(), "commit": by_commit }));
    Ok(())
}

/// More entries in one directory than sixteen bits can count.
fn crowd(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    let n = (1 << 16) + rng.range(1, 600);
    let mut t = Node::empty();
    if i % 2 == 0 {
        for k in 0..n {
            t.set(&format!("{}", k), Some(Node::File(if k % 1000 == 1 { format!("{}", k).into_bytes() } else { vec![] })));
        }
    } else {
        // in all
        for k in 0..n / 64 {
            let mut d = Node::empty();
            for j in 0..64 {
                d.set(&format!("{}", j), Some(if j == 1 { Node::empty() } else { Node::File(vec![]) }));
            }
            t.set(&format!("{}", k), Some(d));
        }
    }
    let p = r.top.join("in");
    write_tree(&p, &t, None)?;
    let o = r.run(&["insert".as_ref(), p.as_os_str()])?;
    ensure!(o.ok(), "insert-fails", "a tree of {} entries: {}", n, o.brief());
    let out = r.top.join("dest/out");
    let o = r.run(&["fetch".as_ref(), std::ffi::OsStr::new(&inserted_key(&o)?), out.as_os_str()])?;
    ensure!(o.ok(), "fetch-fails", "a tree of {} entries: {}", n, o.brief());
    ctx.eval(Some(t.fingerprint()));
    ctx.max("most_entries", n as u64);
    match read_tree(&out)? {
        Ok(back) => {
            if let Some(d) = tree_diff(&t, &back, "") {
                crate::viol!("tree-differs", "insert and fetch of {} entries: {}", n, d);
            }
        }
        Err(e) => crate::viol!("tree-differs", "{}", e),
    }
    Ok(())
}

/// A tree with something in it that cannot be stored.
fn refuse(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = make(rng, 0);
    t.set("keep", Some(Node::File(b"x".to_vec())));
    let commit = rng.chance(1, 2);
    let p = if commit { r.root.clone() } else { r.top.join("in") };
    if commit {
        crate::scen::put_root(&r, &t)?;
    } else {
        write_tree(&p, &t, None)?;
    }
    let dirs: Vec<String> = std::iter::once(String::new())
        .chain(t.paths().iter().filter(|x| x.1).map(|x| x.0.clone()))
        .collect();
    let d = p.join(rng.pick(&dirs));
    let names: [&[u8]; 4] = [b"bad\xff", b"\xc3(", b"ok\x80ok", b"\xed\xa0\x80"];
    let what;
    match i % 8 {
        0 | 1 => {
            let n = *rng.pick(&names);
            std::fs::write(d.join(os(n)), b"content")?;
            what = format!("a file named {:?}", os(n));
        }
        2 => {
            let n = *rng.pick(&names);
            std::fs::create_dir(d.join(os(n)))?;
            what = format!("a directory named {:?}", os(n));
        }
        3 => {
            let n = *rng.pick(&names);
            std::fs::create_dir(d.join(os(n)))?;
            std::fs::write(d.join(os(n)).join("in"), b"content")?;
            what = format!("a full directory named {:?}", os(n));
        }
        4 => {
            let c = std::ffi::CString::new(d.join("zz-fifo").as_os_str().as_bytes()).unwrap();
            if unsafe { libc::mkfifo(c.as_ptr(), 0o644) } != 0 {
                return Ok(());
            }
            what = "a FIFO".to_string();
        }
        5 => {
            std::os::unix::fs::symlink("nowhere", d.join("zz-link"))?;
            what = "a dangling link".to_string();
        }
        6 => {
            std::os::unix::fs::symlink("zz-loop", d.join("zz-loop"))?;
            what = "a link to itself".to_string();
        }
        _ => {
            let path = d.join("zz-sock");
            let cwd = std::os::unix::net::UnixListener::bind(&path);
            if cwd.is_err() {
                return Ok(()); // the path is too long for a socket
            }
            what = "a socket".to_string();
        }
    }
    let before = r.db()?;
    let o = if commit {
        r.run(&["commit", "-m", "m"])?
    } else {
        r.run(&["insert".as_ref(), p.as_os_str()])?
    };
    ctx.eval(Some(t.fingerprint() ^ i));
    if o.ok() {
        crate::viol!(
            "unrepresentable-accepted",
            "{} of a tree with {} succeeds: {}",
            if commit { "commit" } else { "insert" },
            what,
            o.text()
        );
    }
    ctx.count("unrepresentable_refused", 1);
    let after = r.db()?;
    if let Some(x) = before.diff(&after) {
        crate::viol!("failed-insert-stored", "after refusing {}: {}", what, x);
    }
    ctx.sample_in("unrepresentable", json!(what));
    Ok(())
}
