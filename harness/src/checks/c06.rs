//! C06: the key of a directory depends only on its contents.

use crate::cli::{inserted_key, Repo};
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::{write_tree, Node};
use crate::{ensure, shim};
use serde_json::json;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Mutex;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "The same tree is built several times with its entries created in other orders, listed in other orders (the shim shuffles \
directory listings), with other times, modes and places, as hard links, and stored by insert, by commit and in process: all keys must be equal. \
Trees one edit apart (a byte, a name, a move, a swap, a file for an empty directory) must get different keys, and so must all \
different trees of a run. Non-trivial: a tree with at least two entries in one directory. Distinct by tree.",
    assumptions: &["no two different contents have the same BLAKE3 hash"],
    needed: &["same_tree_compared", "other_tree_compared", "shuffled_listings"],
    needed_inproc: &["same_tree_compared_in_process"],
};

pub fn run(ctx: &Ctx) {
    let seen = Mutex::new(HashMap::new());
    #[cfg(feature = "inproc")]
    ctx.cases("inproc", ctx.n(7000, 50000), |rng, i| inproc(ctx, rng, i, &seen));
    ctx.cases("program", ctx.n(1600, 12000), |rng, i| program(ctx, rng, i, &seen));
}

fn make(rng: &mut Rng, i: u64) -> Node {
    if i % 12 == 5 {
        let mut t = Node::empty();
        for k in 0..rng.range(20, 300) {
            let n = format!("{}{}", gen::name(rng, true), k);
            t.set(&n, Some(Node::File(gen::small_content(rng))));
        }
        return t;
    }
    gen::tree(
        rng,
        &gen::TreeOpts {
            depth: 4,
            width: 7,
            ..gen::TreeOpts::small()
        },
    )
}

fn nontrivial(t: &Node) -> Option<u64> {
    fn any(t: &Node) -> bool {
        match t {
            Node::Dir(d) => d.len() > 1 || d.values().any(any),
            _ => false,
        }
    }
    if any(t) {
        Some(t.fingerprint())
    } else {
        None
    }
}

/// The smallest changes that could be missed.
fn vary(rng: &mut Rng, t: &Node) -> Node {
    let mut u = t.clone();
    let paths = t.paths();
    if paths.is_empty() {
        u.set("a", Some(Node::empty()));
        return u;
    }
    let (p, dir) = rng.pick(&paths).clone();
    let (par, base) = match p.rfind('/') {
        Some(i) => (p[..i].to_string(), p[i + 1..].to_string()),
        None => (String::new(), p.clone()),
    };
    let at = |n: &str| {
        if par.is_empty() {
            n.to_string()
        } else {
            format!("{}/{}", par, n)
        }
    };
    match rng.below(11) {
        // kind
        0 => {
            let e = match t.get(&p) {
                Some(Node::File(b)) if b.is_empty() => Node::empty(),
                Some(Node::Dir(d)) if d.is_empty() => Node::File(vec![]),
                _ => {
                    if dir {
                        Node::File(vec![])
                    } else {
                        Node::empty()
                    }
                }
            };
            u.set(&p, Some(e));
        }
        // name
        1 => {
            let v = t.get(&p).cloned();
            u.set(&p, None);
            let n = if base.len() < 250 { format!("{}x", base) } else { "x".repeat(base.len()) };
            u.set(&at(&n), v);
        }
        2 => {
            // case
            let other: String = base
                .chars()
                .map(|c| {
                    if c.is_ascii_lowercase() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                })
                .collect();
            let v = t.get(&p).cloned();
            u.set(&p, None);
            u.set(&at(&other), v);
        }
        // one level deeper, or up
        3 => {
            let v = t.get(&p).cloned();
            u.set(&p, None);
            let mut d = Node::empty();
            d.set(&base, v);
            u.set(&at("wrap"), Some(d));
        }
        4 => {
            let v = t.get(&p).cloned();
            u.set(&p, None);
            u.set(&base, v);
        }
        // two contents swapped
        5 | 6 => {
            let q = rng.pick(&paths).0.clone();
            if !q.starts_with(&p) && !p.starts_with(&q) {
                let (a, b) = (t.get(&p).cloned(), t.get(&q).cloned());
                u.set(&p, b);
                u.set(&q, a);
            }
        }
        7 => u.set(&p, None),
        8 => {
            if let Some(Node::File(b)) = u.get_mut(&p) {
                if b.is_empty() {
                    b.push(0);
                } else {
                    let i = rng.below(b.len());
                    b[i] ^= 1 << rng.below(8);
                }
            } else {
                u.set(&format!("{}/new", p), Some(Node::empty()));
            }
        }
        9 => {
            // the same thing once more, under another name
            let v = t.get(&p).cloned();
            u.set(&at("copy of it"), v);
        }
        _ => {
            gen::edit(
                rng,
                &mut u,
                &gen::TreeOpts {
                    depth: 2,
                    ..gen::TreeOpts::small()
                },
            );
        }
    }
    u
}

type Seen = Mutex<HashMap<String, u64>>;

/// Different trees of the whole run have different keys.
fn note(seen: &Seen, key: &str, t: &Node) -> Res {
    let f = t.fingerprint();
    if let Some(g) = seen.lock().unwrap().insert(key.to_string(), f) {
        ensure!(
            g == f,
            "other-tree-same-key",
            "two different trees stored in this run have the same key {}",
            key
        );
    }
    Ok(())
}

/// Changes everything about a tree that does not count.
fn disguise(rng: &mut Rng, p: &Path, t: &Node) -> std::io::Result<()> {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::PermissionsExt;
    for (q, dir) in t.paths() {
        let f = p.join(&q);
        if rng.chance(1, 2) {
            let m = if dir {
                *rng.pick(&[0o700, 0o755, 0o777, 0o1777][..])
            } else {
                *rng.pick(&[0o600, 0o644, 0o755, 0o4755, 0o444][..])
            };
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(m))?;
        }
        if rng.chance(1, 2) {
            let c = std::ffi::CString::new(f.as_os_str().as_bytes()).unwrap();
            let ts = libc::timespec {
                tv_sec: rng.below(2_000_000_000) as i64,
                tv_nsec: rng.below(1_000_000_000) as i64,
            };
            unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), 0) };
        }
    }
    Ok(())
}

#[cfg(feature = "inproc")]
fn inproc(ctx: &Ctx, rng: &mut Rng, i: u64, seen: &Seen) -> Res {
    use crate::memds::*;
    let t = make(rng, i);
    let top = ctx.dir("t")?;
    let _rm = super::c04::Rm(top.clone());
    let put = |p: &Path| -> Res<String> {
        let mut ds = MemDs::default();
        match guarded(|| snapcd::dir::put_fs_item(&mut ds, p, &|_| true)) {
            Ok(k) => Ok(model::user_key(&key_bytes(k))),
            Err(e) => crate::report::violation(
                "insert-fails",
                format!("storing a tree fails: {}", e),
                json!(null),
            ),
        }
    };
    let a = top.join("a");
    write_tree(&a, &t, Some(&mut rng.clone()))?;
    rng.next();
    let ka = put(&a)?;
    let b = top.join("some other place");
    write_tree(&b, &t, Some(&mut rng.clone()))?;
    rng.next();
    disguise(rng, &b, &t)?;
    let kb = put(&b)?;
    ctx.count("same_tree_compared_in_process", 1);
    ctx.eval(nontrivial(&t));
    if ka != kb {
        return crate::report::violation(
            "same-tree-other-key",
            format!("the same tree has keys {} and {}", ka, kb),
            json!({ "tree": t.describe() }),
        );
    }
    note(seen, &ka, &t)?;
    for k in 0..2 {
        let u = vary(rng, &t);
        let c = top.join(format!("c{}", k));
        write_tree(&c, &u, None)?;
        let kc = put(&c)?;
        if u != t {
            ctx.count("other_tree_compared", 1);
            if kc == ka {
                return crate::report::violation(
                    "other-tree-same-key",
                    format!("two different trees have the key {}", ka),
                    json!({ "one": t.describe(), "other": u.describe() }),
                );
            }
        } else {
            ensure!(kc == ka, "same-tree-other-key", "the same tree has keys {} and {}", ka, kc);
        }
        note(seen, &kc, &u)?;
    }
    Ok(())
}

fn program(ctx: &Ctx, rng: &mut Rng, i: u64, seen: &Seen) -> Res {
    let r = Repo::new(ctx)?;
    let t = make(rng, i);
    let mut keys: Vec<(String, String)> = Vec::new();
    let a = r.top.join("a");
    write_tree(&a, &t, Some(&mut rng.clone()))?;
    rng.next();
    keys.push((r.insert(&a)?, "insert".into()));
    for k in 0..2 {
        let b = r.top.join(format!("another place {}", k)).join("deep");
        std::fs::create_dir_all(b.parent().unwrap())?;
        write_tree(&b, &t, Some(&mut rng.clone()))?;
        rng.next();
        disguise(rng, &b, &t)?;
        let seed = rng.below(1 << 30);
        let o = shim::attach(r.prep(&r.root, &["insert".as_ref(), b.as_os_str()]), &r)
            .env("VS_DATA", &r.top)
            .env("VS_SHUFFLE", seed.to_string())
            .go()?;
        ensure!(o.ok(), "insert-fails", "insert fails: {}", o.brief());
        ctx.count("shuffled_listings", 1);
        keys.push((inserted_key(&o)?, "insert elsewhere, entries created and listed in another order".into()));
    }
    // By other ways to name it.
    let o = r.must_in(
        &a,
        &["-d".as_ref(), r.root.join(".snapcd").as_os_str(), "insert".as_ref(), ".".as_ref()],
    )?;
    keys.push((inserted_key(&o)?, "insert .".into()));
    let o = r.must(&["insert", "../a/"])?;
    keys.push((inserted_key(&o)?, "insert ../a/".into()));
    std::os::unix::fs::symlink(&a, r.top.join("link"))?;
    let o = r.must(&["insert".as_ref(), r.top.join("link").as_os_str()])?;
    keys.push((inserted_key(&o)?, "insert through a link".into()));
    // By commit, of the working directory and of a path.
    let m = crate::scen::commit(&r, &t, "m", None)?;
    keys.push((model::user_key(&m.tree), "commit".into()));
    r.must(&["commit".as_ref(), "-p".as_ref(), a.as_os_str(), "-m".as_ref(), "m".as_ref()])?;
    let m = crate::scen::made(&r.db()?, &t, "m", None)?;
    keys.push((model::user_key(&m.tree), "commit -p".into()));
    // In another repository.
    let r2 = Repo::new(ctx)?;
    keys.push((r2.insert(&a)?, "insert in another repository".into()));
    ctx.eval(nontrivial(&t));
    for (k, how) in &keys[1..] {
        ctx.count("same_tree_compared", 1);
        if *k != keys[0].0 {
            return crate::report::violation(
                "same-tree-other-key",
                format!("the same tree has key {} ({}) and {} ({})", keys[0].0, keys[0].1, k, how),
                json!({ "tree": t.describe() }),
            );
        }
    }
    note(seen, &keys[0].0, &t)?;
    let u = vary(rng, &t);
    let c = r.top.join("varied");
    write_tree(&c, &u, None)?;
    let kc = r.insert(&c)?;
    ctx.count("other_tree_compared", 1);
    ensure!(
        (kc == keys[0].0) == (u == t),
        "other-tree-same-key",
        "two different trees have the key {}",
        kc
    );
    note(seen, &kc, &u)?;
    ctx.sample_in("program", json!({ "key": kc, "tree": t.describe() }));
    Ok(())
}
