//! What status and compare ought to print, histories of commits, and other things several checks use.

use crate::cli::{Db, Out, Repo};
use crate::gen;
use crate::model;
use crate::report::Res;
use crate::rng::Rng;
use crate::util::{sync_tree, tree_diff, Node};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Listing {
    pub added: BTreeSet<String>,
    pub deleted: BTreeSet<String>,
    pub modified: BTreeSet<String>,
}

impl Listing {
    pub fn is_empty(&self) -> bool {
        self.added.is_empty() && self.deleted.is_empty() && self.modified.is_empty()
    }

    pub fn len(&self) -> usize {
        self.added.len() + self.deleted.len() + self.modified.len()
    }
}

/// Reads what status, compare and a refused checkout-head print. Lines before the first list are
/// returned too.
pub fn parse_listing(text: &str) -> Result<(Vec<String>, Listing), String> {
    let mut l = Listing::default();
    let mut head = Vec::new();
    let mut cur = 0;
    for line in text.split('\n') {
        let next = match line {
            "added:" => 1,
            "deleted:" => 2,
            "modified:" => 3,
            _ => 0,
        };
        if next > 0 {
            cur = next;
            continue;
        }
        if cur == 0 {
            if !line.is_empty() {
                head.push(line.to_string());
            }
            continue;
        }
        if line.is_empty() || line.starts_with("fatal:") {
            continue;
        }
        let p = match line.strip_prefix("  ") {
            Some(p) => p,
            None => return Err(format!("unexpected line {:?}", line)),
        };
        let set = match cur {
            1 => &mut l.added,
            2 => &mut l.deleted,
            _ => &mut l.modified,
        };
        let p = p.strip_suffix('/').unwrap_or(p);
        if !set.insert(p.to_string()) {
            return Err(format!("{:?} is listed twice", p));
        }
    }
    Ok((head, l))
}

fn outermost(all: BTreeSet<String>) -> BTreeSet<String> {
    let keep: BTreeSet<String> = all
        .iter()
        .filter(|p| {
            let mut at = 0;
            while let Some(i) = p[at..].find('/') {
                if all.contains(&p[..at + i]) {
                    return false;
                }
                at += i + 1;
            }
            true
        })
        .cloned()
        .collect();
    keep
}

/// The differences from `old` to `new`.
pub fn differences(old: Option<&Node>, new: &Node) -> Listing {
    let paths = |n: Option<&Node>| -> BTreeMap<String, bool> {
        n.map(|n| n.paths().into_iter().collect()).unwrap_or_default()
    };
    let (a, b) = (paths(old), paths(Some(new)));
    let mut l = Listing::default();
    let mut added = BTreeSet::new();
    let mut deleted = BTreeSet::new();
    for (p, dir) in &b {
        match a.get(p) {
            Some(d) if d == dir => {
                if !*dir && old.unwrap().get(p) != new.get(p) {
                    l.modified.insert(p.clone());
                }
            }
            _ => {
                added.insert(p.clone());
            }
        }
    }
    for (p, dir) in &a {
        if b.get(p) != Some(dir) {
            deleted.insert(p.clone());
        }
    }
    l.added = outermost(added);
    l.deleted = outermost(deleted);
    l
}

pub fn check_listing(what: &str, o: &Out, exp: &Listing, skip_head: bool) -> Res<Vec<String>> {
    let (head, got) = match parse_listing(&o.text()) {
        Ok(x) => x,
        Err(e) => crate::viol!("listing-unreadable", "{} prints: {}\n{}", what, e, o.text()),
    };
    if !skip_head && !head.is_empty() {
        crate::viol!("listing-unreadable", "{} prints {:?}", what, head);
    }
    for (n, g, e) in &[
        ("added", &got.added, &exp.added),
        ("deleted", &got.deleted, &exp.deleted),
        ("modified", &got.modified, &exp.modified),
    ] {
        if let Some(p) = e.difference(g).next() {
            crate::viol!(
                "difference-not-listed",
                "{} does not list {:?} as {}; it prints {:?}",
                what,
                p,
                n,
                o.text()
            );
        }
        if let Some(p) = g.difference(e).next() {
            crate::viol!("non-difference-listed", "{} lists {:?} as {}", what, p, n);
        }
    }
    Ok(head)
}

pub fn put_root(r: &Repo<'_>, t: &Node) -> Res {
    Ok(sync_tree(&r.root, t, &[".snapcd"])?)
}

#[derive(Clone, Debug)]
pub struct Made {
    pub key: model::Key,
    pub tree: model::Key,
    pub message: String,
    pub node: Node,
    pub refname: String,
}

/// Commits the working directory and checks nothing but success; gives what was made.
pub fn commit(r: &Repo<'_>, t: &Node, msg: &str, refname: Option<&str>) -> Res<Made> {
    put_root(r, t)?;
    r.commit(msg, refname)?;
    let db = r.db()?;
    made(&db, t, msg, refname)
}

pub fn made(db: &Db, t: &Node, msg: &str, refname: Option<&str>) -> Res<Made> {
    let name = match refname {
        Some(n) => n.to_string(),
        None => db.head().unwrap_or_default(),
    };
    let k = match db.tip(&name).map(|k| model::from_dbkey(k)) {
        Some(Ok(k)) => k,
        _ => crate::viol!("commit-not-recorded", "after a commit, {:?} has no key", name),
    };
    let c = match model::commit(&db.data, &k) {
        Ok(c) => c,
        Err(e) => crate::viol!("commit-not-stored", "after a commit: {}", e),
    };
    Ok(Made {
        key: k,
        tree: c.tree,
        message: msg.to_string(),
        node: t.clone(),
        refname: name,
    })
}

/// Some commits, each with a few edits.
pub fn history(r: &Repo<'_>, rng: &mut Rng, n: usize, o: &gen::TreeOpts) -> Res<Vec<Made>> {
    let mut t = gen::tree(rng, o);
    t.dir_mut().remove(".snapcd");
    let mut out = Vec::new();
    for i in 0..n {
        if i > 0 {
            for _ in 0..rng.range(1, 4) {
                gen::edit(rng, &mut t, o);
            }
        }
        let msg = format!("{} #{}", gen::message(rng), i);
        out.push(commit(r, &t, &msg, None)?);
    }
    Ok(out)
}

/// The tree that a key stands for is this one.
pub fn check_tree(what: &str, db: &Db, k: &model::Key, t: &Node) -> Res {
    let got = match model::tree(&db.data, k) {
        Ok(g) => g,
        Err(e) => crate::viol!("stored-tree-incomplete", "{}: {}", what, e),
    };
    if let Some(d) = tree_diff(t, &got, "") {
        crate::viol!("stored-tree-differs", "{}: {}", what, d);
    }
    Ok(())
}

pub fn parse_key(k: &str) -> Res<model::Key> {
    match model::parse_user_key(k.trim()) {
        Some(k) => Ok(k),
        None => crate::report::violation(
            "not-a-key",
            format!("{:?} was printed as a key", k),
            serde_json::Value::Null,
        ),
    }
}
