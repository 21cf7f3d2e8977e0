//! C16: log and show describe each commit exactly.

use super::c14::{changed_files, parse_stat};
use crate::cli::{Out, Repo};
use crate::ensure;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Fail, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, Made};
use crate::util::{fnv, lossy, Node};
use serde_json::json;
use std::collections::BTreeMap;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Histories of random commits (hostile messages and names, text files made to share, repeat and lose lines, files without final newline, with empty, CR and very long lines; binary \
files; moved refs; commits with several parents, of which the stored first one counts; a hundred commits, and more than ten thousand) are logged from the tip and from older commits and shown one by one. The output is parsed against the history that is known: keys and messages in \
order, exactly the files that differ, line counts that fit both versions (with a longest common subsequence as bound), and every patch of a changed text file is applied to the old content by a \
strict reference which checks every context line and line number, and must give the new content. Non-trivial: a commit described, distinct by its changes.",
    assumptions: &["names contain no line break", "of several parents, log follows the one show compares with: the one stored first"],
    needed: &["commits_logged", "commits_shown", "patches_applied", "hunks_applied", "stat_lines", "logs_from_older", "root_commits_shown", "files_shown", "commits_with_several_parents"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("very-long", ctx.n(2, 8), |rng, i| very_long(ctx, rng, i));
    ctx.cases("history", ctx.n(1000, 9000), |rng, i| history(ctx, rng, i));
    ctx.cases("patches", ctx.n(1000, 9000), |rng, i| patches(ctx, rng, i));
    ctx.cases("merges", ctx.n(200, 1800), |rng, i| merges(ctx, rng, i));
    ctx.cases("long", ctx.n(8, 60), |rng, i| long(ctx, rng, i));
}

type Changes = Vec<(String, Option<Vec<u8>>, Option<Vec<u8>>)>;

fn changes(parent: Option<&Made>, m: &Made) -> Changes {
    changed_files(parent.map(|p| &p.node), &m.node)
}

fn lcs(a: &[&str], b: &[&str]) -> usize {
    let mut row = vec![0; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

/// Ways to see lines: with and without what follows the last line break, by any line end.
fn conventions(t: &str) -> Vec<Vec<&str>> {
    vec![t.split('\n').collect(), t.lines().collect(), t.split_terminator('\n').collect()]
}

/// The counts add up to what the file has more or less (in line breaks), and are those of some way
/// to get from one content to the other.
fn counts_fit(old: Option<&[u8]>, new: Option<&[u8]>, a: u64, b: u64) -> bool {
    let breaks = |x: Option<&[u8]>| x.map_or(0, |x| x.iter().filter(|c| **c == b'\n').count()) as i64;
    let (a, b) = (a as i64, b as i64);
    if a - b != breaks(new) - breaks(old) {
        return false;
    }
    let (o, n) = match (old, new) {
        (Some(o), Some(n)) => (lossy(o), lossy(n)),
        (None, _) => return b == 0,
        _ => return a == 0,
    };
    let (x, y): (Vec<&str>, Vec<&str>) = (o.split('\n').collect(), n.split('\n').collect());
    let (lx, ly) = (x.len() as i64, y.len() as i64);
    if a > ly || b > lx {
        return false;
    }
    lx * ly > 4_000_000 || a >= ly - lcs(&x, &y) as i64
}

fn check_stats(what: &str, lines: &[&str], exp: &Changes) -> Res {
    let got = match parse_stat(lines) {
        Ok(g) => g,
        Err(e) => crate::viol!("log-unreadable", "{}: {}", what, e),
    };
    for (p, old, new) in exp {
        let (a, b) = match got.get(p) {
            Some(x) => *x,
            None => crate::viol!("change-not-listed", "{} does not list {:?}", what, p),
        };
        ensure!(
            counts_fit(old.as_deref(), new.as_deref(), a, b),
            "line-counts-wrong",
            "{}: {:?} is listed with +{} -{}, from {:?} to {:?}",
            what, p, a, b,
            old.as_ref().map(|x| lossy(&x[..x.len().min(300)])), new.as_ref().map(|x| lossy(&x[..x.len().min(300)]))
        );
    }
    ensure!(got.len() == exp.len(), "non-change-listed", "{} lists {} files and {} changed: {:?}", what, got.len(), exp.len(), lines);
    Ok(())
}

/// The log of a chain, newest first. `parents[i]` is what commit i is compared with.
fn check_log(ctx: &Ctx, what: &str, o: &Out, chain: &[(&Made, Option<&Made>)]) -> Res {
    let text = o.text();
    let mut rest: &str = &text;
    for (i, (m, parent)) in chain.iter().enumerate() {
        let head = format!("commit: {}\n\n{}\n\n", model::user_key(&m.key), m.message);
        rest = match rest.strip_prefix(&head) {
            Some(r) => r,
            None => crate::viol!(
                "log-wrong-commit",
                "{}: entry {} should begin with {:?}, and it goes on {:?}",
                what, i, head.chars().take(300).collect::<String>(), rest.chars().take(300).collect::<String>()
            ),
        };
        let exp = changes(*parent, m);
        let mut lines = vec![];
        while !rest.starts_with('\n') && !rest.is_empty() {
            let e = rest.find('\n').unwrap_or(rest.len() - 1);
            lines.push(&rest[..e]);
            rest = &rest[e + 1..];
        }
        check_stats(&format!("{}: entry {}", what, i), &lines, &exp)?;
        ctx.count("stat_lines", lines.len() as u64);
        rest = rest.strip_prefix("\n\n").unwrap_or(rest);
        ctx.count("commits_logged", 1);
    }
    ensure!(rest.trim().is_empty(), "log-wrong-commit", "{}: after the root there is {:?}", what, rest.chars().take(300).collect::<String>());
    Ok(())
}

#[derive(Debug)]
struct Hunk<'a> {
    old: (usize, usize),
    new: (usize, usize),
    lines: Vec<(char, &'a str)>,
}

fn unquote(s: &str) -> String {
    if !(s.starts_with('"') && s.ends_with('"') && s.len() > 1) {
        return s.to_string();
    }
    let mut out = String::new();
    let mut it = s[1..s.len() - 1].chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

fn parse_patches(text: &str) -> Result<BTreeMap<String, Vec<Hunk<'_>>>, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let mut out = BTreeMap::new();
    let mut i = 0;
    let range = |s: &str| -> Option<(usize, usize)> {
        let mut it = s.split(',');
        let a = it.next()?.parse().ok()?;
        let b = match it.next() {
            Some(x) => x.parse().ok()?,
            None => 1,
        };
        Some((a, b))
    };
    while i < lines.len() {
        if lines[i].is_empty() {
            i += 1;
            continue;
        }
        let a = lines[i].strip_prefix("--- ").ok_or_else(|| format!("expected a patch, found {:?}", lines[i]))?;
        let b = lines.get(i + 1).and_then(|x| x.strip_prefix("+++ ")).ok_or_else(|| format!("no +++ after {:?}", lines[i]))?;
        if a != b {
            return Err(format!("a patch of {:?} to {:?}", a, b));
        }
        i += 2;
        let mut hunks = vec![];
        while i < lines.len() && lines[i].starts_with("@@ ") {
            let bad = || format!("cannot read {:?}", lines[i]);
            let f: Vec<&str> = lines[i].split(' ').collect();
            if f.len() < 4 {
                return Err(bad());
            }
            let old = f[1].strip_prefix('-').and_then(range).ok_or_else(bad)?;
            let new = f[2].strip_prefix('+').and_then(range).ok_or_else(bad)?;
            i += 1;
            let mut h = Hunk { old, new, lines: vec![] };
            let (mut o, mut n) = (0, 0);
            while o < old.1 || n < new.1 {
                let l = lines.get(i).ok_or_else(|| "a hunk ends too early".to_string())?;
                let c = l.chars().next().ok_or_else(|| format!("an empty line in a hunk {:?}", h))?;
                match c {
                    ' ' => {
                        o += 1;
                        n += 1;
                    }
                    '-' => o += 1,
                    '+' => n += 1,
                    _ => return Err(format!("a hunk is shorter than its header says: {:?}", l)),
                }
                h.lines.push((c, &l[1..]));
                i += 1;
            }
            if o != old.1 || n != new.1 {
                return Err(format!("a hunk is not what its header says: {:?}", h));
            }
            hunks.push(h);
        }
        if out.insert(unquote(a), hunks).is_some() {
            return Err(format!("two patches of {:?}", a));
        }
    }
    Ok(out)
}

fn segments(t: &str) -> Vec<&str> {
    // A file without content has no line.
    if t.is_empty() {
        vec![]
    } else {
        t.split('\n').collect()
    }
}

fn apply<'a>(old: &'a str, hunks: &[Hunk<'a>]) -> Result<String, String> {
    let segs = segments(old);
    let mut out: Vec<&str> = vec![];
    let mut at = 0;
    for h in hunks {
        let start = if h.old.1 == 0 { at.max(h.old.0.saturating_sub(1)) } else { h.old.0.checked_sub(1).ok_or("line 0")? };
        if start < at || start > segs.len() {
            return Err(format!("a hunk begins at line {} after line {}", h.old.0, at));
        }
        out.extend(&segs[at..start]);
        at = start;
        if h.new.1 > 0 && out.len() + 1 != h.new.0 {
            return Err(format!("a hunk says it begins at new line {} and begins at {}", h.new.0, out.len() + 1));
        }
        for (c, l) in &h.lines {
            match c {
                '+' => out.push(l),
                c => {
                    if segs.get(at) != Some(l) {
                        return Err(format!("{:?} expected at line {}, found {:?}", l, at + 1, segs.get(at)));
                    }
                    at += 1;
                    if *c == ' ' {
                        out.push(l);
                    }
                }
            }
        }
    }
    out.extend(&segs[at..]);
    Ok(out.join("\n"))
}

fn check_show(ctx: &Ctx, what: &str, o: &Out, m: &Made, parent: Option<&Made>) -> Res {
    let exp = changes(parent, m);
    let text_of = |b: &Option<Vec<u8>>| b.as_ref().map_or(true, |b| std::str::from_utf8(b).is_ok());
    let all_text = exp.iter().all(|(_, a, b)| text_of(a) && text_of(b));
    if !o.ok() {
        ensure!(!all_text, "show-fails", "{} fails: {}", what, o.brief());
        ctx.count("shows_refused_for_binary", 1);
        return Ok(());
    }
    let text = match String::from_utf8(o.stdout.clone()) {
        Ok(t) => t,
        Err(_) => crate::viol!("show-unreadable", "{} prints bytes that are no text", what),
    };
    let head = format!("commit: {}\n\n{}\n\n", model::user_key(&m.key), m.message);
    let rest = match text.strip_prefix(&head) {
        Some(r) => r,
        None => crate::viol!("show-wrong-commit", "{} should begin with {:?}: {:?}", what, head, text.chars().take(300).collect::<String>()),
    };
    if !all_text {
        // Patches of what is no text need not mean anything; the names are there.
        for (p, _, _) in &exp {
            ensure!(rest.contains(p.as_str()) || p.chars().any(|c| " \t\"\\".contains(c)), "change-not-listed", "{} does not name {:?}", what, p);
        }
        return Ok(());
    }
    let got = match parse_patches(rest) {
        Ok(g) => g,
        Err(e) => crate::viol!("patch-unreadable", "{}: {}; it prints {:?}", what, e, rest.chars().take(2000).collect::<String>()),
    };
    for (p, old, new) in &exp {
        let hunks = match got.get(p) {
            Some(h) => h,
            None => crate::viol!("change-not-listed", "{} has no patch of {:?}: {:?}", what, p, got.keys()),
        };
        ctx.count("hunks_applied", hunks.len() as u64);
        let s = |b: &Option<Vec<u8>>| String::from_utf8(b.clone().unwrap_or_default()).unwrap();
        let (o, n) = (s(old), s(new));
        let added = old.is_none();
        if let (Some(_), Some(_)) = (old, new) {
            match apply(&o, hunks) {
                Ok(g) => ensure!(
                    g == n,
                    "patch-gives-other-content",
                    "{}: the patch of {:?} turns {:?} into {:?} instead of {:?}", what, p, o.chars().take(400).collect::<String>(), g.chars().take(400).collect::<String>(),
                    n.chars().take(400).collect::<String>()
                ),
                Err(e) => crate::viol!("patch-does-not-apply", "{}: the patch of {:?} does not apply: {}\n{:?}\n{:?}", what, p, e, o, hunks),
            }
        } else {
            // All the lines of a new or deleted file.
            let lines: Vec<(char, &str)> = hunks.iter().flat_map(|h| h.lines.iter().cloned()).collect();
            let full = if added { &n } else { &o };
            let c = if added { '+' } else { '-' };
            let trim = |x: &str| x.trim_end_matches('\r').to_string();
            let g: Vec<(char, String)> = lines.iter().map(|(c, l)| (*c, trim(l))).collect();
            let fits = conventions(full).iter().any(|v| {
                let v: Vec<(char, String)> = v.iter().map(|l| (c, trim(l))).collect();
                v == g
            }) || (full.is_empty() && g.is_empty());
            ensure!(fits, "patch-gives-other-content", "{}: {:?} with content {:?} is shown as {:?}", what, p, full.chars().take(400).collect::<String>(), hunks);
        }
        ctx.count("patches_applied", 1);
    }
    ensure!(got.len() == exp.len(), "non-change-listed", "{} has {} patches, {} files changed: {:?}", what, got.len(), exp.len(), got.keys());
    Ok(())
}

fn fp(c: &Changes) -> u64 {
    fnv(format!("{:?}", c).as_bytes())
}

fn describe(ctx: &Ctx, r: &Repo<'_>, rng: &mut Rng, chain: &[Made], show: bool) -> Res {
    let all: Vec<(&Made, Option<&Made>)> = (0..chain.len()).rev().map(|i| (&chain[i], if i > 0 { Some(&chain[i - 1]) } else { None })).collect();
    let mut cwd = super::c12::any_dir(rng, &r.root, &chain.last().unwrap().node);
    if !cwd.is_dir() {
        cwd = r.root.clone();
    }
    let o = r.must_in(&cwd, &["log"])?;
    check_log(ctx, "log", &o, &all)?;
    let tip = chain.last().unwrap();
    check_log(ctx, "log of the ref", &r.must(&["log", &format!("/{}", tip.refname)])?, &all)?;
    let i = rng.below(chain.len());
    let k = model::user_key(&chain[i].key);
    let o = r.must(&["log", &k])?;
    check_log(ctx, "log of an older commit", &o, &all[chain.len() - 1 - i..])?;
    ctx.count("logs_from_older", 1);
    for (m, p) in &all {
        ctx.eval(Some(fp(&changes(*p, m))));
    }
    if show {
        let o = r.run(&["show"])?;
        check_show(ctx, "show", &o, all[0].0, all[0].1)?;
        for (m, p) in &all {
            let k = model::user_key(&m.key);
            let o = r.run(&["show", &k])?;
            check_show(ctx, &format!("show {}", k), &o, m, *p)?;
            ctx.count("commits_shown", 1);
            if p.is_none() {
                ctx.count("root_commits_shown", 1);
            }
        }
    }
    Ok(())
}

fn history(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { text_only: rng.chance(1, 2), plain_names: rng.chance(1, 3), ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    let mut chain: Vec<Made> = vec![];
    for i in 0..rng.range(1, 6) {
        if i > 0 && rng.chance(6, 7) {
            for _ in 0..rng.range(1, 5) {
                gen::edit(rng, &mut t, &o);
            }
        }
        t.dir_mut().remove(".snapcd");
        let msg = super::c12::message(rng);
        chain.push(scen::commit(&r, &t, &msg, None)?);
        if rng.chance(1, 6) {
            // The ref is moved back: what is committed next follows from there.
            let j = rng.below(chain.len());
            r.must(&["ref", "update", &model::user_key(&chain[j].key)])?;
            chain.truncate(j + 1);
        }
    }
    describe(ctx, &r, rng, &chain, true)?;
    // Show of what is no commit: a file gives its content, a directory its key.
    let m = chain.last().unwrap();
    let o = r.must(&["show", &model::user_key(&m.tree)])?;
    ensure!(o.text().contains(&model::user_key(&m.tree)), "show-wrong-object", "show of a tree prints {:?}", o.text());
    let files: Vec<String> = m.node.paths().into_iter().filter(|p| !p.1).map(|p| p.0).collect();
    if !files.is_empty() {
        let p = rng.pick(&files).clone();
        if let Some(Node::File(b)) = m.node.get(&p) {
            let (k, _) = model::collect(|s| model::store_tree(&Node::File(b.clone()), s));
            let db = r.db()?;
            if db.data.contains_key(&model::dbkey(&k)) {
                let o = r.must(&["show", &model::user_key(&k)])?;
                ensure!(o.stdout == *b, "show-wrong-object", "show of a file prints {} bytes, it has {}", o.stdout.len(), b.len());
                ctx.count("files_shown", 1);
            }
        }
    }
    ctx.sample_in("history", json!({ "case": case, "commits": chain.len() }));
    Ok(())
}

/// Texts made so that their lines repeat, move, and end in every way.
fn lines(rng: &mut Rng, n: usize) -> Vec<String> {
    let pool = ["", "a", "b", "c", "}", "{", " ", "x\r", "- a", "+ b", "@@ -1,1 +1,1 @@", "--- f", "+++ f", "\\ No newline at end of file", "é", "\t", "commit: b"];
    let kinds = rng.range(1, pool.len());
    (0..n)
        .map(|i| match rng.below(10) {
            0 => format!("line {}", i),
            1 => "long ".repeat(rng.range(1, 60)),
            _ => pool[rng.below(kinds)].to_string(),
        })
        .collect()
}

fn textual(rng: &mut Rng, v: &[String]) -> Vec<u8> {
    let mut s = v.join("\n");
    match rng.below(4) {
        0 => {}
        1 => s.push_str("\n\n"),
        _ => s.push('\n'),
    }
    s.into_bytes()
}

fn patches(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let nf = rng.range(1, 4);
    let max = *rng.pick(&[3, 10, 30, 120]);
    let mut texts: Vec<Vec<String>> = (0..nf)
        .map(|_| {
            let n = rng.below(max + 1);
            lines(rng, n)
        })
        .collect();
    let mut chain = vec![];
    let mut t = Node::empty();
    for i in 0..rng.range(2, 5) {
        for (j, v) in texts.iter_mut().enumerate() {
            let name = ["f", "dir/g", "a name", "dir/sub/h", "i"][j];
            if i > 0 {
                match rng.below(8) {
                    0 => v.clear(),
                    1 => v.reverse(),
                    2 => {
                        let n = rng.below(max + 1);
                        *v = lines(rng, n)
                    }
                    3 => {
                        let w = v.clone();
                        v.extend(w);
                        v.truncate(300);
                    }
                    4 => {}
                    _ => {
                        for _ in 0..rng.range(1, 5) {
                            let at = rng.below(v.len() + 1);
                            match rng.below(3) {
                                0 => v.insert(at, lines(rng, 1).pop().unwrap()),
                                1 if at < v.len() => {
                                    v.remove(at);
                                }
                                _ if at < v.len() => v[at] = format!("new {}", rng.below(5)),
                                _ => v.push("end".into()),
                            }
                        }
                    }
                }
            }
            if name.contains('/') && t.get("dir").is_none() {
                t.set("dir", Some(Node::empty()));
                t.set("dir/sub", Some(Node::empty()));
            }
            let b = if v.is_empty() && rng.chance(1, 2) { vec![] } else { textual(rng, v) };
            t.set(name, Some(Node::File(b)));
        }
        chain.push(scen::commit(&r, &t, &format!("p{}", i), None)?);
    }
    describe(ctx, &r, rng, &chain, true)?;
    ctx.sample_in("patches", json!({ "case": case, "commits": chain.len(), "files": nf, "lines": max }));
    Ok(())
}

fn long(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = Node::empty();
    let mut chain = vec![];
    for i in 0..ctx.n(100, 400) {
        t.set(&format!("f{}", rng.below(8)), Some(Node::File(format!("{}\n{}\n", i, rng.below(5)).into_bytes())));
        chain.push(scen::commit(&r, &t, &format!("commit {}", i % 7), None)?);
    }
    describe(ctx, &r, rng, &chain, false)?;
    for i in 0..10 {
        let j = rng.below(chain.len());
        let o = r.run(&["show", &model::user_key(&chain[j].key)])?;
        check_show(ctx, &format!("show {}", i), &o, &chain[j], if j > 0 { Some(&chain[j - 1]) } else { None })?;
    }
    ctx.sample_in("long", json!({ "case": case, "commits": chain.len() }));
    Ok(())
}

/// A history that took years: its commits are put into the repository as the program puts them, and logged.
fn very_long(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    use rusqlite::params;
    let r = Repo::new(ctx)?;
    r.must(&["debug", "set-head", "years"])?;
    let mut chain: Vec<Made> = vec![];
    let n = ctx.n(12_000, 60_000) as usize + rng.below(3000);
    {
        let mut conn = rusqlite::Connection::open(r.dbfile()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut fill = |conn: &mut rusqlite::Connection, chain: &mut Vec<Made>| -> rusqlite::Result<()> {
            let tx = conn.transaction()?;
            for i in 0..n {
                let mut t = Node::empty();
                t.set("f", Some(Node::File(format!("{}\n", rng.below(3)).into_bytes())));
                if i % 5 == 4 {
                    t.set("g", Some(Node::File(b"one\ntwo\n".to_vec())));
                }
                let message = format!("commit {}", i % 7);
                let (tree, objs) = model::collect(|sink| model::store_tree(&t, sink));
                let mut keys = vec![tree];
                keys.extend(chain.last().map(|m| m.key));
                let c = model::encode_obj(&model::Obj { typ: "Commit".into(), data: model::commit_data(&message), keys });
                let key = model::hash(&c);
                for (k, v) in objs.iter().chain(std::iter::once((&key, &c))) {
                    tx.prepare_cached("INSERT OR IGNORE INTO data VALUES (?, ?)")?.execute(params![model::dbkey(k), v])?;
                }
                tx.prepare_cached("INSERT INTO reflog(refname, remote, key) VALUES ('years', NULL, ?)")?
                    .execute(params![model::dbkey(&key)])?;
                chain.push(Made { key, tree, message, node: t, refname: "years".into() });
            }
            tx.commit()
        };
        fill(&mut conn, &mut chain).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    }
    ctx.eval(Some(crate::util::fnv(&chain[n - 1].key)));
    ctx.max("longest_history", n as u64);
    ctx.sample_in("very-long", json!({ "case": case, "commits": n }));
    if case % 2 == 0 {
        // With a quarter of the usual stack, as if the history were four times as long.
        let mut run = r.prep(&r.root, &["log"]);
        run.stack = Some(2 << 20);
        let o = run.go()?;
        ensure!(o.ok(), "log-fails", "log of {} commits fails: {}", n, o.brief());
    let links: Vec<(&Made, Option<&Made>)> =
        (0..n).rev().map(|i| (&chain[i], if i > 0 { Some(&chain[i - 1]) } else { None })).collect();
    check_log(ctx, &format!("log of {} commits", n), &o, &links)?;
        return Ok(());
    }
    let o = r.run(&["ref", "log"])?;
    ensure!(o.ok(), "log-fails", "ref log of {} commits fails: {}", n, o.brief());
    let text = o.text();
    let got: Vec<&str> = text.lines().skip(1).collect();
    ensure!(got.len() == n, "log-wrong-commit", "ref log of {} commits lists {}", n, got.len());
    for (i, l) in got.iter().enumerate() {
        let exp = format!("{}: {}", n - i, model::user_key(&chain[n - 1 - i].key));
        ensure!(*l == exp, "log-wrong-commit", "ref log of {} commits has {:?} instead of {:?}", n, l, exp);
    }
    Ok(())
}

/// Commits with several parents, and trees whose history is made by hand: what counts is the parent stored first.
fn merges(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts { text_only: true, ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    let mut all: Vec<Made> = vec![];
    let mut above: Vec<Option<usize>> = vec![];
    let n = rng.range(3, 9);
    let mut several = 0;
    for i in 0..n {
        if i > 0 && rng.chance(6, 7) {
            for _ in 0..rng.range(1, 4) {
                gen::edit(rng, &mut t, &o);
            }
        }
        t.dir_mut().remove(".snapcd");
        // Commits by hand have no message, and commits of the same tree and parents are the same.
        let (m, up) = if i > 0 && rng.chance(2, 3) {
            scen::put_root(&r, &t)?;
            let tree = {
                let (k, _) = model::collect(|s| model::store_tree(&t, s));
                let ks = model::user_key(&k);
                let out = r.must(&["insert", "."])?;
                ensure!(out.text().contains(&ks), "tree-key", "insert gives {} and {} was expected", out.brief(), ks);
                k
            };
            let ks = model::user_key(&tree);
            let mut ps: Vec<usize> = vec![];
            for _ in 0..rng.below(4) {
                let p = rng.below(all.len());
                if !ps.iter().any(|x| all[*x].key == all[p].key) {
                    ps.push(p);
                }
            }
            let pk: Vec<String> = ps.iter().map(|p| model::user_key(&all[*p].key)).collect();
            let mut a = vec!["debug", "commit-tree", &ks];
            a.extend(pk.iter().map(|x| x.as_str()));
            let out = r.must(&a)?;
            let db = r.db()?;
            let word = out.text().trim_end().to_string();
            let key = match db.data.keys().filter_map(|k| model::from_dbkey(k).ok()).find(|k| model::user_key(k) == word) {
                Some(k) => k,
                None => crate::viol!("commit-not-stored", "{:?} prints {:?}", a, word),
            };
            let c = match model::get(&db.data, &key) {
                Ok(c) => c,
                Err(e) => crate::viol!("commit-not-stored", "{:?}: {}", a, e),
            };
            ensure!(
                c.keys.len() == ps.len() + 1 && c.keys[0] == tree && c.keys[1..].iter().all(|k| ps.iter().any(|p| all[*p].key == *k)),
                "commit-not-stored", "{:?} stores {:?}", a, c.keys.iter().map(model::user_key).collect::<Vec<_>>()
            );
            if ps.len() > 1 {
                several += 1;
            }
            let up = c.keys.get(1).map(|k| *ps.iter().find(|p| all[**p].key == *k).unwrap());
            (Made { key, tree, message: String::new(), node: t.clone(), refname: String::new() }, up)
        } else {
            // On top of what the ref says.
            let tip = if all.is_empty() {
                None
            } else {
                let p = rng.below(all.len());
                r.must(&["ref", "update", &model::user_key(&all[p].key)])?;
                Some(p)
            };
            (scen::commit(&r, &t, &format!("m{}", i), None)?, tip)
        };
        if all.iter().any(|x| x.key == m.key) {
            continue;
        }
        all.push(m);
        above.push(up);
    }
    ctx.count("commits_with_several_parents", several);
    for i in 0..all.len() {
        let mut chain = vec![];
        let mut at = Some(i);
        while let Some(j) = at {
            chain.push((&all[j], above[j].map(|p| &all[p])));
            at = above[j];
        }
        let k = model::user_key(&all[i].key);
        check_log(ctx, &format!("log {} of {}", i, all.len()), &r.must(&["log", &k])?, &chain)?;
        let o = r.run(&["show", &k])?;
        check_show(ctx, &format!("show {} of {}", i, all.len()), &o, &all[i], above[i].map(|p| &all[p]))?;
        ctx.eval(Some(fp(&changes(above[i].map(|p| &all[p]), &all[i])) ^ fnv(&all[i].key)));
    }
    ctx.sample_in("merges", json!({ "case": case, "commits": all.len(), "several_parents": several }));
    Ok(())
}
