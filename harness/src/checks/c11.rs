//! C11: concurrent commands are serialised and lose no commit.

use super::c08::parse_ref_log;
use crate::cli::{commit_args, Out, Repo};
use crate::ensure;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::shim;
use crate::util::{fnv, write_tree, Node};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Several processes at once commit (unique messages), move refs, set HEAD, insert, ask and initialise in one repository, with random delays at its \
locks, reads and writes, and some are killed. The history of calls and returns is checked offline against the log of refs, whose record order is the order of the \
successful writers: every commit reported successful is recorded exactly once on its ref, its parent is the record before it, it holds what was committed; nothing that \
failed is there; operations that did not overlap are in order; a moved ref got a value its source had at that moment; readers saw a past state no older than their \
start. Non-trivial: a history in which commands overlapped. Distinct by the order of lock and write calls of all processes.",
    assumptions: &["interleavings are sampled; what was observed is counted below"],
    needed: &["commits_successful", "overlapping_pairs", "reader_observations", "kills", "call_orders_recorded"],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases_on(4, "history", ctx.n(260, 6000), |rng, i| history(ctx, rng, i));
    ctx.cases_on(4, "init", ctx.n(60, 800), |rng, i| init(ctx, rng, i));
}

#[derive(Clone, Debug)]
enum What {
    Commit { refname: String, msg: String, tree: Node },
    Move { to: String, from: String },
    Head(String),
    Insert(Node),
    RefLog(String),
    Log(String),
    Status,
    Init,
}

struct Done {
    what: What,
    from: Instant,
    to: Instant,
    out: Out,
    killed: bool,
}

impl Done {
    fn ok(&self) -> bool {
        self.out.ok()
    }

    /// It may or may not have taken effect.
    fn open(&self) -> bool {
        self.killed || self.out.signal.is_some()
    }
}

fn files(rng: &mut Rng, tag: &str) -> Node {
    let mut n = Node::empty();
    n.set("name", Some(Node::File(tag.as_bytes().to_vec())));
    let big = rng.chance(1, 4);
    for i in 0..rng.range(1, 5) {
        let len = if big { rng.range(10_000, 120_000) } else { rng.below(300) };
        let b = rng.bytes(len);
        n.set(&format!("f{}", i), Some(Node::File(b)));
    }
    n
}

fn history(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    // All commit the same directory (only the messages differ), or each its own.
    let shared = rng.chance(1, 3);
    let workers = rng.range(2, 6);
    let per = rng.range(2, 7);
    let kills = rng.chance(1, 3);
    let refs: Vec<String> = ["master", "side", "a b"][..rng.range(1, 3)].iter().map(|x| x.to_string()).collect();
    let base = files(rng, "shared");
    if shared {
        write_tree(&r.root.join("content"), &base, None)?;
    }
    // Something that was there before.
    let before = rng.below(3);
    for i in 0..before {
        write_tree(&r.top.join(format!("pre{}", i)), &files(rng, "pre"), None)?;
        r.must(&["commit", "-p", r.top.join(format!("pre{}", i)).to_str().unwrap(), "-m", &format!("before {}", i)])?;
    }
    let db0 = r.db()?;
    let trace = r.top.join("trace");
    let max_delay = *rng.pick(&[0u32, 200, 1500, 6000]);
    let dones: Mutex<Vec<Done>> = Mutex::new(Vec::new());
    let fails: Mutex<Vec<crate::report::Fail>> = Mutex::new(Vec::new());
    let seeds: Vec<u64> = (0..workers).map(|_| rng.next()).collect();
    std::thread::scope(|s| {
        for (w, seed) in seeds.iter().enumerate() {
            let (r, refs, dones, fails, trace, base) = (&r, &refs, &dones, &fails, &trace, &base);
            s.spawn(move || {
                let mut rng = Rng::new(*seed);
                for k in 0..per {
                    match one(&mut rng, r, w, k, refs, shared, base, kills, max_delay, trace) {
                        Ok(d) => dones.lock().unwrap().push(d),
                        Err(e) => {
                            fails.lock().unwrap().push(e);
                            return;
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = fails.into_inner().unwrap().pop() {
        return Err(e);
    }
    let dones = dones.into_inner().unwrap();
    let db = r.db()?;
    check(ctx, &dones, &db0, &db, &refs, before, shared, &base)?;

    // It is not stuck.
    write_tree(&r.top.join("last"), &files(rng, "last"), None)?;
    r.must(&["commit", "-p", r.top.join("last").to_str().unwrap(), "-m", "last of all"])?;

    // What was seen.
    let mut overlaps = 0;
    for (i, a) in dones.iter().enumerate() {
        for b in &dones[i + 1..] {
            if a.from < b.to && b.from < a.to {
                overlaps += 1;
            }
        }
    }
    ctx.count("overlapping_pairs", overlaps);
    let order = std::fs::read_to_string(&trace).unwrap_or_default();
    let mut who: HashMap<&str, usize> = HashMap::new();
    let mut canon = String::new();
    for l in order.lines() {
        let mut it = l.splitn(2, ' ');
        let (p, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        let n = who.len();
        let n = *who.entry(p).or_insert(n);
        canon.push_str(&format!("{}{};", n, c));
    }
    ctx.count("lock_and_write_calls_seen", order.lines().count() as u64);
    ctx.count("lock_found_busy", order.lines().filter(|l| l.ends_with("lock-busy")).count() as u64);
    ctx.count("call_orders_recorded", 1);
    ctx.eval(if overlaps > 0 { Some(fnv(canon.as_bytes())) } else { None });
    ctx.sample_in(
        "history",
        json!({ "case": case, "processes": dones.len(), "at_once": workers, "overlapping_pairs": overlaps,
            "successful": dones.iter().filter(|d| d.ok()).count(), "refs": refs }),
    );
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn one(
    rng: &mut Rng,
    r: &Repo<'_>,
    w: usize,
    k: usize,
    refs: &[String],
    shared: bool,
    base: &Node,
    kills: bool,
    max_delay: u32,
    trace: &std::path::Path,
) -> Res<Done> {
    let refname = rng.pick(refs).clone();
    let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
    let (what, args) = match rng.below(13) {
        0..=5 => {
            let msg = format!("commit {} of {}", k, w);
            let (tree, path) = if shared {
                (base.clone(), r.root.join("content"))
            } else {
                let t = files(rng, &msg);
                let p = r.top.join(format!("c{}-{}", w, k));
                write_tree(&p, &t, None)?;
                (t, p)
            };
            let mut a = s(&["commit", "-p", path.to_str().unwrap()]);
            a.extend(commit_args(&msg, Some(&refname)).split_off(1));
            (What::Commit { refname, msg, tree }, a)
        }
        6 => (
            What::Move { to: format!("moved{}", w), from: refname.clone() },
            s(&["ref", "update", &format!("/{}", refname), &format!("moved{}", w)]),
        ),
        7 => {
            let n = format!("head{}-{}", w, k);
            (What::Head(n.clone()), s(&["debug", "set-head", &n]))
        }
        8 => {
            let t = files(rng, &format!("insert {} {}", w, k));
            let p = r.top.join(format!("i{}-{}", w, k));
            write_tree(&p, &t, None)?;
            (What::Insert(t), s(&["insert", p.to_str().unwrap()]))
        }
        9 => (What::RefLog(refname.clone()), s(&["ref", "log", &refname])),
        10 => (What::Log(refname.clone()), s(&["log", &format!("/{}", refname)])),
        11 => (What::Status, s(&["status"])),
        _ => (What::Init, s(&["init"])),
    };
    if rng.chance(1, 2) {
        std::thread::sleep(Duration::from_micros(rng.below(4000) as u64));
    }
    let mut run = shim::attach(r.prep(&r.root, &args), r).env("VS_TRACE", trace);
    if max_delay > 0 {
        run = run.env("VS_DELAY", format!("{}:{}", rng.next() >> 8, max_delay));
    }
    let mut killed = false;
    if kills && rng.chance(1, 3) {
        run = run.env("VS_KILL", format!("{}", rng.range(1, 12)));
        killed = true;
    }
    let from = Instant::now();
    let out = run.go()?;
    let to = Instant::now();
    let killed = killed && out.signal.is_some();
    Ok(Done { what, from, to, out, killed })
}

#[allow(clippy::too_many_arguments)]
fn check(
    ctx: &Ctx,
    dones: &[Done],
    db0: &crate::cli::Db,
    db: &crate::cli::Db,
    refs: &[String],
    before: usize,
    shared: bool,
    base: &Node,
) -> Res {
    // Nothing that was there is lost.
    ensure!(
        db.reflog.len() >= db0.reflog.len() && db.reflog[..db0.reflog.len()] == db0.reflog[..],
        "record-lost",
        "the records of refs that were there before are not the first ones after"
    );
    for (k, v) in &db0.data {
        ensure!(db.data.get(k) == Some(v), "object-lost", "an object that was there before is lost");
    }
    let by_msg: BTreeMap<&str, &Done> = dones
        .iter()
        .filter_map(|d| match &d.what {
            What::Commit { msg, .. } => Some((msg.as_str(), d)),
            _ => None,
        })
        .collect();
    ctx.count("kills", dones.iter().filter(|d| d.killed).count() as u64);
    ctx.count("commands_failed", dones.iter().filter(|d| !d.ok() && !d.open()).count() as u64);

    // Chains.
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    let mut position: BTreeMap<&str, (String, usize)> = BTreeMap::new();
    for name in refs {
        let mut last: Option<model::Key> = None;
        let mut at = 0;
        for (_, n, remote, k) in db.reflog.iter() {
            if n != name || remote.is_some() {
                continue;
            }
            let k = match model::from_dbkey(k) {
                Ok(k) => k,
                Err(e) => crate::viol!("record-damaged", "ref {:?}: {}", name, e),
            };
            let c = match model::commit(&db.data, &k) {
                Ok(c) => c,
                Err(e) => crate::viol!("commit-incomplete", "record {} of {:?}: {}", at, name, e),
            };
            let exp: Vec<model::Key> = last.iter().copied().collect();
            if c.parents != exp {
                crate::viol!(
                    "commit-lost",
                    "record {} of {:?} ({:?}) has parents {:?} instead of the record before it",
                    at, name, c.message,
                    c.parents.iter().map(model::user_key).collect::<Vec<_>>()
                );
            }
            last = Some(k);
            at += 1;
            if c.message.starts_with("before ") && name == "master" && at <= before {
                continue;
            }
            let d = match by_msg.get(c.message.as_str()) {
                Some(d) => *d,
                None => crate::viol!("unknown-commit", "{:?} has a commit {:?} that nobody made", name, c.message),
            };
            if let What::Commit { refname, msg, tree } = &d.what {
                ensure!(refname == name, "commit-on-wrong-ref", "{:?} is on {:?} instead of {:?}", msg, name, refname);
                ensure!(d.ok() || d.open(), "failed-commit-present", "{:?} failed ({}) but is on {:?}", msg, d.out.brief(), name);
                crate::scen::check_tree(&format!("commit {:?} made among others", msg), db, &c.tree, tree)?;
                *seen.entry(msg).or_insert(0) += 1;
                position.insert(msg, (name.clone(), at));
            }
        }
    }
    for d in dones {
        if let What::Commit { refname, msg, .. } = &d.what {
            let n = seen.get(msg.as_str()).copied().unwrap_or(0);
            if d.ok() {
                ctx.count("commits_successful", 1);
                ensure!(n == 1, "commit-lost", "{:?} was reported successful and is {} times in the history of {:?}", msg, n, refname);
            } else if !d.open() {
                // Nor is its object.
                for v in db.data.values() {
                    if let Ok(o) = model::decode_obj(v) {
                        if o.typ == "Commit" {
                            if let Ok(c) = model::decode_commit(&o) {
                                ensure!(c.message != *msg, "failed-commit-present", "{:?} failed ({}) but its object is stored", msg, d.out.brief());
                            }
                        }
                    }
                }
            }
        }
    }
    // What did not overlap is in order.
    for a in dones {
        for b in dones {
            if let (What::Commit { msg: ma, .. }, What::Commit { msg: mb, .. }) = (&a.what, &b.what) {
                if a.to < b.from {
                    if let (Some((ra, pa)), Some((rb, pb))) = (position.get(ma.as_str()), position.get(mb.as_str())) {
                        ensure!(ra != rb || pa < pb, "out-of-order", "{:?} was done before {:?} began, and is recorded after it", ma, mb);
                    }
                }
            }
        }
    }
    // Moved refs.
    let mut moves: BTreeMap<&str, Vec<&Done>> = BTreeMap::new();
    for d in dones {
        if let What::Move { to, .. } = &d.what {
            moves.entry(to).or_default().push(d);
        }
    }
    for (to, ds) in &moves {
        // They were made one after another by one worker.
        let recs: Vec<(usize, &Vec<u8>)> = db
            .reflog
            .iter()
            .enumerate()
            .filter(|(_, x)| x.1 == *to)
            .map(|(i, x)| (i, &x.3))
            .collect();
        let ok = ds.iter().filter(|d| d.ok()).count();
        let open = ds.iter().filter(|d| d.open()).count();
        ensure!(
            recs.len() >= ok && recs.len() <= ok + open,
            "record-lost",
            "{:?} was moved {} times with success ({} killed) and has {} records",
            to, ok, open, recs.len()
        );
        for (i, k) in recs {
            let sources: BTreeSet<Option<&Vec<u8>>> = ds
                .iter()
                .map(|d| match &d.what {
                    What::Move { from, .. } => db.reflog[..i].iter().rev().find(|x| x.1 == *from && x.2.is_none()).map(|x| &x.3),
                    _ => None,
                })
                .collect();
            ensure!(
                sources.contains(&Some(k)),
                "not-serialised",
                "{:?} was moved to {}, which its source was not at that moment",
                to,
                model::user_key_db(k)
            );
        }
    }
    // HEAD.
    let heads: Vec<&Done> = dones.iter().filter(|d| matches!(d.what, What::Head(_)) && (d.ok() || d.open())).collect();
    let head = db.head().unwrap_or_default();
    let mut may: BTreeSet<String> = BTreeSet::new();
    if !heads.iter().any(|d| d.ok()) {
        may.insert(db0.head().unwrap_or_default());
    }
    for d in &heads {
        if let What::Head(n) = &d.what {
            if !heads.iter().any(|e| e.ok() && d.to < e.from) {
                may.insert(n.clone());
            }
        }
    }
    ensure!(may.contains(&head), "head-lost", "HEAD is {:?}; it could be {:?}", head, may);
    // Inserts.
    for d in dones {
        if let (What::Insert(t), true) = (&d.what, d.ok()) {
            let k = crate::scen::parse_key(&crate::cli::inserted_key(&d.out)?)?;
            crate::scen::check_tree("an insert among others", db, &k, t)?;
        }
    }
    // Readers.
    for d in dones.iter().filter(|d| d.ok()) {
        let (name, keys): (&String, Vec<String>) = match &d.what {
            What::RefLog(n) => match parse_ref_log(&d.out) {
                Ok(v) => (n, v.into_iter().map(|x| x.1).collect()),
                Err(e) => crate::viol!("not-serialised", "ref log prints {}", e),
            },
            What::Log(n) => (n, d.out.text().lines().filter_map(|l| l.strip_prefix("commit: ")).map(|x| x.to_string()).collect()),
            What::Status => {
                let t = d.out.text();
                ensure!(t.starts_with("HEAD: "), "not-serialised", "status prints {:?}", t);
                if shared {
                    // "content" is committed itself, so the root always differs from it: all it has is added.
                    ensure!(t.contains("(no commits on") || t.contains("  content/"), "not-serialised", "status prints {:?}", t);
                }
                ctx.count("reader_observations", 1);
                continue;
            }
            _ => continue,
        };
        ctx.count("reader_observations", 1);
        let all: Vec<String> = db
            .reflog
            .iter()
            .filter(|x| x.1 == *name && x.2.is_none())
            .map(|x| model::user_key_db(&x.3))
            .collect();
        let mut seen = keys.clone();
        seen.reverse();
        ensure!(
            seen.len() <= all.len() && seen[..] == all[..seen.len()],
            "not-serialised",
            "a reader of {:?} saw {:?}, which it never was (in the end it is {:?})",
            name, seen, all
        );
        let shown: BTreeSet<&String> = keys.iter().collect();
        for e in dones {
            if let What::Commit { refname, msg, .. } = &e.what {
                if refname != name {
                    continue;
                }
                if let Some((_, p)) = position.get(msg.as_str()) {
                    let k = &all[*p - 1];
                    if e.ok() && e.to < d.from {
                        ensure!(shown.contains(k), "not-serialised", "{:?} was done before a reader began, which did not see it", msg);
                    }
                    if e.from > d.to {
                        ensure!(!shown.contains(k), "not-serialised", "{:?} began after a reader ended, which saw it", msg);
                    }
                }
            }
        }
    }
    let _ = base;
    if let Err(e) = model::fsck(db, &[]) {
        crate::viol!("commit-incomplete", "after concurrent commands: {}", e);
    }
    Ok(())
}

/// Several at once make the repository, and go on with it.
fn init(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::bare(ctx)?;
    let n = rng.range(2, 6);
    let delay = *rng.pick(&[0u32, 500, 3000]);
    let outs: Mutex<Vec<Res<(usize, bool, Option<Out>)>>> = Mutex::new(Vec::new());
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    for w in 0..n {
        write_tree(&r.top.join(format!("w{}", w)), &files(rng, &format!("{}", w)), None)?;
    }
    std::thread::scope(|s| {
        for (w, seed) in seeds.iter().enumerate() {
            let (r, outs) = (&r, &outs);
            s.spawn(move || {
                let go = |args: &[&str]| {
                    let mut run = shim::attach(r.prep(&r.root, args), r);
                    if delay > 0 {
                        run = run.env("VS_DELAY", format!("{}:{}", seed >> 8, delay));
                    }
                    run.go()
                };
                let res = go(&["init"]).and_then(|o| {
                    if !o.ok() {
                        return Ok((w, false, None));
                    }
                    let p = r.top.join(format!("w{}", w));
                    let c = go(&["commit", "-p", p.to_str().unwrap(), "-m", &format!("first of {}", w)])?;
                    Ok((w, true, Some(c)))
                });
                outs.lock().unwrap().push(res);
            });
        }
    });
    let mut inits = 0;
    let mut good = BTreeSet::new();
    for x in outs.into_inner().unwrap() {
        let (w, ok, c) = x?;
        if ok {
            inits += 1;
        }
        if let Some(c) = c {
            if c.ok() {
                good.insert(w);
            }
        }
    }
    if inits == 0 {
        // All failed; then one alone has to succeed.
        r.must(&["init"])?;
    }
    let db = r.db()?;
    ctx.eval(Some(fnv(format!("{} {} {} {}", case, n, inits, good.len()).as_bytes())));
    ctx.count("concurrent_inits", inits);
    ensure!(db.head().as_deref() == Some("master"), "head-lost", "after {} inits at once HEAD is {:?}", inits, db.head());
    let mut last: Option<model::Key> = None;
    let mut found = BTreeSet::new();
    for (_, name, _, k) in &db.reflog {
        ensure!(name == "master", "commit-on-wrong-ref", "a commit is on {:?}", name);
        let k = match model::from_dbkey(k) {
            Ok(k) => k,
            Err(e) => crate::viol!("record-damaged", "{}", e),
        };
        let c = match model::commit(&db.data, &k) {
            Ok(c) => c,
            Err(e) => crate::viol!("commit-incomplete", "{}", e),
        };
        ensure!(c.parents == last.iter().copied().collect::<Vec<_>>(), "commit-lost", "a commit's parent is not the one before it");
        last = Some(k);
        if let Some(w) = c.message.strip_prefix("first of ").and_then(|x| x.parse::<usize>().ok()) {
            ensure!(found.insert(w), "commit-lost", "{:?} is there twice", c.message);
        }
    }
    ctx.count("commits_successful", good.len() as u64);
    ensure!(found == good, "commit-lost", "commits of {:?} were reported successful, those of {:?} are there", good, found);
    r.must(&["commit", "-p", r.top.join("w0").to_str().unwrap(), "-m", "later"])?;
    Ok(())
}
