//! C08: refs and HEAD: last write wins, full history kept, names isolated.

use crate::cli::{Out, Repo};
use crate::ensure;
use crate::model::{self, Key};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use serde_json::json;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Random histories of pushes, reads, walks and HEAD changes over a few dozen names chosen to be confused (case, prefixes, \
suffixes, wildcards, quotes, slashes, spaces, Unicode forms, empty) and remotes (none, empty, named), with transactions committed and rolled back, \
stores closed and reopened, two handles on one file; after every step all names, or a sample of them, are compared with a model that is a \
list of records. In the program the same with ref update, reflog-push, commit, set-head, checkout-head and the commands that read. In others one record is damaged: what needs it fails, and neither leaves it out nor goes on with an older one. Non-trivial: a history with at least \
two names. Distinct by history.",
    assumptions: &[],
    needed: &["program_reads_compared", "program_logs_compared", "records_damaged", "newest_damaged", "failed_on_damaged_record", "unaffected_by_damaged_record"],
    needed_inproc: &["reads_compared", "rollbacks", "reopens"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    ctx.cases("inproc", ctx.n(750, 5000), |rng, _| inproc(ctx, rng));
    ctx.cases("program", ctx.n(360, 2400), |rng, _| program(ctx, rng));
    ctx.cases("damaged", ctx.n(120, 900), |rng, i| damaged(ctx, rng, i));
}

pub const NAMES: &[&str] = &[
    "master", "Master", "MASTER", "master ", " master", "maste", "masterr", "master/", "/master",
    "a", "b", "a/b", "b/a", "a%", "%", "_", "a_", "ab", "a'b", "a\"b", "a;--", "HEAD", "head", "é",
    "e\u{301}", "日本", "0", "00", "1", "1.0", "NULL", "null", "-", "--", "-m", "a\nb", "*", "?",
    "origin", "", "", "x y", "\u{feff}master", "ﬀ", "ff", "İ", "i\u{307}",
];

const REMOTES: &[Option<&str>] = &[
    None,
    None,
    None,
    Some("origin"),
    Some("Origin"),
    Some("origin "),
    Some(""),
    Some("a"),
    Some("master"),
    Some("NULL"),
];

type Name = (String, Option<String>);

#[derive(Clone, Default, PartialEq, Debug)]
struct Refs {
    log: Vec<(Name, Key)>,
    head: Option<String>,
}

impl Refs {
    fn of(&self, n: &Name) -> Vec<Key> {
        self.log.iter().rev().filter(|x| x.0 == *n).map(|x| x.1).collect()
    }
}

fn pick_names(rng: &mut Rng) -> Vec<Name> {
    let mut v = Vec::new();
    for _ in 0..rng.range(2, 12) {
        let n = (*rng.pick(NAMES)).to_string();
        let r = rng.pick(REMOTES).map(|x| x.to_string());
        v.push((n.clone(), r));
        if rng.chance(1, 2) {
            v.push((n, rng.pick(REMOTES).map(|x| x.to_string())));
        }
    }
    // Names that differ in their last letter only, however long they are.
    if rng.chance(1, 3) {
        let l = *rng.pick(&[1, 15, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 9000, 65535]);
        let long = "n".repeat(l);
        let r = rng.pick(REMOTES).map(|x| x.to_string());
        v.push((long.clone() + "a", r.clone()));
        v.push((long.clone() + "b", r));
        v.push((long.clone(), None));
        v.push(("master".into(), Some(long.clone() + "a")));
        v.push(("master".into(), Some(long + "b")));
    }
    v
}

#[cfg(feature = "inproc")]
fn inproc(ctx: &Ctx, rng: &mut Rng) -> Res {
    use crate::memds::{guarded, key_bytes};
    use snapcd::ds::sqlite::SqliteDS;
    use snapcd::ds::{GetReflogError, Transactional};
    use snapcd::key::Key as K;
    use snapcd::{DataStore, Reflog};
    let top = ctx.dir("t")?;
    let _rm = super::c04::Rm(top.clone());
    let file = top.join("db");
    let open = || -> Res<SqliteDS> {
        match guarded(|| SqliteDS::new(&file)) {
            Ok(d) => {
                // Durability is not the subject here.
                Ok(d)
            }
            Err(e) => crate::report::violation("open-fails", format!("opening fails: {}", e), json!(null)),
        }
    };
    let names = pick_names(rng);
    let mut kept = Refs::default(); // committed
    let mut cur = Refs::default();
    let mut ds = open()?;
    let mut in_trans = false;
    let mut script = String::new();
    let check = |ctx: &Ctx, ds: &SqliteDS, m: &Refs, names: &[Name], script: &str| -> Res {
        for n in names {
            let want = m.of(n);
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                match ds.reflog_get(&n.0, n.1.as_deref()) {
                    Ok(k) => Ok(Some(key_bytes(k.inner()))),
                    Err(GetReflogError::NotFound) => Ok(None),
                    Err(e) => Err(e.to_string()),
                }
            }))
            .unwrap_or_else(|_| Err("panic".into()));
            ctx.count("reads_compared", 1);
            match got {
                Ok(g) => ensure!(
                    g == want.first().copied(),
                    "ref-value",
                    "ref {:?} gives {:?} instead of {:?} after {}",
                    n,
                    g.map(|k| model::user_key(&k)),
                    want.first().map(|k| model::user_key(k)),
                    script
                ),
                Err(e) => crate::viol!("ref-value", "reading ref {:?} fails: {}", n, e),
            }
            let walk = match guarded(|| ds.reflog_walk(&n.0, n.1.as_deref())) {
                Ok(w) => w.into_iter().map(|k| key_bytes(k.inner())).collect::<Vec<_>>(),
                Err(e) => crate::viol!("ref-log", "walking ref {:?} fails: {}", n, e),
            };
            ensure!(
                walk == want,
                "ref-log",
                "the log of ref {:?} has {} entries instead of {}, or other ones, after {}",
                n,
                walk.len(),
                want.len(),
                script
            );
        }
        match guarded(|| ds.get_head()) {
            Ok(h) => ensure!(
                h == m.head,
                "head-value",
                "HEAD is {:?} instead of {:?} after {}",
                h,
                m.head,
                script
            ),
            Err(e) => crate::viol!("head-value", "reading HEAD fails: {}", e),
        }
        Ok(())
    };
    let steps = rng.range(10, 80);
    let mut last = Vec::new();
    for _ in 0..steps {
        match rng.below(12) {
            0..=5 => {
                let n = rng.pick(&names).clone();
                let k = if rng.chance(1, 3) && !last.is_empty() {
                    *rng.pick(&last)
                } else {
                    model::hash(&rng.next().to_le_bytes())
                };
                last.push(k);
                let log = Reflog {
                    refname: n.0.clone(),
                    remote: n.1.clone(),
                    key: K::Blake3B(k).into(),
                };
                if let Err(e) = guarded(|| ds.reflog_push(&log)) {
                    crate::viol!("push-fails", "recording {:?} fails: {}", n, e);
                }
                script.push_str("push,");
                cur.log.push((n, k));
                if !in_trans {
                    kept = cur.clone();
                }
            }
            6 => {
                let n = rng.pick(&names).0.clone();
                if let Err(e) = guarded(|| ds.put_head(&n)) {
                    crate::viol!("push-fails", "setting HEAD to {:?} fails: {}", n, e);
                }
                script.push_str("head,");
                cur.head = Some(n);
                if !in_trans {
                    kept = cur.clone();
                }
            }
            7 if !in_trans => {
                if let Err(e) = guarded(|| ds.begin_trans()) {
                    crate::viol!("transaction-fails", "{}", e);
                }
                script.push_str("begin,");
                in_trans = true;
            }
            8 if in_trans => {
                if let Err(e) = guarded(|| ds.commit()) {
                    crate::viol!("transaction-fails", "{}", e);
                }
                script.push_str("commit,");
                in_trans = false;
                kept = cur.clone();
            }
            9 if in_trans => {
                if let Err(e) = guarded(|| ds.rollback()) {
                    crate::viol!("transaction-fails", "{}", e);
                }
                script.push_str("rollback,");
                ctx.count("rollbacks", 1);
                in_trans = false;
                cur = kept.clone();
            }
            10 => {
                // closed, in the middle of a transaction or not
                drop(ds);
                ds = open()?;
                script.push_str("reopen,");
                ctx.count("reopens", 1);
                in_trans = false;
                cur = kept.clone();
            }
            _ => {
                // Somebody else looks at it: only what was committed.
                let other = open();
                match other {
                    Ok(o) => check(ctx, &o, &kept, &names, &script)?,
                    Err(e) => {
                        // It may be locked by our own transaction.
                        if !in_trans {
                            return Err(e);
                        }
                    }
                }
            }
        }
        let some: Vec<Name> = (0..3).map(|_| rng.pick(&names).clone()).collect();
        check(ctx, &ds, &cur, &some, &script)?;
    }
    check(ctx, &ds, &cur, &names, &script)?;
    drop(ds);
    let ds = open()?;
    ctx.count("reopens", 1);
    check(ctx, &ds, &kept, &names, &script)?;
    ctx.eval(if names.len() > 1 {
        Some(crate::util::fnv(script.as_bytes()) ^ rng.next())
    } else {
        None
    });
    ctx.sample_in("inproc", json!({ "script": script, "names": names.len() }));
    Ok(())
}

/// The keys a `ref log` prints, with their numbers.
pub fn parse_ref_log(o: &Out) -> Result<Vec<(usize, String)>, String> {
    let mut v = Vec::new();
    for l in o.text().lines() {
        if l.starts_with("log entries") || l.is_empty() {
            continue;
        }
        let mut it = l.splitn(2, ": ");
        match (it.next().and_then(|x| x.parse().ok()), it.next()) {
            (Some(n), Some(k)) => v.push((n, k.to_string())),
            _ => return Err(format!("line {:?}", l)),
        }
    }
    Ok(v)
}

fn program(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let names: Vec<Name> = pick_names(rng);
    // A few commits to point at.
    std::fs::write(r.root.join("f"), b"x")?;
    let mut m = Refs {
        head: Some("master".into()),
        ..Refs::default()
    };
    let mut commits = Vec::new();
    for i in 0..3 {
        r.commit(&format!("c{}", i), None)?;
        let db = r.db()?;
        let k = match db.reflog.last().map(|x| model::from_dbkey(&x.3)) {
            Some(Ok(k)) => k,
            _ => crate::viol!("ref-value", "no key after a commit"),
        };
        commits.push(k);
        m.log.push((("master".into(), None), k));
    }
    let mut script = Vec::new();
    for _ in 0..rng.range(8, 25) {
        let n = rng.pick(&names).clone();
        let k = *rng.pick(&commits);
        let ks = model::user_key(&k);
        match rng.below(7) {
            0 => {
                r.must(&["ref", "update", "--", &ks, &n.0])?;
                m.log.push(((n.0.clone(), None), k));
                script.push(format!("update {:?}", n.0));
            }
            1 => {
                r.must(&["ref", "update", "--", &ks])?;
                let h = m.head.clone().unwrap();
                m.log.push(((h, None), k));
                script.push("update HEAD".into());
            }
            2 | 3 => {
                let mut a = vec!["debug", "reflog-push", "--", &ks, &n.0];
                if let Some(x) = &n.1 {
                    a.push(x);
                }
                r.must(&a)?;
                m.log.push((n.clone(), k));
                script.push(format!("push {:?}", n));
            }
            4 => {
                r.must(&["debug", "set-head", "--", &n.0])?;
                m.head = Some(n.0.clone());
                script.push(format!("head {:?}", n.0));
            }
            5 => {
                // through an id that is a ref
                if let Some(src) = m.of(&n).first().copied() {
                    let id = match &n.1 {
                        None => format!("/{}", n.0),
                        Some(x) if !x.is_empty() && !x.contains('/') => format!("{}/{}", x, n.0),
                        _ => continue,
                    };
                    if id.starts_with('-') {
                        continue;
                    }
                    r.must(&["ref", "update", "--", &id, "copied"])?;
                    m.log.push((("copied".into(), None), src));
                    script.push(format!("copy {:?}", id));
                }
            }
            _ => {
                let o = r.run(&["commit", "-m", "m", "--", &n.0])?;
                ensure!(o.ok(), "ordinary-command-fails", "commit on {:?}: {}", n.0, o.brief());
                let db = r.db()?;
                let k = match db.reflog.last().map(|x| model::from_dbkey(&x.3)) {
                    Some(Ok(k)) => k,
                    _ => crate::viol!("ref-value", "no key after a commit"),
                };
                m.log.push(((n.0.clone(), None), k));
                script.push(format!("commit {:?}", n.0));
            }
        }
        // The stored records are the recorded ones, in order.
        let db = r.db()?;
        let want: Vec<(String, Option<String>, Vec<u8>)> = m
            .log
            .iter()
            .map(|x| (x.0 .0.clone(), x.0 .1.clone(), model::dbkey(&x.1)))
            .collect();
        ensure!(
            db.refs_without_ids() == want,
            "ref-log",
            "the stored ref log is not what was recorded, after {:?}",
            script
        );
        for _ in 0..2 {
            let n = rng.pick(&names).clone();
            let want = m.of(&n);
            let mut a = vec!["debug", "reflog-get", "--", &n.0];
            if let Some(x) = &n.1 {
                a.push(x);
            }
            let o = r.run(&a)?;
            ctx.count("program_reads_compared", 1);
            match want.first() {
                Some(k) => ensure!(
                    o.ok() && o.text().trim_end() == model::user_key(k),
                    "ref-value",
                    "reading {:?} gives {} instead of {} after {:?}",
                    n,
                    o.brief(),
                    model::user_key(k),
                    script
                ),
                None => ensure!(!o.ok(), "ref-value", "reading {:?}, never recorded, gives {}", n, o.text()),
            }
            let mut a = vec!["ref", "log", "--", &n.0];
            if let Some(x) = &n.1 {
                a.push(x);
            }
            let o = r.must(&a)?;
            ctx.count("program_logs_compared", 1);
            let got = match parse_ref_log(&o) {
                Ok(g) => g,
                Err(e) => crate::viol!("ref-log", "ref log prints {}", e),
            };
            let exp: Vec<(usize, String)> = want
                .iter()
                .enumerate()
                .map(|(i, k)| (want.len() - i, model::user_key(k)))
                .collect();
            ensure!(
                got == exp,
                "ref-log",
                "ref log of {:?} prints {:?} instead of {:?}",
                n,
                got,
                exp
            );
        }
        let o = r.must(&["debug", "get-head"])?;
        ensure!(
            o.text().trim_end() == format!("head: {:?}", m.head),
            "head-value",
            "HEAD is {} instead of {:?}",
            o.text(),
            m.head
        );
        // HEAD's log, without naming it.
        let o = r.must(&["ref", "log"])?;
        let h = (m.head.clone().unwrap(), None);
        ensure!(
            parse_ref_log(&o).map(|x| x.len()) == Ok(m.of(&h).len()),
            "ref-log",
            "ref log of HEAD {:?} prints {}",
            h.0,
            o.text()
        );
    }
    ctx.eval(Some(crate::util::fnv(format!("{:?}", script).as_bytes())));
    ctx.sample_in("program", json!({ "script": script }));
    Ok(())
}

/// One record that is no key any more. Only what does not need it succeeds, with what it gave before.
fn damaged(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let other = (*rng.pick(&["side", "Master", "master ", "a/b"])).to_string();
    let names: Vec<(String, Option<String>)> = vec![("master".into(), None), (other, None), ("master".into(), Some("up".into()))];
    let mut commits: Vec<Key> = vec![];
    for i in 0..3 {
        std::fs::write(r.root.join("f"), format!("{}\n", i))?;
        r.commit(&format!("c{}", i), None)?;
        match r.db()?.reflog.last().map(|x| model::from_dbkey(&x.3)) {
            Some(Ok(k)) => commits.push(k),
            _ => crate::viol!("ref-value", "no key after a commit"),
        }
    }
    let mut log: Vec<(usize, Key)> = commits.iter().map(|k| (0, *k)).collect();
    for _ in 0..rng.range(3, 9) {
        let n = rng.below(names.len());
        let k = *rng.pick(&commits);
        let ks = model::user_key(&k);
        let mut a = vec!["debug", "reflog-push", "--", &ks, &names[n].0];
        if let Some(x) = &names[n].1 {
            a.push(x);
        }
        r.must(&a)?;
        log.push((n, k));
    }
    let good = r.db()?;
    ensure!(good.reflog.len() == log.len(), "ref-log", "{} records instead of {}", good.reflog.len(), log.len());
    // Half of the time the newest of its name.
    let mut i = rng.below(log.len());
    if rng.chance(1, 2) {
        let n = log[i].0;
        i = (0..log.len()).rev().find(|j| log[*j].0 == n).unwrap();
    }
    let n = log[i].0;
    let newest = !log[i + 1..].iter().any(|x| x.0 == n);
    let v = good.reflog[i].3.clone();
    let what;
    let x: rusqlite::types::Value = match rng.below(9) {
        0 => {
            let l = rng.below(v.len());
            what = format!("cut to {} bytes", l);
            v[..l].to_vec().into()
        }
        1 => {
            what = "a byte more".to_string();
            let mut w = v.clone();
            w.push(rng.next() as u8);
            w.into()
        }
        2 => {
            let mut w = v.clone();
            w[0] = *rng.pick(&[0u8, 2, 3, 0x81, 255]);
            what = format!("kind {}", w[0]);
            w.into()
        }
        3 => {
            what = "without its first byte".to_string();
            v[1..].to_vec().into()
        }
        4 => {
            what = "without content".to_string();
            Vec::<u8>::new().into()
        }
        5 => {
            what = "the name of the key as text".to_string();
            model::user_key_db(&v).into()
        }
        6 => {
            what = "a number".to_string();
            (rng.next() as i64).into()
        }
        7 => {
            what = "twice".to_string();
            let mut w = v.clone();
            w.extend(&v);
            w.into()
        }
        _ => {
            what = "zeros".to_string();
            vec![0u8; v.len()].into()
        }
    };
    {
        let c = rusqlite::Connection::open(r.dbfile())?;
        let k = c.execute("UPDATE reflog SET key=? WHERE id=?", rusqlite::params![x, good.reflog[i].0])?;
        ensure!(k == 1, "ref-log", "record {:?} is not there", good.reflog[i].0);
    }
    ctx.count("records_damaged", 1);
    if newest {
        ctx.count("newest_damaged", 1);
    }
    let clean = r.top.join("clean.db");
    std::fs::copy(r.dbfile(), &clean)?;
    let of = |m: usize| -> Vec<Key> { log.iter().rev().filter(|x| x.0 == m).map(|x| x.1).collect() };
    for (m, name) in names.iter().enumerate() {
        let want = of(m);
        let mut get = vec!["debug", "reflog-get", "--", &name.0];
        let mut all = vec!["ref", "log", "--", &name.0];
        if let Some(x) = &name.1 {
            get.push(x);
            all.push(x);
        }
        let says = |a: &[&str]| format!("record {} of {} for {:?} is damaged ({}), {:?}", i + 1, log.len(), names[n], what, a);
        let o = r.run(&all)?;
        if m == n {
            ensure!(!o.ok(), "damaged-record-left-out", "{} succeeds: {}", says(&all), o.brief());
            ctx.count("failed_on_damaged_record", 1);
        } else {
            let exp: Vec<(usize, String)> = want.iter().enumerate().map(|(j, k)| (want.len() - j, model::user_key(k))).collect();
            ensure!(o.ok() && parse_ref_log(&o) == Ok(exp), "ref-log", "{} gives {}", says(&all), o.brief());
            ctx.count("unaffected_by_damaged_record", 1);
        }
        let o = r.run(&get)?;
        if m == n && newest {
            ensure!(!o.ok(), "damaged-record-left-out", "{} succeeds: {}", says(&get), o.brief());
            ctx.count("failed_on_damaged_record", 1);
        } else {
            match want.first() {
                Some(k) => ensure!(o.ok() && o.text().trim_end() == model::user_key(k), "ref-value", "{} gives {}", says(&get), o.brief()),
                None => ensure!(!o.ok(), "ref-value", "{} gives {}", says(&get), o.brief()),
            }
            ctx.count("unaffected_by_damaged_record", 1);
        }
        if name.1.is_some() {
            continue;
        }
        // What uses the value of the ref.
        let id = format!("/{}", name.0);
        let mut uses: Vec<Vec<&str>> = vec![vec!["log", &id], vec!["show", &id], vec!["ref", "update", "--", &id, "copied"], vec!["commit", "-m", "on top", "--", &name.0]];
        if m == 0 {
            uses.extend(vec![vec!["log"], vec!["show"], vec!["status"], vec!["compare"], vec!["commit", "-m", "on top"]]);
        }
        for a in &uses {
            if !rng.chance(1, 2) {
                continue;
            }
            let o = r.run(a)?;
            if m == n && newest {
                ensure!(!o.ok(), "damaged-record-left-out", "{} succeeds: {}", says(a), o.brief());
                let c = rusqlite::Connection::open(r.dbfile())?;
                let rows: i64 = c.query_row("SELECT COUNT(*) FROM reflog", rusqlite::NO_PARAMS, |x| x.get(0))?;
                ensure!(rows as usize == log.len(), "damaged-record-left-out", "{} fails and records something", says(a));
                ctx.count("failed_on_damaged_record", 1);
            } else if !want.is_empty() {
                ensure!(o.ok(), "ordinary-command-fails", "{}: {}", says(a), o.brief());
                ctx.count("unaffected_by_damaged_record", 1);
            }
            std::fs::copy(&clean, r.dbfile())?;
        }
    }
    ctx.eval(Some(crate::util::fnv(format!("{:?} {} {}", log, i, what).as_bytes())));
    ctx.sample_in("damaged", json!({ "case": case, "records": log.len(), "damaged": i + 1, "how": what, "newest": newest }));
    Ok(())
}
