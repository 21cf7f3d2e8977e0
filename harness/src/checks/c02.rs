//! C02: errors while storing or reading are reported, never swallowed.

use crate::cli::Repo;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::{read_tree, tree_diff, write_tree, Node};
use crate::{ensure, shim};
use serde_json::json;

pub const META: Meta = Meta {
    level: "fault_enumeration",
    rule: "Every call an operation makes to its reader, writer, object store or file system is made to fail in \
turn (each put, each get, each read and write position, each open, read, stat, directory listing, write and \
mkdir of the program), once or from then on, with several errors. After each, success is accepted only if the result \
is complete. Non-trivial: the injected failure was delivered. Distinct by operation, input, call and error.",
    assumptions: &["a panic counts as reporting the error"],
    needed: &["faults_delivered_to_program"],
    needed_inproc: &["faults_delivered_in_process"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    {
        ctx.cases("content", ctx.n(1000, 8000), |rng, i| content(ctx, rng, i));
        ctx.cases("tree", ctx.n(700, 6000), |rng, i| tree(ctx, rng, i));
    }
    ctx.cases("program", ctx.n(320, 2400), |rng, i| program(ctx, rng, i));
}

#[cfg(feature = "inproc")]
fn content(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    use crate::memds::*;
    use std::io::ErrorKind;
    let blocks = if case % 6 == 0 { 20 } else { 5 };
    let (c, kind) = gen::content(rng, blocks);
    let fp = |a: u64, b: u64| Some(crate::util::fnv(&c) ^ a.wrapping_mul(0x9E37_79B9) ^ b << 32);

    // A clean run, to learn the number of calls.
    let mut ds = MemDs::default();
    let key = match guarded(|| snapcd::file::put_data(&mut ds, &c[..])) {
        Ok(k) => k,
        Err(e) => crate::viol!("store-fails", "storing fails: {}", e),
    };
    let puts = ds.puts.get();
    let stored = ds.data.borrow().clone();

    for n in picks(rng, puts, 60) {
        let mut d = MemDs::default();
        d.fail_put.set(n);
        d.sticky.set(rng.chance(1, 2));
        let r = guarded(|| snapcd::file::put_data(&mut d, &c[..]));
        deliver(ctx, d.failed.get(), fp(1, n));
        ensure!(
            r.is_err() || d.failed.get() == 0,
            "put-failure-swallowed",
            "storing {} bytes gives a key although putting object {} of {} failed",
            c.len(),
            n,
            puts
        );
    }
    // The reader fails after some number of bytes, also right at the end.
    let mut at: Vec<usize> = vec![0, c.len(), c.len() / 2];
    for b in &[1usize, 32768, 65535, 65536, 65537, 131072] {
        if *b <= c.len() {
            at.push(*b);
            at.push(c.len() - *b);
        }
    }
    for p in at {
        for kind in &[
            ErrorKind::Other,
            ErrorKind::UnexpectedEof,
            ErrorKind::WouldBlock,
            ErrorKind::BrokenPipe,
            ErrorKind::PermissionDenied,
            ErrorKind::WriteZero,
        ] {
            let mut r = Reader::new(&c, Split::Random, rng.clone());
            rng.next();
            r.fail_at = Some(p);
            r.kind = *kind;
            r.interrupts = rng.chance(1, 3);
            let mut d = MemDs::default();
            let res = guarded(|| snapcd::file::put_data(&mut d, &mut r));
            deliver(ctx, r.failed, fp(2, p as u64 ^ (*kind as u64) << 20));
            ensure!(
                res.is_err() || r.failed == 0,
                "read-failure-swallowed",
                "storing {} bytes gives a key although reading failed with {:?} at {}",
                c.len(),
                kind,
                p
            );
        }
    }
    // Reading back: each get fails, or is of an object that is not there.
    let src = MemDs::with(stored.clone());
    let mut w = Writer::new(rng.clone());
    let _ = guarded(|| snapcd::file::read_data(&src, key, &mut w));
    let gets = src.gets.get();
    for n in picks(rng, gets, 60) {
        let d = MemDs::with(stored.clone());
        d.fail_get.set(n);
        let mut w = Writer::new(rng.clone());
        let res = guarded(|| snapcd::file::read_data(&d, key, &mut w));
        deliver(ctx, d.failed.get(), fp(3, n));
        ensure!(
            res.is_err() || w.got == c || d.failed.get() == 0,
            "get-failure-swallowed",
            "reading {} bytes reports success although getting object {} of {} failed",
            c.len(),
            n,
            gets
        );
    }
    let keys: Vec<Vec<u8>> = stored.keys().cloned().collect();
    for n in picks(rng, keys.len() as u64, 30) {
        let d = MemDs::with(stored.clone());
        d.data.borrow_mut().remove(&keys[n as usize - 1]);
        let mut w = Writer::new(rng.clone());
        let res = guarded(|| snapcd::file::read_data(&d, key, &mut w));
        deliver(ctx, 1, fp(4, n));
        ensure!(
            res.is_err() || w.got == c,
            "missing-object-ignored",
            "reading {} bytes reports success without object {}",
            c.len(),
            model::user_key_db(&keys[n as usize - 1])
        );
    }
    // The writer fails, or takes nothing more.
    let mut at: Vec<usize> = vec![0, c.len() / 2];
    if !c.is_empty() {
        at.push(c.len() - 1);
    }
    for b in &[1usize, 32767, 32768, 98304] {
        if *b < c.len() {
            at.push(*b);
            at.push(c.len() - *b);
        }
    }
    for p in at {
        for zero in &[false, true] {
            let mut w = Writer::new(rng.clone());
            rng.next();
            w.short = c.len() < 1 << 20 && rng.chance(1, 2);
            w.fail_at = Some(p);
            w.zero = *zero;
            w.kind = *rng.pick(&[
                ErrorKind::Other,
                ErrorKind::WriteZero,
                ErrorKind::BrokenPipe,
                ErrorKind::WouldBlock,
                ErrorKind::UnexpectedEof,
                ErrorKind::TimedOut,
                ErrorKind::PermissionDenied,
            ]);
            let kind = if *zero { 0 } else { 2 + w.kind as u64 };
            let res = guarded(|| snapcd::file::read_data(&src, key, &mut w));
            deliver(ctx, w.failed, fp(5, p as u64 ^ kind << 32));
            ensure!(
                res.is_err() || w.got == c,
                "write-failure-swallowed",
                "reading {} bytes reports success although only {} could be written",
                c.len(),
                w.got.len()
            );
        }
    }
    ctx.sample_in(
        "content",
        json!({ "kind": format!("{:?}", kind), "len": c.len(), "puts": puts, "gets": gets }),
    );
    Ok(())
}

/// Up to `max` of 1..=n, with both ends.
fn picks(rng: &mut Rng, n: u64, max: u64) -> Vec<u64> {
    if n <= max {
        return (1..=n).collect();
    }
    let mut v: Vec<u64> = (1..=max / 3).chain(n - max / 3..=n).collect();
    while (v.len() as u64) < max {
        v.push(rng.range(1, n as usize) as u64);
    }
    v
}

fn deliver(ctx: &Ctx, failed: u64, fp: Option<u64>) {
    ctx.eval(if failed > 0 { fp } else { None });
    if failed > 0 {
        ctx.count("faults_delivered_in_process", 1);
    }
}

#[cfg(feature = "inproc")]
fn tree(ctx: &Ctx, rng: &mut Rng, _case: u64) -> Res {
    use crate::memds::*;
    let t = gen::tree(
        rng,
        &gen::TreeOpts {
            max_blocks: 3,
            ..gen::TreeOpts::small()
        },
    );
    let top = ctx.dir("t")?;
    let _rm = Rm(top.clone());
    let p = top.join("in");
    write_tree(&p, &t, None)?;
    let mut ds = MemDs::default();
    let key = match guarded(|| snapcd::dir::put_fs_item(&mut ds, &p, &|_| true)) {
        Ok(k) => k,
        Err(e) => crate::viol!("store-fails", "storing a tree fails: {}", e),
    };
    let puts = ds.puts.get();
    let stored = ds.data.borrow().clone();
    let f = t.fingerprint();
    for n in picks(rng, puts, 60) {
        let mut d = MemDs::default();
        d.fail_put.set(n);
        let res = guarded(|| snapcd::dir::put_fs_item(&mut d, &p, &|_| true));
        deliver(ctx, d.failed.get(), Some(f ^ n << 8 ^ 1));
        if let Ok(k) = res {
            ensure!(
                d.failed.get() == 0,
                "put-failure-swallowed",
                "storing a tree gives key {} although putting object {} of {} failed",
                k,
                n,
                puts
            );
        }
    }
    let src = MemDs::with(stored.clone());
    let out = top.join("out");
    let _ = guarded(|| snapcd::dir::get_fs_item(&src, key.into(), &out));
    let gets = src.gets.get();
    for n in picks(rng, gets, 40) {
        let _ = std::fs::remove_dir_all(&out);
        let _ = std::fs::remove_file(&out);
        let d = MemDs::with(stored.clone());
        d.fail_get.set(n);
        let res = guarded(|| snapcd::dir::get_fs_item(&d, key.into(), &out));
        deliver(ctx, d.failed.get(), Some(f ^ n << 8 ^ 2));
        if res.is_ok() {
            complete(&out, &t, &format!("although getting object {} of {} failed", n, gets))?;
        }
    }
    // A commit that cannot be put.
    let mut d = MemDs::default();
    d.fail_put.set(1);
    let mut attrs = snapcd::commit::CommitAttrs::default();
    attrs.set_message("m".into());
    let res = guarded(|| snapcd::commit::commit_tree(&mut d, key.into(), vec![], attrs));
    deliver(ctx, d.failed.get(), Some(f ^ 3));
    ensure!(
        res.is_err() || d.failed.get() == 0,
        "put-failure-swallowed",
        "a commit that could not be put is reported as made"
    );
    ctx.sample_in("tree", json!({ "tree": t.describe(), "puts": puts, "gets": gets }));
    Ok(())
}

struct Rm(std::path::PathBuf);
impl Drop for Rm {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn complete(out: &std::path::Path, t: &Node, when: &str) -> Res {
    let back = match read_tree(out) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => crate::viol!("incomplete-success", "fetch reports success {}: {}", when, e),
        Err(e) => crate::viol!("incomplete-success", "fetch reports success {}: {}", when, e),
    };
    if let Some(d) = tree_diff(t, &back, "") {
        crate::viol!("incomplete-success", "fetch reports success {}: {}", when, d);
    }
    Ok(())
}

/// The program, with each of its system calls on the input, the output and the database failing.
fn program(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let t = gen::tree(
        rng,
        &gen::TreeOpts {
            max_blocks: if case % 4 == 0 { 4 } else { 0 },
            depth: 2,
            width: 4,
            ..gen::TreeOpts::small()
        },
    );
    let mut t = t;
    // something of more than one buffer, to fail in the middle of
    let big = gen::content_of(rng, gen::Kind::Scripted, 3);
    t.set("big", Some(Node::File(big)));
    let p = r.top.join("in");
    write_tree(&p, &t, None)?;
    let base = shim::read_files(&r.root.join(".snapcd"))?;
    let counts = r.top.join("counts");

    let insert = |fail: &str| -> Res<crate::cli::Out> {
        let _ = std::fs::remove_file(&counts);
        shim::attach(r.prep(&r.root, &["insert".as_ref(), p.as_os_str()]), &r)
            .env("VS_DATA", &p)
            .env("VS_COUNTS", &counts)
            .env("VS_FAIL", fail)
            .go()
    };
    let o = insert("")?;
    ensure!(o.ok(), "store-fails", "insert fails: {}", o.brief());
    let key = crate::cli::inserted_key(&o)?;
    let n0 = shim::counts(&counts);
    if n0.get("data.read").copied().unwrap_or(0) == 0 {
        inconclusive_shim(&n0)?;
    }
    let full = shim::read_files(&r.root.join(".snapcd"))?;

    let errnos = [libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOSPC, libc::ESTALE];
    for class in &["data.open", "data.read", "data.stat", "data.readdir", "db.write"] {
        let total = n0.get(*class).copied().unwrap_or(0);
        for n in picks(rng, total, ctx.n(8, 30)) {
            let e = match *class {
                "db.write" => *rng.pick(&[libc::EIO, libc::ENOSPC]),
                _ => *rng.pick(&errnos),
            };
            shim::write_files(&r.root.join(".snapcd"), &base)?;
            let o = insert(&format!("{}:{}:{}", class, n, e))?;
            ctx.eval(Some(t.fingerprint() ^ crate::util::fnv(class.as_bytes()) ^ n << 40 ^ e as u64));
            ctx.count("faults_delivered_to_program", 1);
            if o.ok() {
                ctx.count("faults_survived", 1);
                // Whatever it did about the fault, the key must stand for everything.
                let k = crate::cli::inserted_key(&o)?;
                let db = r.db()?;
                let got = match model::parse_user_key(&k)
                    .ok_or_else(|| "no key".to_string())
                    .and_then(|k| model::tree(&db.data, &k))
                {
                    Ok(g) => g,
                    Err(e) => crate::viol!(
                        "incomplete-success",
                        "insert reports success although {} number {} failed: {}",
                        class,
                        n,
                        e
                    ),
                };
                if let Some(d) = tree_diff(&t, &got, "") {
                    crate::viol!(
                        "incomplete-success",
                        "insert reports success although {} number {} failed (errno {}): {}",
                        class,
                        n,
                        e,
                        d
                    );
                }
            }
        }
    }
    shim::write_files(&r.root.join(".snapcd"), &full)?;
    let dest = r.top.join("dest");
    let out = dest.join("out");
    let fetch = |fail: &str| -> Res<crate::cli::Out> {
        let _ = std::fs::remove_dir_all(&dest);
        std::fs::create_dir(&dest)?;
        let _ = std::fs::remove_file(&counts);
        shim::attach(r.prep(&r.root, &["fetch".as_ref(), key.as_ref(), out.as_os_str()]), &r)
            .env("VS_COUNTS", &counts)
            .env("VS_FAIL", fail)
            .go()
    };
    let o = fetch("")?;
    ensure!(o.ok(), "read-fails", "fetch fails: {}", o.brief());
    complete(&out, &t, "")?;
    let n0 = shim::counts(&counts);
    for class in &["dest.open", "dest.write", "dest.mkdir", "db.read", "db.open"] {
        let total = n0.get(*class).copied().unwrap_or(0);
        for n in picks(rng, total, ctx.n(8, 30)) {
            let e = *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EROFS]);
            let flags = if *class == "dest.write" && rng.chance(1, 2) { ":t" } else { "" };
            let o = fetch(&format!("{}:{}:{}{}", class, n, e, flags))?;
            ctx.eval(Some(t.fingerprint() ^ crate::util::fnv(class.as_bytes()) ^ n << 40 ^ e as u64 ^ 77));
            ctx.count("faults_delivered_to_program", 1);
            if o.ok() {
                ctx.count("faults_survived", 1);
                complete(&out, &t, &format!("although {} number {} failed (errno {})", class, n, e))?;
            }
        }
    }
    ctx.sample_in(
        "program",
        json!({ "tree": t.describe(), "calls": n0 }),
    );
    Ok(())
}

fn inconclusive_shim(n: &std::collections::BTreeMap<String, u64>) -> Res {
    Err(crate::report::Fail::Inconclusive(format!(
        "the shim saw no reads of the input: {:?}",
        n
    )))
}
