//! C27: the memory a command needs does not grow with the size of the files it handles.

use crate::cli::{Out, Repo};
use crate::ensure;
use crate::gen;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen::{self, Listing};
use crate::util::fnv;
use serde_json::json;
use std::ffi::{OsStr, OsString};
use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Files of 90 to 200 MiB (random, text, zeros, holes, repetitions, logs, and many middle-sized files at once) are stored, committed, listed, checked with a cold and a warm cache, changed, appended to, \
stored again, printed and fetched, each by a command that may have 40 MiB of private memory (RLIMIT_DATA; it uses below 10). Each must succeed, and give what the same command has to give. \
What the commands use is sampled while they run. Non-trivial: the file the command handles is more than twice the limit; distinct by command and content.",
    assumptions: &[
        "memory mapped from files does not count, as it can be dropped",
        "show and log of a commit and compare -s, which compare files line by line, hold them in memory by design and are left out",
    ],
    needed: &["commands_limited", "bytes_handled", "stored", "fetched", "checked_cold", "large_changes_found", "peaks_sampled"],
    needed_inproc: &[],
};

const LIMIT: u64 = 40 << 20;
const MIB: usize = 1 << 20;

pub fn run(ctx: &Ctx) {
    ctx.cases_on(3, "one", ctx.n(9, 120), |rng, i| one(ctx, rng, i));
    ctx.cases_on(3, "many", ctx.n(3, 24), |rng, i| many(ctx, rng, i));
}

/// Writes content of about this size, without holding it. Gives its size.
fn write(rng: &mut Rng, p: &Path, kind: u64, size: usize) -> Res<u64> {
    let f = std::fs::File::create(p)?;
    let mut f = BufWriter::with_capacity(MIB, f);
    let block = match kind {
        1 => {
            let mut v = vec![];
            while v.len() < MIB {
                v.extend(gen::text(rng, 300));
            }
            v
        }
        2 | 3 => vec![0; MIB],
        4 => {
            let n = rng.range(1, 200_000);
            rng.bytes(n)
        }
        _ => rng.bytes(4 * MIB),
    };
    let mut n = 0usize;
    let mut i = 0u64;
    let mut block = block;
    while n < size {
        match kind {
            3 => {
                // Mostly holes.
                let hole = rng.range(1, 20 * MIB);
                f.flush()?;
                f.seek(SeekFrom::Current(hole as i64))?;
                let k = rng.below(70_000);
                let b = rng.bytes(k + 1);
                f.write_all(&b)?;
                n += hole + b.len();
            }
            2 | 4 => {
                f.write_all(&block)?;
                n += block.len();
            }
            1 => {
                f.write_all(&block)?;
                let l = format!("line {}\n", i);
                f.write_all(l.as_bytes())?;
                n += block.len() + l.len();
            }
            _ => {
                // Never the same again.
                for at in (0..block.len()).step_by(2048) {
                    block[at] = block[at].wrapping_add(1 + (i % 7) as u8);
                }
                f.write_all(&block)?;
                n += block.len();
            }
        }
        i += 1;
    }
    let k = rng.below(60_000);
    let tail = rng.bytes(k);
    f.write_all(&tail)?;
    f.flush()?;
    Ok(f.get_ref().metadata()?.len())
}

fn same(a: &Path, b: &Path) -> Res<bool> {
    if std::fs::metadata(a)?.len() != std::fs::metadata(b)?.len() {
        return Ok(false);
    }
    let mut a = BufReader::with_capacity(MIB, std::fs::File::open(a)?);
    let mut b = BufReader::with_capacity(MIB, std::fs::File::open(b)?);
    let (mut x, mut y) = (vec![0; MIB], vec![0; MIB]);
    loop {
        let n = a.read(&mut x)?;
        if n == 0 {
            return Ok(true);
        }
        b.read_exact(&mut y[..n])?;
        if x[..n] != y[..n] {
            return Ok(false);
        }
    }
}

fn args<S: AsRef<OsStr>>(a: &[S]) -> Vec<OsString> {
    a.iter().map(|x| x.as_ref().to_os_string()).collect()
}

/// Runs a command that handles so many bytes with little memory.
fn limited(ctx: &Ctx, r: &Repo<'_>, a: &[OsString], bytes: u64, fp: u64, out: Option<PathBuf>) -> Res<Out> {
    let mut run = r.prep(&r.root, a);
    run.data = Some(LIMIT);
    run.stdout = out;
    let ch = run.spawn()?;
    let pid = ch.id();
    let done = std::sync::atomic::AtomicBool::new(false);
    let (o, peak) = std::thread::scope(|s| {
        let h = s.spawn(|| {
            let mut peak = 0u64;
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                if let Ok(t) = std::fs::read_to_string(format!("/proc/{}/status", pid)) {
                    for l in t.lines() {
                        if let Some(v) = l.strip_prefix("RssAnon:") {
                            let kb = v.trim().trim_end_matches(" kB").parse().unwrap_or(0);
                            peak = peak.max(kb);
                        }
                    }
                }
                std::thread::sleep(std::time::Duration::from_millis(3));
            }
            peak
        });
        let o = ch.wait();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        (o, h.join().unwrap_or(0))
    });
    let o = o?;
    if peak > 0 {
        ctx.count("peaks_sampled", 1);
        ctx.max("peak_private_kb", peak);
    }
    ctx.count("commands_limited", 1);
    ctx.count("bytes_handled", bytes);
    ctx.max("largest_handled", bytes);
    ctx.eval(if bytes > 2 * LIMIT { Some(fp) } else { None });
    let words: Vec<_> = a.iter().map(|x| x.to_string_lossy().chars().take(60).collect::<String>()).collect();
    if !o.ok() {
        return crate::report::violation(
            "needs-too-much-memory",
            format!("snapcd {:?}, on {} MiB, fails if it may use {} MiB of memory: {}", words, bytes >> 20, LIMIT >> 20, o.brief()),
            json!({ "command": words, "bytes": bytes, "peak_private_kb_seen": peak }),
        );
    }
    Ok(o)
}

fn listing(what: &str, o: &Out, modified: &[&str], added: &[&str], head: bool) -> Res {
    let exp = Listing {
        modified: modified.iter().map(|x| x.to_string()).collect(),
        added: added.iter().map(|x| x.to_string()).collect(),
        ..Listing::default()
    };
    scen::check_listing(what, o, &exp, head)?;
    Ok(())
}

fn one(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let kind = case % 6;
    let p = r.root.join("large");
    let size = rng.range(90, 170) * MIB;
    let mut n = write(rng, &p, kind, size)?;
    std::fs::write(r.root.join("small"), b"small")?;
    let mut id = fnv(format!("{} {} {}", kind, n, rng.next()).as_bytes());
    let go = |a: &[OsString], n: u64, id: u64, out: Option<PathBuf>| {
        let fp = a.iter().fold(id, |h, x| h.rotate_left(5) ^ fnv(std::os::unix::ffi::OsStrExt::as_bytes(x.as_os_str())));
        limited(ctx, &r, a, n, fp, out)
    };
    let first_by_commit = rng.chance(1, 2);
    let key = if first_by_commit {
        go(&args(&["commit", "-m", "first"]), n, id, None)?;
        scen_key(&r, "large")?
    } else {
        let o = go(&args(&["insert", "large"]), n, id, None)?;
        let k = crate::cli::inserted_key(&o)?;
        go(&args(&["commit", "-m", "first"]), n, id, None)?;
        k
    };
    ctx.count("stored", 1);
    // With a cold cache, it has to be read.
    let o = go(&args(&["status"]), n, id, None)?;
    ctx.count("checked_cold", 1);
    listing("status of a large file right after the commit", &o, &[], &[], true)?;
    // Back from the store.
    let dest = r.top.join("fetched");
    go(&args(&[OsStr::new("fetch"), OsStr::new(&key), dest.as_os_str()]), n, id, None)?;
    ctx.count("fetched", 1);
    ensure!(same(&p, &dest)?, "wrong-content", "what was fetched of a large file differs");
    std::fs::remove_file(&dest)?;
    if rng.chance(1, 2) {
        go(&args(&["show", &key]), n, id, Some(dest.clone()))?;
        ensure!(same(&p, &dest)?, "wrong-content", "what was printed of a large file differs");
        std::fs::remove_file(&dest)?;
    }
    if rng.chance(1, 2) {
        let cmd = match rng.below(3) {
            0 => vec!["checkout-head", "master"],
            1 => vec!["debug", "walk-fs-tree", "."],
            _ => vec!["debug", "pretty-print", &key],
        };
        go(&args(&cmd), n, id, None)?;
    }
    // A change, here or there, or more of it.
    {
        let mut f = std::fs::OpenOptions::new().write(true).open(&p)?;
        match rng.below(3) {
            0 => {
                let at = rng.below(n as usize) as u64;
                f.seek(SeekFrom::Start(at))?;
                f.write_all(b"changed here")?;
            }
            1 => {
                f.seek(SeekFrom::End(0))?;
                f.write_all(b"appended")?;
            }
            _ => {
                f.seek(SeekFrom::End(0))?;
                for _ in 0..40 {
                    let b = rng.bytes(MIB);
                    f.write_all(&b)?;
                }
            }
        }
    }
    n = std::fs::metadata(&p)?.len();
    id = id.rotate_left(9) ^ n;
    let o = go(&args(&["status"]), n, id, None)?;
    listing("status of a large file that changed", &o, &["large"], &[], true)?;
    ctx.count("large_changes_found", 1);
    if rng.chance(1, 2) {
        let o = go(&args(&["compare", "-p", "."]), n, id ^ 1, None);
        // Without a tree it is HEAD's.
        listing("compare of a large file that changed", &o?, &["large"], &[], false)?;
    }
    go(&args(&["commit", "-m", "second"]), n, id, None)?;
    ctx.count("stored", 1);
    let key = scen_key(&r, "large")?;
    go(&args(&[OsStr::new("fetch"), OsStr::new(&key), dest.as_os_str()]), n, id, None)?;
    ctx.count("fetched", 1);
    ensure!(same(&p, &dest)?, "wrong-content", "what was fetched of a large file that changed differs");
    if case < 3 {
        ctx.sample_in("one", json!({ "case": case, "kind": kind, "bytes": n, "first_by_commit": first_by_commit }));
    }
    Ok(())
}

/// The key of an entry of the tree HEAD points at.
fn scen_key(r: &Repo<'_>, name: &str) -> Res<String> {
    let o = r.must(&["insert", name])?;
    crate::cli::inserted_key(&o)
}

/// Many files, none of them large by itself.
fn many(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let count = rng.range(30, 200);
    let each = 130 * MIB / count;
    let mut n = 0;
    for i in 0..count {
        let d = r.root.join(format!("d{}", i % 7));
        std::fs::create_dir_all(&d)?;
        let size = rng.range(each / 2, each * 3 / 2);
        let kind = rng.below(2) as u64 * 5;
        n += write(rng, &d.join(format!("f{}", i)), kind, size)?;
    }
    let id = fnv(format!("{} {} {}", count, n, rng.next()).as_bytes());
    let go = |a: &[OsString], out: Option<PathBuf>| {
        let fp = a.iter().fold(id, |h, x| h.rotate_left(5) ^ fnv(std::os::unix::ffi::OsStrExt::as_bytes(x.as_os_str())));
        limited(ctx, &r, a, n, fp, out)
    };
    go(&args(&["commit", "-m", "all"]), None)?;
    ctx.count("stored", 1);
    let o = go(&args(&["status"]), None)?;
    ctx.count("checked_cold", 1);
    listing("status of many files right after the commit", &o, &[], &[], true)?;
    let o = go(&args(&["status"]), None)?;
    listing("status of many files, again", &o, &[], &[], true)?;
    let o = go(&args(&["insert", "."]), None)?;
    let key = crate::cli::inserted_key(&o)?;
    let dest = r.top.join("fetched");
    go(&args(&[OsStr::new("fetch"), OsStr::new(&key), dest.as_os_str()]), None)?;
    ctx.count("fetched", 1);
    for i in 0..count {
        let f = format!("d{}/f{}", i % 7, i);
        ensure!(same(&r.root.join(&f), &dest.join(&f))?, "wrong-content", "{} was fetched with other content", f);
    }
    std::fs::write(r.root.join("d0/f0"), b"other")?;
    std::fs::write(r.root.join("new"), b"new")?;
    let o = go(&args(&["status"]), None)?;
    listing("status of many files after a change", &o, &["d0/f0"], &["new"], true)?;
    if case < 2 {
        ctx.sample_in("many", json!({ "case": case, "files": count, "bytes": n }));
    }
    Ok(())
}
