//! C25: a local edit of a large file stores only a bounded amount of new data.

use crate::cli::Repo;
use crate::ensure;
use crate::gen;
use crate::model::{self, Key};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::scen;
use crate::util::fnv;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Large files (random, repetitive, text, and made so that chunks and groups of chunks end where wanted) are stored, then changed by overwriting or appending up to 100 bytes, at the beginning, \
at the end, around the places where chunks end, or anywhere, once or in long sequences, and stored again. What is stored anew is counted: at most 8 chunks and 20 nodes above them, whatever the size of \
the file; putting the old bytes back stores nothing. No chunk exceeds 128 KiB and no node has more than 1024 children. Non-trivial: an edit of a file that has more than 40 chunks; distinct by \
content and edit.",
    assumptions: &[
        "the content has the ends of groups that its randomness makes likely; content made to have none for long stretches moves the later groups (DESIGN.md)",
        "content whose chunks all end with more than 41 zeros (one chunk in 2^41 does by chance) makes the topmost node grow; there is no level above it",
        "inserting or removing bytes elsewhere than at the end is outside the property",
    ],
    needed: &["edits", "edits_of_large", "overwrites", "appends", "put_back", "edits_at_chunk_ends", "objects_measured", "groups_in_a_row"],
    needed_inproc: &["edits_inproc"],
};

const MAX_CHUNKS: usize = 8;
const MAX_NODES: usize = 20;
const MAX_CHUNK: usize = 128 << 10;
const MAX_KEYS: usize = 1024;

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    ctx.cases("library", ctx.n(60, 900), |rng, i| inproc::library(ctx, rng, i));
    ctx.cases("program", ctx.n(24, 300), |rng, i| program(ctx, rng, i));
    ctx.cases("log", ctx.n(8, 60), |rng, i| growing(ctx, rng, i));
    #[cfg(feature = "inproc")]
    ctx.cases_on(4, "stream", ctx.n(1, 12), |rng, i| inproc::stream(ctx, rng, i));
    ctx.cases_on(4, "levels", ctx.n(6, 30), |rng, i| levels(ctx, rng, i));
    if !ctx.quick() {
        ctx.cases_on(2, "huge", 6, |rng, i| huge(ctx, rng, i));
    }
}

/// Content with more chunks than the bound allows to be new.
fn big(rng: &mut Rng, case: u64, blocks: usize) -> Vec<u8> {
    let mut c = match case % 5 {
        0 => gen::scripted(rng, blocks).0,
        1 => gen::content_of(rng, gen::Kind::Mixed, blocks),
        2 => {
            let mut v = vec![];
            while v.len() < blocks * gen::BLOCK {
                v.extend(gen::text(rng, 400));
            }
            v
        }
        3 => {
            // The same again and again, with a number in it.
            let n = rng.range(2000, 90_000);
            let unit = rng.bytes(n);
            let mut v = vec![];
            let mut i = 0u64;
            while v.len() < blocks * gen::BLOCK {
                v.extend(&unit);
                if rng.chance(1, 2) {
                    v.extend(i.to_string().bytes());
                }
                i += 1;
            }
            v
        }
        _ => vec![],
    };
    while c.len() < blocks * gen::BLOCK {
        let n = (blocks * gen::BLOCK - c.len()).min(4 << 20) + rng.below(5000);
        c.extend(rng.bytes(n));
    }
    c
}

#[derive(Clone, Debug)]
struct Edit {
    at: usize,
    bytes: Vec<u8>,
}

fn edit(ctx: &Ctx, rng: &mut Rng, c: &[u8], ends: &[usize]) -> Edit {
    let n = *rng.pick(&[1, 1, 2, 8, 63, 64, 65, 100]);
    let mut b = rng.bytes(n);
    ctx.count("edits", 1);
    let at = match rng.below(6) {
        0 => {
            ctx.count("appends", 1);
            return Edit { at: c.len(), bytes: b };
        }
        1 => 0,
        2 => c.len().saturating_sub(rng.range(1, 200)),
        3 | 4 => {
            ctx.count("edits_at_chunk_ends", 1);
            let e = *rng.pick(ends);
            (e + rng.below(130)).saturating_sub(130 - rng.below(66))
        }
        _ => rng.below(c.len()),
    };
    let at = at.min(c.len() - 1);
    ctx.count("overwrites", 1);
    let end = (at + n).min(c.len());
    b.truncate(end - at);
    for (i, x) in b.iter_mut().enumerate() {
        if *x == c[at + i] {
            *x = x.wrapping_add(1);
        }
    }
    if rng.chance(1, 8) {
        // So that a chunk ends where none did.
        let w = gen::window(rng, 14);
        if c.len() > 4 * gen::BLOCK + w.len() {
            let e = (1 + rng.below(c.len() / gen::BLOCK - 1)) * gen::BLOCK;
            return Edit { at: e - w.len(), bytes: w };
        }
    }
    Edit { at, bytes: b }
}

fn apply(c: &mut Vec<u8>, e: &Edit) -> Vec<u8> {
    let end = e.at + e.bytes.len();
    let old = c[e.at..end.min(c.len())].to_vec();
    if c.len() < end {
        c.resize(end, 0);
    }
    c[e.at..end].copy_from_slice(&e.bytes);
    old
}

fn ends(c: &[u8]) -> Vec<usize> {
    model::chunks(c).iter().map(|x| x.end).collect()
}

struct New {
    chunks: usize,
    nodes: usize,
    bytes: usize,
}

/// Measures what is in `after` and not in `before`, and how large each object is.
fn measure(ctx: &Ctx, before: &BTreeMap<Vec<u8>, Vec<u8>>, after: &BTreeMap<Vec<u8>, Vec<u8>>, what: &str) -> Res<New> {
    let mut n = New { chunks: 0, nodes: 0, bytes: 0 };
    for (k, v) in after {
        if before.contains_key(k) {
            continue;
        }
        let o = match model::decode_obj(v) {
            Ok(o) => o,
            Err(e) => crate::viol!("not-an-object", "{}: {}", what, e),
        };
        ctx.count("objects_measured", 1);
        n.bytes += v.len();
        match o.typ.as_str() {
            "FileBlob" => {
                n.chunks += 1;
                ctx.max("largest_chunk", o.data.len() as u64);
                ensure!(o.data.len() <= MAX_CHUNK, "object-too-large", "{}: a chunk of {} bytes is stored", what, o.data.len());
            }
            "FileBlobTree" => {
                n.nodes += 1;
                ctx.max("most_children", o.keys.len() as u64);
                ensure!(o.keys.len() <= MAX_KEYS, "object-too-large", "{}: a node with {} children is stored", what, o.keys.len());
            }
            _ => {}
        }
    }
    Ok(n)
}

fn bounded(ctx: &Ctx, n: &New, len: usize, what: &str) -> Res {
    ctx.max("most_new_chunks", n.chunks as u64);
    ctx.max("most_new_nodes", n.nodes as u64);
    ensure!(n.chunks <= MAX_CHUNKS, "too-much-stored", "{} of {} bytes: {} new chunks ({} bytes) are stored", what, len, n.chunks, n.bytes);
    ensure!(n.nodes <= MAX_NODES, "too-much-stored", "{} of {} bytes: {} new nodes ({} bytes) are stored", what, len, n.nodes, n.bytes);
    Ok(())
}

#[cfg(feature = "inproc")]
mod inproc {
    use super::*;
    use crate::memds::*;

    fn put(ds: &mut MemDs, c: &[u8]) -> Res<Key> {
        match guarded(|| snapcd::file::put_data(ds, c)) {
            Ok(k) => Ok(key_bytes(k)),
            Err(e) => crate::report::violation("store-fails", format!("storing {} bytes fails: {}", c.len(), e), json!(null)),
        }
    }

    /// The same unit again and again, numbered, with something overwritten.
    struct Units<'a> {
        unit: &'a [u8],
        n: u64,
        i: u64,
        cur: Vec<u8>,
        pos: usize,
        edit: Option<Edit>,
    }

    impl std::io::Read for Units<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.pos == self.cur.len() {
                if self.i == self.n {
                    return Ok(0);
                }
                self.cur.clear();
                self.cur.extend_from_slice(self.unit);
                self.cur[..8].copy_from_slice(&self.i.to_le_bytes());
                if let Some(e) = &self.edit {
                    let from = self.i as usize * self.unit.len();
                    if e.at >= from && e.at + e.bytes.len() <= from + self.unit.len() {
                        self.cur[e.at - from..e.at - from + e.bytes.len()].copy_from_slice(&e.bytes);
                    }
                }
                self.i += 1;
                self.pos = 0;
            }
            let n = b.len().min(self.cur.len() - self.pos);
            b[..n].copy_from_slice(&self.cur[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }

    /// More groups than an edit may change, which do not all end because they are full: an edit
    /// that makes a chunk more or less must not move them.
    pub fn stream(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
        // Groups of 40 to 200 chunks, ended by a window that ends groups of the level.
        let len = rng.range(2 << 20, 7 << 20);
        let z = *rng.pick(&[21u32, 22, 24, 27]);
        let mut unit = rng.bytes(len);
        let w = gen::window(rng, z);
        let at = len - 40_000 - rng.below(20_000);
        unit[at..at + w.len()].copy_from_slice(&w);
        let total: u64 = if ctx.quick() { 900 << 20 } else { 2500 << 20 };
        let n = total / len as u64;
        let mut ds = MemDs { nodes_only: std::cell::Cell::new(true), ..MemDs::default() };
        let mut store = |ds: &mut MemDs, edit: Option<Edit>| -> Res<Key> {
            let u = Units { unit: &unit, n, i: 0, cur: vec![], pos: 0, edit };
            match guarded(|| snapcd::file::put_data(ds, u)) {
                Ok(k) => Ok(key_bytes(k)),
                Err(e) => crate::report::violation("store-fails", format!("storing {} bytes fails: {}", n * len as u64, e), json!(null)),
            }
        };
        store(&mut ds, None)?;
        let mut seen = ds.data.borrow().clone();
        ctx.max("largest_streamed_nodes", seen.values().filter(|v| !v.is_empty()).count() as u64);
        ctx.count("bytes_streamed", n * len as u64);
        let mut changed = 0;
        for k in 0..4 {
            // Chunks end there now, or do not any more.
            let zeros = 14 + rng.below(4) as u32;
            let bytes = if k % 2 == 0 { gen::window(rng, zeros) } else { vec![rng.next() as u8; 60_000] };
            let at = (rng.below(3) * len + 5000 + rng.below(len - 80_000)) as usize;
            let ed = Edit { at, bytes };
            let many = ed.bytes.len() > 1000;
            store(&mut ds, Some(ed))?;
            let now = ds.data.borrow().clone();
            let (mut chunks, mut nodes) = (0, 0);
            for (k, v) in &now {
                if !seen.contains_key(k) {
                    if v.is_empty() {
                        chunks += 1;
                    } else {
                        nodes += 1;
                    }
                }
            }
            changed += (nodes > 0) as u64;
            ctx.count("edits", 1);
            ctx.count("edits_of_large", 1);
            ctx.count("bytes_streamed", n * len as u64);
            ctx.max("most_new_nodes", nodes);
            ctx.eval(Some(case << 8 ^ k ^ (at as u64) << 20));
            ensure!(chunks <= MAX_CHUNKS + 4 * many as usize, "too-much-stored", "an edit at {} of {} bytes stores {} new chunks", at, n * len as u64, chunks);
            ensure!(nodes <= MAX_NODES as u64, "too-much-stored", "an edit at {} of {} bytes stores {} new nodes", at, n * len as u64, nodes);
            seen = now;
        }
        ensure!(changed > 0, "nothing-stored", "four edits store nothing");
        Ok(())
    }

    pub fn library(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
        let blocks = if case % 10 == 0 { 640 } else { rng.range(60, 200) };
        let mut c = big(rng, case, blocks);
        let e = ends(&c);
        let mut ds = MemDs::default();
        put(&mut ds, &c)?;
        let all = ds.data.borrow().clone();
        measure(ctx, &BTreeMap::new(), &all, "storing the file")?;
        let mut seen = all;
        for _ in 0..if blocks > 300 { 4 } else { 10 } {
            let was = c.len();
            let ed = edit(ctx, rng, &c, &e);
            let old = apply(&mut c, &ed);
            put(&mut ds, &c)?;
            ctx.count("edits_inproc", 1);
            let now = ds.data.borrow().clone();
            let what = format!("{} bytes written at {}", ed.bytes.len(), ed.at);
            let n = measure(ctx, &seen, &now, &what)?;
            bounded(ctx, &n, was, &what)?;
            ctx.count("edits_of_large", (e.len() > 40) as u64);
            ctx.eval(if e.len() > 40 { Some(fnv(&ed.bytes) ^ (ed.at as u64) << 9 ^ c.len() as u64) } else { None });
            seen = now;
            if ed.at + old.len() <= was && rng.chance(1, 2) {
                c.truncate(was);
                c[ed.at..ed.at + old.len()].copy_from_slice(&old);
                put(&mut ds, &c)?;
                ensure!(ds.data.borrow().len() == seen.len(), "too-much-stored", "putting back what was at {} stores {} new objects", ed.at, ds.data.borrow().len() - seen.len());
                ctx.count("put_back", 1);
            }
        }
        if case < 3 {
            ctx.sample_in("library", json!({ "case": case, "bytes": c.len(), "chunks": e.len() }));
        }
        Ok(())
    }
}

fn program(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let blocks = rng.range(50, 160);
    let mut c = big(rng, case, blocks);
    let e = ends(&c);
    let p = r.root.join("large");
    std::fs::write(&p, &c)?;
    std::fs::write(r.root.join("other"), b"other")?;
    let first = if rng.chance(1, 2) {
        let o = r.run(&["commit", "-m", "first"])?;
        ensure!(o.ok(), "store-fails", "{}", o.brief());
        None
    } else {
        Some(scen::parse_key(&r.insert(&p)?)?)
    };
    let mut db = r.db()?;
    measure(ctx, &BTreeMap::new(), &db.data, "storing the file")?;
    for _ in 0..rng.range(4, 8) {
        let was = c.len();
        let ed = edit(ctx, rng, &c, &e);
        let old = apply(&mut c, &ed);
        {
            // In place, as a program would.
            let mut f = std::fs::OpenOptions::new().write(true).open(&p)?;
            f.seek(SeekFrom::Start(ed.at as u64))?;
            f.write_all(&ed.bytes)?;
        }
        let a: &[&str] = *rng.pick(&[&["commit", "-m", "next"][..], &["insert", "large"][..], &["status"][..], &["insert", "."][..]]);
        let o = r.run(a)?;
        ensure!(o.ok(), "store-fails", "{:?}: {}", a, o.brief());
        let now = r.db()?;
        let what = format!("{:?} after {} bytes were written at {}", a, ed.bytes.len(), ed.at);
        let n = measure(ctx, &db.data, &now.data, &what)?;
        bounded(ctx, &n, was, &what)?;
        ctx.count("edits_of_large", (e.len() > 40) as u64);
        ctx.eval(if e.len() > 40 { Some(fnv(&ed.bytes) ^ (ed.at as u64) << 9 ^ c.len() as u64) } else { None });
        db = now;
        if a[0] == "insert" && a[1] == "large" && ed.at + old.len() <= was && rng.chance(1, 2) {
            c.truncate(was);
            c[ed.at..ed.at + old.len()].copy_from_slice(&old);
            std::fs::write(&p, &c)?;
            r.insert(&p)?;
            let now = r.db()?;
            let n = measure(ctx, &db.data, &now.data, "putting back")?;
            // The state before may have been stored by nobody yet.
            bounded(ctx, &n, was, "putting back what was there")?;
            ctx.count("put_back", 1);
            db = now;
        }
    }
    // It is all still right.
    let k = scen::parse_key(&r.insert(&p)?)?;
    let now = r.db()?;
    match model::tree(&now.data, &k) {
        Ok(crate::util::Node::File(g)) => ensure!(g == c, "wrong-content", "after the edits, the stored file differs"),
        _ => crate::viol!("wrong-content", "after the edits, the file is not stored right"),
    }
    if case < 3 {
        ctx.sample_in("program", json!({ "case": case, "bytes": c.len(), "chunks": e.len(), "first": first.map(|k| model::user_key(&k)) }));
    }
    Ok(())
}

/// A file that is appended to again and again.
fn growing(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let p = r.root.join("log");
    let blocks = rng.range(45, 120);
    let mut c = big(rng, 4, blocks);
    std::fs::write(&p, &c)?;
    r.insert(&p)?;
    let mut db = r.db()?;
    let mut total = 0;
    for i in 0..rng.range(10, 20) {
        let n = rng.range(1, 100);
        let b = if case % 2 == 0 { rng.bytes(n) } else { format!("line {}\n", i).into_bytes() };
        std::fs::OpenOptions::new().append(true).open(&p)?.write_all(&b)?;
        c.extend(&b);
        let o = r.run(&["commit", "-m", "grown"])?;
        ensure!(o.ok(), "store-fails", "{}", o.brief());
        let now = r.db()?;
        let what = format!("a commit after {} bytes were appended", b.len());
        let n = measure(ctx, &db.data, &now.data, &what)?;
        bounded(ctx, &n, c.len(), &what)?;
        total += n.bytes;
        ctx.count("edits", 1);
        ctx.count("appends", 1);
        ctx.count("edits_of_large", 1);
        ctx.eval(Some(fnv(&b) ^ c.len() as u64));
        db = now;
    }
    if case < 2 {
        ctx.sample_in("log", json!({ "case": case, "bytes": c.len(), "stored_anew": total }));
    }
    Ok(())
}

/// More in a row on one level of the tree than a node may hold.
fn levels(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    // Chunk ends that end groups of the levels below the given one, and none of it or above.
    let z = *rng.pick(&match case % 6 {
        0 => [None; 3],
        1 => [Some(13), Some(17), Some(20)],
        2 => [Some(21), Some(24), Some(27)],
        3 => [Some(28), Some(31), Some(34)],
        4 => [Some(35), Some(38), Some(41)],
        _ => [None; 3],
    });
    let n = 1100 + rng.below(100);
    let mut c = if case % 6 == 5 {
        let n = rng.range(1, 5000);
        let unit = rng.bytes(n);
        let mut v = Vec::with_capacity(80 << 20);
        while v.len() < 75 << 20 {
            v.extend(&unit);
        }
        v
    } else if case % 6 == 0 {
        vec![rng.below(256) as u8; (n + 30) * gen::BLOCK]
    } else {
        let b = gen::block(rng, z, 1);
        let mut v = Vec::with_capacity((n + 1) * gen::BLOCK);
        for _ in 0..n {
            v.extend(&b);
        }
        v
    };
    let p = r.root.join("long");
    std::fs::write(&p, &c)?;
    let k = scen::parse_key(&r.insert(&p)?)?;
    let mut db = r.db()?;
    let what = format!("storing {} bytes whose chunks end with {:?} zeros", c.len(), z);
    let m = measure(ctx, &BTreeMap::new(), &db.data, &what)?;
    // Repeated content is stored once, if it ends where chunks end.
    ensure!(case % 6 == 5 || m.chunks + m.nodes < 200, "too-much-stored", "{}: {} chunks and {} nodes for the same block again and again", what, m.chunks, m.nodes);
    match model::tree(&db.data, &k) {
        Ok(crate::util::Node::File(g)) => ensure!(g == c, "wrong-content", "{}: it reads back differently", what),
        _ => crate::viol!("wrong-content", "{}: it is not stored right", what),
    }
    for _ in 0..3 {
        let b = rng.bytes(20);
        let at = if rng.chance(1, 2) { c.len() } else { c.len() - rng.range(21, 3 * gen::BLOCK) };
        let ed = Edit { at, bytes: b };
        apply(&mut c, &ed);
        std::fs::write(&p, &c)?;
        r.insert(&p)?;
        let now = r.db()?;
        let what = format!("{} bytes written at {}", ed.bytes.len(), ed.at);
        let n = measure(ctx, &db.data, &now.data, &what)?;
        bounded(ctx, &n, c.len(), &what)?;
        ctx.count("edits_of_large", 1);
        ctx.eval(Some(fnv(&ed.bytes) ^ (ed.at as u64) << 9 ^ c.len() as u64));
        db = now;
    }
    ctx.count("groups_in_a_row", n as u64);
    Ok(())
}

fn huge(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let r = Repo::new(ctx)?;
    let mut c = big(rng, if case % 2 == 0 { 4 } else { case }, 3000);
    let p = r.root.join("huge");
    std::fs::write(&p, &c)?;
    r.insert(&p)?;
    let mut db = r.db()?;
    let e = ends(&c);
    measure(ctx, &BTreeMap::new(), &db.data, "storing the file")?;
    for _ in 0..4 {
        let ed = edit(ctx, rng, &c, &e);
        apply(&mut c, &ed);
        std::fs::write(&p, &c)?;
        r.insert(&p)?;
        let now = r.db()?;
        let what = format!("{} bytes written at {}", ed.bytes.len(), ed.at);
        let n = measure(ctx, &db.data, &now.data, &what)?;
        bounded(ctx, &n, c.len(), &what)?;
        ctx.count("edits_of_large", 1);
        ctx.eval(Some(fnv(&ed.bytes) ^ (ed.at as u64) << 9 ^ c.len() as u64));
        db = now;
    }
    let _ = case;
    Ok(())
}
