//! C01: stored file content reads back byte for byte.

use crate::cli::Repo;
use crate::gen;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::fnv;
use crate::{ensure, shim};
use serde_json::json;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "File contents are built to drive the chunker: lengths around the 32/64 KiB limits, constant and \
periodic runs, and scripts of 64 KiB blocks whose first gear-hash boundary has a chosen number of leading \
zeros (13 to 49), so that every level of the chunk tree opens, closes and overflows. They are stored through \
readers that split and interrupt, from files that report a size which is not theirs, and read back through writers that take pieces. Non-trivial: more than one \
chunk, or a length of at most 2. Distinct by content hash.",
    assumptions: &["the harness's own copy of the content is the reference"],
    needed: &["round_trips_by_program", "sources_with_false_size", "boundaries_that_close_levels"],
    needed_inproc: &["round_trips_in_process", "chunk_tree_objects"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    {
        ctx.cases("inproc", ctx.n(5000, 30000), |rng, i| {
            let blocks = if i % 10 == 0 { 24 } else { 7 };
            let (c, kind) = gen::content(rng, blocks);
            inproc(ctx, rng, &c, &format!("{:?}", kind))
        });
        ctx.cases("levels", ctx.n(200, 1500), |rng, _| {
            let n = rng.range(20, 110);
            let (c, _) = gen::scripted(rng, n);
            inproc(ctx, rng, &c, "levels")
        });
        ctx.cases_on(4, "overflow", ctx.n(36, 36), |rng, i| {
            let c = overflow(rng, i);
            inproc(ctx, rng, &c, "overflow")
        });
    }
    ctx.cases("program", ctx.n(1200, 8000), |rng, i| {
        let blocks = if i % 8 == 0 { 24 } else { 6 };
        let (c, kind) = gen::content(rng, blocks);
        program(ctx, rng, &c, &format!("{:?}", kind))
    });
    ctx.cases_on(3, "program-overflow", ctx.n(18, 18), |rng, i| {
        let c = overflow(rng, i);
        program(ctx, rng, &c, "overflow")
    });
}

/// More than 512 nodes on one level, so that it is closed by count.
fn overflow(rng: &mut Rng, i: u64) -> Vec<u8> {
    let blocks = 512 + rng.below(9);
    let mut v = Vec::with_capacity((blocks + 1) * gen::BLOCK);
    let z = match i % 6 {
        0 => None,
        1 => Some(21),
        2 => Some(28),
        3 => Some(35),
        4 => {
            let n = (32i64 << 20) + (1 << 15) + *rng.pick(&[0, 1, -1, 65536, -65536][..]);
            return vec![rng.next() as u8; n as usize];
        }
        _ => Some(42),
    };
    for k in 0..blocks {
        let id = rng.next() ^ k as u64;
        v.extend_from_slice(&gen::block(rng, z, id));
    }
    let t = *rng.pick(&[0usize, 1, 32768, 40000][..]);
    let tail = rng.bytes(t);
    v.extend_from_slice(&tail);
    v
}

pub fn nontrivial(c: &[u8]) -> Option<u64> {
    if c.len() > 32768 || c.len() <= 2 {
        Some(fnv(c))
    } else {
        None
    }
}

fn closing(c: &[u8]) -> u64 {
    crate::model::chunks(c)
        .iter()
        .filter(|x| x.zeros.map_or(false, |z| z > 20))
        .count() as u64
}

#[cfg(feature = "inproc")]
fn inproc(ctx: &Ctx, rng: &mut Rng, c: &[u8], kind: &str) -> Res {
    use crate::memds::*;
    let mut ds = MemDs::default();
    let split = match rng.below(5) {
        0 => Split::Whole,
        1 => Split::Fixed(*rng.pick(&[1000, 8192, 65536, 65535, 32768, 40000][..])),
        2 if c.len() < 100_000 => Split::Ones,
        _ => Split::Random,
    };
    let mut r = Reader::new(c, split, rng.clone());
    r.interrupts = rng.chance(1, 2);
    let key = match guarded(|| snapcd::file::put_data(&mut ds, &mut r)) {
        Ok(k) => k,
        Err(e) => {
            return crate::report::violation(
                "store-fails",
                format!("storing {} bytes fails: {}", c.len(), e),
                json!({ "kind": kind, "len": c.len(), "split": format!("{:?}", split) }),
            )
        }
    };
    let mut w = Writer::new(rng.clone());
    w.short = c.len() < 1 << 21 && rng.chance(1, 2);
    w.interrupts = w.short;
    let res = guarded(|| snapcd::file::read_data(&ds, key, &mut w));
    ctx.eval(nontrivial(c));
    ctx.count("round_trips_in_process", 1);
    ctx.count("bytes_in_process", c.len() as u64);
    let mut trees = 0;
    let mut fanout = 0;
    for v in ds.data.borrow().values() {
        if let Ok(o) = crate::model::decode_obj(v) {
            if o.typ == "FileBlobTree" {
                trees += 1;
                fanout = fanout.max(o.keys.len() as u64);
            }
        }
    }
    ctx.count("chunk_tree_objects", trees);
    ctx.count("reader_calls", r.calls);
    ctx.max("largest_fanout", fanout);
    ctx.count("boundaries_that_close_levels", closing(c));
    ctx.sample_in(
        kind,
        json!({ "len": c.len(), "split": format!("{:?}", split), "chunk_tree_objects": trees }),
    );
    if let Err(e) = res {
        return crate::report::violation(
            "read-fails",
            format!("reading back {} stored bytes fails: {}", c.len(), e),
            json!({ "kind": kind, "len": c.len() }),
        );
    }
    if w.got != c {
        let at = w.got.iter().zip(c).position(|(a, b)| a != b);
        return crate::report::violation(
            "content-differs",
            format!(
                "{} bytes stored, {} read back, first difference at {:?}",
                c.len(),
                w.got.len(),
                at
            ),
            json!({ "kind": kind, "len": c.len(), "split": format!("{:?}", split) }),
        );
    }
    Ok(())
}

fn program(ctx: &Ctx, rng: &mut Rng, c: &[u8], kind: &str) -> Res {
    let r = Repo::new(ctx)?;
    let f = r.top.join("file");
    std::fs::write(&f, c)?;
    let mut ins = r.prep(&r.root, &["insert".as_ref(), f.as_os_str()]);
    let short = rng.chance(1, 2);
    if short {
        ins = shim::attach(ins, &r)
            .env("VS_DATA", &r.top)
            .env("VS_SHORT", rng.below(1 << 30).to_string());
    }
    if rng.chance(1, 4) {
        // Files of /proc, and those that grow, have more or less in them than they say.
        let size = match rng.below(4) {
            0 => 0,
            1 => c.len() / 2,
            2 => c.len().saturating_sub(1),
            _ => c.len() + rng.range(1, 70_000),
        };
        ins = shim::attach(ins, &r).env("VS_DATA", &r.top).env("VS_META", format!("-:-:-:-:{}", size));
        ctx.count("sources_with_false_size", 1);
    }
    let o = ins.go()?;
    ensure!(o.ok(), "store-fails", "insert of {} bytes fails: {}", c.len(), o.brief());
    let key = crate::cli::inserted_key(&o)?;
    let dest = r.top.join("dest");
    std::fs::create_dir(&dest)?;
    let mut fe = r.prep(&r.root, &["fetch".as_ref(), key.as_ref(), dest.join("out").as_os_str()]);
    if rng.chance(1, 2) {
        fe = shim::attach(fe, &r).env("VS_SHORT", rng.below(1 << 30).to_string());
    }
    let o = fe.go()?;
    ctx.eval(nontrivial(c));
    ctx.count("round_trips_by_program", 1);
    ctx.count("boundaries_that_close_levels", closing(c));
    ctx.sample_in("program", json!({ "len": c.len(), "kind": kind, "short_reads": short, "key": key }));
    ensure!(o.ok(), "read-fails", "fetch of {} bytes fails: {}", c.len(), o.brief());
    let back = std::fs::read(dest.join("out"))?;
    ensure!(
        back == c,
        "content-differs",
        "{} bytes inserted, {} fetched, first difference at {:?} ({})",
        c.len(),
        back.len(),
        back.iter().zip(c).position(|(a, b)| a != b),
        kind
    );
    if c.len() < 1 << 22 {
        let o = r.run(&["show", &key])?;
        ensure!(o.ok(), "read-fails", "show of {} bytes fails: {}", c.len(), o.brief());
        ensure!(
            o.stdout == c,
            "content-differs",
            "{} bytes inserted, show gives {}",
            c.len(),
            o.stdout.len()
        );
        ctx.count("shown", 1);
    }
    Ok(())
}
