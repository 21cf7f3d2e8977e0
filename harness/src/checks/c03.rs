//! C03: a content key depends on the content only, and content is stored once.

use crate::cli::Repo;
use crate::gen;
use crate::model;
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::{fnv, write_tree, Node};
use crate::{ensure, shim};
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "The same content is stored again: through other readers, into stores holding other content, into \
other repositories, by insert, commit and status, from other paths, with short reads. Its neighbours (one bit, one byte, \
one block more or less, the blocks swapped) are stored too; so are objects of up to 40 MiB and directories of tens of \
thousands of entries that differ from each other in one place. Non-trivial: content with at least one other way of \
storing it compared. Distinct by content hash.",
    assumptions: &[],
    needed: &["rows_hashed", "same_content_compared", "neighbours_compared"],
    needed_inproc: &["puts_observed"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    {
        let seen = Mutex::new(HashMap::new());
        ctx.cases("inproc", ctx.n(4000, 30000), |rng, i| {
            let blocks = if i % 10 == 0 { 20 } else { 5 };
            let (c, _) = gen::content(rng, blocks);
            inproc(ctx, rng, &c, &seen)
        });
    }
    ctx.cases("program", ctx.n(900, 6000), |rng, i| {
        let blocks = if i % 8 == 0 { 16 } else { 4 };
        let (c, _) = gen::content(rng, blocks);
        program(ctx, rng, &c)
    });
    ctx.cases("trees", ctx.n(600, 5000), |rng, _| trees(ctx, rng));
    #[cfg(feature = "inproc")]
    ctx.cases("large", ctx.n(32, 300), |rng, i| large(ctx, rng, i));
    ctx.cases("crowd", ctx.n(2, 12), |rng, i| crowd(ctx, rng, i));
}

/// Objects of any size: their last byte counts as much as their first.
#[cfg(feature = "inproc")]
fn large(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    use crate::memds::*;
    use snapcd::object::{ObjType, Object};
    use snapcd::DataStore;
    let n = match i % 8 {
        0 => 1 << 20,
        1 => (1 << 20) - 64,
        2 => 16 << 20,
        3 if i % 32 == 3 || ctx.n(0, 1) == 1 => 40 << 20,
        _ => 1 << rng.range(12, 22),
    } + rng.below(100);
    let mut data = vec![0; n];
    let l = rng.range(1, 4096);
    let word = rng.bytes(l);
    for (d, w) in data.iter_mut().zip(word.iter().cycle()) {
        *d = *w;
    }
    let mut ds = MemDs::default();
    let mut keys: Vec<model::Key> = vec![];
    let at = [None, Some(n - 1), Some(n / 2), Some(0), Some(rng.below(n))];
    let mut places = vec![];
    for p in &at {
        if p.map_or(false, |p| places.contains(&p)) {
            continue;
        }
        let mut d = data.clone();
        if let Some(p) = p {
            d[*p] ^= 1 << rng.below(8);
            places.push(*p);
        }
        match guarded(|| ds.put_obj(&Object::new(&d, &[], ObjType::FileBlob))) {
            Ok(k) => keys.push(key_bytes(k)),
            Err(e) => crate::viol!("store-fails", "storing an object of {} bytes fails: {}", n, e),
        }
        let k = keys[keys.len() - 1];
        ctx.count("neighbours_compared", 1);
        ensure!(
            keys.iter().filter(|x| **x == k).count() == 1,
            "other-content-same-key",
            "two objects of {} bytes that differ in byte {:?} have the same key",
            n,
            p
        );
        let back = guarded(|| ds.get_obj(snapcd::key::Key::Blake3B(k)));
        ensure!(
            back.map_or(false, |o| o.data() == &d[..]),
            "wrong-key",
            "an object of {} bytes is not what its key gives",
            n
        );
    }
    for (k, v) in ds.data.borrow().iter() {
        ctx.count("rows_hashed", 1);
        ensure!(
            k[..] == model::dbkey(&model::hash(v))[..],
            "wrong-key",
            "an object of {} bytes is filed under a key that is not its hash",
            v.len()
        );
    }
    ctx.max("largest_object", n as u64);
    ctx.eval(Some(fnv(&keys[0])));
    Ok(())
}

/// A directory of so many entries that its own record is large; another differs from it in one of them.
fn crowd(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let home = Repo::new(ctx)?;
    let n = ctx.n(30_000, 60_000) as usize + rng.below(1000);
    let p = home.top.join("in");
    std::fs::create_dir(&p)?;
    let name = |k: usize| format!("entry number {:06}", k);
    let mut t = std::collections::BTreeMap::new();
    for k in 0..n {
        let v = if k % 5 == 0 { b"x".to_vec() } else { vec![] };
        std::fs::write(p.join(name(k)), &v)?;
        t.insert(name(k), Node::File(v));
    }
    let mut keys: Vec<String> = vec![];
    for round in 0..3 {
        // (a new one each time: reading past so large a record again and again takes long)
        let r = Repo::new(ctx)?;
        let k = match (i + round) % 3 {
            0 => n - 1,
            1 => rng.below(n),
            _ => n / 2,
        };
        if round > 0 {
            let v = format!("round {}", round).into_bytes();
            std::fs::write(p.join(name(k)), &v)?;
            t.insert(name(k), Node::File(v));
        }
        keys.push(r.insert(&p)?);
        let x = &keys[keys.len() - 1];
        ctx.count("neighbours_compared", 1);
        ensure!(
            keys.iter().filter(|y| *y == x).count() == 1,
            "other-content-same-key",
            "two directories of {} entries that differ in entry {} have the same key",
            n,
            k
        );
    }
    let r = Repo::new(ctx)?;
    let again = r.insert(&p)?;
    ctx.count("same_content_compared", 1);
    ensure!(again == keys[2], "same-content-other-key", "a directory of {} entries has two keys", n);
    let db = r.db()?;
    for (k, v) in &db.data {
        ctx.count("rows_hashed", 1);
        ensure!(
            k[..] == model::dbkey(&model::hash(v))[..],
            "wrong-key",
            "an object of {} bytes is filed under a key that is not its hash",
            v.len()
        );
    }
    let k = match crate::scen::parse_key(&again) {
        Ok(k) => k,
        Err(e) => return Err(e),
    };
    match model::tree(&db.data, &k) {
        Ok(g) => {
            if let Some(d) = crate::util::tree_diff(&Node::Dir(t), &g, "") {
                crate::viol!("other-content-same-key", "the directory of {} entries is stored with {}", n, d);
            }
        }
        Err(e) => crate::viol!("other-content-same-key", "the directory of {} entries: {}", n, e),
    }
    ctx.max("most_entries", n as u64);
    ctx.eval(Some(fnv(again.as_bytes())));
    Ok(())
}

pub fn neighbour(rng: &mut Rng, c: &[u8]) -> Vec<u8> {
    let mut v = c.to_vec();
    match rng.below(7) {
        0 => v.push(0),
        1 => v.push(rng.next() as u8),
        2 if !v.is_empty() => {
            v.pop();
        }
        3 if v.len() > 2 * gen::BLOCK => {
            let (a, b) = v.split_at_mut(gen::BLOCK);
            b[..gen::BLOCK].swap_with_slice(a);
        }
        4 if v.len() > gen::BLOCK + 32768 => {
            // one chunk less
            v.drain(32768..32768 + gen::BLOCK);
        }
        5 if v.len() > 32768 => {
            let i = 32768 + rng.below(v.len() - 32768);
            v[i] ^= 1;
        }
        _ if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(8);
        }
        _ => v.push(1),
    }
    v
}

#[cfg(feature = "inproc")]
fn inproc(
    ctx: &Ctx,
    rng: &mut Rng,
    c: &[u8],
    seen: &Mutex<HashMap<model::Key, u64>>,
) -> Res {
    use crate::memds::*;
    let put = |ds: &mut MemDs, c: &[u8], split: Split, rng: &mut Rng| -> Res<model::Key> {
        let mut r = Reader::new(c, split, rng.clone());
        r.interrupts = split != Split::Whole;
        match guarded(|| snapcd::file::put_data(ds, &mut r)) {
            Ok(k) => Ok(key_bytes(k)),
            Err(e) => crate::report::violation(
                "store-fails",
                format!("storing {} bytes fails: {}", c.len(), e),
                json!(null),
            ),
        }
    };
    let mut a = MemDs::default();
    let ka = put(&mut a, c, Split::Whole, rng)?;
    let objects = a.data.borrow().clone();
    ctx.count("puts_observed", a.puts.get());
    ensure!(
        a.wrong_key.get() == 0,
        "wrong-key",
        "{} objects were put under a key that is not the hash of their bytes",
        a.wrong_key.get()
    );
    for (k, v) in &objects {
        ctx.count("rows_hashed", 1);
        ensure!(
            k[..] == model::dbkey(&model::hash(v))[..],
            "wrong-key",
            "an object is filed under a key that is not the hash of its bytes"
        );
    }
    // Again into the same store.
    let split = *rng.pick(
        &[
            Split::Random,
            Split::Fixed(8192),
            Split::Fixed(32768),
            Split::Fixed(65536 - 1),
            Split::Fixed(5000),
        ][..],
    );
    let k2 = put(&mut a, c, split, rng)?;
    ctx.count("same_content_compared", 2);
    ensure!(
        k2 == ka,
        "same-content-other-key",
        "{} bytes have key {} read whole and {} read as {:?}",
        c.len(),
        model::user_key(&ka),
        model::user_key(&k2),
        split
    );
    ensure!(
        *a.data.borrow() == objects,
        "stored-twice",
        "storing {} bytes a second time changes the store",
        c.len()
    );
    // Into a store with other content.
    let mut b = MemDs::default();
    for _ in 0..rng.below(4) {
        let (o, _) = gen::content(rng, 2);
        put(&mut b, &o, Split::Whole, rng)?;
    }
    let n = neighbour(rng, c);
    let kn = put(&mut b, &n, Split::Whole, rng)?;
    let kb = put(&mut b, c, Split::Random, rng)?;
    ensure!(
        kb == ka,
        "same-content-other-key",
        "{} bytes have another key in another store",
        c.len()
    );
    ctx.count("neighbours_compared", 1);
    ensure!(
        (kn == ka) == (n == c),
        "other-content-same-key",
        "two contents of {} and {} bytes have the same key {}",
        c.len(),
        n.len(),
        model::user_key(&ka)
    );
    for (k, x) in &[(ka, c), (kn, &n[..])] {
        let h = fnv(x) ^ x.len() as u64;
        let mut s = seen.lock().unwrap();
        if let Some(o) = s.insert(*k, h) {
            ensure!(
                o == h,
                "other-content-same-key",
                "two contents stored in this run have the same key {}",
                model::user_key(k)
            );
        }
    }
    ctx.eval(Some(fnv(c)));
    ctx.sample_in("inproc", json!({ "len": c.len(), "key": model::user_key(&ka), "objects": objects.len() }));
    Ok(())
}

fn program(ctx: &Ctx, rng: &mut Rng, c: &[u8]) -> Res {
    let r = Repo::new(ctx)?;
    let f = r.top.join("file");
    std::fs::write(&f, c)?;
    let k1 = r.insert(&f)?;
    let db1 = r.db()?;
    for (k, v) in &db1.data {
        ctx.count("rows_hashed", 1);
        ensure!(
            k[..] == model::dbkey(&model::hash(v))[..],
            "wrong-key",
            "an object is filed under a key that is not the hash of its bytes"
        );
    }
    // Another path, short reads, same repository.
    let g = r.top.join("other name");
    std::fs::write(&g, c)?;
    let o = shim::attach(r.prep(&r.root, &["insert".as_ref(), g.as_os_str()]), &r)
        .env("VS_DATA", &r.top)
        .env("VS_SHORT", rng.below(1 << 30).to_string())
        .go()?;
    ensure!(o.ok(), "store-fails", "insert fails: {}", o.brief());
    let k2 = crate::cli::inserted_key(&o)?;
    ctx.count("same_content_compared", 2);
    ensure!(
        k1 == k2,
        "same-content-other-key",
        "{} bytes inserted twice: {} and {}",
        c.len(),
        k1,
        k2
    );
    let db2 = r.db()?;
    if let Some(d) = db1.diff(&db2) {
        crate::viol!("stored-twice", "inserting {} bytes a second time: {}", c.len(), d);
    }
    // Another repository with other content.
    let r2 = Repo::new(ctx)?;
    let (other, _) = gen::content(rng, 2);
    std::fs::write(r2.top.join("o"), &other)?;
    r2.insert(&r2.top.join("o"))?;
    let k3 = r2.insert(&f)?;
    ensure!(
        k1 == k3,
        "same-content-other-key",
        "{} bytes have key {} in one repository and {} in another",
        c.len(),
        k1,
        k3
    );
    let n = neighbour(rng, c);
    std::fs::write(&g, &n)?;
    let kn = r2.insert(&g)?;
    ctx.count("neighbours_compared", 1);
    ensure!(
        (kn == k1) == (n == c),
        "other-content-same-key",
        "contents of {} and {} bytes have the same key",
        c.len(),
        n.len()
    );
    ctx.eval(Some(fnv(c)));
    ctx.sample_in("program", json!({ "len": c.len(), "key": k1, "rows": db1.data.len() }));
    Ok(())
}

/// Files inside trees: the same content is one object, wherever it is and whichever command stores it.
fn trees(ctx: &Ctx, rng: &mut Rng) -> Res {
    let r = Repo::new(ctx)?;
    let mut t = gen::tree(
        rng,
        &gen::TreeOpts {
            max_blocks: 2,
            ..gen::TreeOpts::small()
        },
    );
    let shared = gen::content(rng, 3).0;
    t.set("one", Some(Node::File(shared.clone())));
    t.set("two", Some(Node::File(shared.clone())));
    let p = r.top.join("t");
    write_tree(&p, &t, None)?;
    let kt = r.insert(&p)?;
    let db1 = r.db()?;
    // Everything in it is already there.
    for (path, _) in t.paths() {
        r.insert(&p.join(&path))?;
        ctx.count("same_content_compared", 1);
    }
    r.insert(&p)?;
    let db2 = r.db()?;
    if let Some(d) = db1.diff(&db2) {
        crate::viol!("stored-twice", "inserting parts of a stored tree: {}", d);
    }
    let k1 = r.insert(&p.join("one"))?;
    let k2 = r.insert(&p.join("two"))?;
    ensure!(k1 == k2, "same-content-other-key", "two equal files in a tree have different keys");
    // status hashes the files of the working directory: it must find the same.
    crate::util::sync_tree(&r.root, &t, &[".snapcd"])?;
    let before = r.db()?;
    r.commit("m", None)?;
    let db3 = r.db()?;
    let added = db3.data.len() - before.data.len();
    ensure!(
        added == 1,
        "stored-twice",
        "a commit of a tree that is already stored adds {} objects, not only the commit",
        added
    );
    let o = r.must(&["status"])?;
    ensure!(
        o.text().lines().count() == 1,
        "same-content-other-key",
        "status after commit: {}",
        o.text()
    );
    let db4 = r.db()?;
    if let Some(d) = db3.diff(&db4) {
        crate::viol!("stored-twice", "status of an unchanged tree: {}", d);
    }
    ctx.eval(Some(t.fingerprint()));
    ctx.sample_in("trees", json!({ "key": kt, "tree": t.describe(), "rows": db1.data.len() }));
    Ok(())
}
