//! C07: an id resolves to exactly the object it abbreviates.

use crate::cli::Repo;
use crate::ensure;
use crate::model::{self, Obj};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub const META: Meta = Meta {
    level: "exploration",
    rule: "Databases are filled with keys that cluster: sharing 0 to 255 leading bits, consecutive, all zeros or ones at the end, at \
both ends of the key space. Every prefix length of stored keys and of near misses, in both cases, over-long strings and other garbage, are resolved, and compared with \
a filter over the printed keys of all stored objects. In the program, the same with objects whose content tells which one was \
found; and in repositories with objects of all kinds, refs and remotes, for every command that takes an id: \
what an abbreviation does is what the full key does, or, if it is ambiguous or names nothing, nothing. Non-trivial: a prefix that at least one stored key has or misses by one bit. Distinct by database and id.",
    assumptions: &["the empty prefix 'b' abbreviates every object"],
    needed: &["ids_resolved_by_program", "ambiguous_by_program", "not_found_by_program", "full_keys_by_program", "ids_of_commands", "ambiguous_with_one_of_a_kind", "ambiguous_for_commands", "not_found_for_commands"],
    needed_inproc: &["ids_resolved_in_process", "ambiguous_lists_compared", "keys_converted"],
};

pub fn run(ctx: &Ctx) {
    #[cfg(feature = "inproc")]
    {
        ctx.cases("clusters", ctx.n(1000, 8000), |rng, i| clusters(ctx, rng, i));
        ctx.cases("conversion", ctx.n(400, 2000), |rng, _| conversion(ctx, rng));
    }
    ctx.cases("program", ctx.n(120, 600), |rng, i| program(ctx, rng, i));
    ctx.cases("kinds", ctx.n(96, 600), |rng, i| kinds(ctx, rng, i));
    ctx.cases("crafted", ctx.n(120, 600), |rng, i| crafted(ctx, rng, i));
}

/// Keys that are hard to tell apart.
fn cluster(rng: &mut Rng) -> Vec<model::Key> {
    let mut out: BTreeSet<model::Key> = BTreeSet::new();
    let random = |rng: &mut Rng| {
        let mut k = [0u8; 32];
        for b in k.iter_mut() {
            *b = rng.next() as u8;
        }
        k
    };
    let n = rng.range(1, 4);
    for _ in 0..n {
        let mut base = match rng.below(5) {
            0 => [0u8; 32],
            1 => [0xff; 32],
            _ => random(rng),
        };
        if rng.chance(1, 4) {
            base[0] = *rng.pick(&[0u8, 1, 0xfe, 0xff, 0x80, 0x7f][..]);
        }
        out.insert(base);
        for _ in 0..rng.below(12) {
            // shares exactly `bits` leading bits
            let bits = match rng.below(4) {
                0 => rng.below(256),
                1 => 5 * rng.below(51) + rng.below(2),
                2 => rng.range(240, 255),
                _ => rng.below(20),
            };
            let mut k = random(rng);
            if rng.chance(1, 2) {
                k = base;
            }
            for i in 0..=bits {
                let (byte, m) = (i / 8, 0x80u8 >> (i % 8));
                let b = base[byte] & m != 0;
                let b = if i == bits { !b } else { b };
                if b {
                    k[byte] |= m;
                } else {
                    k[byte] &= !m;
                }
            }
            match rng.below(5) {
                0 => {
                    // the rest all zeros or all ones
                    let fill = if rng.chance(1, 2) { 0 } else { 0xff };
                    for b in k.iter_mut().skip(bits / 8 + 1) {
                        *b = fill;
                    }
                }
                1 => {
                    // the next key
                    for b in k.iter_mut().rev() {
                        *b = b.wrapping_add(1);
                        if *b != 0 {
                            break;
                        }
                    }
                }
                _ => {}
            }
            out.insert(k);
        }
    }
    out.into_iter().collect()
}

fn expected<'a>(keys: &'a [(model::Key, String)], id: &str) -> Vec<&'a (model::Key, String)> {
    if !id.starts_with('b') {
        return vec![];
    }
    let id = format!("b{}", id[1..].to_ascii_lowercase());
    keys.iter().filter(|(_, s)| s.starts_with(&id)).collect()
}

/// Ids worth asking for: prefixes of what is there, near misses, garbage.
fn ids(rng: &mut Rng, keys: &[(model::Key, String)], n: usize) -> Vec<String> {
    let mut v = Vec::new();
    for (_, s) in keys {
        v.push(s.clone());
        v.push(s[..52].to_string());
    }
    for _ in 0..n {
        let s = rng.pick(keys).1.clone();
        let len = match rng.below(4) {
            0 => rng.range(1, 53),
            1 => rng.range(48, 53),
            2 => rng.range(1, 6),
            _ => rng.range(2, 20),
        };
        let mut id = s[..len.min(s.len())].to_string();
        match rng.below(9) {
            0 if id.len() > 1 => {
                // a neighbour of the last character
                let alphabet = "abcdefghijklmnopqrstuvwxyz234567";
                let last = id.pop().unwrap();
                let i = alphabet.find(last).unwrap();
                let j = if rng.chance(1, 2) { (i + 1) % 32 } else { (i + 31) % 32 };
                id.push(alphabet.as_bytes()[j] as char);
            }
            1 => id.push(*rng.pick(&['a', '7', 'b', 'q'][..])),
            2 => id = format!("b{}", id[1..].to_ascii_uppercase()),
            3 => {
                id = id
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect()
            }
            4 => id.push_str(*rng.pick(&["1", "0", "8", "=", " ", "ä", "-", "b b"][..])),
            5 => {
                id = s.clone();
                id.push_str(*rng.pick(&["a", "7", "aa", "aaaaaaaa", "abcdef"][..]));
            }
            6 if rng.chance(1, 3) => id = format!("c{}", &id[1..]),
            _ => {}
        }
        v.push(id);
    }
    v.push("b".into());
    for c in "abcdefghijklmnopqrstuvwxyz234567".chars() {
        if rng.chance(1, 8) {
            v.push(format!("b{}", c));
        }
    }
    v
}

#[cfg(feature = "inproc")]
fn clusters(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    use crate::memds::{guarded, key_bytes, MemDs};
    use snapcd::ds::CanonicalizeError;
    use snapcd::DataStore;
    let keys: Vec<(model::Key, String)> = cluster(rng)
        .into_iter()
        .map(|k| (k, model::user_key(&k)))
        .collect();
    let top = ctx.dir("t")?;
    let _rm = super::c04::Rm(top.clone());
    // Half of the time the real store.
    let sqlite = i % 2 == 0;
    let mem;
    let mut real;
    let ds: &dyn DataStore = if sqlite {
        real = match guarded(|| snapcd::ds::sqlite::SqliteDS::new(top.join("db"))) {
            Ok(d) => d,
            Err(e) => crate::viol!("open-fails", "opening a new store fails: {}", e),
        };
        {
            use snapcd::ds::Transactional;
            if let Err(e) = guarded(|| real.begin_trans()) {
                crate::viol!("open-fails", "{}", e);
            }
        }
        for (k, _) in &keys {
            if let Err(e) = guarded(|| real.raw_put(&model::dbkey(k), b"x")) {
                crate::viol!("put-fails", "{}", e);
            }
        }
        &real
    } else {
        mem = MemDs::with(keys.iter().map(|(k, _)| (model::dbkey(k), vec![])).collect());
        &mem
    };
    for id in ids(rng, &keys, 150) {
        let exp = expected(&keys, &id);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            match id.parse::<snapcd::Keyish>() {
                Err(e) => Err(("unparsed", e.to_string(), vec![])),
                Ok(k) => match ds.canonicalize(k) {
                    Ok(k) => Ok(key_bytes(k)),
                    Err(CanonicalizeError::Ambigious(s, l)) => {
                        Err(("ambiguous", s, l.into_iter().map(key_bytes).collect()))
                    }
                    Err(CanonicalizeError::NotFound(s)) => Err(("not found", s, vec![])),
                    Err(e) => Err(("error", e.to_string(), vec![])),
                },
            }
        }));
        ctx.count("ids_resolved_in_process", 1);
        ctx.eval(Some(crate::util::fnv(id.as_bytes()) ^ crate::util::fnv(&keys[0].0)));
        let list = |l: &[&(model::Key, String)]| -> String {
            l.iter().take(4).map(|x| x.1.clone()).collect::<Vec<_>>().join(" ")
        };
        match (exp.len(), got) {
            (_, Err(_)) => {
                // a panic: an error as good as any other, if there is one
                ensure!(
                    exp.is_empty(),
                    "id-not-resolved",
                    "{:?} panics, but abbreviates {}",
                    id,
                    list(&exp)
                );
            }
            (0, Ok(Ok(k))) => crate::viol!(
                "resolved-to-other",
                "{:?} resolves to {}, which it does not abbreviate",
                id,
                model::user_key(&k)
            ),
            (0, Ok(Err((kind, _, _)))) => ensure!(
                kind != "ambiguous",
                "false-ambiguity",
                "{:?}, which abbreviates nothing, is ambiguous",
                id
            ),
            (1, Ok(Ok(k))) => ensure!(
                k == exp[0].0,
                "resolved-to-other",
                "{:?} resolves to {} instead of {}",
                id,
                model::user_key(&k),
                exp[0].1
            ),
            (1, Ok(Err((kind, s, _)))) => crate::viol!(
                "id-not-resolved",
                "{:?} abbreviates only {}, but is {}: {}",
                id,
                exp[0].1,
                kind,
                s
            ),
            (_, Ok(Ok(k))) => crate::viol!(
                "ambiguity-missed",
                "{:?} resolves to {}, but abbreviates {} objects: {}",
                id,
                model::user_key(&k),
                exp.len(),
                list(&exp)
            ),
            (_, Ok(Err((kind, s, l)))) => {
                ensure!(
                    kind == "ambiguous",
                    "ambiguity-missed",
                    "{:?} abbreviates {} objects, but is {}: {}",
                    id,
                    exp.len(),
                    kind,
                    s
                );
                let mut l: Vec<model::Key> = l;
                l.sort();
                let mut e: Vec<model::Key> = exp.iter().map(|x| x.0).collect();
                e.sort();
                ctx.count("ambiguous_lists_compared", 1);
                ensure!(
                    l == e,
                    "ambiguity-list",
                    "{:?} abbreviates {} objects, but is said to abbreviate {}",
                    id,
                    e.len(),
                    l.len()
                );
            }
        }
    }
    ctx.sample_in("clusters", json!({ "keys": keys.len(), "first": keys[0].1, "sqlite": sqlite }));
    Ok(())
}

#[cfg(feature = "inproc")]
fn conversion(ctx: &Ctx, rng: &mut Rng) -> Res {
    use crate::memds::guarded;
    use snapcd::key::Key;
    for k in cluster(rng) {
        ctx.count("keys_converted", 1);
        ctx.eval(Some(crate::util::fnv(&k)));
        let key = Key::Blake3B(k);
        ensure!(
            key.as_db_key() == model::dbkey(&k),
            "binary-form",
            "{} has the binary form {}",
            model::user_key(&k),
            crate::util::hex(&key.as_db_key())
        );
        match guarded(|| Key::from_db_key(&model::dbkey(&k))) {
            Ok(b) => ensure!(b == key, "binary-form", "{} does not survive its binary form", key),
            Err(e) => crate::viol!("binary-form", "{}: {}", key, e),
        }
        ensure!(
            key.to_string() == model::user_key(&k) && key.as_user_key() == model::user_key(&k),
            "printed-form",
            "{} is printed as {}",
            model::user_key(&k),
            key
        );
        // What is not a key is not read as one.
        let mut bad = model::dbkey(&k);
        match rng.below(3) {
            0 => {
                bad.pop();
            }
            1 => bad.push(0),
            _ => bad[0] = *rng.pick(&[0u8, 2, 255][..]),
        }
        if guarded(|| Key::from_db_key(&bad)).is_ok() {
            crate::viol!("binary-form", "{} is read as a key", crate::util::hex(&bad));
        }
    }
    Ok(())
}

/// Objects of the program's own, hundreds of them, by all ids of few characters.
fn program(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    let n = if i % 3 == 0 { rng.range(1, 5) } else { rng.range(50, 700) };
    let mut rows = BTreeMap::new();
    let mut content: BTreeMap<model::Key, Vec<u8>> = BTreeMap::new();
    for j in 0..n {
        let c = format!("object {} of {}", j, rng.next()).into_bytes();
        let b = model::encode_obj(&Obj {
            typ: "FileBlob".into(),
            data: c.clone(),
            keys: vec![],
        });
        let k = model::hash(&b);
        rows.insert(model::dbkey(&k), b);
        content.insert(k, c);
    }
    super::c05::add_rows(&r, &rows)?;
    let keys: Vec<(model::Key, String)> = content.keys().map(|k| (*k, model::user_key(k))).collect();
    let mut asked = ids(rng, &keys, 60);
    if asked.len() > 110 {
        rng.shuffle(&mut asked);
        asked.truncate(110);
    }
    for id in asked {
        let exp = expected(&keys, &id);
        let o = r.run(&["show", "--", &id])?;
        judge(ctx, &id, &exp, &o, &content)?;
    }
    ctx.sample_in("program", json!({ "objects": n }));
    Ok(())
}

fn judge(
    ctx: &Ctx,
    id: &str,
    exp: &[&(model::Key, String)],
    o: &crate::cli::Out,
    content: &BTreeMap<model::Key, Vec<u8>>,
) -> Res {
    ctx.count("ids_resolved_by_program", 1);
    ctx.eval(Some(crate::util::fnv(id.as_bytes()) ^ content.len() as u64));
    match exp.len() {
        1 => {
            if id.len() == 53 {
                ctx.count("full_keys_by_program", 1);
            }
            ensure!(
                o.ok(),
                "id-not-resolved",
                "{:?} abbreviates only {}, but: {}",
                id,
                exp[0].1,
                o.brief()
            );
            ensure!(
                o.stdout == content[&exp[0].0],
                "resolved-to-other",
                "{:?} shows something other than {}",
                id,
                exp[0].1
            );
        }
        n => {
            ensure!(
                !o.ok(),
                if n == 0 { "resolved-to-other" } else { "ambiguity-missed" },
                "{:?}, which abbreviates {} objects, shows {:?}",
                id,
                n,
                o.text()
            );
            if n == 0 {
                ctx.count("not_found_by_program", 1);
                ensure!(
                    !o.text().contains("ambiguous"),
                    "false-ambiguity",
                    "{:?}, which abbreviates nothing: {}",
                    id,
                    o.brief()
                );
            } else {
                ctx.count("ambiguous_by_program", 1);
            }
        }
    }
    Ok(())
}

/// Objects of all kinds, and every command that takes an id.
fn kinds(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    use crate::gen;
    use crate::scen;
    let r = Repo::new(ctx)?;
    let o = gen::TreeOpts::small();
    let mut t = gen::tree(rng, &o);
    for _ in 0..rng.range(1, 6) {
        gen::edit(rng, &mut t, &o);
        t.dir_mut().remove(".snapcd");
        scen::put_root(&r, &t)?;
        r.must(&["commit", "-m", &format!("m {}", rng.next()), *rng.pick(&["master", "master", "side", "b"])])?;
    }
    // Many more of one kind, so that what begins alike is of several.
    let mut rows = BTreeMap::new();
    for j in 0..*rng.pick(&[0, 10, 40, 150, 600, 1500]) {
        let b = model::encode_obj(&Obj {
            typ: "FileBlob".into(),
            data: format!("{} {} {}", i, j, rng.next()).into_bytes(),
            keys: vec![],
        });
        rows.insert(model::dbkey(&model::hash(&b)), b);
    }
    super::c05::add_rows(&r, &rows)?;
    let db = r.db()?;
    let mut all: Vec<(model::Key, String, String)> = vec![];
    for (k, v) in &db.data {
        let k = match model::from_dbkey(k) {
            Ok(k) => k,
            Err(e) => crate::viol!("no-key", "{}", e),
        };
        let typ = match model::decode_obj(v) {
            Ok(o) => o.typ,
            Err(e) => crate::viol!("not-an-object", "{}", e),
        };
        all.push((k, model::user_key(&k), typ));
    }
    let mut keys: Vec<(model::Key, String)> = all.iter().map(|x| (x.0, x.1.clone())).collect();
    // What is rare is asked for more often.
    let rare: Vec<(model::Key, String, String)> = all.iter().filter(|x| x.2 != "FileBlob").cloned().collect();
    let dest = r.top.join("dest");
    for _ in 0..45 {
        let (_, full, typ) = if rng.chance(2, 3) { rng.pick(&rare).clone() } else { rng.pick(&all).clone() };
        let len = *rng.pick(&[1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 12, 26, 51, 52, 53]);
        let mut id = full[..len].to_string();
        if rng.chance(1, 8) && len > 1 {
            // a near miss
            let c = *rng.pick(b"abcdefghijklmnopqrstuvwxyz234567");
            id.pop();
            id.push(c as char);
        }
        if rng.chance(1, 4) {
            id = format!("b{}", id[1..].to_ascii_uppercase());
        }
        let exp = expected(&keys, &id);
        let typ = if exp.len() == 1 { all.iter().find(|x| x.0 == exp[0].0).map(|x| x.2.clone()).unwrap_or_default() } else { typ };
        let d = dest.to_str().unwrap();
        // Commands in an order of what can be done with the kind, and what cannot.
        let forms: Vec<Vec<&str>> = vec![
            vec!["debug", "pretty-print", "ID"],
            vec!["show", "ID"],
            vec!["fetch", "ID", d],
            vec!["log", "ID"],
            vec!["compare", "ID"],
            vec!["compare", "-s", "ID"],
            vec!["debug", "walk-tree", "ID"],
            vec!["debug", "commit-tree", "ID"],
            vec!["ref", "update", "ID", "moved"],
            vec!["debug", "reflog-push", "ID", "moved", "away"],
        ];
        let form = match typ.as_str() {
            "Commit" => rng.pick(&[0, 1, 3, 8, 9, 2, 7][..]),
            "FSItemDir" => rng.pick(&[0, 1, 2, 4, 5, 6, 7, 3, 8][..]),
            "FSItemFile" => rng.pick(&[0, 1, 2, 6, 4, 7, 8][..]),
            _ => rng.pick(&[0, 1, 2, 3, 4, 6, 7, 8, 9][..]),
        };
        let form = &forms[*form];
        let with = |id: &str| -> Vec<String> { form.iter().map(|x| if *x == "ID" { id.to_string() } else { x.to_string() }).collect() };
        let before = r.db()?;
        let _ = std::fs::remove_dir_all(&dest);
        let _ = std::fs::remove_file(&dest);
        let o = r.run(&with(&id))?;
        let what = format!("{:?}, which abbreviates {} objects ({})", with(&id), exp.len(), o.brief());
        ctx.count("ids_of_commands", 1);
        ctx.eval(Some(crate::util::fnv(format!("{:?} {} {}", with(&id), exp.len(), i).as_bytes())));
        if exp.len() != 1 {
            ensure!(!o.ok(), if exp.is_empty() { "resolved-to-other" } else { "ambiguity-missed" }, "{}", what);
            ensure!(std::fs::symlink_metadata(&dest).is_err(), "resolved-to-other", "{}: something is fetched", what);
            if let Some(x) = before.diff(&r.db()?) {
                crate::viol!("resolved-to-other", "{}: {}", what, x);
            }
            let ambiguous = o.text().contains("ambiguous") || crate::util::lossy(&o.stderr).contains("ambiguous");
            ensure!(ambiguous == (exp.len() > 1), "false-ambiguity", "{}", what);
            if exp.is_empty() {
                ctx.count("not_found_for_commands", 1);
            } else {
                ctx.count("ambiguous_for_commands", 1);
                let mut n: BTreeMap<&str, usize> = BTreeMap::new();
                for x in &all {
                    if exp.iter().any(|e| e.0 == x.0) {
                        *n.entry(&x.2).or_default() += 1;
                    }
                }
                ctx.count("ambiguous_with_one_of_a_kind", n.values().any(|x| *x == 1) as u64);
            }
            continue;
        }
        // The same as with the whole key.
        let got = crate::util::read_tree(&dest).ok();
        let after = r.db()?;
        let _ = std::fs::remove_dir_all(&dest);
        let _ = std::fs::remove_file(&dest);
        let f = r.run(&with(&exp[0].1))?;
        let after2 = r.db()?;
        ensure!(f.code == o.code, "resolved-to-other", "{}: with the full key: {}", what, f.brief());
        let sorted = |x: &crate::cli::Out| -> Vec<String> {
            let mut v: Vec<String> = x.text().lines().map(|x| x.to_string()).collect();
            if form[1] == "walk-tree" {
                v.sort();
            }
            v
        };
        if o.ok() {
            ensure!(sorted(&f) == sorted(&o), "resolved-to-other", "{}: with the full key: {}", what, f.brief());
            let again = crate::util::read_tree(&dest).ok();
            ensure!(got == again, "resolved-to-other", "{}: with the full key, other content is fetched", what);
            match form[1] {
                "update" | "reflog-push" => {
                    let rec = after.reflog.last();
                    let want = model::dbkey(&exp[0].0);
                    ensure!(after.reflog.len() == before.reflog.len() + 1 && rec.map_or(false, |x| x.3 == want), "resolved-to-other", "{}: another key is recorded", what);
                }
                "commit-tree" => {
                    let k = match model::parse_user_key(o.text().trim()) {
                        Some(k) => k,
                        None => crate::viol!("no-key-printed", "{}", what),
                    };
                    match model::commit(&after.data, &k) {
                        Ok(c) => ensure!(c.tree == exp[0].0, "resolved-to-other", "{}: another tree is in the commit", what),
                        Err(e) => crate::viol!("commit-not-stored", "{}: {}", what, e),
                    }
                }
                _ => {}
            }
        }
        // Whether it can be used like that is a matter of its kind alone.
        let can = match (form[0], form[1], typ.as_str()) {
            ("debug", "pretty-print", _) => true,
            ("fetch", _, t) => t.starts_with("FSItem"),
            ("log", _, t) | (_, "update", t) | (_, "reflog-push", t) => t == "Commit",
            ("compare", _, t) | (_, "walk-tree", t) | (_, "commit-tree", t) => t.starts_with("FSItem"),
            _ => o.ok(),
        };
        ensure!(o.ok() == can, "id-not-resolved", "{}: the object is a {}", what, typ);
        if after2.data.len() != all.len() {
            // New commits can be asked for too.
            for (k, v) in &after2.data {
                if let (Ok(k), Ok(o)) = (model::from_dbkey(k), model::decode_obj(v)) {
                    if !all.iter().any(|x| x.0 == k) {
                        keys.push((k, model::user_key(&k)));
                        all.push((k, model::user_key(&k), o.typ));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Keys no hash gave, whose objects cannot be read: an id finds one of them, and that fails, or
/// none, or several.
fn crafted(ctx: &Ctx, rng: &mut Rng, i: u64) -> Res {
    let r = Repo::new(ctx)?;
    // One real object among them.
    let c = format!("real {}", i).into_bytes();
    let b = model::encode_obj(&Obj {
        typ: "FileBlob".into(),
        data: c.clone(),
        keys: vec![],
    });
    let real = model::hash(&b);
    let mut rows = BTreeMap::new();
    rows.insert(model::dbkey(&real), b);
    let mut keys = vec![(real, model::user_key(&real))];
    for _ in 0..rng.range(1, 8) {
        let bits = match rng.below(3) {
            0 => rng.below(250),
            1 => 5 * rng.below(51),
            _ => rng.range(225, 255),
        };
        let mut k = real;
        k[bits / 8] ^= 0x80 >> (bits % 8);
        if rng.chance(1, 2) {
            for b in k.iter_mut().skip(bits / 8 + 1) {
                *b = rng.next() as u8;
            }
        }
        rows.insert(model::dbkey(&k), b"no object".to_vec());
        keys.push((k, model::user_key(&k)));
    }
    keys.sort();
    keys.dedup();
    super::c05::add_rows(&r, &rows)?;
    let full = model::user_key(&real);
    for len in 1..=53 {
        let id = &full[..len];
        let exp = expected(&keys, id);
        let upper = format!("b{}", id[1..].to_ascii_uppercase());
        let o = r.run(&["show", if rng.chance(1, 2) { id } else { &upper }])?;
        let mut content = BTreeMap::new();
        content.insert(real, c.clone());
        judge(ctx, id, &exp, &o, &content)?;
    }
    Ok(())
}
