//! What a repository means, written independently of snapcd: the format of objects and keys, the
//! chunking, and the checks that a set of objects is complete and well formed.

use crate::cbor::{dec, enc, V};
use crate::util::Node;
use std::collections::{BTreeMap, HashMap, HashSet};

pub type Key = [u8; 32];

const B32: &[u8; 32] = b"abcdefghijklmnopqrstuvwxyz234567";

pub fn b32(bytes: &[u8]) -> String {
    let mut s = String::new();
    let bits = bytes.len() * 8;
    let bit = |i: usize| -> u8 {
        if i < bits {
            bytes[i / 8] >> (7 - i % 8) & 1
        } else {
            0
        }
    };
    let mut i = 0;
    while i < bits {
        let mut v = 0;
        for j in 0..5 {
            v = v << 1 | bit(i + j);
        }
        s.push(B32[v as usize] as char);
        i += 5;
    }
    s
}

pub fn user_key(k: &Key) -> String {
    format!("b{}", b32(k))
}

pub fn user_key_db(k: &[u8]) -> String {
    if k.len() == 33 && k[0] == 1 {
        format!("b{}", b32(&k[1..]))
    } else {
        format!("invalid key {}", crate::util::hex(k))
    }
}

/// The key a printed key stands for.
pub fn parse_user_key(s: &str) -> Option<Key> {
    let s = s.strip_prefix('b')?;
    if s.len() != 52 {
        return None;
    }
    let mut bits = Vec::new();
    for c in s.bytes() {
        let v = B32.iter().position(|x| *x == c)?;
        for j in (0..5).rev() {
            bits.push(v >> j & 1);
        }
    }
    if bits[256..].iter().any(|x| *x != 0) {
        return None;
    }
    let mut k = [0u8; 32];
    for (i, b) in bits[..256].iter().enumerate() {
        k[i / 8] |= (*b as u8) << (7 - i % 8);
    }
    Some(k)
}

pub fn dbkey(k: &Key) -> Vec<u8> {
    let mut v = vec![1u8];
    v.extend_from_slice(k);
    v
}

pub fn from_dbkey(b: &[u8]) -> Result<Key, String> {
    if b.len() != 33 || b[0] != 1 {
        return Err(format!("{} is not a key", crate::util::hex(b)));
    }
    let mut k = [0u8; 32];
    k.copy_from_slice(&b[1..]);
    Ok(k)
}

pub fn hash(b: &[u8]) -> Key {
    *blake3::hash(b).as_bytes()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub typ: String,
    pub data: Vec<u8>,
    pub keys: Vec<Key>,
}

pub fn obj_value(o: &Obj) -> V {
    V::M(vec![
        (V::t("data"), V::B(o.data.clone())),
        (
            V::t("keys"),
            V::A(
                o.keys
                    .iter()
                    .map(|k| {
                        V::M(vec![(
                            V::t("Blake3B"),
                            V::A(k.iter().map(|b| V::U(*b as u64)).collect()),
                        )])
                    })
                    .collect(),
            ),
        ),
        (V::t("objtype"), V::t(&o.typ)),
    ])
}

pub fn encode_obj(o: &Obj) -> Vec<u8> {
    enc(&obj_value(o))
}

pub fn decode_obj(b: &[u8]) -> Result<Obj, String> {
    let v = dec(b)?;
    if v.len() != 3 {
        return Err("not a map of three".into());
    }
    let data = match v.get("data") {
        Some(V::B(d)) => d.clone(),
        _ => return Err("no data".into()),
    };
    let typ = match v.get("objtype") {
        Some(V::T(t)) => t.clone(),
        _ => return Err("no type".into()),
    };
    let mut keys = Vec::new();
    match v.get("keys") {
        Some(V::A(a)) => {
            for k in a {
                match k.get("Blake3B") {
                    Some(V::A(bytes)) if bytes.len() == 32 && k.len() == 1 => {
                        let mut x = [0u8; 32];
                        for (i, b) in bytes.iter().enumerate() {
                            match b {
                                V::U(n) if *n < 256 => x[i] = *n as u8,
                                _ => return Err("bad key byte".into()),
                            }
                        }
                        keys.push(x);
                    }
                    _ => return Err("bad key".into()),
                }
            }
        }
        _ => return Err("no keys".into()),
    }
    Ok(Obj { typ, data, keys })
}

#[derive(Clone, Debug)]
pub struct Item {
    pub dir: bool,
    pub size: u64,
    pub names: Vec<String>,
    pub keys: Vec<Key>,
}

pub fn decode_item(o: &Obj) -> Result<Item, String> {
    let v = dec(&o.data)?;
    let size = match v.get("size") {
        Some(V::U(n)) => *n,
        _ => return Err("no size".into()),
    };
    let dir = match v.get("itemtype") {
        Some(V::T(t)) if t == "Dir" => true,
        Some(V::T(t)) if t == "File" => false,
        _ => return Err("no item type".into()),
    };
    let names = match v.get("children_names") {
        Some(V::A(a)) => {
            let mut names = Vec::new();
            for n in a {
                match n {
                    V::T(t) => names.push(t.clone()),
                    _ => return Err("bad name".into()),
                }
            }
            names
        }
        _ => return Err("no names".into()),
    };
    Ok(Item {
        dir,
        size,
        names,
        keys: o.keys.clone(),
    })
}

pub fn item_data(dir: bool, size: u64, names: &[String]) -> Vec<u8> {
    // The map goes through a sorted map before it is written: keys by length, then bytes.
    enc(&V::M(vec![
        (V::t("size"), V::U(size)),
        (V::t("itemtype"), V::t(if dir { "Dir" } else { "File" })),
        (
            V::t("children_names"),
            V::A(names.iter().map(|n| V::t(n)).collect()),
        ),
    ]))
}

#[derive(Clone, Debug)]
pub struct Commit {
    pub tree: Key,
    pub parents: Vec<Key>,
    pub message: String,
}

pub fn decode_commit(o: &Obj) -> Result<Commit, String> {
    if o.typ != "Commit" {
        return Err(format!("{} instead of a commit", o.typ));
    }
    if o.keys.is_empty() {
        return Err("commit without tree".into());
    }
    let v = dec(&o.data)?;
    let message = match v.get("message") {
        Some(V::T(t)) => t.clone(),
        _ => return Err("no message".into()),
    };
    match v.get("extra") {
        Some(V::M(_)) => {}
        _ => return Err("no extra".into()),
    }
    Ok(Commit {
        tree: o.keys[0],
        parents: o.keys[1..].to_vec(),
        message,
    })
}

pub fn commit_data(message: &str) -> Vec<u8> {
    enc(&V::M(vec![
        (V::t("message"), V::t(message)),
        (V::t("extra"), V::M(vec![])),
    ]))
}

// ---------------------------------------------------------------------------------------------
// Reading stored objects

pub type Data = BTreeMap<Vec<u8>, Vec<u8>>;

/// An object by key, with its hash checked.
pub fn get(data: &Data, k: &Key) -> Result<Obj, String> {
    let b = data
        .get(&dbkey(k))
        .ok_or_else(|| format!("object {} is missing", user_key(k)))?;
    if hash(b) != *k {
        return Err(format!("object {} is filed under a wrong key", user_key(k)));
    }
    decode_obj(b).map_err(|e| format!("object {}: {}", user_key(k), e))
}

fn content_into(data: &Data, k: &Key, depth: usize, out: &mut Vec<u8>) -> Result<(), String> {
    if depth > 8 {
        return Err("chunk tree too deep".into());
    }
    let o = get(data, k)?;
    match o.typ.as_str() {
        "FileBlob" => {
            if !o.keys.is_empty() {
                return Err(format!("chunk {} has keys", user_key(k)));
            }
            out.extend_from_slice(&o.data);
            Ok(())
        }
        "FileBlobTree" => {
            if !o.data.is_empty() {
                return Err(format!("chunk tree {} has data", user_key(k)));
            }
            for c in &o.keys {
                content_into(data, c, depth + 1, out)?;
            }
            Ok(())
        }
        t => Err(format!("{} {} in a file", t, user_key(k))),
    }
}

pub fn content(data: &Data, k: &Key) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    content_into(data, k, 0, &mut v)?;
    Ok(v)
}

/// The tree a key stands for, with everything checked that can be: presence, hashes, types, declared
/// sizes and numbers of children, names.
pub fn tree(data: &Data, k: &Key) -> Result<Node, String> {
    tree_at(data, k, 0)
}

fn tree_at(data: &Data, k: &Key, depth: usize) -> Result<Node, String> {
    if depth > 200 {
        return Err("tree too deep".into());
    }
    let o = get(data, k)?;
    let it = match o.typ.as_str() {
        "FSItemDir" | "FSItemFile" => {
            decode_item(&o).map_err(|e| format!("item {}: {}", user_key(k), e))?
        }
        t => return Err(format!("{} {} where a file or directory belongs", t, user_key(k))),
    };
    if it.dir != (o.typ == "FSItemDir") {
        return Err(format!("item {} is of two types", user_key(k)));
    }
    if it.dir {
        if it.names.len() != it.keys.len() || it.size != it.keys.len() as u64 {
            return Err(format!(
                "directory {}: size {}, {} names, {} children",
                user_key(k),
                it.size,
                it.names.len(),
                it.keys.len()
            ));
        }
        let mut d = BTreeMap::new();
        for (n, c) in it.names.iter().zip(&it.keys) {
            if n.is_empty() || n == "." || n == ".." || n.contains('/') || n.contains('\0') {
                return Err(format!("directory {} has a child named {:?}", user_key(k), n));
            }
            if d.insert(n.clone(), tree_at(data, c, depth + 1)?).is_some() {
                return Err(format!("directory {} has two children {:?}", user_key(k), n));
            }
        }
        Ok(Node::Dir(d))
    } else {
        if it.keys.len() != 1 || !it.names.is_empty() {
            return Err(format!("file {} has {} keys", user_key(k), it.keys.len()));
        }
        let c = content(data, &it.keys[0])?;
        if c.len() as u64 != it.size {
            return Err(format!(
                "file {} says {} bytes, has {}",
                user_key(k),
                it.size,
                c.len()
            ));
        }
        Ok(Node::File(c))
    }
}

pub fn commit(data: &Data, k: &Key) -> Result<Commit, String> {
    let o = get(data, k)?;
    decode_commit(&o).map_err(|e| format!("commit {}: {}", user_key(k), e))
}

#[derive(Default, Debug)]
pub struct Fsck {
    pub objects: usize,
    pub commits: usize,
    pub trees: usize,
}

/// Every object is filed right and decodes, and everything reachable from the refs and from `extra`
/// is complete and of the right type.
pub fn fsck(db: &crate::cli::Db, extra: &[Key]) -> Result<Fsck, String> {
    let mut f = Fsck::default();
    for (k, v) in &db.data {
        let k = from_dbkey(k)?;
        if hash(v) != k {
            return Err(format!("object {} is filed under a wrong key", user_key(&k)));
        }
        let o = decode_obj(v).map_err(|e| format!("object {}: {}", user_key(&k), e))?;
        if !["FileBlob", "FileBlobTree", "FSItemDir", "FSItemFile", "Commit"]
            .contains(&o.typ.as_str())
        {
            return Err(format!("object {} is of type {:?}", user_key(&k), o.typ));
        }
        f.objects += 1;
    }
    let mut seen = HashSet::new();
    let mut trees = HashSet::new();
    let mut todo: Vec<Key> = Vec::new();
    for (_, name, _, k) in &db.reflog {
        let k = from_dbkey(k).map_err(|e| format!("ref {:?}: {}", name, e))?;
        let o = get(&db.data, &k).map_err(|e| format!("ref {:?}: {}", name, e))?;
        if o.typ != "Commit" {
            return Err(format!("ref {:?} points at a {}", name, o.typ));
        }
        todo.push(k);
    }
    for k in extra {
        let o = get(&db.data, k)?;
        match o.typ.as_str() {
            "Commit" => todo.push(*k),
            "FileBlob" | "FileBlobTree" => {
                content(&db.data, k)?;
            }
            _ => {
                if trees.insert(*k) {
                    tree(&db.data, k)?;
                    f.trees += 1;
                }
            }
        }
    }
    while let Some(k) = todo.pop() {
        if !seen.insert(k) {
            continue;
        }
        let c = commit(&db.data, &k)?;
        f.commits += 1;
        if trees.insert(c.tree) {
            tree(&db.data, &c.tree)?;
            f.trees += 1;
        }
        todo.extend(c.parents);
    }
    Ok(f)
}

// ---------------------------------------------------------------------------------------------
// Writing: which objects given content is stored as

pub struct Chunk {
    pub start: usize,
    pub end: usize,
    /// Leading zero bits of the rolling hash where it was cut, None for the rest at the end.
    pub zeros: Option<u32>,
}

const BLOCK: usize = 1 << 16;
const CUT: usize = 1 << 15;

/// Cuts content into chunks. The content is looked at in blocks of 64 KiB. While more than 32 KiB of
/// a block remain, the cut is forced 32 KiB in; otherwise it is where the gear hash first has 13
/// leading zeros. A chunk ends at the first cut 32 KiB or more after its beginning.
pub fn chunks(c: &[u8]) -> Vec<Chunk> {
    let table = &gearhash::DEFAULT_TABLE;
    let mut out = Vec::new();
    let mut h: u64 = 0;
    let mut start = 0;
    let mut block = 0;
    while block < c.len() {
        let end = (block + BLOCK).min(c.len());
        let mut p = block;
        loop {
            let rest = end - p;
            let mut m = None;
            for (i, b) in c[p..end].iter().enumerate() {
                h = (h << 1).wrapping_add(table[*b as usize]);
                if h.leading_zeros() >= 13 {
                    m = Some(p + i + 1);
                    break;
                }
            }
            let cut = if rest > CUT {
                p + CUT
            } else {
                match m {
                    Some(q) => q,
                    None => break,
                }
            };
            p = cut;
            if cut - start >= CUT {
                out.push(Chunk {
                    start,
                    end: cut,
                    zeros: Some(h.leading_zeros()),
                });
                start = cut;
            }
        }
        block = end;
    }
    if start < c.len() || out.is_empty() {
        out.push(Chunk {
            start,
            end: c.len(),
            zeros: None,
        });
    }
    out
}

pub type Sink<'a> = dyn FnMut(Vec<u8>, &'static str) -> Key + 'a;

fn put(sink: &mut Sink<'_>, data: &[u8], keys: &[Key], typ: &'static str) -> Key {
    let o = Obj {
        typ: typ.to_string(),
        data: data.to_vec(),
        keys: keys.to_vec(),
    };
    sink(encode_obj(&o), typ)
}

/// Stores content the way snapcd does.
pub fn store_content(c: &[u8], sink: &mut Sink<'_>) -> Key {
    let cs = chunks(c);
    if cs.len() == 1 && cs[0].zeros.is_none() {
        return put(sink, c, &[], "FileBlob");
    }
    let mut levels: Vec<Vec<Key>> = vec![vec![]; 5];
    for ch in &cs {
        let k = put(sink, &c[ch.start..ch.end], &[], "FileBlob");
        levels[0].push(k);
        if let Some(z) = ch.zeros {
            for l in 0..4 {
                if z > 13 + 7 * (l as u32 + 1) || levels[l].len() >= 512 {
                    let keys = std::mem::take(&mut levels[l]);
                    let k = put(sink, &[], &keys, "FileBlobTree");
                    levels[l + 1].push(k);
                } else {
                    break;
                }
            }
        }
    }
    for l in 0..4 {
        let keys = std::mem::take(&mut levels[l]);
        let k = put(sink, &[], &keys, "FileBlobTree");
        if keys.len() == 1 && levels[l + 1..].iter().all(|x| x.is_empty()) {
            return keys[0];
        }
        levels[l + 1].push(k);
    }
    put(sink, &[], &levels[4].clone(), "FileBlobTree")
}

pub fn store_tree(n: &Node, sink: &mut Sink<'_>) -> Key {
    match n {
        Node::File(c) => {
            let k = store_content(c, sink);
            put(sink, &item_data(false, c.len() as u64, &[]), &[k], "FSItemFile")
        }
        Node::Dir(d) => {
            let names: Vec<String> = d.keys().cloned().collect();
            let keys: Vec<Key> = d.values().map(|v| store_tree(v, sink)).collect();
            put(
                sink,
                &item_data(true, keys.len() as u64, &names),
                &keys,
                "FSItemDir",
            )
        }
    }
}

/// Collects what storing produces.
pub fn collect(f: impl FnOnce(&mut Sink<'_>) -> Key) -> (Key, HashMap<Key, Vec<u8>>) {
    let mut m = HashMap::new();
    let k = f(&mut |b, _| {
        let k = hash(&b);
        m.insert(k, b);
        k
    });
    (k, m)
}
