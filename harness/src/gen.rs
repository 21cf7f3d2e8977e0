//! Inputs: file contents that drive the chunker everywhere, names, trees, edits, messages.

use crate::rng::Rng;
use crate::util::{unhex, Node};
use crate::windows::WINDOWS;
use std::collections::BTreeMap;

/// A window after which the gear hash has exactly `z` leading zeros (or the nearest number known).
pub fn window(rng: &mut Rng, z: u32) -> Vec<u8> {
    let best = WINDOWS
        .iter()
        .map(|(k, _)| *k)
        .filter(|k| *k >= z)
        .min()
        .unwrap_or(46);
    let c: Vec<&str> = WINDOWS
        .iter()
        .filter(|(k, _)| *k == best)
        .map(|(_, w)| *w)
        .collect();
    unhex(rng.pick(&c))
}

pub fn gear_first_match(b: &[u8]) -> Option<(usize, u32)> {
    let mut h = 0u64;
    for (i, c) in b.iter().enumerate() {
        h = (h << 1).wrapping_add(gearhash::DEFAULT_TABLE[*c as usize]);
        if h.leading_zeros() >= 13 {
            return Some((i + 1, h.leading_zeros()));
        }
    }
    None
}

pub const BLOCK: usize = 1 << 16;

/// A 64 KiB block in which the first place the gear hash matches has `z` leading zeros, unique by
/// `id`. None if that did not work out.
pub fn block(rng: &mut Rng, z: Option<u32>, id: u64) -> Vec<u8> {
    for _ in 0..50 {
        let mut b = Vec::with_capacity(BLOCK);
        // A quiet start: few different bytes.
        let q = rng.next() as u8;
        let lead = rng.range(80, 400);
        b.resize(lead, q);
        match z {
            Some(z) => {
                b.extend_from_slice(&window(rng, z));
                if gear_first_match(&b).map(|m| m.1) != Some(first_zeros(z)) {
                    continue;
                }
                b.extend_from_slice(&id.to_le_bytes());
                if rng.chance(1, 3) {
                    let n = BLOCK - b.len();
                    b.extend_from_slice(&rng.bytes(n));
                } else {
                    let q = rng.next() as u8;
                    b.resize(BLOCK, q);
                }
                return b;
            }
            None => {
                b.extend_from_slice(&id.to_le_bytes());
                b.resize(BLOCK, q);
                if gear_first_match(&b).is_none() {
                    return b;
                }
            }
        }
    }
    let mut b = id.to_le_bytes().to_vec();
    b.resize(BLOCK, 7);
    b
}

fn first_zeros(z: u32) -> u32 {
    WINDOWS
        .iter()
        .map(|(k, _)| *k)
        .filter(|k| *k >= z)
        .min()
        .unwrap_or(46)
}

/// Zero counts just below and above every threshold of the tree levels.
pub const EDGE_ZEROS: &[u32] = &[
    13, 14, 19, 20, 21, 22, 26, 27, 28, 29, 33, 34, 35, 36, 40, 41, 42, 43, 46, 49,
];

/// A file as a script of blocks, each with the tree level its boundary closes, then a tail.
pub fn scripted(rng: &mut Rng, blocks: usize) -> (Vec<u8>, Vec<Option<u32>>) {
    let mut out = Vec::with_capacity((blocks + 1) * BLOCK);
    let mut script = Vec::new();
    let style = rng.below(4);
    for _ in 0..blocks {
        let z = match style {
            // mostly quiet, sometimes high
            0 => {
                if rng.chance(1, 3) {
                    Some(*rng.pick(EDGE_ZEROS))
                } else {
                    None
                }
            }
            1 => Some(*rng.pick(EDGE_ZEROS)),
            // high levels again and again
            2 => Some(*rng.pick(&[21, 28, 35, 42, 42, 43][..])),
            _ => {
                if rng.chance(1, 2) {
                    Some(*rng.pick(&[20, 21, 27, 28, 34, 35, 41, 42][..]))
                } else {
                    Some(13)
                }
            }
        };
        let id = rng.next();
        out.extend_from_slice(&block(rng, z, id));
        script.push(z);
    }
    let tail = *rng.pick(&[
        0, 0, 1, 63, 64, 65, 8192, 32767, 32768, 32769, 40000, 65535,
    ][..]);
    match rng.below(3) {
        0 => out.extend_from_slice(&rng.bytes(tail)),
        1 => {
            let q = rng.next() as u8;
            out.resize(out.len() + tail, q)
        }
        _ => {
            // a tail that is full of boundaries
            let z = *rng.pick(EDGE_ZEROS);
            let w = window(rng, z);
            for i in 0..tail {
                out.push(w[i % 64]);
            }
        }
    }
    (out, script)
}

/// Lengths at which something changes in a chunker with 32 KiB cuts and 64 KiB buffers.
pub fn edge_len(rng: &mut Rng) -> usize {
    let base = *rng.pick(&[
        0, 1, 2, 63, 64, 65, 4096, 8191, 8192, 8193, 16384, 32768, 65536, 98304, 131072, 163840,
        196608, 229376, 262144, 524288, 524288 + 32768,
    ][..]);
    let d = *rng.pick(&[0i64, 0, 0, 1, -1, 2, -2, 64, -64, 7][..]);
    (base as i64 + d).max(0) as usize
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Tiny,
    Edge,
    Const,
    Periodic,
    Dense,
    Scripted,
    Text,
    Mixed,
}

pub fn content(rng: &mut Rng, max_blocks: usize) -> (Vec<u8>, Kind) {
    let kinds = [
        Kind::Tiny,
        Kind::Edge,
        Kind::Edge,
        Kind::Const,
        Kind::Periodic,
        Kind::Dense,
        Kind::Scripted,
        Kind::Scripted,
        Kind::Text,
        Kind::Mixed,
    ];
    let k = *rng.pick(&kinds);
    (content_of(rng, k, max_blocks), k)
}

pub fn content_of(rng: &mut Rng, k: Kind, max_blocks: usize) -> Vec<u8> {
    let cap = max_blocks * BLOCK;
    match k {
        Kind::Tiny => {
            let n = rng.below(200);
            rng.bytes(n)
        }
        Kind::Edge => {
            let n = edge_len(rng).min(cap + 100);
            rng.bytes(n)
        }
        Kind::Const => {
            let n = if rng.chance(1, 2) {
                edge_len(rng).min(cap + 100)
            } else {
                rng.below(cap + 1)
            };
            vec![if rng.chance(1, 2) { 0 } else { rng.next() as u8 }; n]
        }
        Kind::Periodic => {
            let p = rng.range(1, 300);
            let unit = rng.bytes(p);
            let n = rng.below(cap + 1);
            (0..n).map(|i| unit[i % p]).collect()
        }
        Kind::Dense => {
            // boundaries everywhere
            let z = *rng.pick(EDGE_ZEROS);
            let w = window(rng, z);
            let n = if rng.chance(1, 2) {
                edge_len(rng).min(cap + 100)
            } else {
                rng.below(cap + 1)
            };
            let gap = if rng.chance(1, 2) { 0 } else { rng.below(5000) };
            let mut v = Vec::with_capacity(n + gap + 64);
            while v.len() < n {
                v.extend_from_slice(&w);
                let g = v.len() + gap;
                v.resize(g, 3);
            }
            v.truncate(n);
            v
        }
        Kind::Scripted => {
            let b = rng.range(1, max_blocks.max(1));
            scripted(rng, b).0
        }
        Kind::Text => {
            let n = rng.below(400);
            text(rng, n)
        }
        Kind::Mixed => {
            let mut v = Vec::new();
            for _ in 0..rng.range(1, 4) {
                let k = *rng.pick(&[Kind::Edge, Kind::Const, Kind::Dense, Kind::Text][..]);
                v.extend_from_slice(&content_of(rng, k, (max_blocks / 2).max(1)));
            }
            v
        }
    }
}

pub fn text(rng: &mut Rng, lines: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..lines {
        let w = rng.below(6);
        for _ in 0..w {
            let words = ["alpha", "beta", "gamma", "delta", "", "x", "æøå", "-", "+", "@@ 1 @@", "日本"];
            s.push_str(*rng.pick(&words[..]));
            s.push(' ');
        }
        if rng.chance(1, 30) {
            s.push('\r');
        }
        s.push('\n');
    }
    if rng.chance(1, 3) {
        s.push_str("no newline");
    }
    s.into_bytes()
}

pub fn name(rng: &mut Rng, plain: bool) -> String {
    let simple = ["a", "b", "c", "d", "foo", "bar", "baz", "main.rs", "x", "y", "README", "src", "z"];
    let odd = [
        "a b", " lead", "trail ", "a.b", "a-b", "a!", "A", ".hidden", "..x", "...", "a..", "-dash",
        "ünïcode", "日本語", "e\u{301}", "\u{e9}", "tab\there", "quote\"q", "back\\slash", "star*",
        "q?", "[br]", "{a,b}", "~", "#h", "$v", "%p", "&", "'", "(", ";", "nul", "snapcd.db", ".git",
        "a\u{7f}", "~a", "\u{1f600}",
    ];
    match rng.below(if plain { 2 } else { 11 }) {
        0..=3 => (*rng.pick(&simple)).to_string(),
        4..=7 => (*rng.pick(&odd)).to_string(),
        8 => {
            let n = rng.range(100, 255);
            "n".repeat(n)
        }
        9 => (*rng.pick(CONVENTIONAL)).to_string(),
        _ => format!("f{}", rng.below(1000)),
    }
}

/// Names that other programs treat differently.
const CONVENTIONAL: &[&str] = &[
    ".git", ".hg", ".svn", ".gitignore", ".ignore", ".gitattributes", ".gitmodules", ".gitkeep", ".snapcdignore", ".snapcd.toml", ".hgignore", ".dockerignore", ".npmignore", "CACHEDIR.TAG",
    ".nobackup", ".nomedia", ".exclude", ".noindex", "lost+found", ".DS_Store", "Thumbs.db", "desktop.ini", "core", "core.123", "a~", "#a#", ".#a", ".a.swp", "a.tmp", "a.part", "a.bak", "a.orig",
    "a.rej", "a.lock", "a.pyc", "a.o", "node_modules", "target", "__pycache__", ".cache", ".Trash", ".Trash-0", ".nfs0001", ".fuse_hidden1", ".~lock.a#", "~$a", "a.db", "a.db-journal", "a.db-wal",
    "snapcd.db-journal", ".snapcd2", "snapcd", "con", "aux", "proc", "sys", "dev", "tmp", "NUL", "HEAD", "refs", "objects", "master",
];

/// What makes other programs treat it differently.
fn conventional(name: &str) -> Option<Node> {
    let b: &[u8] = match name {
        ".gitignore" | ".ignore" | ".snapcdignore" | ".hgignore" | ".dockerignore" | ".npmignore" | ".exclude" | ".snapcd.toml" => b"*\n**/*\na\nfoo\nsrc/\n",
        ".gitattributes" => b"* text=auto eol=crlf export-ignore\n",
        "CACHEDIR.TAG" => b"Signature: 8a477f597d28d172789f06886806bc55\n",
        ".nobackup" | ".nomedia" | ".noindex" | ".gitkeep" => b"",
        ".git" | ".hg" => {
            let mut info = Node::empty();
            info.set("exclude", Some(Node::File(b"# none\n".to_vec())));
            let mut g = Node::empty();
            g.set("info", Some(info));
            g.set("hooks", Some(Node::empty()));
            g.set("HEAD", Some(Node::File(b"ref: refs/heads/master\n".to_vec())));
            return Some(g);
        }
        _ => return None,
    };
    Some(Node::File(b.to_vec()))
}

pub struct TreeOpts {
    pub depth: usize,
    pub width: usize,
    pub plain_names: bool,
    pub text_only: bool,
    pub max_blocks: usize,
}

impl TreeOpts {
    pub fn small() -> TreeOpts {
        TreeOpts {
            depth: 3,
            width: 5,
            plain_names: false,
            text_only: false,
            max_blocks: 0,
        }
    }
}

pub fn small_content(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => b"same content".to_vec(),
        2 => {
            let n = rng.below(20);
            text(rng, n)
        }
        3 => vec![0; rng.below(300)],
        4 => {
            let n = rng.below(5000);
            rng.bytes(n)
        }
        _ => format!("v{}", rng.next()).into_bytes(),
    }
}

pub fn file(rng: &mut Rng, o: &TreeOpts) -> Node {
    if o.text_only {
        let n = rng.below(25);
        return Node::File(text(rng, n));
    }
    if o.max_blocks > 0 && rng.chance(1, 8) {
        return Node::File(content(rng, o.max_blocks).0);
    }
    Node::File(small_content(rng))
}

pub fn tree(rng: &mut Rng, o: &TreeOpts) -> Node {
    let mut d = BTreeMap::new();
    let n = rng.below(o.width + 1);
    for _ in 0..n {
        let nm = name(rng, o.plain_names);
        let v = if o.depth > 0 && rng.chance(1, 3) {
            tree(
                rng,
                &TreeOpts {
                    depth: o.depth - 1,
                    ..TreeOpts { ..*o }
                },
            )
        } else {
            file(rng, o)
        };
        let v = match conventional(&nm) {
            Some(c) if rng.chance(2, 3) => c,
            _ => v,
        };
        d.insert(nm, v);
    }
    Node::Dir(d)
}

/// One edit of a tree; says what it did.
pub fn edit(rng: &mut Rng, t: &mut Node, o: &TreeOpts) -> String {
    let paths = t.paths();
    let dirs: Vec<String> = std::iter::once(String::new())
        .chain(paths.iter().filter(|p| p.1).map(|p| p.0.clone()))
        .collect();
    let files: Vec<String> = paths.iter().filter(|p| !p.1).map(|p| p.0.clone()).collect();
    let at = |d: &str, n: &str| {
        if d.is_empty() {
            n.to_string()
        } else {
            format!("{}/{}", d, n)
        }
    };
    let fresh = |rng: &mut Rng| Node::File(format!("fresh {}\n", rng.next()).into_bytes());
    match rng.below(10) {
        0 | 1 => {
            let d = rng.pick(&dirs).clone();
            let n = name(rng, o.plain_names);
            let p = at(&d, &n);
            let v = if rng.chance(1, 2) { file(rng, o) } else { fresh(rng) };
            t.set(&p, Some(v));
            format!("put file {:?}", p)
        }
        2 => {
            let d = rng.pick(&dirs).clone();
            let n = name(rng, o.plain_names);
            let p = at(&d, &n);
            let sub = if rng.chance(1, 3) {
                Node::empty()
            } else {
                tree(
                    rng,
                    &TreeOpts {
                        depth: 1,
                        ..TreeOpts { ..*o }
                    },
                )
            };
            t.set(&p, Some(sub));
            format!("put dir {:?}", p)
        }
        3 if !paths.is_empty() => {
            let p = rng.pick(&paths).0.clone();
            t.set(&p, None);
            format!("delete {:?}", p)
        }
        4 | 5 if !files.is_empty() => {
            let p = rng.pick(&files).clone();
            if let Some(Node::File(b)) = t.get_mut(&p) {
                if b.is_empty() || rng.chance(1, 3) {
                    b.extend_from_slice(b"more\n");
                } else if o.text_only {
                    let i = rng.below(b.len());
                    b[i] = b'Q';
                    if std::str::from_utf8(b).is_err() {
                        *b = b"replaced\n".to_vec();
                    }
                } else {
                    let i = rng.below(b.len());
                    b[i] ^= 1 << rng.below(8);
                }
            }
            format!("change {:?}", p)
        }
        6 if !files.is_empty() => {
            let p = rng.pick(&files).clone();
            t.set(&p, Some(Node::empty()));
            if rng.chance(1, 2) {
                let n = name(rng, true);
                let v = fresh(rng);
                t.set(&format!("{}/{}", p, n), Some(v));
            }
            format!("file to dir {:?}", p)
        }
        7 if dirs.len() > 1 => {
            let p = dirs[rng.range(1, dirs.len() - 1)].clone();
            let v = file(rng, o);
            t.set(&p, Some(v));
            format!("dir to file {:?}", p)
        }
        8 if !paths.is_empty() => {
            // move or swap
            let p = rng.pick(&paths).0.clone();
            let v = t.get(&p).cloned().unwrap();
            let to = name(rng, o.plain_names);
            t.set(&p, None);
            t.set(&to, Some(v));
            format!("move {:?} to {:?}", p, to)
        }
        9 if files.len() > 1 => {
            let a = rng.pick(&files).clone();
            let b = rng.pick(&files).clone();
            let (x, y) = (t.get(&a).cloned().unwrap(), t.get(&b).cloned().unwrap());
            t.set(&a, Some(y));
            t.set(&b, Some(x));
            format!("swap {:?} and {:?}", a, b)
        }
        _ => {
            let n = name(rng, o.plain_names);
            let v = fresh(rng);
            t.set(&n, Some(v));
            format!("put {:?}", n)
        }
    }
}

pub fn message(rng: &mut Rng) -> String {
    let m = [
        "message", "two\nlines", " ", "", "æøå 日本", "commit: b", "  - x +1", "trailing\n", "\n\n",
        "-m", "\u{1b}[31mred", "a\tb", "'\"\\",
    ];
    match rng.below(3) {
        0 => (*rng.pick(&m)).to_string(),
        1 => format!("m {}", rng.next()),
        _ => "long ".repeat(rng.range(1, 400)),
    }
}
