//! Scratch space, file trees, snapshots of file systems.

use std::collections::BTreeMap;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x) ^ ((c.len() as u64) << 56)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

/// Picks a place for scratch files: memory if there is room, /tmp otherwise.
pub fn scratch_base() -> PathBuf {
    for p in &["/dev/shm", "/tmp"] {
        let c = std::ffi::CString::new(*p).unwrap();
        let mut s: libc::statvfs = unsafe { std::mem::zeroed() };
        if unsafe { libc::statvfs(c.as_ptr(), &mut s) } != 0 {
            continue;
        }
        let free = s.f_bavail as u64 * s.f_frsize as u64;
        let probe = Path::new(p).join(format!("vmon-probe-{}", std::process::id()));
        if free > 3 << 30 && std::fs::create_dir(&probe).is_ok() {
            let _ = std::fs::remove_dir(&probe);
            return PathBuf::from(p);
        }
    }
    PathBuf::from("/tmp")
}

/// Removes what a killed run left behind.
pub fn remove_stale(base: &Path) {
    if let Ok(rd) = std::fs::read_dir(base) {
        for e in rd.flatten() {
            let n = e.file_name();
            let n = n.to_string_lossy().to_string();
            if let Some(pid) = n.strip_prefix("vmon-scratch-") {
                if pid.parse::<u32>().is_ok() && !Path::new("/proc").join(pid).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, Node>),
}

impl Node {
    pub fn empty() -> Node {
        Node::Dir(BTreeMap::new())
    }

    pub fn dir(&self) -> &BTreeMap<String, Node> {
        match self {
            Node::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }

    pub fn dir_mut(&mut self) -> &mut BTreeMap<String, Node> {
        match self {
            Node::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }

    pub fn fingerprint(&self) -> u64 {
        match self {
            Node::File(b) => fnv(b) ^ 0x1111,
            Node::Dir(d) => {
                let mut h = 0x2222u64;
                for (k, v) in d {
                    h = h
                        .wrapping_mul(0x100_0000_01b3)
                        .wrapping_add(fnv(k.as_bytes()).rotate_left(17) ^ v.fingerprint());
                }
                h
            }
        }
    }

    /// (files, dirs including this one, bytes, depth)
    pub fn shape(&self) -> (usize, usize, usize, usize) {
        match self {
            Node::File(b) => (1, 0, b.len(), 0),
            Node::Dir(d) => {
                let mut s = (0, 1, 0, 0);
                for v in d.values() {
                    let t = v.shape();
                    s.0 += t.0;
                    s.1 += t.1;
                    s.2 += t.2;
                    s.3 = s.3.max(t.3 + 1);
                }
                s
            }
        }
    }

    pub fn describe(&self) -> serde_json::Value {
        match self {
            Node::File(b) => serde_json::json!(format!("{} bytes", b.len())),
            Node::Dir(d) => {
                let m: serde_json::Map<String, serde_json::Value> =
                    d.iter().take(30).map(|(k, v)| (k.clone(), v.describe())).collect();
                serde_json::Value::Object(m)
            }
        }
    }

    /// All paths below, with whether they are directories.
    pub fn paths(&self) -> Vec<(String, bool)> {
        fn go(n: &Node, at: &str, out: &mut Vec<(String, bool)>) {
            if let Node::Dir(d) = n {
                for (k, v) in d {
                    let p = if at.is_empty() {
                        k.clone()
                    } else {
                        format!("{}/{}", at, k)
                    };
                    out.push((p.clone(), matches!(v, Node::Dir(_))));
                    go(v, &p, out);
                }
            }
        }
        let mut v = Vec::new();
        go(self, "", &mut v);
        v
    }

    pub fn get(&self, path: &str) -> Option<&Node> {
        let mut n = self;
        if path.is_empty() {
            return Some(n);
        }
        for c in path.split('/') {
            match n {
                Node::Dir(d) => n = d.get(c)?,
                _ => return None,
            }
        }
        Some(n)
    }

    pub fn get_mut(&mut self, path: &str) -> Option<&mut Node> {
        let mut n = self;
        if path.is_empty() {
            return Some(n);
        }
        for c in path.split('/') {
            match n {
                Node::Dir(d) => n = d.get_mut(c)?,
                _ => return None,
            }
        }
        Some(n)
    }

    /// Sets or removes the node at a path whose parent exists.
    pub fn set(&mut self, path: &str, v: Option<Node>) {
        let (parent, name) = match path.rfind('/') {
            Some(i) => (&path[..i], &path[i + 1..]),
            None => ("", path),
        };
        let d = self.get_mut(parent).expect("parent").dir_mut();
        match v {
            Some(n) => {
                d.insert(name.to_string(), n);
            }
            None => {
                d.remove(name);
            }
        }
    }

    /// Puts `n` there, with the directories above it, unless a file is in the way.
    pub fn put(&mut self, path: &str, n: Node) {
        let parts: Vec<&str> = path.split('/').filter(|x| !x.is_empty()).collect();
        let mut at = self;
        for p in &parts[..parts.len() - 1] {
            match at {
                Node::Dir(d) => at = d.entry(p.to_string()).or_insert_with(Node::empty),
                Node::File(_) => return,
            }
        }
        if let Node::Dir(d) = at {
            d.insert(parts[parts.len() - 1].to_string(), n);
        }
    }
}

/// Creates `n` at `p`, which must not exist, in the order of the names or the order `rng` picks.
pub fn write_tree(p: &Path, n: &Node, rng: Option<&mut crate::rng::Rng>) -> io::Result<()> {
    fn go(p: &Path, n: &Node, rng: &mut Option<&mut crate::rng::Rng>) -> io::Result<()> {
        match n {
            Node::File(b) => std::fs::write(p, b),
            Node::Dir(d) => {
                std::fs::create_dir(p)?;
                let mut es: Vec<_> = d.iter().collect();
                if let Some(r) = rng {
                    r.shuffle(&mut es);
                }
                for (k, v) in es {
                    go(&p.join(k), v, rng)?;
                }
                Ok(())
            }
        }
    }
    let mut r = rng;
    go(p, n, &mut r)
}

/// Makes the directory `p` (keeping the entries in `keep`) be exactly `n`, rewriting only what differs.
pub fn sync_tree(p: &Path, n: &Node, keep: &[&str]) -> io::Result<()> {
    let d = match n {
        Node::File(b) => {
            let same = match std::fs::symlink_metadata(p) {
                Ok(m) if m.is_file() => std::fs::read(p)? == *b,
                Ok(m) if m.is_dir() => {
                    std::fs::remove_dir_all(p)?;
                    false
                }
                Ok(_) => {
                    std::fs::remove_file(p)?;
                    false
                }
                Err(_) => false,
            };
            if !same {
                std::fs::write(p, b)?;
            }
            return Ok(());
        }
        Node::Dir(d) => d,
    };
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => {}
        Ok(_) => {
            std::fs::remove_file(p)?;
            std::fs::create_dir(p)?;
        }
        Err(_) => std::fs::create_dir(p)?,
    }
    for e in std::fs::read_dir(p)? {
        let e = e?;
        let name = e.file_name();
        let name = name.to_string_lossy().to_string();
        if keep.contains(&name.as_str()) || d.contains_key(&name) {
            continue;
        }
        if e.file_type()?.is_dir() {
            std::fs::remove_dir_all(e.path())?;
        } else {
            std::fs::remove_file(e.path())?;
        }
    }
    for (k, v) in d {
        sync_tree(&p.join(k), v, &[])?;
    }
    Ok(())
}

/// Reads a tree of plain files and directories; None for anything else.
pub fn read_tree(p: &Path) -> io::Result<Result<Node, String>> {
    let m = std::fs::symlink_metadata(p)?;
    if m.is_file() {
        return Ok(Ok(Node::File(std::fs::read(p)?)));
    }
    if !m.is_dir() {
        return Ok(Err(format!("{} is not a file or directory", p.display())));
    }
    let mut d = BTreeMap::new();
    for e in std::fs::read_dir(p)? {
        let e = e?;
        let name = match e.file_name().into_string() {
            Ok(n) => n,
            Err(n) => return Ok(Err(format!("name {:?}", n))),
        };
        match read_tree(&e.path())? {
            Ok(n) => d.insert(name, n),
            Err(e) => return Ok(Err(e)),
        };
    }
    Ok(Ok(Node::Dir(d)))
}

/// First difference between two trees.
pub fn tree_diff(a: &Node, b: &Node, at: &str) -> Option<String> {
    match (a, b) {
        (Node::File(x), Node::File(y)) => {
            if x == y {
                None
            } else {
                let i = x.iter().zip(y.iter()).position(|(p, q)| p != q);
                Some(format!(
                    "{:?}: {} bytes instead of {}, first difference at {:?}",
                    at,
                    y.len(),
                    x.len(),
                    i
                ))
            }
        }
        (Node::Dir(x), Node::Dir(y)) => {
            for (k, v) in x {
                let p = format!("{}/{}", at, k);
                match y.get(k) {
                    None => return Some(format!("{:?} is missing", p)),
                    Some(w) => {
                        if let Some(s) = tree_diff(v, w, &p) {
                            return Some(s);
                        }
                    }
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    return Some(format!("{:?} is extra", format!("{}/{}", at, k)));
                }
            }
            None
        }
        (Node::File(_), Node::Dir(_)) => Some(format!("{:?} is a directory, not a file", at)),
        (Node::Dir(_), Node::File(_)) => Some(format!("{:?} is a file, not a directory", at)),
    }
}

/// Everything about a path that a command could change.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub kind: char,
    pub mode: u32,
    pub ino: u64,
    pub nlink: u64,
    pub uid: u32,
    pub mtime: (i64, i64),
    pub content: Vec<u8>,
}

pub type Snap = BTreeMap<PathBuf, Entry>;

/// Complete picture of `p` and everything below, except subtrees for which `skip` is true.
pub fn snap(p: &Path, skip: &dyn Fn(&Path) -> bool) -> io::Result<Snap> {
    fn go(p: &Path, skip: &dyn Fn(&Path) -> bool, out: &mut Snap) -> io::Result<()> {
        if skip(p) {
            return Ok(());
        }
        let m = std::fs::symlink_metadata(p)?;
        let t = m.file_type();
        let (kind, content) = if t.is_dir() {
            ('d', vec![])
        } else if t.is_symlink() {
            ('l', std::fs::read_link(p)?.into_os_string().into_vec())
        } else if t.is_file() {
            ('f', std::fs::read(p)?)
        } else {
            ('o', vec![])
        };
        out.insert(
            p.to_path_buf(),
            Entry {
                kind,
                mode: m.mode(),
                ino: m.ino(),
                nlink: m.nlink(),
                uid: m.uid(),
                mtime: (m.mtime(), m.mtime_nsec()),
                content,
            },
        );
        if kind == 'd' {
            for e in std::fs::read_dir(p)? {
                go(&e?.path(), skip, out)?;
            }
        }
        Ok(())
    }
    let mut out = Snap::new();
    go(p, skip, &mut out)?;
    Ok(out)
}

/// First difference between two snapshots.
pub fn snap_diff(a: &Snap, b: &Snap) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{} was removed", k.display())),
            Some(w) if w == v => {}
            Some(w) => {
                let mut what = vec![];
                if v.kind != w.kind {
                    what.push(format!("type {} -> {}", v.kind, w.kind));
                }
                if v.mode != w.mode {
                    what.push(format!("mode {:o} -> {:o}", v.mode, w.mode));
                }
                if v.ino != w.ino {
                    what.push("replaced (inode)".into());
                }
                if v.mtime != w.mtime {
                    what.push("mtime".into());
                }
                if v.content != w.content {
                    what.push(format!("content {} -> {} bytes", v.content.len(), w.content.len()));
                }
                if what.is_empty() {
                    what.push("links or owner".into());
                }
                return Some(format!("{} was changed: {}", k.display(), what.join(", ")));
            }
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Some(format!("{} was created", k.display()));
        }
    }
    None
}

pub fn copy_dir(from: &Path, to: &Path) -> io::Result<()> {
    std::fs::create_dir(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = e.file_type()?;
        let dst = to.join(e.file_name());
        if t.is_dir() {
            copy_dir(&e.path(), &dst)?;
        } else if t.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path())?, dst)?;
        } else {
            std::fs::copy(e.path(), &dst)?;
        }
    }
    Ok(())
}

/// Gives every file under `p` the same times, in whole seconds, as unpacking or `cp -p` of a build does.
pub fn same_times(p: &Path, at: u64) -> io::Result<()> {
    if p.file_name().map_or(false, |n| n == ".snapcd") {
        return Ok(());
    }
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(at);
    let m = std::fs::symlink_metadata(p)?;
    if m.is_dir() {
        for e in std::fs::read_dir(p)? {
            same_times(&e?.path(), at)?;
        }
    } else if !m.is_file() {
        return Ok(());
    }
    std::fs::File::open(p)?.set_times(std::fs::FileTimes::new().set_accessed(t).set_modified(t))
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

pub fn os(b: &[u8]) -> &std::ffi::OsStr {
    std::ffi::OsStr::from_bytes(b)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
