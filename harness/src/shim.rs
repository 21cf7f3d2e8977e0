//! The LD_PRELOAD shim: settings, counts, and crash states built from its log.

use crate::cli::{Repo, Run};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// Loads the shim into a command, with the directories of a repository.
pub fn attach<'a>(run: Run<'a>, repo: &Repo<'_>) -> Run<'a> {
    let shim = run.ctx.shim.clone();
    run.env("LD_PRELOAD", shim)
        .env("VS_DB", repo.root.join(".snapcd"))
        .env("VS_CACHE", repo.home.join("cache"))
        .env("VS_DATA", &repo.root)
        .env("VS_DEST", repo.top.join("dest"))
}

/// Sometimes every regular file says that it has more or less in it than it has, as those of /proc do, and
/// those that change.
pub fn false_sizes<'a>(rng: &mut Rng, run: Run<'a>, repo: &Repo<'_>) -> Run<'a> {
    if !rng.chance(1, 8) {
        return run;
    }
    repo.ctx.count("commands_with_false_sizes", 1);
    let size = *rng.pick(&[0usize, 1, 100, 4096, 32768, 70_000, 1 << 20][..]);
    attach(run, repo).env("VS_DATA", &repo.top).env("VS_META", format!("-:-:-:-:{}", size))
}

/// What VS_PATHS says: (what was done, to which path).
pub fn paths(file: &Path) -> Vec<(String, PathBuf)> {
    use std::os::unix::ffi::OsStrExt;
    let b = std::fs::read(file).unwrap_or_default();
    let mut v = Vec::new();
    for l in b.split(|x| *x == 0) {
        if let Some(i) = l.iter().position(|x| *x == b' ') {
            v.push((String::from_utf8_lossy(&l[..i]).to_string(), PathBuf::from(std::ffi::OsStr::from_bytes(&l[i + 1..]))));
        }
    }
    v
}

pub fn counts(file: &Path) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(file) {
        for l in s.lines() {
            let mut it = l.split(' ');
            if let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.insert(k.to_string(), v.parse().unwrap_or(0));
            }
        }
    }
    m
}

#[derive(Clone, Debug)]
pub enum Op {
    Open { file: u32, path: String, created: bool },
    OpenDir { file: u32, path: String },
    Write { file: u32, off: u64, data: Vec<u8> },
    Trunc { file: u32, len: u64 },
    Sync { file: u32 },
    DirSync,
    Unlink { path: String },
}

impl Op {
    pub fn changes(&self) -> bool {
        match self {
            Op::Open { created, .. } => *created,
            Op::OpenDir { .. } => false,
            _ => true,
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Op::Open { .. } => "open",
            Op::OpenDir { .. } => "opendir",
            Op::Write { .. } => "write",
            Op::Trunc { .. } => "truncate",
            Op::Sync { .. } => "sync",
            Op::DirSync => "dirsync",
            Op::Unlink { .. } => "unlink",
        }
    }
}

pub fn parse_log(b: &[u8]) -> Result<Vec<Op>, String> {
    let mut p = 0;
    let mut out = Vec::new();
    while p < b.len() {
        if b.len() - p < 21 {
            return Err("short record".into());
        }
        let typ = b[p];
        let le = |a: usize, n: usize| -> u64 {
            b[p + a..p + a + n].iter().rev().fold(0u64, |x, y| x << 8 | *y as u64)
        };
        let (file, off, len) = (le(1, 4) as u32, le(5, 8), le(13, 8) as usize);
        p += 21;
        let has_data = matches!(typ, 1 | 2 | 3 | 6 | 8);
        let data = if has_data {
            if b.len() - p < len {
                return Err("short data".into());
            }
            let d = b[p..p + len].to_vec();
            p += len;
            d
        } else {
            vec![]
        };
        let path = || String::from_utf8_lossy(&data).to_string();
        out.push(match typ {
            1 | 2 => Op::Open {
                file,
                path: path(),
                created: typ == 2,
            },
            8 => Op::OpenDir { file, path: path() },
            3 => Op::Write { file, off, data },
            4 => Op::Trunc { file, len: off },
            5 => Op::Sync { file },
            7 => Op::DirSync,
            6 => Op::Unlink { path: path() },
            t => return Err(format!("record type {}", t)),
        });
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

fn apply(c: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write(off, d) => {
            let end = *off as usize + d.len();
            if c.len() < end {
                c.resize(end, 0);
            }
            c[*off as usize..end].copy_from_slice(d);
        }
        Pend::Trunc(n) => c.resize(*n as usize, 0),
    }
}

#[derive(Clone, Debug, Default)]
struct Inode {
    durable: Vec<u8>,
    pending: Vec<Pend>,
}

#[derive(Clone, Debug)]
enum DirOp {
    Create(String, usize),
    Remove(String),
}

/// A disk with a volatile cache: what was synced stays, what was not may or may not.
#[derive(Clone, Debug, Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    durable_dir: BTreeMap<String, usize>,
    dir: BTreeMap<String, usize>,
    dir_pending: Vec<DirOp>,
    fds: BTreeMap<u32, usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    /// The process died, the machine did not: everything that was done is there.
    Nothing,
    /// Everything not synced is lost.
    All,
    /// Any part of what was not synced is lost.
    Some,
    /// As Some, and writes may be torn at sectors.
    Torn,
}

impl Disk {
    pub fn new(files: &BTreeMap<String, Vec<u8>>) -> Disk {
        let mut d = Disk::default();
        for (k, v) in files {
            d.inodes.push(Inode {
                durable: v.clone(),
                pending: vec![],
            });
            d.durable_dir.insert(k.clone(), d.inodes.len() - 1);
        }
        d.dir = d.durable_dir.clone();
        d
    }

    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Open { file, path, created } => {
                let ino = match self.dir.get(path) {
                    Some(i) => *i,
                    None => {
                        if !created {
                            return Err(format!("opened unknown file {}", path));
                        }
                        self.inodes.push(Inode::default());
                        let i = self.inodes.len() - 1;
                        self.dir.insert(path.clone(), i);
                        self.dir_pending.push(DirOp::Create(path.clone(), i));
                        i
                    }
                };
                self.fds.insert(*file, ino);
            }
            Op::OpenDir { .. } => {}
            Op::Write { file, off, data } => {
                let i = *self.fds.get(file).ok_or("write to unknown file")?;
                self.inodes[i].pending.push(Pend::Write(*off, data.clone()));
            }
            Op::Trunc { file, len } => {
                let i = *self.fds.get(file).ok_or("truncate of unknown file")?;
                self.inodes[i].pending.push(Pend::Trunc(*len));
            }
            Op::Sync { file } => {
                let i = *self.fds.get(file).ok_or("sync of unknown file")?;
                let n = &mut self.inodes[i];
                for p in n.pending.drain(..) {
                    apply(&mut n.durable, &p);
                }
            }
            Op::DirSync => {
                self.durable_dir = self.dir.clone();
                self.dir_pending.clear();
            }
            Op::Unlink { path } => {
                self.dir.remove(path);
                self.dir_pending.push(DirOp::Remove(path.clone()));
            }
        }
        Ok(())
    }

    pub fn unsynced(&self) -> usize {
        self.inodes.iter().map(|i| i.pending.len()).sum::<usize>() + self.dir_pending.len()
    }

    /// What is on the disk after a crash now.
    pub fn crash(&self, loss: Loss, rng: &mut Rng) -> BTreeMap<String, Vec<u8>> {
        let mut dir = self.durable_dir.clone();
        for d in &self.dir_pending {
            let keep = match loss {
                Loss::Nothing => true,
                Loss::All => false,
                _ => rng.chance(1, 2),
            };
            if keep {
                match d {
                    DirOp::Create(p, i) => {
                        dir.insert(p.clone(), *i);
                    }
                    DirOp::Remove(p) => {
                        dir.remove(p);
                    }
                }
            }
        }
        let odds = rng.range(1, 9);
        let mut out = BTreeMap::new();
        for (p, i) in dir {
            let n = &self.inodes[i];
            let mut c = n.durable.clone();
            for w in &n.pending {
                match loss {
                    Loss::Nothing => apply(&mut c, w),
                    Loss::All => {}
                    Loss::Some | Loss::Torn => {
                        if !rng.chance(odds, 10) {
                            continue;
                        }
                        match w {
                            Pend::Write(off, d) if loss == Loss::Torn && d.len() > 512 && rng.chance(1, 3) => {
                                for (j, s) in d.chunks(512).enumerate() {
                                    if rng.chance(1, 2) {
                                        apply(&mut c, &Pend::Write(off + 512 * j as u64, s.to_vec()));
                                    }
                                }
                            }
                            w => apply(&mut c, w),
                        }
                    }
                }
            }
            out.insert(p, c);
        }
        out
    }
}

/// The files of a directory by absolute path.
pub fn read_files(dir: &Path) -> std::io::Result<BTreeMap<String, Vec<u8>>> {
    let mut m = BTreeMap::new();
    if !dir.exists() {
        return Ok(m);
    }
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        if e.file_type()?.is_file() {
            m.insert(
                e.path().to_string_lossy().to_string(),
                std::fs::read(e.path())?,
            );
        }
    }
    Ok(m)
}

/// Makes the files of a directory be these (paths as in `files`, moved to `dir`).
pub fn write_files(dir: &Path, files: &BTreeMap<String, Vec<u8>>) -> std::io::Result<()> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir)?;
    for (p, c) in files {
        let name = Path::new(p).file_name().expect("file name");
        std::fs::write(dir.join(name), c)?;
    }
    Ok(())
}
