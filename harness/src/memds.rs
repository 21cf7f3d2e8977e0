//! In-process monitors: an object store in memory that records every call and can fail any of them,
//! and a reader and a writer that can do the same.

use snapcd::commit::Commit;
use snapcd::ds::{
    DSError, GetReflogError, RawBetweenError, RawExistsError, RawGetError, RawGetStateError,
    RawPutError, RawPutStateError, ReflogPushError, Transactional, WalkReflogError,
};
use snapcd::key::TypedKey;
use snapcd::{DataStore, Reflog};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io;

#[derive(Default)]
pub struct MemDs {
    pub data: RefCell<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub gets: Cell<u64>,
    pub puts: Cell<u64>,
    pub put_bytes: Cell<u64>,
    /// Fail the nth put or get (1-based), 0 for never. `sticky`: all from then on.
    pub fail_put: Cell<u64>,
    pub fail_get: Cell<u64>,
    pub sticky: Cell<bool>,
    pub failed: Cell<u64>,
    /// A put that was given a key which is not the hash of the data.
    pub wrong_key: Cell<u64>,
    /// Keep no data of chunks.
    pub nodes_only: Cell<bool>,
}

fn err() -> DSError {
    DSError::SqliteError(rusqlite::Error::InvalidQuery)
}

impl MemDs {
    pub fn with(data: BTreeMap<Vec<u8>, Vec<u8>>) -> MemDs {
        MemDs {
            data: RefCell::new(data),
            ..MemDs::default()
        }
    }

    fn hit(&self, n: u64, at: u64) -> bool {
        let hit = at != 0 && (n == at || (self.sticky.get() && n > at));
        if hit {
            self.failed.set(self.failed.get() + 1);
        }
        hit
    }
}

fn is_chunk(b: &[u8]) -> bool {
    crate::model::decode_obj(b).map_or(false, |o| o.typ == "FileBlob")
}

impl Transactional for MemDs {}

impl DataStore for MemDs {
    fn raw_get<'a>(&'a self, key: &[u8]) -> Result<Cow<'a, [u8]>, RawGetError> {
        self.gets.set(self.gets.get() + 1);
        if self.hit(self.gets.get(), self.fail_get.get()) {
            return Err(err().into());
        }
        match self.data.borrow().get(key) {
            Some(v) => Ok(Cow::Owned(v.clone())),
            None => Err(err().into()),
        }
    }

    fn raw_put<'a>(&'a self, key: &[u8], data: &[u8]) -> Result<(), RawPutError> {
        self.puts.set(self.puts.get() + 1);
        self.put_bytes.set(self.put_bytes.get() + data.len() as u64);
        if self.hit(self.puts.get(), self.fail_put.get()) {
            return Err(err().into());
        }
        if key.len() != 33 || key[0] != 1 || key[1..] != crate::model::hash(data)[..] {
            self.wrong_key.set(self.wrong_key.get() + 1);
        }
        self.data
            .borrow_mut()
            .entry(key.to_vec())
            .or_insert_with(|| match self.nodes_only.get() {
                true if is_chunk(data) => vec![],
                _ => data.to_vec(),
            });
        Ok(())
    }

    fn raw_exists(&self, key: &[u8]) -> Result<bool, RawExistsError> {
        Ok(self.data.borrow().contains_key(key))
    }

    fn raw_get_state<'a>(&'a self, _key: &[u8]) -> Result<Option<Vec<u8>>, RawGetStateError> {
        Ok(None)
    }

    fn raw_put_state<'a>(&'a self, _key: &[u8], _data: &[u8]) -> Result<(), RawPutStateError> {
        Ok(())
    }

    fn reflog_push(&self, _data: &Reflog) -> Result<(), ReflogPushError> {
        Ok(())
    }

    fn reflog_get(
        &self,
        _refname: &str,
        _remote: Option<&str>,
    ) -> Result<TypedKey<Commit>, GetReflogError> {
        Err(GetReflogError::NotFound)
    }

    fn reflog_walk(
        &self,
        _refname: &str,
        _remote: Option<&str>,
    ) -> Result<Vec<TypedKey<Commit>>, WalkReflogError> {
        Ok(vec![])
    }

    fn raw_between(
        &self,
        start: &[u8],
        end: Option<&[u8]>,
    ) -> Result<Vec<Vec<u8>>, RawBetweenError> {
        Ok(self
            .data
            .borrow()
            .keys()
            .filter(|k| &k[..] >= start && end.map_or(true, |e| &k[..] < e))
            .cloned()
            .collect())
    }
}

/// How a reader hands out its bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Split {
    Whole,
    Fixed(usize),
    Random,
    Ones,
}

pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub split: Split,
    pub rng: crate::rng::Rng,
    pub interrupts: bool,
    pub calls: u64,
    /// Fail at this byte position.
    pub fail_at: Option<usize>,
    pub kind: io::ErrorKind,
    pub failed: u64,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], split: Split, rng: crate::rng::Rng) -> Reader<'a> {
        Reader {
            data,
            pos: 0,
            split,
            rng,
            interrupts: false,
            calls: 0,
            fail_at: None,
            kind: io::ErrorKind::Other,
            failed: 0,
        }
    }
}

impl<'a> io::Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.rng.chance(1, 5) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = (self.data.len() - self.pos).min(buf.len());
        n = match self.split {
            Split::Whole => n,
            Split::Fixed(k) => n.min(k),
            Split::Ones => n.min(1),
            Split::Random => match self.rng.below(4) {
                0 => n.min(self.rng.range(1, 10)),
                1 => n.min(self.rng.range(1, 9000)),
                2 => n.min(self.rng.range(1, 70000)),
                _ => n,
            },
        };
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.failed += 1;
                return Err(self.kind.into());
            }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A writer that takes the bytes in pieces and can fail.
pub struct Writer {
    pub got: Vec<u8>,
    pub rng: crate::rng::Rng,
    pub short: bool,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    /// Instead of failing, accept nothing (as a full device may).
    pub zero: bool,
    pub kind: io::ErrorKind,
    pub failed: u64,
    pub calls: u64,
}

impl Writer {
    pub fn new(rng: crate::rng::Rng) -> Writer {
        Writer {
            got: vec![],
            rng,
            short: false,
            interrupts: false,
            fail_at: None,
            zero: false,
            kind: io::ErrorKind::Other,
            failed: 0,
            calls: 0,
        }
    }
}

impl io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.rng.chance(1, 5) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.short {
            n = self.rng.range(1, n);
        }
        if let Some(f) = self.fail_at {
            if self.got.len() >= f {
                self.failed += 1;
                if self.zero {
                    return Ok(0);
                }
                return Err(self.kind.into());
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Runs code under test; a panic is its way to fail.
pub fn guarded<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default()
        )),
    }
}

pub fn key_bytes(k: snapcd::key::Key) -> crate::model::Key {
    crate::model::from_dbkey(&k.as_db_key()).expect("key")
}
