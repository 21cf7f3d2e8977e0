//! Running the snapcd program and looking at its repositories.

use crate::report::{Ctx, Fail, Res};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

/// CPU seconds a command may use. They use well below one.
pub const CPU_LIMIT: u64 = 40;
/// Wall clock seconds after which a run is given up without a verdict.
pub const WALL_LIMIT: u64 = 150;

type Watched = (u32, Instant, Arc<AtomicBool>);
static WATCH: Mutex<Vec<Watched>> = Mutex::new(Vec::new());
static START: Once = Once::new();

fn watchdog() {
    START.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut w = WATCH.lock().unwrap();
            let now = Instant::now();
            w.retain(|(pid, at, flag)| {
                if now > *at {
                    flag.store(true, Ordering::SeqCst);
                    unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
                    false
                } else {
                    true
                }
            });
        });
    });
}

thread_local! {
    static AROUND: std::cell::RefCell<Option<Rng>> = std::cell::RefCell::new(None);
}

/// From here on, this thread runs commands in surroundings that ought not to matter, chosen by this.
pub fn surround(rng: Option<Rng>) {
    AROUND.with(|a| *a.borrow_mut() = rng);
}

/// What ought not to matter: environment variables, and the options that only say how much is logged.
fn surroundings(c: &mut Command, cwd: &Path, shim: &Path) -> Vec<&'static str> {
    AROUND.with(|a| {
        let mut flags = vec![];
        let mut a = a.borrow_mut();
        let rng = match a.as_mut() {
            Some(r) => r,
            None => return flags,
        };
        if rng.chance(1, 2) {
            return flags;
        }
        if rng.chance(1, 3) {
            let root = cwd.ancestors().find(|d| d.join(".snapcd").exists()).unwrap_or(cwd);
            match rng.below(4) {
                0 => c.env("HOME", cwd),
                1 => c.env("HOME", root),
                2 => c.env("HOME", cwd.parent().unwrap_or(cwd)),
                _ => c.env_remove("HOME"),
            };
        }
        if rng.chance(1, 10) {
            // A user who has no home, so that there is no place for a cache.
            c.env_remove("HOME").env_remove("XDG_CACHE_HOME").env("LD_PRELOAD", shim).env("VS_NOPW", "1");
        }
        for (k, vals) in &[
            ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", ""][..]),
            ("LC_ALL", &["C", "POSIX", "en_US.ISO-8859-1"][..]),
            ("TZ", &["Asia/Tokyo", "UTC-14", ":nonsense", ""][..]),
            ("TERM", &["dumb", "xterm-256color", "none"][..]),
            ("COLUMNS", &["10", "0", "x"][..]),
            ("RUST_LOG", &["trace", "off"][..]),
            ("USER", &["nobody", ""][..]),
            ("PWD", &["/", "/nonexistent", "."][..]),
            ("SNAPCD_DB", &["/nonexistent"][..]),
            ("CI", &["true"][..]),
            ("SOURCE_DATE_EPOCH", &["1", "x"][..]),
        ] {
            if rng.chance(1, 5) {
                c.env(k, *rng.pick(vals));
            }
        }
        if rng.chance(1, 5) {
            flags.push(*rng.pick(&["-v", "-q", "-vv", "--quiet", "-vvv", "-qv"]));
        }
        flags
    })
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }

    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }

    /// It used up its CPU time: it would have run forever.
    pub fn spun(&self) -> bool {
        self.signal == Some(libc::SIGXCPU)
    }

    pub fn brief(&self) -> String {
        let cut = |b: &[u8]| {
            let s = String::from_utf8_lossy(b);
            let s: String = s.chars().take(400).collect();
            s
        };
        format!(
            "exit {:?} signal {:?} stdout {:?} stderr {:?}",
            self.code,
            self.signal,
            cut(&self.stdout),
            cut(&self.stderr)
        )
    }
}

pub struct Run<'a> {
    pub ctx: &'a Ctx,
    pub cwd: PathBuf,
    pub home: PathBuf,
    pub args: Vec<OsString>,
    pub env: Vec<(String, OsString)>,
    pub stdout: Option<PathBuf>,
    pub close_stdout: bool,
    pub wall: u64,
    pub uid: Option<u32>,
    pub bin: Option<PathBuf>,
    /// A directory it finds at /home, where it then starts in this place.
    pub home_at: Option<(PathBuf, PathBuf)>,
    /// How much stack it may use.
    pub stack: Option<u64>,
    /// How much private memory it may use.
    pub data: Option<u64>,
    /// CPU seconds it may use.
    pub cpu: u64,
}

impl<'a> Run<'a> {
    pub fn new<S: AsRef<OsStr>>(ctx: &'a Ctx, cwd: &Path, home: &Path, args: &[S]) -> Run<'a> {
        Run {
            ctx,
            cwd: cwd.to_path_buf(),
            home: home.to_path_buf(),
            args: args.iter().map(|x| x.as_ref().to_os_string()).collect(),
            env: vec![],
            stdout: None,
            close_stdout: false,
            wall: WALL_LIMIT,
            uid: None,
            bin: None,
            home_at: None,
            stack: None,
            data: None,
            cpu: CPU_LIMIT,
        }
    }

    pub fn env(mut self, k: &str, v: impl AsRef<OsStr>) -> Self {
        self.env.push((k.to_string(), v.as_ref().to_os_string()));
        self
    }

    pub fn command(&self) -> std::io::Result<Command> {
        let mut c = Command::new(self.bin.as_ref().unwrap_or(&self.ctx.bin));
        c.current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.home)
            .env("XDG_CACHE_HOME", self.home.join("cache"))
            .env("RUST_BACKTRACE", "0")
            .env("NO_COLOR", "1")
            .env("LANG", "C.UTF-8")
            .stdin(Stdio::null())
            .stderr(Stdio::piped());
        let flags = surroundings(&mut c, &self.cwd, &self.ctx.shim);
        c.args(flags);
        c.args(&self.args);
        for (k, v) in &self.env {
            c.env(k, v);
        }
        if let Some(n) = self.stack {
            use std::os::unix::process::CommandExt;
            let set = move || {
                let st = libc::rlimit { rlim_cur: n, rlim_max: n };
                match unsafe { libc::setrlimit(libc::RLIMIT_STACK, &st) } {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                }
            };
            unsafe { c.pre_exec(set) };
        }
        if let Some(n) = self.data {
            use std::os::unix::process::CommandExt;
            let set = move || {
                let st = libc::rlimit { rlim_cur: n, rlim_max: n };
                match unsafe { libc::setrlimit(libc::RLIMIT_DATA, &st) } {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                }
            };
            unsafe { c.pre_exec(set) };
        }
        if let Some(u) = self.uid {
            use std::os::unix::process::CommandExt;
            c.uid(u).gid(u);
        }
        if let (Some((dir, start)), Some(uid)) = (&self.home_at, self.uid) {
            use std::os::unix::ffi::OsStrExt;
            use std::os::unix::process::CommandExt;
            let c_str = |p: &Path| std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
            let (dir, start) = (c_str(dir), c_str(start));
            let map = format!("{} {} 1", uid, uid);
            let enter = move || {
                let bad = || Err(std::io::Error::last_os_error());
                let put = |f: &[u8], s: &[u8]| unsafe {
                    let fd = libc::open(f.as_ptr() as *const libc::c_char, libc::O_WRONLY);
                    let n = libc::write(fd, s.as_ptr() as *const libc::c_void, s.len());
                    libc::close(fd);
                    n == s.len() as isize
                };
                unsafe {
                    libc::prctl(libc::PR_SET_DUMPABLE, 1, 0, 0, 0);
                    if libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNS) != 0 {
                        return bad();
                    }
                    if !put(b"/proc/self/setgroups\0", b"deny") || !put(b"/proc/self/uid_map\0", map.as_bytes()) || !put(b"/proc/self/gid_map\0", map.as_bytes()) {
                        return bad();
                    }
                    if libc::mount(dir.as_ptr(), b"/home\0".as_ptr() as *const libc::c_char, std::ptr::null(), libc::MS_BIND, std::ptr::null()) != 0 {
                        return bad();
                    }
                    if libc::chdir(start.as_ptr()) != 0 {
                        return bad();
                    }
                }
                Ok(())
            };
            unsafe { c.pre_exec(enter) };
        }
        match &self.stdout {
            Some(p) => c.stdout(std::fs::OpenOptions::new().write(true).create(true).open(p)?),
            None => c.stdout(Stdio::piped()),
        };
        Ok(c)
    }

    pub fn spawn(&self) -> std::io::Result<Child> {
        watchdog();
        let mut c = self.command()?;
        let mut ch = c.spawn()?;
        let lim = libc::rlimit {
            rlim_cur: self.cpu,
            rlim_max: self.cpu + 5,
        };
        let mem = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        unsafe {
            libc::prlimit(ch.id() as i32, libc::RLIMIT_CPU, &lim, std::ptr::null_mut());
            libc::prlimit(ch.id() as i32, libc::RLIMIT_AS, &mem, std::ptr::null_mut());
        }
        let flag = Arc::new(AtomicBool::new(false));
        WATCH.lock().unwrap().push((
            ch.id(),
            Instant::now() + Duration::from_secs(self.wall),
            flag.clone(),
        ));
        if self.close_stdout {
            drop(ch.stdout.take());
        }
        Ok(Child { ch, flag })
    }

    pub fn go(&self) -> Res<Out> {
        self.spawn()?.wait()
    }
}

pub struct Child {
    ch: std::process::Child,
    flag: Arc<AtomicBool>,
}

impl Child {
    pub fn id(&self) -> u32 {
        self.ch.id()
    }

    pub fn kill(&mut self) {
        let _ = self.ch.kill();
    }

    pub fn wait(mut self) -> Res<Out> {
        let mut stderr = Vec::new();
        let mut stdout = Vec::new();
        let so = self.ch.stdout.take();
        let se = self.ch.stderr.take();
        // Both pipes are drained: stderr is small unless logging, so read it in a thread.
        let h = se.map(|mut se| {
            std::thread::spawn(move || {
                let mut v = Vec::new();
                let _ = se.read_to_end(&mut v);
                v
            })
        });
        if let Some(mut so) = so {
            so.read_to_end(&mut stdout)?;
        }
        if let Some(h) = h {
            stderr = h.join().unwrap_or_default();
        }
        let st = self.ch.wait()?;
        let id = self.ch.id();
        WATCH.lock().unwrap().retain(|(p, _, f)| *p != id || !Arc::ptr_eq(f, &self.flag));
        if self.flag.load(Ordering::SeqCst) {
            return Err(Fail::Inconclusive("timeout: command took too long".into()));
        }
        Ok(Out {
            code: st.code(),
            signal: st.signal(),
            stdout,
            stderr,
        })
    }
}

/// The contents of a repository's database.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Db {
    pub data: BTreeMap<Vec<u8>, Vec<u8>>,
    pub state: BTreeMap<Vec<u8>, Vec<u8>>,
    pub reflog: Vec<(i64, String, Option<String>, Vec<u8>)>,
}

impl Db {
    /// Opens with recovery of whatever was left half done, as any user of the database would.
    pub fn load(file: &Path) -> rusqlite::Result<Db> {
        use rusqlite::{Connection, OpenFlags, NO_PARAMS};
        let c = Connection::open_with_flags(
            file,
            OpenFlags::SQLITE_OPEN_READ_WRITE | OpenFlags::SQLITE_OPEN_NO_MUTEX,
        )?;
        let mut db = Db::default();
        let has = |t: &str| -> rusqlite::Result<bool> {
            let n: u32 = c.query_row(
                "SELECT COUNT(*) FROM sqlite_master WHERE type='table' AND name=?",
                &[t],
                |r| r.get(0),
            )?;
            Ok(n > 0)
        };
        if has("data")? {
            let mut s = c.prepare("SELECT key, value FROM data")?;
            let mut rows = s.query(NO_PARAMS)?;
            while let Some(r) = rows.next()? {
                db.data.insert(r.get(0)?, r.get(1)?);
            }
        }
        if has("state")? {
            let mut s = c.prepare("SELECT key, value FROM state")?;
            let mut rows = s.query(NO_PARAMS)?;
            while let Some(r) = rows.next()? {
                db.state.insert(r.get(0)?, r.get(1)?);
            }
        }
        if has("reflog")? {
            let mut s = c.prepare("SELECT id, refname, remote, key FROM reflog ORDER BY id")?;
            let mut rows = s.query(NO_PARAMS)?;
            while let Some(r) = rows.next()? {
                db.reflog.push((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?));
            }
        }
        Ok(db)
    }

    pub fn head(&self) -> Option<String> {
        self.state
            .get(&b"HEAD"[..])
            .map(|x| String::from_utf8_lossy(x).to_string())
    }

    /// Newest value of a local ref.
    pub fn tip(&self, name: &str) -> Option<&Vec<u8>> {
        self.reflog
            .iter()
            .rev()
            .find(|r| r.1 == name && r.2.is_none())
            .map(|r| &r.3)
    }

    pub fn refs_without_ids(&self) -> Vec<(String, Option<String>, Vec<u8>)> {
        self.reflog
            .iter()
            .map(|r| (r.1.clone(), r.2.clone(), r.3.clone()))
            .collect()
    }

    pub fn diff(&self, o: &Db) -> Option<String> {
        for (k, v) in &self.data {
            match o.data.get(k) {
                None => return Some(format!("object {} removed", crate::model::user_key_db(k))),
                Some(w) if w != v => {
                    return Some(format!("object {} changed", crate::model::user_key_db(k)))
                }
                _ => {}
            }
        }
        for k in o.data.keys() {
            if !self.data.contains_key(k) {
                return Some(format!("object {} added", crate::model::user_key_db(k)));
            }
        }
        if self.state != o.state {
            return Some(format!("state {:?} -> {:?}", self.head(), o.head()));
        }
        if self.reflog != o.reflog {
            return Some(format!(
                "reflog of {} entries -> {} entries",
                self.reflog.len(),
                o.reflog.len()
            ));
        }
        None
    }
}

pub struct Repo<'a> {
    pub ctx: &'a Ctx,
    /// Scratch directory holding everything of this repo; removed when dropped.
    pub top: PathBuf,
    pub root: PathBuf,
    pub home: PathBuf,
}

impl<'a> Drop for Repo<'a> {
    fn drop(&mut self) {
        if std::env::var_os("VMON_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.top);
        }
    }
}

impl<'a> Repo<'a> {
    /// An empty directory with its own HOME; not initialised.
    pub fn bare(ctx: &'a Ctx) -> Res<Repo<'a>> {
        let top = ctx.dir("r")?;
        let root = top.join("w");
        let home = top.join("home");
        std::fs::create_dir(&root)?;
        std::fs::create_dir(&home)?;
        Ok(Repo {
            ctx,
            top,
            root,
            home,
        })
    }

    pub fn new(ctx: &'a Ctx) -> Res<Repo<'a>> {
        let r = Repo::bare(ctx)?;
        r.must(&["init"])?;
        Ok(r)
    }

    pub fn run<S: AsRef<OsStr>>(&self, args: &[S]) -> Res<Out> {
        self.run_in(&self.root, args)
    }

    pub fn run_in<S: AsRef<OsStr>>(&self, cwd: &Path, args: &[S]) -> Res<Out> {
        self.prep(cwd, args).go()
    }

    pub fn prep<S: AsRef<OsStr>>(&self, cwd: &Path, args: &[S]) -> Run<'a> {
        Run::new(self.ctx, cwd, &self.home, args)
    }

    /// A command that has to succeed.
    pub fn must<S: AsRef<OsStr>>(&self, args: &[S]) -> Res<Out> {
        self.must_in(&self.root, args)
    }

    pub fn must_in<S: AsRef<OsStr>>(&self, cwd: &Path, args: &[S]) -> Res<Out> {
        let o = self.run_in(cwd, args)?;
        if !o.ok() {
            let a: Vec<String> = args
                .iter()
                .map(|x| x.as_ref().to_string_lossy().chars().take(200).collect())
                .collect();
            return crate::report::violation(
                "ordinary-command-fails",
                format!("snapcd {:?} fails: {}", a, o.brief()),
                serde_json::Value::Null,
            );
        }
        Ok(o)
    }

    pub fn dbfile(&self) -> PathBuf {
        self.root.join(".snapcd/snapcd.db")
    }

    pub fn db(&self) -> Res<Db> {
        match Db::load(&self.dbfile()) {
            Ok(d) => Ok(d),
            Err(e) => crate::report::violation(
                "database-unreadable",
                format!("the database cannot be read after a command: {}", e),
                serde_json::Value::Null,
            ),
        }
    }

    /// `insert`, giving the printed key.
    pub fn insert(&self, path: &Path) -> Res<String> {
        let o = self.must(&[OsStr::new("insert"), path.as_os_str()])?;
        inserted_key(&o)
    }

    pub fn commit(&self, msg: &str, refname: Option<&str>) -> Res<Out> {
        self.must(&commit_args(msg, refname))
    }
}

/// The command line of a commit with this message, whatever is in it.
pub fn commit_args(msg: &str, refname: Option<&str>) -> Vec<String> {
    let mut a = vec!["commit".to_string()];
    if msg.starts_with('-') {
        a.push(format!("--message={}", msg));
    } else {
        a.push("-m".into());
        a.push(msg.to_string());
    }
    if let Some(r) = refname {
        a.push("--".into());
        a.push(r.to_string());
    }
    a
}

pub fn inserted_key(o: &Out) -> Res<String> {
    let t = o.text();
    match t.trim_end().strip_prefix("inserted hash ") {
        Some(k) => Ok(k.to_string()),
        None => crate::report::violation(
            "insert-prints-no-key",
            format!("insert printed {:?}", t),
            serde_json::Value::Null,
        ),
    }
}

pub fn path_str(p: &Path) -> &str {
    p.to_str().expect("scratch paths are UTF-8")
}
