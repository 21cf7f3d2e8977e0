//! C23: malformed objects are rejected, not half-read.

use crate::cbor::{enc, V};
use crate::checks::c05::add_rows;
use crate::cli::Repo;
use crate::ensure;
use crate::gen;
use crate::model::{self, Key, Obj};
use crate::report::{Ctx, Meta, Res};
use crate::rng::Rng;
use crate::util::{fnv, hex, read_tree, sync_tree, tree_diff, Node};
use serde_json::json;
use std::collections::BTreeMap;

pub const META: Meta = Meta {
    level: "exploration",
    rule: "A tree, a chunk tree or a history is built by the harness's own encoder with one object in it spoiled: undecodable, of another type, fields missing or of the wrong kind, keys of the \
wrong length, names and children that do not correspond, duplicate or impossible names, too few or too many children, children of a wrong type, children that are missing, an object that contains \
itself. Everything is filed under its true hash (except what is missing or contains itself). Every command that needs the spoiled object has to fail within a CPU limit. The same construction with nothing \
spoiled has to work, and what is read has to be exact. Non-trivial: a spoiled object, distinct by its bytes and its place.",
    assumptions: &[
        "an object is needed by fetch and compare -s if it is in the tree, by walk-tree, compare, log and show if it is a directory or file item in the tree or a commit",
        "extra fields, other orders of fields and declared sizes are not judged here",
        "a crash (signal, panic) counts as failing, running out of CPU time does not",
    ],
    needed: &[
        "spoiled", "intact", "spoiled_chunk", "spoiled_chunk_tree", "spoiled_file", "spoiled_directory", "spoiled_commit", "failed", "fetches", "walks", "logs", "shows", "compares", "statuses",
        "checkout_heads", "ref_updates", "commits", "commit_trees", "stats", "bytes_garbage", "bytes_truncated", "bytes_trailing", "field_missing", "field_kind", "bad_key", "type_unknown",
        "type_other", "missing", "contains_itself", "child_type", "name_missing", "name_extra", "name_twice", "name_impossible", "no_children", "child_extra", "item_type", "item_data",
        "chunk_with_keys", "chunk_tree_with_data", "file_with_names", "file_in_chunk_tree", "commit_without_tree", "commit_tree_type", "commit_parent_type", "commit_data",
    ],
    needed_inproc: &[],
};

pub fn run(ctx: &Ctx) {
    ctx.cases("trees", ctx.n(2100, 12000), |rng, i| trees(ctx, rng, i));
    ctx.cases("commits", ctx.n(1200, 6000), |rng, i| commits(ctx, rng, i));
}

type Rows = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Role {
    Chunk,
    ChunkTree,
    File,
    Dir,
    Commit,
}

impl Role {
    fn word(self) -> &'static str {
        match self {
            Role::Chunk => "chunk",
            Role::ChunkTree => "chunk_tree",
            Role::File => "file",
            Role::Dir => "directory",
            Role::Commit => "commit",
        }
    }
}

/// What an object was turned into.
struct Bad {
    what: &'static str,
    detail: String,
    /// The bytes that are stored, or nothing.
    bytes: Option<Vec<u8>>,
    /// The key it is filed under, if not the hash.
    key: Option<Key>,
    /// It is not even an object of the right type.
    wrong_type: bool,
    /// Another command may have use for it as it is.
    other_use: bool,
}

struct Build<'a> {
    rows: Rows,
    rng: &'a mut Rng,
    /// Counts objects in the order they are built; the one with this number is spoiled.
    seen: usize,
    target: Option<usize>,
    roles: Vec<Role>,
    bad: Option<(Role, Bad)>,
    /// Keys of objects of each kind, to put where they do not belong.
    strangers: Vec<(&'static str, Key)>,
}

impl<'a> Build<'a> {
    fn put_bytes(&mut self, b: Vec<u8>) -> Key {
        let k = model::hash(&b);
        self.rows.insert(model::dbkey(&k), b);
        k
    }

    fn put(&mut self, o: &Obj) -> Key {
        self.put_bytes(model::encode_obj(o))
    }

    fn add(&mut self, role: Role, o: Obj) -> Key {
        let n = self.seen;
        self.seen += 1;
        self.roles.push(role);
        if self.target != Some(n) {
            return self.put(&o);
        }
        let b = self.spoil(role, &o);
        let k = match &b.bytes {
            Some(bytes) => {
                let k = b.key.unwrap_or_else(|| model::hash(bytes));
                self.rows.insert(model::dbkey(&k), bytes.clone());
                k
            }
            None => b.key.unwrap_or_else(|| model::hash(&model::encode_obj(&o))),
        };
        self.bad = Some((role, b));
        k
    }

    fn content(&mut self, c: &[u8], depth: usize) -> Key {
        if depth == 0 || self.rng.chance(1, 3) {
            return self.add(
                Role::Chunk,
                Obj {
                    typ: "FileBlob".into(),
                    data: c.to_vec(),
                    keys: vec![],
                },
            );
        }
        let mut keys = vec![];
        let mut at = 0;
        let n = self.rng.range(1, 4);
        for i in 0..n {
            let end = if i + 1 == n { c.len() } else { self.rng.range(at, c.len()) };
            keys.push(self.content(&c[at..end], depth - 1));
            at = end;
        }
        self.add(
            Role::ChunkTree,
            Obj {
                typ: "FileBlobTree".into(),
                data: vec![],
                keys,
            },
        )
    }

    fn node(&mut self, n: &Node) -> Key {
        match n {
            Node::File(c) => {
                let k = self.content(c, 2);
                self.add(
                    Role::File,
                    Obj {
                        typ: "FSItemFile".into(),
                        data: model::item_data(false, c.len() as u64, &[]),
                        keys: vec![k],
                    },
                )
            }
            Node::Dir(d) => {
                let mut keys = vec![];
                let mut names = vec![];
                for (name, c) in d {
                    keys.push(self.node(c));
                    names.push(name.clone());
                }
                self.add(
                    Role::Dir,
                    Obj {
                        typ: "FSItemDir".into(),
                        data: model::item_data(true, keys.len() as u64, &names),
                        keys,
                    },
                )
            }
        }
    }

    fn commit(&mut self, tree: &Key, parents: &[Key], message: &str) -> Key {
        let mut keys = vec![*tree];
        keys.extend(parents);
        self.add(
            Role::Commit,
            Obj {
                typ: "Commit".into(),
                data: model::commit_data(message),
                keys,
            },
        )
    }

    fn stranger(&mut self, not: &[&str]) -> Key {
        let c: Vec<Key> = self.strangers.iter().filter(|s| !not.contains(&s.0)).map(|s| s.1).collect();
        *self.rng.pick(&c)
    }

    fn spoil(&mut self, role: Role, o: &Obj) -> Bad {
        let n = self.rng.below(100);
        if n < 45 || role == Role::Chunk && n < 85 {
            return self.spoil_any(role, o);
        }
        let mut p = o.clone();
        let whole = |what: &'static str, detail: String, p: &Obj| Bad {
            what,
            detail,
            bytes: Some(model::encode_obj(p)),
            key: None,
            wrong_type: false,
            other_use: false,
        };
        match role {
            Role::Chunk => {
                let k = if self.rng.chance(1, 2) { self.stranger(&[]) } else { key(self.rng) };
                p.keys.push(k);
                whole("chunk_with_keys", model::user_key(&k), &p)
            }
            Role::ChunkTree => match self.rng.below(4) {
                0 => {
                    let n = self.rng.range(1, 20);
                    p.data = self.rng.bytes(n);
                    whole("chunk_tree_with_data", hex(&p.data), &p)
                }
                1 => {
                    // A complete file where a piece of one belongs.
                    let k = self.strangers.iter().find(|s| s.0 == "FSItemFile").unwrap().1;
                    let i = self.rng.below(p.keys.len() + 1);
                    p.keys.insert(i, k);
                    whole("file_in_chunk_tree", format!("at {}", i), &p)
                }
                2 => {
                    let k = self.stranger(&["FileBlob", "FileBlobTree", "FSItemFile"]);
                    let i = self.rng.below(p.keys.len() + 1);
                    p.keys.insert(i, k);
                    whole("child_type", format!("at {}", i), &p)
                }
                _ => {
                    let k = key(self.rng);
                    let i = self.rng.below(p.keys.len() + 1);
                    p.keys.insert(i, k);
                    whole("missing", format!("child {}", i), &p)
                }
            },
            Role::File => match self.rng.below(6) {
                0 => {
                    p.keys.clear();
                    whole("no_children", String::new(), &p)
                }
                1 => {
                    let k = if self.rng.chance(1, 2) { p.keys[0] } else { self.stranger(&["FSItemFile", "FSItemDir", "Commit"]) };
                    p.keys.push(k);
                    whole("child_extra", String::new(), &p)
                }
                2 => {
                    let k = self.stranger(&["FileBlob", "FileBlobTree"]);
                    p.keys[0] = k;
                    whole("child_type", String::new(), &p)
                }
                3 => {
                    let name = self.rng.pick(&["a", "x.txt", ".."]).to_string();
                    p.data = model::item_data(false, size_of(o), &[name.clone()]);
                    whole("file_with_names", name, &p)
                }
                4 => {
                    p.data = model::item_data(true, 1, &["a".to_string()]);
                    whole("item_type", "a file that says it is a directory".into(), &p)
                }
                _ => self.item_data(p),
            },
            Role::Dir => {
                let it = model::decode_item(o).expect("item");
                let mut names = it.names.clone();
                match self.rng.below(8) {
                    0 if !names.is_empty() => {
                        let i = self.rng.below(names.len());
                        names.remove(i);
                        let size = if self.rng.chance(1, 2) { it.size } else { it.size - 1 };
                        p.data = model::item_data(true, size, &names);
                        whole("name_missing", format!("name {} of {}", i, it.names.len()), &p)
                    }
                    1 => {
                        let i = self.rng.below(names.len() + 1);
                        names.insert(i, "zz new".into());
                        let size = if self.rng.chance(1, 2) { it.size } else { it.size + 1 };
                        p.data = model::item_data(true, size, &names);
                        whole("name_extra", format!("at {}", i), &p)
                    }
                    2 if !p.keys.is_empty() => {
                        let i = self.rng.below(p.keys.len());
                        p.keys.remove(i);
                        whole("name_extra", format!("key {} removed", i), &p)
                    }
                    3 => {
                        let k = self.stranger(&["FileBlob", "FileBlobTree", "Commit"]);
                        let i = self.rng.below(p.keys.len() + 1);
                        p.keys.insert(i, k);
                        whole("name_missing", format!("key {} added", i), &p)
                    }
                    4 => {
                        // Two children of one name.
                        let k = if names.is_empty() || self.rng.chance(1, 2) {
                            self.stranger(&["FileBlob", "FileBlobTree", "Commit"])
                        } else {
                            p.keys[0]
                        };
                        let name = names.first().cloned().unwrap_or_else(|| "twin".into());
                        if names.is_empty() {
                            names.push(name.clone());
                            p.keys.push(k);
                        }
                        let i = self.rng.below(names.len() + 1);
                        names.insert(i, name.clone());
                        p.keys.insert(i, k);
                        p.data = model::item_data(true, names.len() as u64, &names);
                        whole("name_twice", name, &p)
                    }
                    5 => {
                        let k = self.stranger(&["FileBlob", "FileBlobTree", "Commit"]);
                        let name = self.rng.pick(&["", ".", "..", "/", "a/b", "/abs", "a/", "./a", "a/.", "../up", "a//"]).to_string();
                        let i = self.rng.below(names.len() + 1);
                        names.insert(i, name.clone());
                        p.keys.insert(i, k);
                        p.data = model::item_data(true, names.len() as u64, &names);
                        whole("name_impossible", name, &p)
                    }
                    6 => {
                        let k = self.stranger(&["FSItemFile", "FSItemDir"]);
                        let i = self.rng.below(names.len() + 1);
                        names.insert(i, "zz other".into());
                        p.keys.insert(i, k);
                        p.data = model::item_data(true, names.len() as u64, &names);
                        whole("child_type", format!("at {}", i), &p)
                    }
                    _ => {
                        if self.rng.chance(1, 4) {
                            p.data = model::item_data(false, 0, &[]);
                            whole("item_type", "a directory that says it is a file".into(), &p)
                        } else if self.rng.chance(1, 3) {
                            let k = key(self.rng);
                            let i = self.rng.below(names.len() + 1);
                            names.insert(i, "zz gone".into());
                            p.keys.insert(i, k);
                            p.data = model::item_data(true, names.len() as u64, &names);
                            whole("missing", format!("child {}", i), &p)
                        } else {
                            self.item_data(p)
                        }
                    }
                }
            }
            Role::Commit => match self.rng.below(4) {
                0 => {
                    p.keys.clear();
                    whole("commit_without_tree", String::new(), &p)
                }
                1 => {
                    p.keys[0] = if self.rng.chance(1, 4) { key(self.rng) } else { self.stranger(&["FSItemDir", "FSItemFile"]) };
                    whole("commit_tree_type", String::new(), &p)
                }
                2 => {
                    let k = if self.rng.chance(1, 4) { key(self.rng) } else { self.stranger(&["Commit"]) };
                    p.keys.truncate(1);
                    p.keys.push(k);
                    whole("commit_parent_type", String::new(), &p)
                }
                _ => {
                    let (d, detail) = match self.rng.below(6) {
                        0 => (V::M(vec![(V::t("extra"), V::M(vec![]))]), "no message"),
                        1 => (V::M(vec![(V::t("message"), V::U(3)), (V::t("extra"), V::M(vec![]))]), "a number for message"),
                        2 => (V::M(vec![(V::t("message"), V::Null), (V::t("extra"), V::M(vec![]))]), "null for message"),
                        3 => (V::M(vec![(V::t("message"), V::A(vec![V::t("a")])), (V::t("extra"), V::M(vec![]))]), "a list for message"),
                        4 => (V::U(7), "a number"),
                        _ => (V::t("message"), "a text"),
                    };
                    p.data = enc(&d);
                    if self.rng.chance(1, 4) {
                        p.data = model::commit_data("cut");
                        p.data.pop();
                    }
                    whole("commit_data", detail.into(), &p)
                }
            },
        }
    }

    /// The description of a file or directory is not what it should be.
    fn item_data(&mut self, mut p: Obj) -> Bad {
        let v = crate::cbor::dec(&p.data).expect("item");
        let f = match v {
            V::M(f) => f,
            _ => vec![],
        };
        let detail;
        p.data = match self.rng.below(8) {
            0 => {
                detail = "empty".to_string();
                vec![]
            }
            1 => {
                detail = "one byte less".to_string();
                let mut d = p.data.clone();
                d.pop();
                d
            }
            2 => {
                detail = "one byte more".to_string();
                let mut d = p.data.clone();
                d.push(0);
                d
            }
            3 => {
                let n = self.rng.range(1, 30);
                detail = "garbage".to_string();
                let mut b = self.rng.bytes(n);
                b[0] = 0xff;
                b
            }
            4 => {
                let gone = *self.rng.pick(&["itemtype", "children_names"]);
                detail = format!("without {}", gone);
                enc(&V::M(f.into_iter().filter(|x| x.0 != V::t(gone)).collect()))
            }
            5 => {
                detail = "unknown item type".to_string();
                let t = self.rng.pick(&["Link", "dir", "", "FSItemDir"]).to_string();
                enc(&V::M(f.into_iter().map(|x| if x.0 == V::t("itemtype") { (x.0, V::T(t.clone())) } else { x }).collect()))
            }
            6 => {
                detail = "names of a wrong kind".to_string();
                let n = f.iter().find(|x| x.0 == V::t("children_names")).map(|x| x.1.len()).unwrap_or(0);
                let w = if n == 0 { V::t("x") } else { V::A(vec![V::U(1); n]) };
                enc(&V::M(f.into_iter().map(|x| if x.0 == V::t("children_names") { (x.0, w.clone()) } else { x }).collect()))
            }
            _ => {
                detail = "size of a wrong kind".to_string();
                let w = self.rng.pick(&[V::t("12"), V::N(3), V::Null, V::A(vec![]), V::B(vec![1])]).clone();
                enc(&V::M(f.into_iter().map(|x| if x.0 == V::t("size") { (x.0, w.clone()) } else { x }).collect()))
            }
        };
        Bad {
            what: "item_data",
            detail,
            bytes: Some(model::encode_obj(&p)),
            key: None,
            wrong_type: false,
            other_use: false,
        }
    }

    /// Ways that do not depend on what the object is for.
    fn spoil_any(&mut self, role: Role, o: &Obj) -> Bad {
        let good = model::encode_obj(o);
        let mut fields = match model::obj_value(o) {
            V::M(f) => f,
            _ => vec![],
        };
        let mut detail = String::new();
        let mut wrong_type = true;
        let mut other_use = false;
        let rng = &mut *self.rng;
        let (what, bytes) = match rng.below(13) {
            0 => {
                let n = rng.below(60);
                let mut b = rng.bytes(n);
                if let Some(x) = b.first_mut() {
                    *x = *rng.pick(&[0x00, 0x40, 0x60, 0x80, 0xf6, 0xff, 0x1f, 0xbf, 0xfb]);
                }
                ("bytes_garbage", b)
            }
            1 => {
                let n = match rng.below(3) {
                    0 => good.len() - 1,
                    1 => rng.below(good.len()),
                    _ => good.len() / 2,
                };
                detail = format!("{} of {}", n, good.len());
                ("bytes_truncated", good[..n].to_vec())
            }
            2 => {
                let mut b = good.clone();
                let n = rng.range(1, 3);
                if rng.chance(1, 3) {
                    b.extend(good.clone());
                } else {
                    b.extend(rng.bytes(n));
                }
                ("bytes_trailing", b)
            }
            3 => {
                let f = *rng.pick(&["data", "keys", "objtype"]);
                detail = f.into();
                fields.retain(|x| x.0 != V::t(f));
                ("field_missing", enc(&V::M(fields)))
            }
            4 => {
                let f = *rng.pick(&["data", "keys", "objtype"]);
                let v = rng.pick(&[V::U(5), V::Null, V::M(vec![]), V::Bool(true), V::F(1.5)]).clone();
                detail = format!("{}: {:?}", f, v);
                // What enumerations are written as can also be a map.
                for x in fields.iter_mut().filter(|x| x.0 == V::t(f)) {
                    x.1 = if f == "objtype" { V::Null } else { v.clone() };
                }
                ("field_kind", enc(&V::M(fields)))
            }
            5 | 6 => {
                let bad = match rng.below(6) {
                    0 => V::M(vec![(V::t("Blake3B"), V::A(vec![V::U(1); 31]))]),
                    1 => V::M(vec![(V::t("Blake3B"), V::A(vec![V::U(1); 33]))]),
                    2 => V::M(vec![(V::t("Blake3B"), V::A(vec![V::U(256); 32]))]),
                    3 => V::M(vec![(V::t("Sha256"), V::A(vec![V::U(1); 32]))]),
                    4 => V::M(vec![]),
                    _ => V::B(vec![1; 32]),
                };
                detail = format!("{:?}", bad).chars().take(40).collect();
                for x in fields.iter_mut().filter(|x| x.0 == V::t("keys")) {
                    if let V::A(a) = &mut x.1 {
                        if a.is_empty() || rng.chance(1, 2) {
                            a.push(bad.clone());
                        } else {
                            let i = rng.below(a.len());
                            a[i] = bad.clone();
                        }
                    }
                }
                ("bad_key", enc(&V::M(fields)))
            }
            7 => {
                let t = rng.pick(&["Link", "", "fileblob", "commit", "FSItem", "Unknown", "FSItemdir"]).to_string();
                detail = t.clone();
                let p = Obj { typ: t, ..o.clone() };
                ("type_unknown", model::encode_obj(&p))
            }
            8 | 9 => {
                let mut c = vec!["FileBlob", "FileBlobTree", "FSItemFile", "FSItemDir", "Commit"];
                // One kind of content in place of the other is another fault.
                c.retain(|x| *x != o.typ && !((role == Role::Chunk || role == Role::ChunkTree) && x.starts_with("FileBlob")));
                let t = rng.pick(&c).to_string();
                detail = t.clone();
                other_use = true;
                let p = Obj { typ: t, ..o.clone() };
                ("type_other", model::encode_obj(&p))
            }
            10 => {
                wrong_type = false;
                return Bad { what: "contains_itself", ..self.itself(role, o, wrong_type) };
            }
            _ => {
                return Bad {
                    what: "missing",
                    detail,
                    bytes: None,
                    key: Some(key(rng)),
                    wrong_type,
                    other_use: false,
                }
            }
        };
        Bad {
            what,
            detail,
            bytes: Some(bytes),
            key: None,
            wrong_type,
            other_use,
        }
    }

    fn itself(&mut self, role: Role, o: &Obj, wrong_type: bool) -> Bad {
        let k = key(self.rng);
        let mut p = o.clone();
        match role {
            Role::Chunk => {
                p.typ = "FileBlobTree".into();
                p.data.clear();
                p.keys = vec![k];
            }
            Role::ChunkTree => p.keys.push(k),
            Role::File => p.keys = vec![k],
            Role::Dir => {
                let mut names = model::decode_item(o).expect("item").names;
                let i = self.rng.below(names.len() + 1);
                names.insert(i, "d".repeat(i + 1) + "-self");
                p.keys.insert(i, k);
                p.data = model::item_data(true, names.len() as u64, &names);
            }
            Role::Commit => {
                p.keys.truncate(1);
                p.keys.push(k);
            }
        }
        Bad {
            what: "contains_itself",
            detail: String::new(),
            bytes: Some(model::encode_obj(&p)),
            key: Some(k),
            wrong_type,
            other_use: false,
        }
    }
}

fn key(rng: &mut Rng) -> Key {
    let mut k = [0; 32];
    k.copy_from_slice(&rng.bytes(32));
    k
}

fn size_of(o: &Obj) -> u64 {
    model::decode_item(o).map(|i| i.size).unwrap_or(0)
}

fn build<'a>(rng: &'a mut Rng, target: Option<usize>) -> Build<'a> {
    let mut b = Build {
        rows: Rows::new(),
        rng,
        seen: 0,
        target: None,
        roles: vec![],
        bad: None,
        strangers: vec![],
    };
    let chunk = b.put(&Obj { typ: "FileBlob".into(), data: b"foreign\n".to_vec(), keys: vec![] });
    let ct = b.put(&Obj { typ: "FileBlobTree".into(), data: vec![], keys: vec![chunk, chunk] });
    let file = b.put(&Obj { typ: "FSItemFile".into(), data: model::item_data(false, 8, &[]), keys: vec![chunk] });
    let dir = b.put(&Obj { typ: "FSItemDir".into(), data: model::item_data(true, 1, &["in".to_string()]), keys: vec![file] });
    let commit = b.put(&Obj { typ: "Commit".into(), data: model::commit_data("foreign"), keys: vec![dir] });
    b.strangers = vec![("FileBlob", chunk), ("FileBlobTree", ct), ("FSItemFile", file), ("FSItemDir", dir), ("Commit", commit)];
    b.target = target;
    b
}

fn push_ref(r: &Repo<'_>, name: &str, k: &Key) -> Res {
    let c = rusqlite::Connection::open(r.dbfile())?;
    c.execute("INSERT INTO reflog (refname, remote, key) VALUES (?, NULL, ?)", rusqlite::params![name, model::dbkey(k)])?;
    Ok(())
}

fn a_tree(rng: &mut Rng) -> Node {
    let o = gen::TreeOpts { depth: 3, width: 3, text_only: true, ..gen::TreeOpts::small() };
    let mut t = gen::tree(rng, &o);
    t.dir_mut().remove(".snapcd");
    // Something to spoil at several depths.
    let n = rng.range(1, 6);
    t.set("some", Some(Node::File(gen::text(rng, n))));
    let mut d = Node::empty();
    let n = rng.range(1, 6);
    d.set("deep", Some(Node::File(gen::text(rng, n))));
    let mut e = Node::empty();
    e.set("sub", Some(d));
    t.set("way", Some(e));
    t
}

const COUNTS: &[(&str, &str)] = &[
    ("fetch", "fetches"),
    ("log", "logs"),
    ("show", "shows"),
    ("status", "statuses"),
    ("checkout-head", "checkout_heads"),
    ("commit", "commits"),
    ("ref", "ref_updates"),
];

fn kind(a: &[String]) -> &'static str {
    if a[0] == "compare" {
        return if a.iter().any(|x| x == "-s") { "stats" } else { "compares" };
    }
    if a[0] == "debug" {
        return match a[1].as_str() {
            "walk-tree" => "walks",
            "commit-tree" => "commit_trees",
            _ => "ref_updates",
        };
    }
    COUNTS.iter().find(|c| c.0 == a[0]).map(|c| c.1).unwrap_or("other")
}

fn trees(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let t = a_tree(rng);
    // How many objects there are, and of what kind, with the choices repeated.
    let salt = rng.next();
    let intact = rng.chance(1, 8);
    let (roles, good_rows, good_key) = {
        let mut r0 = Rng::new(salt);
        let mut b = build(&mut r0, None);
        let k = b.node(&t);
        (b.roles.clone(), b.rows.clone(), k)
    };
    // Equal chance for every kind.
    let mut kinds: Vec<Role> = vec![Role::Chunk, Role::ChunkTree, Role::File, Role::Dir];
    kinds.retain(|x| roles.contains(x));
    let want = *rng.pick(&kinds);
    let c: Vec<usize> = (0..roles.len()).filter(|i| roles[*i] == want).collect();
    let target = if want == Role::Dir && rng.chance(1, 4) { roles.len() - 1 } else { *rng.pick(&c) };
    let mut r1 = Rng::new(salt);
    // The same choices up to the target; after it they may differ, which only changes the shape of what is intact.
    let mut b = build(&mut r1, if intact { None } else { Some(target) });
    let key = b.node(&t);
    let c_one = |b: &mut Build<'_>, tree: &Key, parents: &[Key], m: &str| b.commit(tree, parents, m);
    b.target = None;
    let c0 = c_one(&mut b, &key, &[], "c0");
    let g0 = c_one(&mut b, &good_key, &[], "g0");
    let c1 = c_one(&mut b, &good_key, &[c0], "c1");
    let c2 = c_one(&mut b, &key, &[g0], "c2");
    let mut rows = good_rows;
    rows.extend(b.rows.clone());
    let bad = b.bad.take();
    if let Some((_, x)) = &bad {
        // What is missing must not have been put there by the intact twin.
        if x.bytes.is_none() {
            rows.remove(&model::dbkey(&x.key.unwrap_or([0; 32])));
        }
    }

    let r = Repo::new(ctx)?;
    add_rows(&r, &rows)?;
    push_ref(&r, "master", &c0)?;
    // Either nothing is there, or what the tree should have been.
    let there = rng.chance(1, 2) && bad.as_ref().map(|x| x.1.key.is_none()).unwrap_or(true);
    if there {
        sync_tree(&r.root, &t, &[".snapcd"])?;
    }
    let uk = model::user_key;
    let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
    let dest = r.top.join("dest");
    let mut cmds: Vec<(Vec<String>, bool)> = vec![];
    let item = bad.as_ref().map(|x| x.0 == Role::File || x.0 == Role::Dir).unwrap_or(false);
    let root = bad.is_some() && target + 1 == roles.len();
    // A child that is missing or not an item is met by whoever walks the tree.
    // A file's content is not needed to walk it.
    let of_file = bad.as_ref().map(|x| x.0 == Role::File && matches!(x.1.what, "child_type" | "contains_itself")).unwrap_or(false);
    let walk = item && !of_file;
    cmds.push((s(&["fetch", &uk(&key), "DEST"]), true));
    cmds.push((s(&["compare", "-s", &uk(&key)]), !there || item || bad.is_some()));
    cmds.push((s(&["debug", "walk-tree", &uk(&key)]), walk));
    cmds.push((s(&["compare", &uk(&key)]), walk && (there || root)));
    cmds.push((s(&["compare"]), walk && (there || root)));
    cmds.push((s(&["compare", "-s"]), true));
    cmds.push((s(&["status"]), walk && (there || root)));
    cmds.push((s(&["checkout-head", "elsewhere"]), walk && (there || root)));
    for c in &[c0, c1, c2] {
        cmds.push((s(&["log", &uk(c)]), true));
        cmds.push((s(&["show", &uk(c)]), true));
    }
    if root {
        cmds.push((s(&["debug", "commit-tree", &uk(&key)]), bad.as_ref().map(|x| x.1.wrong_type || !matches!(x.1.what, "missing" | "child_type" | "contains_itself")).unwrap_or(false)));
    }
    rng.shuffle(&mut cmds);
    let n = cmds.len().min(7);
    let before = r.db()?;
    let mut failed = 0;
    match &bad {
        Some((role, x)) => {
            ctx.count("spoiled", 1);
            ctx.count(&format!("spoiled_{}", role.word()), 1);
            ctx.count(x.what, 1);
        }
        None => ctx.count("intact", 1),
    }
    for (a, must_fail) in cmds.iter().take(n) {
        // With everything intact, HEAD would be switched and the rest answered for another ref.
        if (bad.is_some() && !must_fail) || (bad.is_none() && kind(a) == "checkout_heads") {
            continue;
        }
        let _ = std::fs::remove_dir_all(&dest);
        let _ = std::fs::remove_file(&dest);
        let a2: Vec<String> = a.iter().map(|x| if x == "DEST" { dest.to_str().unwrap().to_string() } else { x.clone() }).collect();
        let o = r.run(&a2)?;
        let k = kind(a);
        ctx.count(k, 1);
        match &bad {
            Some((role, x)) => {
                let says = || format!("a {} was spoiled ({}: {}), {:?}", role.word(), x.what, x.detail, a);
                ensure!(!o.spun(), "does-not-terminate", "{} does not end", says());
                ensure!(!o.ok(), "malformed-accepted", "{} succeeds: {}", says(), o.brief());
                failed += 1;
                if k == "checkout_heads" {
                    ensure!(r.db()?.head() == before.head(), "malformed-accepted", "{} moves HEAD", says());
                }
            }
            None => {
                ensure!(o.ok(), "well-formed-rejected", "{:?} on well-formed objects: {}", a, o.brief());
                if k == "fetches" {
                    match read_tree(&dest)? {
                        Ok(g) => {
                            if let Some(d) = tree_diff(&t, &g, "") {
                                crate::viol!("half-read", "{:?}: {}", a, d);
                            }
                        }
                        Err(e) => crate::viol!("half-read", "{:?}: {}", a, e),
                    }
                }
                if k == "walks" {
                    let lines = o.text().lines().filter(|l| !l.is_empty()).count();
                    ensure!(lines == t.paths().len(), "half-read", "{:?} prints {} lines for {} paths", a, lines, t.paths().len());
                }
            }
        }
    }
    ctx.count("failed", failed);
    let fp = bad.as_ref().map(|(role, x)| fnv(format!("{:?} {} {} {:?}", role, x.what, x.detail, x.bytes).as_bytes()) ^ fnv(&key));
    ctx.eval(fp);
    if case < 4 {
        ctx.sample_in(
            "trees",
            json!({ "case": case, "tree": t.describe(), "spoiled": bad.as_ref().map(|(role, x)| format!("{}: {} {}", role.word(), x.what, x.detail)), "commands": cmds.iter().take(n).map(|x| x.0.join(" ")).collect::<Vec<_>>() }),
        );
    }
    Ok(())
}

fn commits(ctx: &Ctx, rng: &mut Rng, case: u64) -> Res {
    let t = a_tree(rng);
    let mut t2 = t.clone();
    t2.set("some", Some(Node::File(b"later\n".to_vec())));
    let intact = rng.chance(1, 8);
    let salt = rng.next();
    let mut r1 = Rng::new(salt);
    let mut b = build(&mut r1, None);
    let (kt, kt2) = (b.node(&t), b.node(&t2));
    let first = b.commit(&kt2, &[], "first");
    b.target = if intact { None } else { Some(b.seen) };
    let has_parent = b.rng.chance(1, 2);
    let parents = if has_parent { vec![first] } else { vec![] };
    let mid = b.commit(&kt, &parents, "middle");
    b.target = None;
    let child = b.commit(&kt2, &[mid], "child");
    let grand = b.commit(&kt, &[child], "grandchild");
    let bad = b.bad.take().map(|x| x.1);
    let rows = b.rows.clone();

    let r = Repo::new(ctx)?;
    add_rows(&r, &rows)?;
    push_ref(&r, "master", &mid)?;
    push_ref(&r, "child", &child)?;
    sync_tree(&r.root, &t, &[".snapcd"])?;
    let uk = model::user_key;
    let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
    let m = uk(&mid);
    let what = bad.as_ref().map(|x| x.what).unwrap_or("");
    // Only its parent is wrong; only what it refers to is wrong; it is something else.
    let parent = what == "commit_parent_type" || what == "contains_itself";
    let tree_only = what == "commit_tree_type";
    let wrong = bad.as_ref().map(|x| x.wrong_type).unwrap_or(false);
    let other = bad.as_ref().map(|x| x.other_use).unwrap_or(false);
    let deep = parent || tree_only;
    // A tip that is itself under a wrong key is no commit for anybody.
    let fake = what == "contains_itself";
    let mut cmds: Vec<(Vec<String>, bool)> = vec![];
    cmds.push((s(&["log", &m]), true));
    cmds.push((s(&["log"]), true));
    cmds.push((s(&["show", &m]), !other));
    cmds.push((s(&["show"]), !other));
    cmds.push((s(&["log", &uk(&child)]), true));
    cmds.push((s(&["show", &uk(&child)]), !parent || fake));
    cmds.push((s(&["log", &uk(&grand)]), true));
    cmds.push((s(&["status"]), !parent || fake));
    cmds.push((s(&["compare"]), !parent || fake));
    cmds.push((s(&["compare", "-s"]), !parent || fake));
    cmds.push((s(&["checkout-head", "elsewhere"]), !parent || fake));
    cmds.push((s(&["ref", "update", &m, "new"]), wrong || fake));
    cmds.push((s(&["debug", "reflog-push", &m, "new", "far"]), wrong || fake));
    cmds.push((s(&["commit", "-m", "on top"]), wrong || fake || !deep));
    cmds.push((s(&["debug", "commit-tree", &uk(&kt), &m]), wrong || fake || !deep));
    cmds.push((s(&["debug", "commit-tree", &uk(&kt), &uk(&child), &m]), wrong || fake || !deep));
    if wrong && !other || what == "type_other" {
        // As a tree it is no use either, whatever it says it is.
        cmds.push((s(&["debug", "commit-tree", &m]), true));
    }
    if intact {
        // A commit is no tree, and a tree or a file no parent.
        let st: Vec<(&str, Key)> = b.strangers.clone();
        for (ty, k) in st {
            if ty != "FSItemDir" && ty != "FSItemFile" {
                cmds.push((s(&["debug", "commit-tree", &uk(&k)]), true));
                if ty != "Commit" {
                    cmds.push((s(&["fetch", &uk(&k), "../dest"]), ty != "FileBlob" && ty != "FileBlobTree"));
                }
            }
            if ty != "Commit" {
                cmds.push((s(&["debug", "commit-tree", &uk(&kt), &uk(&k)]), true));
                cmds.push((s(&["ref", "update", &uk(&k), "new"]), true));
                cmds.push((s(&["log", &uk(&k)]), true));
            } else {
                cmds.push((s(&["fetch", &uk(&k), "../dest"]), true));
                cmds.push((s(&["debug", "walk-tree", &uk(&k)]), true));
                cmds.push((s(&["compare", &uk(&k)]), true));
            }
        }
        ctx.count("intact", 1);
    } else {
        ctx.count("spoiled", 1);
        ctx.count("spoiled_commit", 1);
        ctx.count(what, 1);
    }
    rng.shuffle(&mut cmds);
    let n = cmds.len().min(9);
    let file = r.dbfile();
    let clean = r.top.join("clean.db");
    std::fs::copy(&file, &clean)?;
    let before = r.db()?;
    let mut failed = 0;
    for (a, must_fail) in cmds.iter().take(n) {
        let misuse = intact && cmd_is_misuse(a, &b);
        if !must_fail && (!intact || misuse) || intact && kind(a) == "checkout_heads" {
            continue;
        }
        let o = r.run(a)?;
        ctx.count(kind(a), 1);
        let detail = bad.as_ref().map(|x| x.detail.clone()).unwrap_or_default();
        let says = || if intact { format!("an object of the wrong type is used, {:?}", a) } else { format!("a commit was spoiled ({}: {}), {:?}", what, detail, a) };
        ensure!(!o.spun(), "does-not-terminate", "{} does not end", says());
        if !intact || misuse {
            ensure!(!o.ok(), "malformed-accepted", "{} succeeds: {}", says(), o.brief());
            failed += 1;
            let after = r.db()?;
            ensure!(after.reflog == before.reflog && after.head() == before.head(), "malformed-accepted", "{} fails, but refs or HEAD changed", says());
        } else {
            ensure!(o.ok(), "well-formed-rejected", "{:?} on well-formed objects: {}", a, o.brief());
            std::fs::copy(&clean, &file)?;
        }
    }
    ctx.count("failed", failed);
    ctx.eval(if intact { None } else { Some(fnv(format!("{} {:?}", what, bad.as_ref().map(|x| &x.bytes)).as_bytes()) ^ fnv(&mid)) });
    if case < 4 {
        ctx.sample_in("commits", json!({ "case": case, "spoiled": format!("{} {}", what, bad.as_ref().map(|x| x.detail.clone()).unwrap_or_default()), "commands": cmds.iter().take(n).map(|x| x.0.join(" ")).collect::<Vec<_>>() }));
    }
    Ok(())
}

/// With nothing spoiled, the commands that use a well-formed object for what it is not.
fn cmd_is_misuse(a: &[String], b: &Build<'_>) -> bool {
    let keys: Vec<String> = b.strangers.iter().map(|x| model::user_key(&x.1)).collect();
    a.iter().any(|x| keys.contains(x))
}
