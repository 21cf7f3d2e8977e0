#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (harness/src/checks/mod.rs) and the table below."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exploration", "reference-model monitor (round trip) on library and program",
         "Every content written is compared byte for byte with what comes back, by key, through the library on three kinds of store and readers that return short or interrupted reads, and through the program. Held on the contents executed, which are made to hit every shape of chunk tree the reference chunker distinguishes; not a proof for all contents."),
 "C02": ("fault_enumeration", "fault injection at every call (in-process store/reader/writer, LD_PRELOAD) with an outcome oracle",
         "A fault is injected at every single store, source and destination call of each case; the oracle demands an error, or complete content. Faults come as return codes; assumes errors not reported by the kernel (e.g. at close) do not occur."),
 "C03": ("exploration", "reference-model monitor of keys and stored objects",
         "Keys and objects are compared with an independent implementation of chunking, CBOR and BLAKE3 filing, over reader schedules, stores and orders of insertion. Collision resistance of BLAKE3 is trusted."),
 "C04": ("exploration", "round-trip monitor on generated trees, file by file",
         "Trees of hostile names, shapes and contents are inserted or committed and fetched by the program and compared entry by entry; what is not representable has to make the insertion fail."),
 "C05": ("exploration", "file-system snapshot monitor around fetch, as an unprivileged user",
         "Everything around the destination is snapshotted (content, inode, times, mode) before and after fetching ordinary and crafted trees; hostile fetches run unprivileged inside a scratch directory."),
 "C06": ("exploration", "metamorphic monitor on keys of trees",
         "Trees are rebuilt in other orders, places, times, modes and listing orders (shim) and must keep their key; each single change must change it. Keys are also compared with the reference implementation."),
 "C07": ("exploration", "reference-model monitor of id resolution",
         "Resolution of every prefix length is compared with a linear scan of the printed keys, on stores holding chosen keys that collide at chosen bits."),
 "C08": ("exploration", "history monitor against a sequential model of refs and HEAD",
         "Random histories through library and program, with hostile names, transactions, rollbacks and reopening; every read is compared with a list model."),
 "C09": ("fault_enumeration", "crash-state enumeration over a recorded write log, and kill -9 at every change",
         "All changes to the database files are recorded; the disk is rebuilt for a crash before each of them under four loss models and opened. Assumes fsync is honoured and 512-byte sectors are atomic."),
 "C10": ("fault_enumeration", "fault injection at every system call with a before/after state oracle",
         "Every call of every class is failed once, and from there on, for a set of commands; ordinary failures are driven as well. The oracle compares database states; a panic counts as failing (non-zero)."),
 "C11": ("exploration", "offline history checker over concurrent processes with injected delays and kills",
         "Histories of concurrent processes are checked for serialisability: unique messages, one chain per ref, exactly once. Interleavings are sampled, widened by delays; distinct lock/write orders are counted in the evidence."),
 "C12": ("exploration", "before/after state monitor on commits",
         "Each commit's tree, parents, message and the reflog delta are decoded by an independent decoder and compared with the directory and the state before."),
 "C13": ("exploration", "append-only monitor over long command histories",
         "After every command of long random histories (with failing, faulted and killed commands) the database must be a superset and the logs prolonged; recorded keys are read back."),
 "C14": ("exploration", "reference-model monitor of listings",
         "The printed lists are compared with a tree comparison done by the harness, for random edits incl. kind changes, from several directories."),
 "C15": ("exploration", "differential monitor: warm, cold, shared and missing cache against a tree comparison",
         "The same question is asked with caches in every state after edits that hide from size and times; answers are compared with a comparison of contents."),
 "C16": ("exploration", "reference-model monitor of log and show; patches applied by an independent applier",
         "log and show are parsed and compared with the recorded history; every patch is applied to the old content."),
 "C17": ("exploration", "reference-model monitor with an independent glob matcher",
         "Stored trees and listings are compared with the tree filtered by an independent matcher for the glob syntax the program documents."),
 "C18": ("fault_enumeration", "corruption enumeration over stored objects with a content oracle",
         "Stored values are altered, truncated, swapped and deleted in turn; each reading command must fail or give the original output."),
 "C19": ("exploration", "file-system snapshot monitor around every command",
         "Everything outside the repository folder is snapshotted around every command, refused and failing ones included."),
 "C20": ("exploration", "state monitor on HEAD against a tree comparison",
         "HEAD, refs and files are compared before and after checkout-head on clean and dirty directories."),
 "C21": ("exploration", "state monitor over nested repositories and working directories",
         "Databases of all candidate repositories are compared before and after; without a repository the whole surroundings must stay as they are."),
 "C22": ("exploration", "golden repositories and keys, differential monitor",
         "Repositories written by earlier builds are committed as fixtures with the answers they gave; the current build must give them again, and the same keys."),
 "C23": ("exploration", "crafted-object monitor with CPU limit",
         "Objects that are not well formed in every way enumerated by the harness's own encoder are filed under their true hash and used by every command; the use must fail, within a CPU limit."),
 "C24": ("exploration", "object-graph invariant monitor (fsck) after every command",
         "An independent decoder walks everything reachable from refs and returned keys after every command, failing and killed ones included."),
 "C25": ("exploration", "reference-model and bound monitor on stored objects",
         "New objects per edit are counted against a bound that does not depend on the size of the file, for edits at and around chunk boundaries; object sizes are bounded."),
 "C26": ("exploration", "reference-model monitor of listings and printed objects",
         "The listings are parsed and compared with a walk of the database by an independent decoder, and of the directory by the harness; printed objects are compared with the stored bytes decoded independently."),
 "C27": ("exploration", "resource monitor: commands on large files under a limit of private memory, results compared",
         "Commands on 90 to 200 MiB run with 40 MiB of private memory (RLIMIT_DATA) and must succeed with the right result; the memory they use is sampled. Shows boundedness at these sizes, not an asymptotic proof. Line-by-line comparisons (show of a commit, log, compare -s) are left out, as they hold the files by design."),
 "C28": ("exploration", "reference-model and file-system snapshot monitor around checkout, with injected failures and damage",
         "The directory after a checkout is compared with the commit by the harness's own tree model. The program runs unmodified: the one place where it checks out is mounted over /home in namespaces of the command's own (or, where that is not allowed, made for the check and removed), as an unprivileged user."),
}
reg = re.findall(r'^\s*c\d\d "(C\d\d)",', open(V + "/harness/src/checks/mod.rs").read(), re.M)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks observe the program from outside (file system, database, system calls) and the library through its public interface."}
for i in ids:
    if i in reg:
        l, t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "Runtime monitoring applies; the check is not built yet."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
