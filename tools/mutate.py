#!/usr/bin/env python3
"""mutate.py <worker> <workers> <log> [--n N] [--seed S] [--only file.rs,..]
Small changes to /repo's sources, one at a time, in a scratch copy (/tmp/mu<worker>): which check reports each?
What no check reports and the tests of the repository pass too is to be looked at by hand (it may change nothing)."""
import os, random, re, shutil, subprocess, sys, time, glob
W, N, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
def opt(name, d):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else d
COUNT, SEED, ONLY = int(opt('--n', '300')), int(opt('--seed', '1')), opt('--only', '')
TOP = f'/tmp/mu{W}'; R = TOP + '/repo'; V = TOP + '/verif'
ORDER = {
 'file.rs': 'C01 C03 C02 C22 C23 C25 C24', 'dir.rs': 'C04 C06 C05 C14 C23 C02 C17 C15 C28 C19 C24 C18',
 'cache.rs': 'C15 C10 C14', 'commit.rs': 'C12 C22 C24 C23', 'diff.rs': 'C14 C16 C20', 'display.rs': 'C16 C23 C18',
 'filter.rs': 'C17 C20', 'key.rs': 'C07 C22', 'keyish.rs': 'C07 C08', 'base32.rs': 'C07 C22', 'object.rs': 'C22 C23 C26',
 'mod.rs': 'C18 C08 C07 C03', 'sqlite.rs': 'C08 C09 C10 C07 C13 C18 C11', 'null.rs': 'C02', 'main.rs': 'C12 C10 C08 C20 C21 C14 C17 C07 C28 C26 C24 C19',
}
ALL = [f'C{i:02d}' for i in range(1, 29)]
OPS = [
 (r'==', '!='), (r'!=', '=='), (r'(?<![-=<])>=', '>'), (r'(?<!<)<=', '<'), (r' > ', ' >= '), (r' < ', ' <= '), (r' > ', ' < '),
 (r'&&', '||'), (r'\|\|(?! \{)(?=.*[a-z])', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ' + 0'), (r' \+ ', ' - '), (r'\+= 1', '+= 2'),
 (r'\.is_empty\(\)', '.len() == 1'), (r'!([a-z][\w.:]*\()', r'\1'), (r'\bif ([a-z(!])', r'if !(\1'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
 (r'\bcontinue\b', 'break'), (r'\bbreak;', 'continue;'), (r'\.first\(\)', '.last()'), (r'\.get\(0\)', '.get(1)'), (r'\bDESC\b', 'ASC'), (r'OR IGNORE', 'OR REPLACE'),
 (r'OR REPLACE', 'OR IGNORE'), (r'key >= \?', 'key > ?'), (r'key < \?', 'key <= ?'), (r'remote IS \?', '1'), (r'refname=\?', '(refname=? OR 1)'), (r' AND ', ' OR '),
 (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'\b5\b', '4'), (r'\b13\b', '12'), (r'\b7\b', '8'),
 (r'\.difference\(', '.intersection('), (r'\.intersection\(', '.difference('), (r'\.min\(', '.max('), (r'starts_with', 'ends_with'), (r'create_new\(true\)', 'create(true)'),
 (r'create_dir_all', 'create_dir'), (r'file_name\(\)', 'path()'), (r'Some\((\w+)\)\s*=>', None), (r'\?;$', ';'), (r'\.unwrap\(\);$', ';'), (r'added', 'removed'), (r'before', 'after'), (r'parent_key', 'vec![]'),
 (r'"truncate"', '"off"'), (r'"2"', '"0"'), (r'"WAL"', '"off"'), (r'leading_zeros', 'trailing_zeros'), (r'to_le_bytes', 'to_be_bytes'), (r'\bsort_unstable\(\)', 'reverse()'), (r'read_data', 'read_content'),
 (r'as_deref\(\)', 'as_deref().filter(|_| false)'), (r'\.clear\(\);', '.is_empty();'), (r'\.or_else\(', '.and_then('), (r'metadata\(', 'symlink_metadata('), (r'Ok\(Some\(', 'Ok(None.or(Some('),
]
def mutants():
    out = []
    for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        if os.path.basename(f) in ('lib.rs',): continue
        lines = open(f).read().split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]'): break
            if not s or s.startswith(('//', '#', 'use ', 'log::', 'pub use', 'struct ', 'pub struct', 'pub fn', 'fn ', 'impl', 'mod ', 'pub mod', 'enum', 'pub enum', 'extern', 'ldbg')): continue
            if 'log::' in s: continue
            for n, (a, b) in enumerate(OPS):
                if b is None: continue
                for m in re.finditer(a, l):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if a.startswith(r'\bif '):
                        # close the parenthesis before the brace
                        if not new.rstrip().endswith('{'): continue
                        new = new.rstrip()[:-1].rstrip() + ') {'
                        if ' let ' in l: continue
                    if new != l: out.append((f, i, new))
            if s.endswith(';') and not s.startswith(('let ', 'return', '}', ')', 'break', 'continue', 'const', 'type', '.')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                out.append((f, i, re.sub(r'\S.*', '', l) + '();'))
            if s.endswith('?;') and not s.startswith(('let ', 'return', '.', '}', ')')) and s.count('(') == s.count(')'):
                out.append((f, i, re.sub(r'(\S.*)\?;$', r'let _ = \1;', l)))
            if re.match(r'return Err\(.*\);$', s) :
                out.append((f, i, re.sub(r'\S.*', '', l) + '();'))
        # whole statements over several lines are removed by hand-written bugs, not here
    return out
def sh(cmd, t=900, **k):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, 124, (e.stdout or b''), b''); return r
ms = mutants()
if ONLY: ms = [m for m in ms if os.path.basename(m[0]) in ONLY.split(',')]
random.Random(SEED).shuffle(ms)
if len(sys.argv) > 4 and '--count' in sys.argv:
    print(len(ms)); sys.exit()
ms = ms[:COUNT][W::N]
os.makedirs(TOP, exist_ok=True)
if not os.path.isdir(R): sh(f'mkdir -p {R} && cd /repo && git archive HEAD | tar xf - -C {R}')
sh(f'cd /repo && git archive HEAD | tar xf - -C {R}')
sh(f'mkdir -p {V}/evidence && cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./replays --exclude=./evidence . | tar xf - -C {V}')
sh(f"sed -i 's#\"/repo\"#\"{R}\"#' {V}/harness/Cargo.toml; sed -i 's/CARGO_INCREMENTAL=0/CARGO_INCREMENTAL=1/; s/OPT_LEVEL=2/OPT_LEVEL=1/' {V}/run.sh")
env = dict(os.environ, VMON_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')
def log(s):
    with open(LOG, 'a') as f: f.write(s + '\n')
for k, (f, i, new) in enumerate(ms):
    rel = f[len('/repo/'):]; dst = f'{R}/{rel}'
    lines = open(f).read().split('\n'); old = lines[i]; lines[i] = new
    name = f'{rel}:{i+1}: {old.strip()}  =>  {new.strip()}'
    if os.path.exists(LOG) and name in open(LOG).read(): continue
    open(dst, 'w').write('\n'.join(lines))
    t0 = time.time()
    b = sh(f'{V}/run.sh --build', env=env)
    if b.returncode != 0: res = 'nobuild'
    else:
        first = ORDER.get(os.path.basename(f), '').split()
        res, odd = 'SURVIVED', []
        for p in first + [x for x in ALL if x not in first]:
            r = sh(f'{V}/run.sh {p} quick', env=env)
            if r.returncode == 1: res = 'killed ' + p; break
            if r.returncode != 0: odd.append(f'{p}={r.returncode}')
        if res == 'SURVIVED':
            t = sh('cargo test --offline --locked 2>&1 | grep -E "^test .*FAILED|panicked"', cwd=R, t=600, env=dict(env, CARGO_TARGET_DIR=TOP + '/t'))
            if t.stdout.strip(): res = 'tests only'
        if odd: res += ' inconclusive: ' + ' '.join(odd)
        if b'in-process monitors do not build' in b.stdout: res += ' (no in-process)'
    if res != 'nobuild': log(f'{res:28} {time.time()-t0:5.0f}s  {name}')
    shutil.copy(f, dst)
log(f'worker {W} done')
