#!/usr/bin/env python3
"""Mutation sampling: mutate.py COUNT SEED [file-regex]
Applies single random token-level mutations to the non-test code of /repo in a scratch copy, builds the harness against it and
runs the checks that read that code until one reports a violation. Prints the survivors in full."""
import os, random, re, shutil, subprocess, sys, tempfile, time
V = '/verif'
ASSERTS = '--asserts' in sys.argv  # drop assertions instead
if ASSERTS: sys.argv.remove('--asserts')
RARE = '--rare' in sys.argv  # apply the mutation in one of 3, 20 or 150 executions of the statement, or on the later threads only
if RARE: sys.argv.remove('--rare')
FN = '''
#[allow(dead_code)]
pub fn vmut(k: usize) -> bool {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static C: AtomicUsize = AtomicUsize::new(1);
    if k == 0 { rayon::current_thread_index().unwrap_or(0) >= 2 } else { C.fetch_add(1, Ordering::Relaxed) % k == 0 }
}
'''
def rare(old, new, k):
    o, n = old.strip(), new.strip()
    bal = lambda x: all(x.count(a) == x.count(b) for a, b in ('()', '[]', '{}'))
    if not bal(o) or not bal(n) or not o.endswith(';') or o.startswith(('return', 'break', 'continue')): return None
    ind = old[:len(old) - len(old.lstrip())]
    c = f'crate::vmut({k})'
    m, q = re.match(r'(let (?:mut )?\w+(?:: [^=]+)? = )(.*);$', o), re.match(r'(let (?:mut )?\w+(?:: [^=]+)? = )(.*);$', n)
    if m: return f'{ind}{m[1]}if {c} {{ {q[2]} }} else {{ {m[2]} }};' if q and q[1] == m[1] else None
    if o.startswith('let '): return None
    return f'{ind}if {c} {{ {n} }} else {{ {o} }}'
count, seed = int(sys.argv[1]), sys.argv[2]
pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
MAP = {
 'src/oram.rs': 'C01 C30 C03 C02 C09 C06 C05 C08 C04 C07 C28', 'src/naive_hash.rs': 'C25 C30 C03 C09 C04',
 'src/codec.rs': 'C10 C30 C11', 'src/context.rs': 'C13 C12 C27 C29 C11 C16 C28', 'src/params.rs': 'C27 C13 C28',
 'src/lwe.rs': 'C11 C12 C20 C26 C19', 'src/rlwe.rs': 'C14 C11 C12 C26 C16 C17 C18 C20 C22 C19 C21 C24 C30 C05',
 'src/rgsw.rs': 'C15 C16 C19 C21 C26 C17 C08 C05', 'src/decision_tree.rs': 'C23 C24 C21 C30 C08 C28 C29', 'src/utils.rs': 'C29 C19 C21 C24 C28',
 'src/main.rs': 'C28 C27', 'src/cli.rs': 'C28 C27', 'src/macros.rs': 'C14 C15 C18 C17', 'src/num_types.rs': 'C15 C14 C29'}
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '),
 (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\.\.=', '..'), (r' << ', ' >> '), (r' >> ', ' << '),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'update_with_add\b', 'update_with_sub'), (r'update_with_sub\b', 'update_with_add'),
 (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'), (r'wrapping_neg\(\)', 'wrapping_add(0)'), (r' \+= ', ' -= '), (r' -= ', ' += '),
 (r'\.rev\(\)', ''), (r'ks_base_log', 'base_log'), (r'ks_level_count', 'level_count'), (r'negs_base_log', 'base_log'), (r'negs_level_count', 'level_count'),
 (r'if ([a-z_]\w*(?:\.\w+)*(?:\(\))?) \{', r'if !\1 {'), (r'\.skip\(1\)', ''), (r'Some\((\w+)\) =>', r'Some(\1) if false =>')]
def sites(path, src):
    out = []; skip = 0; lines = src.split('\n')
    stop = next((i for i, l in enumerate(lines) if l.strip() == '#[cfg(test)]'), len(lines))
    depth = None
    for i, l in enumerate(lines[:stop]):
        t = l.strip()
        if 'cfg(panacea_verif)' in l: depth = 0; continue
        if depth is not None:
            depth += l.count('{') - l.count('}')
            if depth <= 0 and '}' in l: depth = None
            continue
        if ASSERTS:
            if re.match(r'(assert|panic|unreachable)\w*!\(.*\);$', t): out.append((i, '' if t.startswith('assert') else '();'))
            continue
        if t.startswith(('//', 'use ', '#', 'assert', 'debug_assert', 'panic!', 'where', 'impl', 'pub fn', 'fn ')): continue
        code = l.split('//')[0]
        for p, r in OPS:
            for m in re.finditer(p, code):
                out.append((i, code[:m.start()] + m.expand(r) + code[m.end():]))
        for m in re.finditer(r'(?<![\w.\"#])(\d+)(?![\w\"])', code):
            if '..' in code[max(0, m.start()-2):m.end()+2] or True:
                out.append((i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]))
        if re.match(r'(self|[a-z_]\w*)(\.|::)[\w.:()&\[\] ,*]*;$', t) or (re.match(r'\*?[\w.\[\]]+ [-+*/]?= .*;$', t) and not t.startswith('let')):
            out.append((i, ''))
    if RARE: out = [(i, x) for i, n in out if n != lines[i] for x in [rare(lines[i], n, random.Random(lines[i] + n + seed).choice([0, 3, 3, 20, 20, 150]))] if x]
    return [(path, i, lines[i], n) for i, n in out if n != lines[i]]
if RARE: del MAP['src/main.rs'], MAP['src/cli.rs']
allm = []
for f in MAP:
    if pat.search(f): allm += sites(f, open('/repo/' + f).read())
random.Random(seed).shuffle(allm)
w = tempfile.mkdtemp(prefix='mutate', dir='/tmp')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
print(len(allm), 'mutants in all', flush=True)
try:
    sh(f"cp -a /repo {w}/repo && rm -rf {w}/repo/target && mkdir {w}/verif && cd {V} && cp -a harness regressions tools *.sh *.txt *.json properties.jsonl {w}/verif/ && cp -a .build {w}/verif/.build && rm -f {w}/verif/.build/stamp*")
    sh(f"sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/verif/harness/Cargo.toml; sed -i 's#^REPO=/repo#REPO={w}/repo#' {w}/verif/lib.sh")
    if RARE: open(f'{w}/repo/src/lib.rs', 'a').write(FN)
    done = 0
    for path, i, old, new in allm:
        if done >= count: break
        lines = open(f'/repo/{path}').read().split('\n'); lines[i] = new
        open(f'{w}/repo/{path}', 'w').write('\n'.join(lines))
        b = sh(f'cd {w}/repo && CARGO_TARGET_DIR={w}/chk cargo check --offline --locked -q --lib --bins')
        res = 'nobuild'; log = []
        if b.returncode == 0:
            done += 1; res = 'SURVIVED'; t = time.time()
            for p in MAP[path].split():
                r = sh(f'cd {w}/verif && VERIF_SEED={seed} timeout 600 ./check.sh {p}')
                if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout: res = 'killed ' + p; break
                if r.returncode != 0: res = f'odd {p} rc {r.returncode}'; log = (r.stdout + r.stderr)[-400:]; break
            print(f'{res:12} {path}:{i+1} {time.time()-t:.0f}s  {old.strip()}  ->  {new.strip()} {log or ""}', flush=True)
        shutil.copy(f'/repo/{path}', f'{w}/repo/{path}')
finally:
    shutil.rmtree(w)
