#!/usr/bin/env python3
"""Runs the check of each planted change's property against a scratch copy with the change applied.
usage: score.py [-a] [-s SEED] [ids...]     -a: all checks, not only the property's own"""
import json, os, shutil, subprocess, sys, tempfile, time
V = '/verif'; S = V + '/seeded'
args = sys.argv[1:]; all_checks = False; seed = '1'
while args and args[0].startswith('-'):
    a = args.pop(0)
    if a == '-a': all_checks = True
    if a == '-s': seed = args.pop(0)
ids = args or sorted(os.listdir(S))
w = tempfile.mkdtemp(prefix='score', dir='/tmp')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
try:
    sh(f"cp -a /repo {w}/repo && rm -rf {w}/repo/target/debug && mkdir {w}/verif && cd {V} && cp -a harness regressions tools *.sh *.txt *.json properties.jsonl {w}/verif/ && cp -a .build {w}/verif/.build && rm -f {w}/verif/.build/stamp*")
    sh(f"sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/verif/harness/Cargo.toml; sed -i 's#^REPO=/repo#REPO={w}/repo#' {w}/verif/lib.sh")
    for i in ids:
        m = json.load(open(f'{S}/{i}/meta.json'))
        r = sh(f'git -C {w}/repo apply {S}/{i}/patch.diff')
        if r.returncode: print(i, '*** DOES NOT APPLY', r.stderr, flush=True); continue
        props = [m['property']] + ([f'C{k:02}' for k in range(1, 31) if f'C{k:02}' != m['property']] if all_checks else [])
        for p in props:
            t = time.time()
            r = sh(f'cd {w}/verif && VERIF_SEED={seed} timeout 900 ./check.sh {p}')
            lines = [l for l in r.stdout.split('\n') if l.strip()]
            v = [l for l in lines if l.startswith('VIOLATION')]
            ok = r.returncode == 1 and v and v[0].startswith(f'VIOLATION property={p}')
            if p == m['property'] or r.returncode != 0:
                print(i, p, 'CAUGHT' if ok else f'*** MISSED rc {r.returncode}', f'{time.time()-t:.0f}s', ' / '.join(lines[-3:])[:500] if not ok or True else '', flush=True)
        sh(f'git -C {w}/repo checkout -- .')
finally:
    shutil.rmtree(w)
