#!/usr/bin/env python3
"""Which checks catch which planted bugs.

usage: seed_matrix.py [--own] [--scale S] [ID...]

Works on a scratch copy of /repo and of the harness under /tmp (removed at the
end): every /verif/seeded/<id>/patch.diff is applied there, the harness is
rebuilt and the check of the named property is run in full; without --own all
other checks are run too, scaled down.  Results are kept in
/verif/tools/seed_matrix.json and written as a table into DESIGN.md.
"""
import json, os, subprocess, sys, tempfile, shutil
V = '/verif'
args = sys.argv[1:]
own = '--own' in args
scale = '0.3'
if '--scale' in args:
    i = args.index('--scale'); scale = args[i + 1]; del args[i:i + 2]
only = [a for a in args if not a.startswith('--')]
W = tempfile.mkdtemp(prefix='seedmx.')
R, H, E = W + '/repo', W + '/h', W + '/v'
def sh(c, cwd=None, env=None, timeout=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
sh(f'cp -a /repo {R}; mkdir -p {H} {E}/evidence; cp {V}/known_findings.txt {E}/; cd {V}/harness && tar cf - --exclude=target . | (cd {H} && tar xf -)')
t = open(H + '/Cargo.toml').read().replace('"/repo"', f'"{R}"'); open(H + '/Cargo.toml', 'w').write(t)
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
path = V + '/tools/seed_matrix.json'
res = json.load(open(path)) if os.path.exists(path) else {}
ids = sorted(d for d in os.listdir(V + '/seeded') if os.path.exists(f'{V}/seeded/{d}/patch.diff'))
res = {k: v for k, v in res.items() if k in ids}
def check(p, sc):
    env = dict(os.environ, VERIF_DIR=E)
    if sc: env['VERIF_SCALE'] = sc
    other = H + '/target/release/vh' if p == 'C23' else ''
    try:
        q = sh(f"{H}/target/debug/vh check {p} quick '{other}'", env=env, timeout=900)
        return {0: 'quiet', 1: 'caught'}.get(q.returncode, 'error')
    except subprocess.TimeoutExpired:
        return 'timeout'
for d in ids:
    if only and d not in only: continue
    meta = json.load(open(f'{V}/seeded/{d}/meta.json'))
    sh('git checkout -- .', R)
    a = sh(f'git apply {V}/seeded/{d}/patch.diff', R)
    if a.returncode: print(d, 'does not apply', a.stderr); continue
    b = sh('cargo build --offline && cargo build --offline --release', H)
    if b.returncode: print(d, 'does not build', b.stderr[-500:]); continue
    r = {'property': meta['property'], 'own': check(meta['property'], '')}
    if not own:
        r['others'] = [p for p in props if p != meta['property'] and check(p, scale) == 'caught']
    elif 'others' in res.get(d, {}):
        r['others'] = res[d]['others']
    res[d] = r
    print(d, r, flush=True)
    json.dump(res, open(path, 'w'), indent=0, sort_keys=True)
sh('git checkout -- .', R)
shutil.rmtree(W)
rows = ['| planted bug | property | own check | also caught by |', '|---|---|---|---|']
for d in sorted(res):
    r = res[d]
    rows.append(f"| {d} | {r['property']} | {r['own']} | {', '.join(r.get('others', [])) or '–'} |")
D = V + '/DESIGN.md'
t = open(D).read()
A, B = '<!-- seed matrix -->', '<!-- end of seed matrix -->'
if A in t:
    t = t[:t.index(A)] + A + '\n' + '\n'.join(rows) + '\n' + t[t.index(B):]
    open(D, 'w').write(t)
