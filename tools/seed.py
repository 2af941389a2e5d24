#!/usr/bin/env python3
"""tools/seed.py SPEC.py: plants one bug. SPEC defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN.
Writes seeded/ID after checking in a scratch copy that it builds, passes the stable tests, and that the
demonstration passes without and fails with it. --rebase: only re-make the patch against /repo HEAD."""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
K = '/verif/tools/kit'
D = f'/verif/seeded/{ID}'
WS = '/tmp/ws-seed'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(WS):
    print(sh(f'cp -a /repo {WS}').stderr)
sh(f'git -C {WS} fetch -q /repo && git -C {WS} reset -q --hard FETCH_HEAD')
sh(f'git -C {WS} checkout -q -- .')
for f, a, b in spec['EDITS']:
    p = f'{WS}/{f}'
    s = open(p).read()
    if s.count(a) != 1:
        sys.exit(f'{f}: {s.count(a)} matches of\n{a}')
    open(p, 'w').write(s.replace(a, b))
patch = sh(f'git -C {WS} diff').stdout
os.makedirs(D, exist_ok=True)
open(f'{D}/patch.diff', 'w').write(patch)
open(f'{D}/main.rs', 'w').write(spec['MAIN'])
shutil.copy(f'{K}/src/kit.rs', f'{D}/kit.rs')
shutil.copy(f'{K}/Cargo.toml', f'{D}/Cargo.toml.in')
shutil.copy(f'{K}/Cargo.lock', f'{D}/Cargo.lock.in')
open(f'{D}/demo.sh', 'w').write(open(f'{K}/demo.sh').read().replace('@ID@', ID))
os.chmod(f'{D}/demo.sh', 0o755)
json.dump({"property": spec['PROP'], "needs": spec['NEEDS'], "what_it_breaks": spec['BREAKS']}, open(f'{D}/meta.json', 'w'), indent=1)
def demo(repo, tgt):
    return sh(f'cd {repo} && OVDEMO_TARGET={tgt} bash {D}/demo.sh', timeout=400)
r = demo('/repo', '/tmp/demo-t0')
print('unchanged:', r.returncode, r.stdout[-600:], r.stderr[-1500:] if r.returncode else '')
r2 = demo(WS, '/tmp/demo-t1')
print('changed:', r2.returncode, r2.stdout[-600:], r2.stderr[-1500:] if 'BROKEN' not in r2.stdout else '')
ok = r.returncode == 0 and r2.returncode != 0
if '--notest' not in sys.argv:
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    names = sorted(set(x.split('overlord::', 1)[1] for x in stable))
    bad = set()
    for k in range(3):
        t = sh(f'cd {WS} && CARGO_NET_OFFLINE=true timeout 300 cargo test --offline 2>&1')
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
        bad = {n for n in names if not any(n.endswith(p) for p in passed)}
        if not bad:
            break
    print('tests failing:', bad)
    ok = ok and not bad
print('KEEP' if ok else 'REJECT', ID)
