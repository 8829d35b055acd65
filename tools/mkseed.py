#!/usr/bin/env python3
"""dev tool: mkseed.py SPEC.py -- confirm a planted bug in a scratch copy and store it under /verif/seeded.
SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust demo source), LBF=False"""
import json, os, shutil, subprocess, sys
S = {}
exec(open(sys.argv[1]).read(), S)
W = '/tmp/seedwt'
if not os.path.exists(W): subprocess.check_call(['cp', '-a', '/repo', W])
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh(f'git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
for f, a, b in S['EDITS']:
    p = f'{W}/{f}'; t = open(p).read()
    assert t.count(a) == 1, (f, t.count(a), a)
    open(p, 'w').write(t.replace(a, b))
d = f"/verif/seeded/{S['ID']}"
os.makedirs(d, exist_ok=True)
diff = sh(f'git -C {W} diff').stdout
open(d + '/patch.diff', 'w').write(diff)
open(d + '/main.rs', 'w').write(S['MAIN'])
json.dump(dict(property=S['PROP'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
dep = 'lbf = { path = "$R/lbf" }\nrand = { version = "0.8.5", features = ["small_rng"] }\n' if S.get('LBF') else ''
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# run in the repository after a build; 0: behaves correctly, 1: does not
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/lbf/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
jagua-rs = {{ path = "$R/jagua-rs" }}
serde_json = "1.0"
{dep}[profile.dev]
opt-level = 1
EOF
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q --offline || exit 1
''')
os.chmod(d + '/demo.sh', 0o755)
env = dict(os.environ)
r = sh(f'bash {d}/demo.sh', cwd='/repo'); print('demo unchanged:', r.returncode, r.stdout[-600:])
ok = r.returncode == 0
r = sh(f'bash {d}/demo.sh', cwd=W); print('demo changed:', r.returncode, r.stdout[-600:])
ok &= r.returncode != 0
if '--fast' not in sys.argv:
    # the real build and tests, on /repo with the patch (undone straight afterwards)
    try:
        sh(f'git -C /repo apply {d}/patch.diff')
        r = sh('bash /opt/vp/build.sh', cwd='/repo'); print('build', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:]); ok &= r.returncode == 0
        sh('bash /opt/vp/test.sh /tmp/seed.out.json', cwd='/repo')
        o = json.load(open('/tmp/seed.out.json')); print('tests', len(o['passed']), 'failed', o['failed']); ok &= len(o['passed']) == 11
        if '--check' in sys.argv:
            r = sh(f"python3 /verif/run.py --prop {S['PROP']}"); print('CHECK exit', r.returncode, r.stdout[-900:])
    finally:
        sh('git -C /repo checkout -q -- .')
print(S['ID'], 'KEPT' if ok else 'REJECTED')
if not ok: shutil.rmtree(d)
