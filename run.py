#!/usr/bin/env python3
"""Driver: decides one property on /repo's current working tree.

  run.py --prop C01 --tier quick|thorough        (exit 0 held, exit 1 + VIOLATION line)
  run.py --replay FILE                           re-runs the failing input / obligation recorded in FILE
"""
import argparse, hashlib, json, os, re, subprocess, sys, threading, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
BUILD = os.path.join(V, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')


def tree_hash():
    h = hashlib.sha256()
    for top in ('jagua-rs', 'lbf'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith('.rs') or f == 'Cargo.toml':
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def sh(cmd, **kw):
    kw.setdefault('env', ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh_target(tgt, th, env, cwd, pkgs=('jagua-rs', 'lbf')):
    """cargo decides by mtime; force a rebuild whenever the sources differ from those last built here"""
    os.makedirs(tgt, exist_ok=True)
    mark = os.path.join(tgt, '.tree')
    old = open(mark).read() if os.path.exists(mark) else None
    if old is not None and old != th:
        for p in pkgs:
            sh(['cargo', 'clean', '-q', '-p', p], cwd=cwd, env=env)
    open(mark, 'w').write(th)


# ------------------------------------------------------------------ executable contracts (bounded)
def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def run_cx(prop, tier, seed, th, budget=None):
    b = prop.lower()
    cwd = os.path.join(V, 'cx')
    tgt = os.path.join(BUILD, 'cx')
    env = dict(ENV, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=tgt)
    fresh_target(tgt, th, env, cwd)
    cmd = ['cargo', 'build', '-q', '--bin', b] + (['--features', 'lbf'] if prop == 'C20' else [])
    r = sh(cmd, cwd=cwd, env=env)
    if r.returncode != 0:
        return dict(status='error', reason='the harness does not build against the current tree', log=r.stdout[-4000:], groups=[], failures=[])
    out = os.path.join(BUILD, f'{b}.{tier}.json')
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(tgt, 'debug', b), '--tier', tier, '--seed', str(seed), '--out', out]
    if budget: cmd += ['--budget', str(budget)]
    try:
        r = sh(cmd, timeout=780 if tier == 'quick' else 7200, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return dict(status='error', reason='timeout', log='', groups=[], failures=[])
    if not os.path.exists(out):
        # the process died (abort, stack overflow, out of memory) while exercising the code under test: find the input
        pf = os.path.join(BUILD, f'{b}.progress')
        if os.path.exists(pf): os.remove(pf)
        try:
            r2 = sh(cmd, timeout=600, preexec_fn=lim, env=dict(ENV, CX_THREADS='1', CX_PROGRESS=pf))
        except subprocess.TimeoutExpired:
            r2 = None
        if r2 is not None and r2.returncode < 0 and os.path.exists(pf):
            g, c, contract = open(pf).read().split('\n', 2)
            r3 = sh([cmd[0], '--group', g, '--case', c, '--seed', str(seed)], timeout=200, preexec_fn=lim)
            if r3.returncode < 0:
                return dict(status='violation', groups=[], failures=[dict(group=g, contract=contract, case=int(c), seed=seed,
                            message=f'the process was killed by signal {-r3.returncode} while executing this case\n' + r3.stdout[-2000:])])
        return dict(status='error', reason=f'harness ended with {r.returncode} without a report', log=r.stdout[-4000:], groups=[], failures=[])
    d = json.load(open(out))
    return dict(status='violation' if d['failures'] else 'ok', groups=d['groups'], failures=d['failures'], wall_s=d['wall_s'])


def load_known():
    """known-findings.txt: 'fixed: property=<id> <commit> <what>' (suppresses nothing) and
    'known: property=<id> match=<json string that the failing message must contain> <what>'"""
    out = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        if l.startswith('known: property='):
            m = re.match(r'known: property=(\S+) match=("(?:[^"\\\\]|\\\\.)*") (.*)', l)
            out.append(dict(property=m[1], status='known', match=json.loads(m[2]), what=m[3]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay'); ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop, tier, seed = a.prop, a.tier, a.seed
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    th = tree_hash()
    res = {}

    def job(name, f, *args):
        try:
            res[name] = f(*args)
        except Exception:
            res[name] = dict(status='error', reason='engine crashed', log=traceback.format_exc())

    jobs = [('cx', run_cx, prop, tier, seed, th)]
    try:
        import engines
        jobs += engines.jobs(prop, tier, seed, th)
    except ImportError:
        pass
    if a.only: jobs = [j for j in jobs if j[0] == a.only]
    ts = [threading.Thread(target=job, args=j) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()

    vio, notes = [], []
    cx = res.get('cx', dict(status='skipped', groups=[], failures=[]))
    if cx['status'] == 'error':
        notes.append(f"bounded contracts gave no answer: {cx['reason']}")
        sys.stderr.write(cx.get('log', '') + '\n')
    for i, f in enumerate(cx.get('failures', [])):
        p = os.path.join(rdir, f'{prop}.{i}.json')
        json.dump(dict(kind='cx', property=prop, obligation=f"{f['group']}: {f['contract']}", group=f['group'], case=f['case'], seed=f['seed'],
                       message=f['message'], tree=th, how=f"python3 {V}/run.py --replay {p}"), open(p, 'w'), indent=1)
        vio.append((f['group'], p, True, f['message']))
    ob = dis = 0
    proofs = []
    for name, r in res.items():
        if name == 'cx': continue
        ob += r.get('obligations', 0); dis += r.get('discharged', 0)
        proofs.append(dict(engine=name, **{k: v for k, v in r.items() if k not in ('failures', 'log')}))
        if r['status'] == 'error':
            notes.append(f"{name}: {r.get('reason')}"); sys.stderr.write(f"[{name}] {r.get('reason')}\n{r.get('log', '')}\n")
        for i, f in enumerate(r.get('failures', [])):
            p = os.path.join(rdir, f'{prop}.{name}.{i}.json')
            json.dump(dict(kind=name, property=prop, tree=th, how=f"python3 {V}/run.py --replay {p}", **f), open(p, 'w'), indent=1)
            vio.append((f['obligation'], p, bool(f.get('confirmed')), f.get('message', '')))
    known = load_known()
    kf = [k for k in known if k['property'] == prop and k['status'] == 'known']
    real = []
    for v in vio:
        hit = [k for k in kf if k.get('match') and k['match'] in v[3]]
        if hit: print(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
        else: real.append(v)
    wall = round(time.time() - t0, 1)
    write_evidence(prop, tier, seed, cx, proofs, ob, dis, notes, wall, len(real), th)
    with_input = [v for v in real if v[2]]
    for g in cx.get('groups', []): print(f"  bounded {prop}/{g['group']}: {g['cases']} cases {g['classes']}")
    for r in proofs: print(f"  {r['engine']}: {r.get('discharged', 0)}/{r.get('obligations', 0)} obligations discharged; undecided: {r.get('undecided', [])}")
    for n in notes: print('  note:', n)
    if with_input or real:
        for v in real: print(f"--- {v[0]} ({v[1]})\n{v[3][:3000]}")
        if with_input: print(f"VIOLATION property={prop} replay={with_input[0][1]}")
        else: print(f"VIOLATION property={prop} replay={real[0][1]} no-failing-input-found")
        return 1
    decided = cx['status'] == 'ok' or (ob and ob == dis)
    if not decided:
        print(f'no answer for {prop}: ' + '; '.join(notes)); return 2
    print(f'property {prop} held ({wall} s)')
    return 0


def write_evidence(prop, tier, seed, cx, proofs, ob, dis, notes, wall, nvio, th):
    man = json.load(open(os.path.join(V, 'MANIFEST.json')))
    chk = next((c for c in man['checks'] if c['property'] == prop), {})
    level = chk.get('level', 'exploration')
    cases = sum(g['cases'] for g in cx.get('groups', []))
    trivial = {'empty', 'none', 'free', 'few', 'all-marginal', 'skip', 'trivial', 'emptied'}
    nontriv = sum(n for g in cx.get('groups', []) for c, n in g['classes'].items() if c not in trivial)
    cov = dict(evaluations=cases, distinct_nontrivial=nontriv,
               rule='each case draws its inputs from its own seeded generator (exhaustive groups enumerate their scope); non-trivial: the outcome class is not one of ' + ', '.join(sorted(trivial)),
               samples=[dict(group=g['group'], contract=g['contract'], cases=g['cases'], requested=g['requested'], exhaustive=g['exhaustive'], classes=g['classes']) for g in cx.get('groups', [])],
               bounded_groups=len(cx.get('groups', [])))
    assumptions = []
    trusted = set()
    if proofs:
        cov.update(obligations=ob, discharged=dis, checker_cmd=f'python3 {V}/run.py --prop {prop} --tier {tier}', engines=proofs)
        for r in proofs:
            trusted.update(r.get('trusted', [])); assumptions += r.get('assumptions', [])
        cov['trusted_base'] = sorted(trusted)
    cov['explanation'] = chk.get('level_note', '')
    cov['tree_sha256'] = th
    cov['notes'] = notes
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(set(assumptions)), wall_s=wall, violations=nvio),
              open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)


def replay(path):
    d = json.load(open(path))
    print(json.dumps({k: v for k, v in d.items() if k != 'log'}, indent=1)[:6000])
    if d['kind'] == 'cx':
        b = d['property'].lower()
        tgt = os.path.join(BUILD, 'cx'); cwd = os.path.join(V, 'cx')
        env = dict(ENV, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=tgt)
        fresh_target(tgt, tree_hash(), env, cwd)
        r = sh(['cargo', 'build', '-q', '--bin', b] + (['--features', 'lbf'] if b == 'c20' else []), cwd=cwd, env=env)
        if r.returncode: print(r.stdout); return 2
        return subprocess.run([os.path.join(tgt, 'debug', b), '--group', d['group'], '--case', str(d['case']), '--seed', str(d['seed'])]).returncode
    import engines
    return engines.replay(d)


if __name__ == '__main__':
    sys.exit(main())
