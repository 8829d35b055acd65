"""Deductive engines. mirvc: weakest-precondition style verification of the compiler's MIR of the current tree against contracts (z3)."""
import fcntl, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTUP_TOOLCHAIN', None)

ASSUME = ['f32 arithmetic is treated as exact real arithmetic: rounding, overflow to infinity and NaN are outside the proofs (the bounded executable contracts run the real f32 code)',
          'partial correctness: panics (assert!, unwrap, array bounds, integer overflow) end an execution and are not obligations unless the contract says so; debug_assert! is compiled out of the verified MIR',
          'the verified text is rustc nightly MIR (-Zmir-opt-level=1) of /repo\'s current sources: rustc up to MIR, the MIR parser and the VC generator in /verif/mirvc are trusted',
          'std and dependency functions are modelled in /verif/mirvc/models.py (listed per run under trusted)',
          'shared references are value snapshots; interior mutability does not occur in the functions under contract (only CollisionDetectionEngine counters behind &mut)']


def sh(cmd, **kw):
    kw.setdefault('env', ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def dump_mir(crate, th):
    """MIR of the current tree, keyed by the hash of its sources"""
    d = os.path.join(BUILD, 'mir'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f'{crate}.{th[:24]}.mir')
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(f): return f, None
        for x in os.listdir(d):
            if x.startswith(crate + '.') and x.endswith('.mir'): os.remove(os.path.join(d, x))
        tgt = os.path.join(BUILD, 'mirtgt')
        env = dict(ENV, CARGO_TARGET_DIR=tgt)
        cwd = {'jagua': '/repo/jagua-rs', 'lbf': '/repo/lbf'}[crate]
        lock = os.path.join(cwd, 'Cargo.lock')
        tmp = f + '.tmp'
        if crate == 'lbf':
            sh(['cargo', '+nightly', 'clean', '-q', '--offline', '-p', 'jagua-rs'], cwd=cwd, env=env)
        cmd = ['cargo', '+nightly', 'rustc', '-q', '--offline', '--lib', '--', '-Zunpretty=mir', '-Zmir-opt-level=1', '-C', 'debug-assertions=off', '-C', 'overflow-checks=on', '-o', tmp]
        r = sh(cmd, cwd=cwd, env=env)
        if not os.path.exists(tmp):                # cargo decides by mtime: force it
            for pk in ('jagua-rs', 'lbf'): sh(['cargo', '+nightly', 'clean', '-q', '--offline', '-p', pk], cwd='/repo/lbf', env=env)
            r = sh(cmd, cwd=cwd, env=env)
        if not os.path.exists(tmp): return None, r.stdout[-3000:]
        os.rename(tmp, f)
    return f, None


def run_mirvc(prop, tier, seed, th, crate):
    mir, log = dump_mir('jagua', th); more = []
    if mir is not None and crate != 'jagua':
        m2, log = dump_mir(crate, th)
        if m2 is None: mir = None
        else: more = ['--more', f'{m2}=/repo/{crate}']
    if mir is None: return dict(status='error', reason='no MIR from the current tree', log=log, obligations=0, discharged=0)
    out = os.path.join(BUILD, f'mirvc.{crate}.{prop}.json')
    if os.path.exists(out): os.remove(out)
    # replay builds the crate: make sure the target is that of the current tree
    import run
    run.fresh_target(os.path.join(BUILD, 'mvtgt'), th, dict(ENV, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=os.path.join(BUILD, 'mvtgt')), os.path.join(BUILD, 'mvreplay') if os.path.exists(os.path.join(BUILD, 'mvreplay', 'Cargo.toml')) else V)
    q = tier == 'quick'
    cmd = ['python3-vt', os.path.join(V, 'mirvc', 'main.py'), '--prop', prop, '--crate', crate, '--mir', mir, '--root', '/repo/jagua-rs', *more, '--out', out,
           '--jobs', '8', '--deadline', '420' if q else '3000', '--each', '420' if q else '2400', '--tier', tier]
    try: r = sh(cmd, timeout=600 if q else 4000)
    except subprocess.TimeoutExpired: return dict(status='error', reason='mirvc timed out', log='', obligations=0, discharged=0)
    if not os.path.exists(out): return dict(status='error', reason='mirvc gave no result', log=r.stdout[-3000:], obligations=0, discharged=0)
    d = json.load(open(out))
    obl = dis = 0; und, fails, fns, trusted, solver = [], [], [], set(), 0.0
    cross = {}
    for s in d['specs']:
        bad = [o for o in s['obls'] if o['status'] != 'proved']
        obl += max(len(s['obls']), 1); good = len(s['obls']) - len(bad)
        dis += good if not s['error'] and not s['vacuous'] else 0
        solver += sum(o['time'] for o in s['obls'])
        for o in s['obls']:
            if 'cross' in o: cross[o['cross']] = cross.get(o['cross'], 0) + 1
        fns.append(dict(function=s['fn'], spec=s['id'], obligations=len(s['obls']), discharged=good, seconds=s['time'], inlined=s['used'].get('inlined', []), contracts=s['used'].get('contracts', []), **({'error': s['error']} if s['error'] else {})))
        trusted.update('model: ' + m for m in s['used'].get('models', []))
        if s.get('trusted'): trusted.add(f"{s['id']}: {s['trusted']}")
        if s['error']: und.append(f"{s['id']}: {s['error'][:300]}"); continue
        if s['vacuous']: und.append(f"{s['id']}: precondition or body infeasible"); continue
        for o in bad:
            if o['status'] == 'skipped': continue
            nm = f"{s['id']} ensures \"{o['name']}\""
            rp = o.get('replay', {})
            if o['status'] == 'refuted' and rp.get('confirmed'):
                fails.append(dict(obligation=nm, confirmed=True, message=f"{nm}\ninput {json.dumps(o['input'])}\nobserved {json.dumps(rp.get('observed'))}\n{rp.get('note')}", input=o['input'], observed=rp.get('observed'), program=rp.get('program')))
            elif o['status'] == 'refuted' and rp and 'the real code satisfies' in rp.get('note', ''): und.append(f'{nm}: counterexample not reproduced ({rp["note"]})')
            elif o['status'] == 'refuted' and any(x.get('replay', {}).get('confirmed') for x in bad): pass
            elif o['status'] == 'refuted' and rp and 'leaves the precondition' in rp.get('note', ''): und.append(f'{nm}: {rp["note"]}')
            elif s.get('reshaped'): und.append(f"{nm}: not discharged, and the loops are no longer those the invariants were written for ({', '.join(s['reshaped'])})")
            else:
                fails.append(dict(obligation=nm, confirmed=False, message=f"{nm}: not discharged ({o['status']}; {o.get('reason', '')} {rp.get('note', '')})\n{json.dumps(o.get('input', ''))[:600]}\n{o.get('model', '')[:1200]}", verifier_output=o.get('model', '') or o.get('reason', '')))
    return dict(status='violation' if fails else 'ok', obligations=obl, discharged=dis, undecided=und, failures=fails, functions=fns, trusted=sorted(trusted) + [f"z3 {d['z3']}"], assumptions=ASSUME,
                solver_seconds=round(solver, 2), wall_s=d['wall'], back_end=f"mirvc + z3 {d['z3']}", **({'cross_checked_with_cvc5': cross} if cross else {}))


def has_specs():
    """{(prop, crate)} that carry contracts (read without importing z3)"""
    r = sh(['python3-vt', '-c', f'import sys,json; sys.path.insert(0,{os.path.join(V, "mirvc")!r}); import main; print("SPECS "+json.dumps(sorted({{(p,s.crate) for s in main.load_specs() for p in s.props}})))'])
    for l in r.stdout.split('\n'):
        if l.startswith('SPECS '): return {tuple(x) for x in json.loads(l[6:])}
    return set()


def jobs(prop, tier, seed, th):
    hs = has_specs()
    return [(f'mirvc-{c}', run_mirvc, prop, tier, seed, th, c) for c in ('jagua', 'lbf') if (prop, c) in hs]


def replay(d):
    if d.get('program'):
        print('--- program run on the real code'); print(d['program'][-1500:])
        sys.path.insert(0, os.path.join(V, 'mirvc'))
        r = sh(['python3-vt', '-c', f'import sys; sys.path.insert(0,{os.path.join(V, "mirvc")!r}); import replay,json; print("observed", replay.run_program(open("/dev/stdin").read()))'], input=d['program'])
        print(r.stdout)
        print('recorded', d.get('observed'))
        return 1
    print('no failing input was found; the obligation above was not discharged by the verifier'); return 1
