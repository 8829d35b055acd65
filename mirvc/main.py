"""Discharges the contracts of one property on a MIR dump:  main.py --prop C13 --mir FILE --root /repo/jagua-rs --out OUT.json [--jobs N] [--deadline S] [--tier T]"""
import argparse, glob, importlib, json, multiprocessing as mp, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import mir, verify, replay
import z3


def load_specs():
    for f in sorted(glob.glob(os.path.join(HERE, 'spec_*.py'))): importlib.import_module(os.path.basename(f)[:-3])
    return verify.SPECS


def cross_cvc5(hyps, goal):
    s = z3.Solver(); s.add(*hyps); s.add(z3.Not(goal))
    t = s.to_smt2()
    t = '(set-logic ALL)\n' + t
    try: r = subprocess.run(['cvc5', '--tlimit=10000', '-'], input=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
    except subprocess.TimeoutExpired: return 'unknown'
    l = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    return l if l in ('sat', 'unsat') else 'unknown'


def work(crate, spec, q, tier, pool):
    os.setpgid(0, 0)
    pool.take()
    t0 = time.time()
    try:
        r = verify.check(crate, spec, None, confirm=replay.confirm, cross=cross_cvc5 if tier == 'thorough' else None, pool=pool)
        d = dict(id=spec.id, fn=spec.fn, error=r.error, obls=r.obls, used=r.used, vacuous=bool(getattr(r, 'vacuous', False)), time=round(r.time, 2), trusted=spec.note, reshaped=getattr(r, 'reshaped', []))
    except BaseException as e:
        d = dict(id=spec.id, fn=spec.fn, error=f'engine: {type(e).__name__}: {e}', obls=[], used={}, vacuous=False, time=round(time.time() - t0, 2), trusted=None)
    pool.give()
    q.send(json.dumps(d, default=str)); q.close()


def main():
    ap = argparse.ArgumentParser()
    for a in ('prop', 'mir', 'root', 'out', 'crate', 'only'): ap.add_argument('--' + a)
    ap.add_argument('--more', action='append'); ap.add_argument('--jobs', type=int, default=6); ap.add_argument('--deadline', type=float, default=400); ap.add_argument('--each', type=float, default=200); ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    specs = [s for s in load_specs() if (a.prop in s.props or a.prop == 'all') and s.crate == (a.crate or 'jagua') and (s.post or s.overflow)]
    if a.only: specs = [s for s in specs if a.only in s.id]
    crate = mir.Crate(open(a.mir).read(), a.root, [(open(m).read(), r) for m, r in (x.split('=') for x in a.more or ())])
    t0 = time.time()
    ctx = mp.get_context('fork'); pool = verify.Pool(a.jobs)
    todo = sorted(specs, key=lambda s: -s.timeout); running = []; out = []
    while todo or running:
        while todo and len(running) < a.jobs and time.time() - t0 < a.deadline:
            s = todo.pop(0)
            rx, tx = ctx.Pipe(False)
            pl = pool.child(); pl.until = time.time() + a.each * 0.75; p = ctx.Process(target=work, args=(crate, s, tx, a.tier, pl)); p.start(); tx.close()
            running.append((s, p, rx, time.time(), pl))
        if not running: break
        time.sleep(0.01)
        nxt = []
        for s, p, rx, t, pl in running:
            if rx.poll():
                try: out.append(json.loads(rx.recv()))
                except EOFError: out.append(dict(id=s.id, fn=s.fn, error='engine: worker died', obls=[], used={}, vacuous=False, time=0, trusted=None))
                p.join(2); continue
            if time.time() - t > a.each or time.time() - t0 > a.deadline + 60:
                os.killpg(p.pid, 9); p.join(); [pool.sem.release() for _ in range(pl.held.value)]; out.append(dict(id=s.id, fn=s.fn, error='timeout', obls=[], used={}, vacuous=False, time=round(time.time() - t, 1), trusted=None)); continue
            nxt.append((s, p, rx, t, pl))
        running = nxt
    for s in todo: out.append(dict(id=s.id, fn=s.fn, error='not started before the deadline', obls=[], used={}, vacuous=False, time=0, trusted=None))
    order = {s.id: i for i, s in enumerate(specs)}
    out.sort(key=lambda d: order.get(d['id'], 0))
    js = dict(prop=a.prop, z3=z3.get_version_string(), wall=round(time.time() - t0, 1), specs=out)
    if a.out: json.dump(js, open(a.out, 'w'), indent=1)
    else:
        for d in out:
            bad = [o for o in d['obls'] if o['status'] != 'proved']
            print(d['id'], d['time'], d['error'] or '', 'VACUOUS' if d['vacuous'] else '', f"{len(d['obls'])} obligations")
            for o in bad: print('    ', o['status'], o['name'], o.get('reason', ''), o.get('input', ''), {k: v for k, v in o.get('replay', {}).items() if k != 'program'})
            if a.tier == 'thorough': print('    cross', {c: sum(1 for o in d['obls'] if o.get('cross') == c) for c in ('unsat', 'sat', 'unknown')})
        print('wall', js['wall'])


if __name__ == '__main__': main()
