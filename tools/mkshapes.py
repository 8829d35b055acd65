"""Records the loops each spec's invariants were written for:  python3-vt mkshapes.py MIR_JAGUA MIR_LBF [ROOT]  -> mirvc/shapes.json"""
import json, multiprocessing as mp, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mirvc')); sys.setrecursionlimit(20000)
import main, mir, verify
specs = [s for s in main.load_specs() if s.invariants and (s.post or s.overflow)]
root = sys.argv[3] if len(sys.argv) > 3 else '/repo'
j = mir.Crate(open(sys.argv[1]).read(), root + '/jagua-rs')
l = mir.Crate(open(sys.argv[1]).read(), root + '/jagua-rs', [(open(sys.argv[2]).read(), root + '/lbf')])


def sites(i):
    s = specs[i]; return s.id, sorted(verify.generate(j if s.crate == 'jagua' else l, s, None)[0].inv_sites)


with mp.get_context('fork').Pool(3) as p: out = dict(p.imap_unordered(sites, range(len(specs)), 1))
json.dump(out, open(verify.SHAPES, 'w'), indent=1, sort_keys=True)
