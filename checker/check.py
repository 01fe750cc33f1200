#!/usr/bin/env python3
"""python3 checker/check.py C01 [C02 ...]   exit 0 / 1 / 2"""
import os, sys, time, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, common
from ir import Prog

FLOW = ('C01', 'C02', 'C03', 'C04', 'C05', 'C09')
STATE = ('C08', 'C14', 'C15', 'C16', 'C17', 'C18')
VALUES = ('C06', 'C20', 'C21')
BIND = ('C10', 'C11', 'C19')
ROUTE = ('C27',)
CONTENT = ('C28', 'C29')
VECTOR = ('C22', 'C13', 'C12')

def main(props):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    progs = {}
    def program(vector=False):
        if vector not in progs:
            d = None
            try:
                d, js, fs = build.extract(vector=vector)
                progs[vector] = Prog(js)
                progs[vector].units = len(fs)
            finally:
                if d:
                    shutil.rmtree(d, ignore_errors=True)
        return progs[vector]
    vprog = cprog = None
    try:
        prog = program() if any(p not in VECTOR for p in props) else None
        vprog = program('mm') if 'C22' in props else None
        cprog = program('v') if 'C13' in props else None
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    res = []
    fl = [p for p in props if p in FLOW]
    if fl:
        import flow
        res += flow.run(prog, fl, tier)
    ts = [p for p in props if p in STATE]
    if ts:
        import typestate
        res += typestate.run(prog, ts, tier)
    vs = [p for p in props if p in VALUES]
    if vs:
        import values
        res += values.run(prog, vs, tier)
    bs = [p for p in props if p in BIND]
    if bs:
        import bindings
        res += bindings.run(prog, bs, tier)
    if 'C07' in props or 'C09' in props:
        import bounds
        res += bounds.run(prog, props, tier, next((r for r in res if r.prop == 'C09'), None))
    if 'C27' in props:
        import routing
        res += routing.run(prog, tier)
    cs = [p for p in props if p in CONTENT]
    if cs:
        import content
        res += content.run(prog, cs, tier)
    if 'C22' in props:
        import block
        res += block.run(vprog, tier)
    if 'C13' in props:
        import cpu
        res += cpu.run(cprog, tier)
    if 'C12' in props:
        import raw512
        try:
            rs, k = raw512.run(tier)
        except build.BuildError as e:
            print('ERROR: %s' % e)
            return 2
        res += rs
    if 'C01' in props:      # references held in fields of objects
        import typestate
        h = next((r for r in res if r.prop == 'C18'), None) or typestate.run(prog, ['C18'], tier)[0]
        c = next(r for r in res if r.prop == 'C01')
        for k, f in h.findings.items():
            if k.startswith('field|'):
                c.add(k, f.site, f.text, f.detail)
    for r in res:
        if prog or vprog or cprog:
            r.cov.setdefault('translation_units', (prog or vprog or cprog).units)
    return common.finish(res, t0, tier, seed)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
