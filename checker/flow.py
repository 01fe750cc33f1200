"""C01-C05, C09: path-sensitive analysis of every function CPython can call."""
import os, time, traceback
from multiprocessing import Pool
from ir import *
from engine import Limit
from calls import Engine
from roles import role_of
from common import Result

RULE = {'C01': 'ref', 'C02': 'exc', 'C03': 'escape', 'C04': 'gil', 'C05': 'nullderef', 'C09': 'stale'}
TEXT = {
 'C01': 'every path of every entry point: references acquired = references released + references handed over; per-element balance of containers',
 'C02': 'every return of every entry point: error value <=> exception set; no interpreter call while one is pending',
 'C03': 'every call that can throw is inside a handler that catches it on every path of every entry point',
 'C04': 'every path: GIL re-taken exactly once; no interpreter call, refcount change or unwinding out while released',
 'C05': 'every use of a possibly-NULL result of an interpreter call is preceded by a test on the path',
 'C09': 'every use of a native iterator/pointer/cached end: no interpreter call that can run user code since it was obtained',
}
# Functions whose documented contract is to change a reference count / trust the caller's raw value.
EXEMPT = {('ref', 'Unsafe_incref'), ('ref', 'Unsafe_decref')}
_p = None

def _job(a):
    n, rules, cap = a
    fn = _p.funcs[n]
    t = time.time()
    sh = {}
    e = None
    try:
        e = Engine(_p, fn, role_of(_p, n), set(rules), sh, cap=cap)
        e.run()
        st = 'ok'
        if e.viol and not e.zone:       # look again, relating sizes and indices to each other
            z = Engine(_p, fn, role_of(_p, n), set(rules), {}, zone=True, cap=min(cap, 30000))
            try:
                z.run()
                left = {v.rule for v in z.viol.values()}
                e.viol = {k: v for k, v in e.viol.items() if v.rule in left}
            except Limit:
                pass
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    v = list(e.viol.values()) if e else []
    for x in v:
        x.fnname = n
    return n, fn.dname, fn.file, st, time.time() - t, (e.stat if e else {}), v, (e.approx if e else set()), sh

def run(prog, props, tier):
    global _p
    _p = prog
    rules = [RULE[p] for p in props]
    cap = 30000 if tier == 'quick' else 200000
    names = sorted(prog.roots(), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, rules, cap) for n in names], chunksize=1)
    out = []
    for p in props:
        r = Result(p)
        r.cov['explanation'] = TEXT[p] + '.  Abstract interpretation of the LLVM IR of every function reachable from a method table, slot table or module init function.'
        for n, d, f, st, t, stat, viol, approx, sh in res:
            r.count('entry_points')
            for k in ('states', 'steps', 'calls', 'returns', 'derefs'):
                r.count(k, stat.get(k, 0))
            if stat.get('obl'):
                r.count('non_null_obligations', stat['obl'])
            if st != 'ok':
                r.notes.append('%s: %s' % (d, st))
            for v in viol:
                if v.rule == RULE[p] and (v.rule, d) not in EXEMPT:
                    r.add(v.key, v.site, '%s: %s' % (d, v.what), v.detail)
            if len(r.samples) < 10 and stat.get('states', 0) > 30:
                r.sample('%s (%s): %d abstract states, %d returns' % (d, os.path.basename(f), stat['states'], stat['returns']))
        ap = sorted(set().union(*[x[7] for x in res]) if res else [])
        if ap:
            r.assume.append('approximated: ' + ', '.join(ap))
        out.append(r)
    return out
