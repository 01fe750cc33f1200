"""Which appends to a vector cannot allocate, and so cannot throw: static counting argument over the control flow.

An append to C is covered when a dominating C.reserve(C.size() + N1 + N2 + ...) (or reserve(N), with the append in a loop that
tests C.size() < N) reserved room for it, it is the only growth of C in its loop, the loop runs at most Ni times (a counter from
zero, or an iteration over a container whose size is Ni), and nothing between the two can run Python code."""
import re
from ir import *
from api import API

GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'assign', 'swap', 'operator=', 'shrink_to_fit', 'reserve', 'append', 'vector'}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}
NEUTRAL = {'size', 'data', 'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'empty', 'capacity', 'max_size', 'rbegin', 'rend'}

class Reserved:
    def __init__(self, prog, fn):
        self.p, self.fn = prog, fn
        self.ok = set()
        calls = {}
        for b, ins in enumerate(self.blocks()):
            for k, i in enumerate(ins):
                if i.op in ('call', 'invoke'):
                    ca = prog.callees.get(i.x.get('f') or '')
                    if ca is not None and ca.kind == 'vector' and i.ops and ca.meth not in NEUTRAL:
                        calls.setdefault(self.key(i.ops[0]), []).append((b, k, i, ca.meth))
        for c, cs in calls.items():
            rs = [x for x in cs if x[3] == 'reserve']
            if not rs:
                continue
            pushes = [x for x in cs if x[3] in ('push_back', 'emplace_back')]
            for r in rs:
                terms = self.terms(r[2].ops[1], c)
                used = []
                good = []
                for p in pushes:
                    if not self.before(r, p) or any(o is not p and o[3] in GROW and o[3] not in ('push_back', 'emplace_back') and o is not r and self.between(r, o, p) for o in cs):
                        continue
                    t = self.covered(c, terms, r, p, cs)
                    if t is not None and t not in used:
                        if t != 'single':
                            used.append(t)
                        good.append(p)
                singles = [p for p in good if self.loop(p[0]) == self.loop(r[0])]
                room = sum(t[1] for t in terms if t[0] == 'c') if ('size', c) in terms else 0
                for p in good:
                    if p not in singles or len(singles) <= room:
                        self.ok.add(id(p[2]))
    def blocks(self):
        bb = {}
        for i in self.fn.instrs():
            bb.setdefault(i.bb, []).append(i)
        return [bb.get(b, []) for b in range(len(self.fn.bbs))]
    def strip(self, o):
        while isinstance(o, str):
            d = self.fn.defs.get(o)
            if d is None or d.op not in ('freeze', 'bitcast', 'sext', 'zext', 'inttoptr', 'ptrtoint'):
                break
            o = d.ops[0]
        return o
    def key(self, o):
        """where a container lies"""
        off = 0
        while True:
            o = self.strip(o)
            d = self.fn.defs.get(o) if isinstance(o, str) else None
            if d is None or d.op != 'getelementptr' or 'off' not in d.x:
                return (o, off)
            off += d.x['off']
            o = d.ops[0]
    def call(self, o):
        d = self.fn.defs.get(o) if isinstance(o, str) else None
        return (d, self.p.callees.get(d.x.get('f') or '')) if d is not None and d.op in ('call', 'invoke') else (None, None)
    def term(self, o, c=None):
        o = self.strip(o)
        if isinstance(o, str) and re.match(r'c:-?\d+$', o):
            return ('c', int(o[2:]))
        d, ca = self.call(o)
        if ca is not None and ca.kind in ('vector', 'list') and ca.meth == 'size':
            return ('size', self.key(d.ops[0]))
        if d is not None and re.match(r'Py(List|Tuple|Sequence_Fast)_(GET_SIZE|Size)$|Py_SIZE$', (ca.base if ca is not None and ca.base else d.x.get('f') or '')):
            return ('pysize', self.strip(d.ops[0]))
        return ('v', o)
    def terms(self, o, c):
        o = self.strip(o)
        d = self.fn.defs.get(o) if isinstance(o, str) else None
        if d is not None and d.op == 'add':
            return self.terms(d.ops[0], c) + self.terms(d.ops[1], c)
        return [self.term(o)]
    def before(self, r, p):
        return self.fn.dominates(r[0], p[0]) if r[0] != p[0] else r[1] < p[1]
    def reach(self, a, b):
        seen, todo = set(), list(self.fn.succ[a])
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(self.fn.succ[x])
        return False
    def between(self, r, o, p):
        def follows(x, y):
            return x[0] == y[0] and x[1] < y[1] or self.reach(x[0], y[0])
        # other growth that can happen after the reservation and before the append
        if self.fn.dominates(o[0], r[0]) and o[0] != r[0] and not self.reach(p[0], o[0]):
            return False
        return follows(r, o) and follows(o, p)
    def loop(self, b):
        best = None
        for h, body in self.fn.loops().items():
            if b in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        return best
    def quiet(self, blocks):
        """no Python code and no unknown function with access to the container runs in these blocks"""
        for b in blocks:
            for i in self.ins[b]:
                if i.op in ('call', 'invoke'):
                    f = i.x.get('f')
                    ca = self.p.callees.get(f or '')
                    if ca is None:
                        return False
                    if ca.kind == 'api' and re.match(r'(Py_X?INCREF|Py_X?NewRef|Py_IS_TYPE|Py_REFCNT|Py_TYPE|Py_SIZE|Py(List|Tuple)_GET_(ITEM|SIZE)|_?Py_IncRef)$', ca.base):
                        continue
                    if ca.kind == 'api':
                        a = API.get(ca.base)
                        if ca.base == '_Py_Dealloc' or a is None or a.py:
                            return False
                    elif ca.kind in ('other', 'third') and f in self.p.funcs:
                        return False
        return True
    def covered(self, c, terms, r, p, cs):
        self.ins = self.blocks()
        L = self.loop(p[0])
        if L is not None and r[0] in L[1]:
            L = None
        region = {b for b in range(len(self.fn.bbs)) if (b == r[0] or self.reach(r[0], b)) and (b == p[0] or self.reach(b, p[0]))}
        if not self.quiet(region - {r[0], p[0]} | (set(L[1]) if L else set())):
            return None
        if L is None:
            return 'single' if ('size', c) in terms and any(t[0] == 'c' and t[1] > 0 for t in terms) else None
        # the outermost loop that does not contain the reservation must be the only one around the append
        if any(p[0] in body and r[0] not in body and h != L[0] for h, body in self.fn.loops().items()):
            return None
        if sum(1 for o in cs if o[0] in L[1] and o[3] in GROW) != 1:
            return None
        for b in L[1]:
            if not any(s not in L[1] for s in self.fn.succ[b]) or not self.fn.dominates(b, p[0]) and not self.fn.dominates(p[0], b):
                continue
            t = self.ins[b][-1]
            cond = self.fn.defs.get(t.ops[0]) if t.op == 'br' and len(t.ops) == 3 else None
            if cond is None:
                continue
            g = self.bound(cond, t.ops[1] in L[1], L, c, terms)
            if g is not None:
                return g
        return None
    def bound(self, cond, stay, L, c, terms):
        """the loop goes on while cond is stay: what it counts up to"""
        if cond.op in ('icmp',):
            pred = cond.x['pred'] if stay else NEG[cond.x['pred']]
            for a, b, p in ((cond.ops[0], cond.ops[1], pred), (cond.ops[1], cond.ops[0], SWAP.get(pred, pred))):
                ta, tb = self.term(a), self.term(b)
                if p in ('slt', 'ult', 'ne') and tb in terms and tb[0] != 'c' and tb != ('size', c):
                    if ta == ('size', c) and terms == [tb]:
                        return ('total', tb)
                    if self.counts(a, L) and ('size', c) in terms + ([('size', c)] if len(terms) == 1 and self.fresh(c) else []):
                        return ('n', tb)
                # counting down from N
                d = self.fn.defs.get(self.strip(a))
                if p in ('sgt', 'ugt', 'ne') and tb == ('c', 0) and d is not None and d.op == 'phi' and d.bb == L[0]:
                    ini = [v for v, s in zip(d.ops[::2], d.ops[1::2]) if s not in L[1]]
                    if len(ini) == 1 and self.term(ini[0]) in terms and ('size', c) in terms:
                        return ('n', self.term(ini[0]))
            return None
        d, ca = cond, self.p.callees.get(cond.x.get('f') or '') if cond.op in ('call', 'invoke') else None
        if ca is not None and ca.kind == 'iterop' and ('size', c) in terms:
            for o in d.ops[:2]:
                for src in self.ends(o):
                    if ('size', src) in terms and src != c:
                        return ('n', ('size', src))
        return None
    def ends(self, o):
        """containers whose end() the operand holds"""
        out = []
        d, ca = self.call(self.strip(o))
        if ca is not None and ca.meth in ('end', 'cend'):
            out.append(self.key(d.ops[0]))
        dd = self.fn.defs.get(o) if isinstance(o, str) else None
        if dd is not None and dd.op == 'alloca':
            for i in self.fn.instrs():
                if i.op == 'store' and i.ops[1] == o:
                    out += self.ends(i.ops[0])
        return out
    def fresh(self, c):
        d = self.fn.defs.get(c[0]) if isinstance(c[0], str) else None
        return d is not None and d.op == 'alloca'
    def counts(self, o, L):
        """a counter of the loop that starts at zero or above and grows"""
        d = self.fn.defs.get(self.strip(o))
        if d is None:
            return False
        if d.op == 'add' and isinstance(d.ops[1], str) and re.match(r'c:[1-9]\d*$', d.ops[1]):
            return self.counts(d.ops[0], L)
        if d.op != 'phi' or d.bb != L[0]:
            return False
        for v, s in zip(d.ops[::2], d.ops[1::2]):
            if s in L[1]:
                i = self.fn.defs.get(self.strip(v))
                if i is None or i.op != 'add' or self.strip(i.ops[0]) != self.strip(o) or not re.match(r'c:[1-9]\d*$', str(i.ops[1])):
                    return False
            elif not re.match(r'c:\d+$', str(v)):
                return False
        return True

def cannot_throw(prog, fn, ins):
    if not hasattr(fn, '_reserved'):
        fn._reserved = Reserved(prog, fn).ok
    return id(ins) in fn._reserved
