"""Path-sensitive abstract interpretation of one entry point of the extension.

Input: the inlined, SSA form of one function that CPython can call (ir.py).  A state is propagated along
every control-flow path; states that agree on everything still live are merged.  Nothing is executed and
no solver is used: branch conditions are decided by interval / nullness / difference facts collected on
the path, and both sides are followed when they cannot decide.

Abstract values
  int                 constant (null pointer = 0)
  str                 opaque symbol, one per defining site ('~' = previous loop iteration's)
  ('+', base, k)      symbol/address plus constant
  ('al', n)           address of local variable n
  ('g', name)         address of a global          ('gv', name)  constant loaded from a global (PyExc_...)
  ('sl', c, i)        address of slot i of container / memory block c
  ('it', c, i)        iterator of container c at position i    ('st', x)  stale version of slot/iterator x
  ('cmp', p, a, b) ('not', x) ('and', x, y) ('or', x, y)        truth values
  ('rc', o, d)        ob_refcnt of o plus d
  ('ts', member, t)   function pointer loaded from a type object
  ('blk', p)          (as c) the memory p points to
"""
import sys, re
from ir import *
from api import API, A, NOGIL, PLAIN, TPFLAG

INF = None

def is_sym(a):
    return isinstance(a, str)

def add(a, k):
    if k == 0:
        return a
    if isinstance(a, int):
        return a + k
    if isinstance(a, tuple) and a[0] == '+':
        k += a[2]
        return a[1] if k == 0 else ('+', a[1], k)
    return ('+', a, k)

def split(a):
    """-> (base, k)"""
    if isinstance(a, tuple) and a[0] == '+':
        return a[1], a[2]
    if isinstance(a, int):
        return None, a
    return a, 0

def syms_of(a, out):
    if isinstance(a, str):
        out.add(a)
    elif isinstance(a, tuple):
        for x in a:
            if isinstance(x, tuple):
                syms_of(x, out)
            elif isinstance(x, str):
                out.add(x)   # tags are included too; harmless

def mentions(a, s):
    if a == s:
        return True
    if isinstance(a, tuple):
        for x in a:
            if x == s or (isinstance(x, tuple) and mentions(x, s)):
                return True
    return False

def subst(a, s, v):
    if a == s:
        return v
    if isinstance(a, tuple) and a:
        if a[0] == '+':
            b = subst(a[1], s, v)
            return add(b, a[2]) if b is not a[1] else a
        n = tuple(subst(x, s, v) if (isinstance(x, (tuple, str))) else x for x in a)
        return n if n != a else a
    return a

TAGS = {'+', 'al', 'g', 'gv', 'sl', 'it', 'st', 'cmp', 'not', 'and', 'or', 'rc', 'rc32', 'ts', 'blk', 'f', 'sz', 'eq', 'ne', 'slt', 'sgt', 'sle', 'sge', 'ult', 'ugt', 'ule', 'uge'}

CTOR = re.compile(r'C[12](I\w+)?E')      # constructor, in a mangled name

class State:
    __slots__ = ('env', 'mem', 'fact', 'rel', 'own', 'elem', 'bulk', 'exc', 'gil', 'x')
    def __init__(s):
        s.env, s.mem, s.fact, s.rel, s.own, s.elem, s.bulk = {}, {}, {}, {}, {}, {}, {}
        s.exc, s.gil, s.x = 0, 0, {}
    def copy(s):
        n = State.__new__(State)
        n.env, n.mem, n.fact, n.rel = dict(s.env), dict(s.mem), dict(s.fact), dict(s.rel)
        n.own, n.elem, n.bulk, n.x = dict(s.own), dict(s.elem), dict(s.bulk), dict(s.x)
        n.exc, n.gil = s.exc, s.gil
        return n
    def key(s):
        return (frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.fact.items()), frozenset(s.rel.items()),
                frozenset(s.own.items()), frozenset(s.elem.items()), frozenset(s.bulk.items()), frozenset(s.x.items()), s.exc, s.gil)
    def has(s, sym):
        for d in (s.env, s.mem, s.bulk, s.x):
            for k, v in d.items():
                if mentions(v, sym) or (isinstance(k, tuple) and mentions(k, sym)):
                    return True
        if sym in s.own or sym in s.fact:
            return True
        for k, v in s.elem.items():
            if k == sym or mentions(v, sym):
                return True
        for (a, b) in s.rel:
            if a == sym or b == sym:
                return True
        return False
    def rename(s, sym, v):
        """replace symbol by value v everywhere (v: another symbol or a constant)"""
        s.env = {k: subst(a, sym, v) for k, a in s.env.items()}
        s.mem = {subst(k, sym, v): subst(a, sym, v) for k, a in s.mem.items()}
        s.x = {subst(k, sym, v) if isinstance(k, tuple) else k: subst(a, sym, v) for k, a in s.x.items()}
        s.bulk = {subst(k, sym, v): subst(a, sym, v) for k, a in s.bulk.items()}
        if sym in s.own:
            o = s.own.pop(sym)
            if is_sym(v):
                o += s.own.get(v, 0)
                if o:
                    s.own[v] = o
                else:
                    s.own.pop(v, None)
        el = {}
        for k, a in s.elem.items():
            a = subst(a, sym, v)
            if k == sym:
                if is_sym(v):
                    el.setdefault(v, a)
                elif v == 0 and isinstance(a[0], tuple) and a[0][0] == 'blk':
                    s.x[('nullel', a[0])] = 1
            else:
                el[k] = a
        s.elem = el
        if sym in s.fact:
            f = s.fact.pop(sym)
            if is_sym(v):
                g = s.fact.get(v)
                s.fact[v] = f if g is None else meet(f, g)
        rl = {}
        for (a, b), c in s.rel.items():
            a2, b2 = (v if a == sym else a), (v if b == sym else b)
            if a2 == b2 or not (isinstance(a2, (str, tuple)) and isinstance(b2, (str, tuple))):
                if isinstance(a2, int) or isinstance(b2, int):
                    # becomes an interval fact
                    if isinstance(a2, int) and is_sym(b2):
                        s._iv(b2, a2 - c, None)
                    elif isinstance(b2, int) and is_sym(a2):
                        s._iv(a2, None, b2 + c)
                continue
            if (a2, b2) not in rl or rl[(a2, b2)] > c:
                rl[(a2, b2)] = c
        s.rel = rl
    def _iv(s, sym, lo, hi):
        f = s.fact.get(sym, (None, None, frozenset()))
        s.fact[sym] = meet(f, (lo, hi, frozenset()))

def meet(f, g):
    lo = f[0] if g[0] is None else g[0] if f[0] is None else max(f[0], g[0])
    hi = f[1] if g[1] is None else g[1] if f[1] is None else min(f[1], g[1])
    return (lo, hi, f[2] | g[2])

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}

class Limit(Exception):
    pass

class Violation:
    def __init__(s, rule, fn, what, site, detail='', key=None):
        s.rule, s.fn, s.what, s.site, s.detail = rule, fn, what, site, detail
        s.key = key or '%s|%s|%s' % (rule, fn, what)
    def __repr__(s):
        return '%s in %s at %s: %s%s' % (s.rule, s.fn, s.site, s.what, (' [' + s.detail + ']') if s.detail else '')

def posn(v):
    """the number behind a value: an integer or the position of an iterator"""
    if isinstance(v, tuple) and v[0] in ('it', 'sl'):
        v = v[2]
    if isinstance(v, int) or is_sym(v) or isinstance(v, tuple) and v[0] == '+':
        return v
    return None
def diff(a, b):
    (x, k), (y, l) = split(a), split(b)
    return k - l if x == y else None

class Engine:
    """one run over one root function"""
    def __init__(self, prog, fn, role, rules, shared, zone=False, cap=60000):
        self.p, self.fn, self.role, self.rules, self.sh, self.zone = prog, fn, role, rules, shared, zone
        self.cap = cap
        self.viol = {}
        self.stat = dict(states=0, steps=0, calls=0, returns=0, derefs=0, obl=0)
        self.visits = {}
        self.approx = set()
        self.refevents = 0
        self.argarrays = {'a%d' % k for k, p in enumerate(role['params']) if p == 'args'}
        self._alloca_info()
        if not zone:        # growing and shrinking have to be told apart
            for bb in fn.bbs:
                for i in bb:
                    ca = self.p.callees.get(i.x['f']) if i.op in ('call', 'invoke') and i.x.get('f') else None
                    if ca is not None and ca.meth == 'resize' and self.owning(ca.elem):
                        self.zone = True

    # ------------------------------------------------------------------ reporting
    def where(self, ins):
        return self.p.where(ins.loc) if ins is not None else '?'
    def report(self, rule, what, ins, detail='', key=None):
        if rule not in self.rules or (rule == 'stale' and self.role.get('dying')):
            return
        v = Violation(rule, self.fn.dname, what, self.where(ins), detail, key and '%s|%s|%s' % (rule, self.fn.dname, key))
        self.viol.setdefault(v.key, v)
    def imprecise(self, what):
        self.approx.add(what)

    # ------------------------------------------------------------------ local-variable liveness
    def _alloca_info(self):
        fn = self.fn
        derived = {}
        for i in fn.instrs():
            if i.op == 'alloca':
                derived['%%%d' % i.id] = i.id
        changed = True
        while changed:
            changed = False
            for i in fn.instrs():
                if i.op in ('getelementptr', 'bitcast', 'select', 'phi') and '%%%d' % i.id not in derived:
                    for o in i.ops:
                        if isinstance(o, str) and o in derived:
                            derived['%%%d' % i.id] = derived[o]
                            changed = True
                            break
        n = len(fn.bbs)
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        self.al_aty = {i.id: i.x.get('aty', '') for i in fn.instrs() if i.op == 'alloca'}
        one = {i.id for i in fn.instrs() if i.op == 'alloca' and i.x.get('n', 1) == 1 and (i.x.get('asz') == 8 or self.al_aty[i.id] in ('ptr', 'i64', 'i32', 'i8', 'i1'))}
        for b, bb in enumerate(fn.bbs):
            for i in bb:
                for k, o in enumerate(i.ops):
                    if isinstance(o, str) and o in derived:
                        a = derived[o]
                        if i.op == 'store' and k == 1 and o == '%%%d' % a and a in one:
                            if a not in gen[b]:
                                kill[b].add(a)
                        elif i.op == 'call' and k == 0 and o == '%%%d' % a and CTOR.search(i.x.get('f', '')) and '%%%d' % a not in i.ops[1:]:
                            if a not in gen[b]:
                                kill[b].add(a)
                        elif i.op in ('getelementptr', 'bitcast', 'alloca'):
                            pass
                        elif i.op == 'phi':
                            gen[b].add(a)
                        elif i.op == 'call' and i.x.get('f', '').startswith('llvm.lifetime'):
                            pass
                        else:
                            if a not in kill[b]:
                                gen[b].add(a)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for t in fn.succ[b]:
                    out |= live[t]
                new = gen[b] | (out - kill[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.al_live = live

    # ------------------------------------------------------------------ values
    def val(self, st, o):
        if isinstance(o, int):
            return o
        c = o[0]
        if c == '%':
            v = st.env.get(o)
            if v is None:
                return 'u' + o     # dead on this path / not tracked
            return v
        if o.startswith('c:'):
            return int(o[2:])
        if o == 'null':
            return 0
        if c == '@':
            n, _, k = o[1:].partition('+')
            return add(('g', n), int(k)) if k else ('g', n)
        if o.startswith('i2p('):
            try:
                return int(o[4:-1].replace('c:', ''))
            except ValueError:
                return 'u?'
        if o in ('poison', 'undef'):
            return 'undef'
        return 'k:' + o

    def fresh(self, st, name):
        if st.has(name):
            old = name + '~'
            if st.has(old):
                self.stale_sym(st, old)
                st.rename(old, 'u' + name)
                st.fact.pop('u' + name, None)
                st.own.pop('u' + name, None)
                st.elem.pop('u' + name, None)
                st.rel = {k: v for k, v in st.rel.items() if 'u' + name not in k}
            st.rename(name, old)
        return name

    def setv(self, st, ins, v):
        if ins.id >= 0:
            st.env['%%%d' % ins.id] = v

    def newsym(self, st, ins, prefix='s', tag=''):
        return self.fresh(st, '%s%d%s' % (prefix, ins.id if ins.id >= 0 else -1000 - (ins.bb * 1000 + ins.idx), tag))

    # ------------------------------------------------------------------ facts
    def rng(self, st, a):
        if isinstance(a, int):
            return a, a
        b, k = split(a)
        if is_sym(b):
            f = st.fact.get(b)
            if f:
                return (None if f[0] is None else f[0] + k), (None if f[1] is None else f[1] + k)
            return None, None
        if isinstance(b, tuple):
            if b[0] in ('g', 'gv', 'al', 'sl', 'it', 'st', 'ts'):
                return 1, None
            if b[0] in ('cmp', 'not', 'and', 'or'):
                return 0, 1
        return None, None
    def nonneg(self, st, a):
        lo, _ = self.rng(st, a)
        if lo is not None and lo >= 0:
            return True
        return self.zone and self.le(st, 0, a, 0)
    def is_ne(self, st, a, c):
        lo, hi = self.rng(st, a)
        if (lo is not None and lo > c) or (hi is not None and hi < c):
            return True
        b, k = split(a)
        if is_sym(b):
            f = st.fact.get(b)
            return bool(f and (c - k) in f[2])
        return False
    def setfact(self, st, sym, lo=None, hi=None, ne=None):
        f = st.fact.get(sym, (None, None, frozenset()))
        g = meet(f, (lo, hi, frozenset([ne]) if ne is not None else frozenset()))
        # normalise: excluded end points
        lo, hi, ns = g
        while lo is not None and lo in ns:
            lo += 1
        while hi is not None and hi in ns:
            hi -= 1
        ns = frozenset(x for x in ns if (lo is None or x > lo) and (hi is None or x < hi))
        if len(ns) > 4:
            ns = frozenset(sorted(ns)[:4])
        if lo is not None and hi is not None and lo > hi:
            return False
        st.fact[sym] = (lo, hi, ns)
        if lo is not None and lo == hi:
            if sym in st.own and lo == 0:
                st.own.pop(sym)
            st.rename(sym, lo)
        return True

    # difference constraints: rel[(a,b)] = c  means  a - b <= c   (zone mode)
    def le(self, st, a, b, c, depth=6):
        """is a - b <= c implied?"""
        (x, k), (y, l) = split(a), split(b)
        c = c - k + l            # x - y <= c
        if x == y:
            return c >= 0
        if x is None:
            lo = self.rng(st, y)[0] if y is not None else 0
            if lo is not None and -lo <= c:
                return True
        if y is None:
            hi = self.rng(st, x)[1]
            if hi is not None and hi <= c:
                return True
        if not st.rel:
            return self._iv_le(st, x, y, c)
        # search shortest path x -> y
        best = {x: 0}
        front = [x]
        for _ in range(depth):
            nf = []
            for n in front:
                d = best[n]
                for (p, q), w in st.rel.items():
                    if p == n:
                        nd = d + w
                        if q not in best or best[q] > nd:
                            best[q] = nd
                            nf.append(q)
                # through the constant zero
                if n is not None:
                    hi = self.rng(st, n)[1]
                    if hi is not None:
                        nd = d + hi
                        if None not in best or best[None] > nd:
                            best[None] = nd
                            nf.append(None)
                else:
                    for s, f in st.fact.items():
                        if f[0] is not None:
                            nd = d - f[0]
                            if s not in best or best[s] > nd:
                                best[s] = nd
                                nf.append(s)
            if y in best and best[y] <= c:
                return True
            if not nf:
                break
            front = nf
        return y in best and best[y] <= c
    def _iv_le(self, st, x, y, c):
        hx = 0 if x is None else self.rng(st, x)[1]
        ly = 0 if y is None else self.rng(st, y)[0]
        return hx is not None and ly is not None and hx - ly <= c
    def addrel(self, st, a, b, c):
        """assume a - b <= c"""
        (x, k), (y, l) = split(a), split(b)
        c = c - k + l
        if x == y:
            return c >= 0
        if x is None and y is None:
            return 0 <= c
        if x is None:
            if is_sym(y):
                return self.setfact(st, y, lo=-c)
            return True
        if y is None:
            if is_sym(x):
                return self.setfact(st, x, hi=c)
            return True
        if self.zone and self.le(st, y, x, -c - 1):
            return False
        # symbol to symbol, only small bounds travel: otherwise two symbols compared in a loop push each
        # other's bounds up by one forever
        hy = self.rng(st, y)[1]
        if hy is not None and not self.zone and hy + c > 16:
            hy = None
        if hy is not None and is_sym(x) and not self.setfact(st, x, hi=hy + c):
            return False
        lx = self.rng(st, x)[0]
        if lx is not None and not self.zone and lx - c > 8:
            lx = 8 + c
        if lx is not None and is_sym(y) and not self.setfact(st, y, lo=lx - c):
            return False
        if self.zone and is_sym(x) and is_sym(y) and st.has(x) and st.has(y):
            if (x, y) not in st.rel or st.rel[(x, y)] > c:
                st.rel[(x, y)] = c
        return True

    def decide(self, st, pred, a, b):
        """truth of a pred b, or None"""
        if pred in ('ne', 'sge', 'sgt', 'uge', 'ugt'):
            r = self.decide(st, NEG[pred], a, b)
            return None if r is None else not r
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return a == b
            if pred == 'slt':
                return a < b
            if pred == 'sle':
                return a <= b
            M = 1 << 64
            ua, ub = a % M, b % M
            return ua < ub if pred == 'ult' else ua <= ub
        if pred == 'eq':
            if a == b:
                return True
            ta, tb = (a[0] if isinstance(a, tuple) else None), (b[0] if isinstance(b, tuple) else None)
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int):
                    if isinstance(p, tuple) and p[0] in ('cmp', 'not', 'and', 'or'):
                        t = self.truth(st, p)
                        if q in (0, 1):
                            return None if t is None else (t == bool(q))
                        return False
                    if self.is_ne(st, p, q):
                        return False
            if ta in ('g', 'gv', 'al') and tb in ('g', 'gv', 'al') and a != b:
                return False
            if ta == 'it' and tb == 'it' and a[1] == b[1]:
                return self.decide(st, 'eq', a[2], b[2])
            if ta == 'sl' and tb == 'sl' and a[1] == b[1]:
                return self.decide(st, 'eq', a[2], b[2])
            (x, k), (y, l) = split(a), split(b)
            if x == y and k != l:
                return False
            ra, rb = self.rng(st, a), self.rng(st, b)
            if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
                return False
            if rb[1] is not None and ra[0] is not None and rb[1] < ra[0]:
                return False
            if self.zone:
                if self.le(st, a, b, -1) or self.le(st, b, a, -1):
                    return False
                if self.le(st, a, b, 0) and self.le(st, b, a, 0):
                    return True
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('sl', 'it') and a[1] == b[1]:
            return self.decide(st, {'ult': 'slt', 'ule': 'sle'}.get(pred, pred), a[2], b[2])
        if pred in ('ult', 'ule'):
            if self.nonneg(st, a) and self.nonneg(st, b):
                pred = 's' + pred[1:]
            elif b == 0:
                return False if pred == 'ult' else None
            elif isinstance(b, int) and b == -1 and pred == 'ule':
                return True
            else:
                return None
        if pred == 'slt':
            if self.le(st, a, b, -1):
                return True
            if self.le(st, b, a, 0):
                return False
        elif pred == 'sle':
            if self.le(st, a, b, 0):
                return True
            if self.le(st, b, a, -1):
                return False
        return None

    def truth(self, st, c):
        if isinstance(c, int):
            return bool(c & 1) if c in (0, 1, -1) else bool(c)
        if isinstance(c, tuple):
            t = c[0]
            if t == 'cmp':
                return self.decide(st, c[1], c[2], c[3])
            if t == 'not':
                r = self.truth(st, c[1])
                return None if r is None else not r
            if t == 'and':
                x, y = self.truth(st, c[1]), self.truth(st, c[2])
                if x is False or y is False:
                    return False
                return True if x and y else None
            if t == 'or':
                x, y = self.truth(st, c[1]), self.truth(st, c[2])
                if x or y:
                    return True
                return False if x is False and y is False else None
            if t in ('g', 'gv', 'al', 'sl', 'it'):
                return True
        if is_sym(c):
            if self.is_ne(st, c, 0):
                return True
        return None

    def assume(self, st, c, t):
        """refine st with c == t; False if infeasible"""
        r = self.truth(st, c)
        if r is not None:
            return r == t
        if isinstance(c, tuple):
            k = c[0]
            if k == 'not':
                return self.assume(st, c[1], not t)
            if k == 'cmp':
                return self.assume_cmp(st, c[1] if t else NEG[c[1]], c[2], c[3])
            if k == 'and':
                return (self.assume(st, c[1], True) and self.assume(st, c[2], True)) if t else self.assume_or(st, ('not', c[1]), ('not', c[2]))
            if k == 'or':
                return self.assume_or(st, c[1], c[2]) if t else (self.assume(st, c[1], False) and self.assume(st, c[2], False))
            return True
        if is_sym(c):
            return self.setfact(st, c, lo=1, hi=1) if t else self.setfact(st, c, lo=0, hi=0)
        return True
    def assume_or(self, st, a, b):
        if self.truth(st, a) is False:
            return self.assume(st, b, True)
        if self.truth(st, b) is False:
            return self.assume(st, a, True)
        return True

    def assume_cmp(self, st, pred, a, b):
        # truth values compared with 0/1
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and p[0] in ('cmp', 'not', 'and', 'or') and isinstance(q, int):
                if pred == 'eq' and q in (0, 1):
                    return self.assume(st, p, bool(q))
                if pred == 'ne' and q in (0, 1):
                    return self.assume(st, p, not q)
                if p is a and pred in ('sgt', 'ugt') and q == 0:
                    return self.assume(st, p, True)
                if p is a and pred == 'slt' and q == 1:
                    return self.assume(st, p, False)
                return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('it', 'sl') and a[1] == b[1]:
            return self.assume_cmp(st, {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), a[2], b[2])
        if pred in ('sgt', 'sge', 'ugt', 'uge'):
            return self.assume_cmp(st, {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[pred], b, a)
        if pred == 'eq':
            (x, k), (y, l) = split(a), split(b)
            if x is None and is_sym(y):
                return self.setfact(st, y, lo=k - l, hi=k - l)
            if y is None and is_sym(x):
                return self.setfact(st, x, lo=l - k, hi=l - k)
            if is_sym(x) and is_sym(y):
                if k == l and (x[0] == 'o' or y[0] == 'o') and self.merge_ok(st, x, y):
                    # same object: one name for both
                    f, g = st.fact.get(x), st.fact.get(y)
                    if x in st.elem and y not in st.elem:
                        x, y = y, x
                    st.rename(y, x)
                    return True
                return self.addrel(st, a, b, 0) and self.addrel(st, b, a, 0)
            if is_sym(x) and isinstance(y, tuple) and y[0] in ('g', 'gv') and l == 0 and k == 0:
                if x in st.own:
                    st.own.pop(x)
                st.rename(x, y)
                return True
            if is_sym(y) and isinstance(x, tuple) and x[0] in ('g', 'gv') and l == 0 and k == 0:
                return self.assume_cmp(st, 'eq', b, a)
            return True
        if pred == 'ne':
            (x, k), (y, l) = split(a), split(b)
            if x is None and is_sym(y):
                return self.setfact(st, y, ne=k - l)
            if y is None and is_sym(x):
                return self.setfact(st, x, ne=l - k)
            if self.zone:
                # a != b and a <= b  gives  a < b
                if self.le(st, a, b, 0):
                    return self.addrel(st, a, b, -1)
                if self.le(st, b, a, 0):
                    return self.addrel(st, b, a, -1)
            return True
        if pred in ('ult', 'ule'):
            d = -1 if pred == 'ult' else 0
            if self.nonneg(st, b):
                (x, k) = split(a)
                if is_sym(x) and not self.setfact(st, x, lo=-k):
                    return False
                return self.addrel(st, a, b, d)
            if self.nonneg(st, a):
                # b may be huge when seen as unsigned: nothing about the signed order unless b >= 0
                return True
            return True
        if pred == 'slt':
            return self.addrel(st, a, b, -1)
        if pred == 'sle':
            return self.addrel(st, a, b, 0)
        return True
    def merge_ok(self, st, x, y):
        return True

    # ------------------------------------------------------------------ references
    def objlike(self, st, a):
        return is_sym(a) and a[0] == 'o'
    def inc(self, st, a, ins, n=1):
        self.refevents += 1
        if st.gil:
            self.report('gil', 'changes a reference count without the GIL', ins, key='refcount')
        if is_sym(a) and a[0] != 'u' and not a.startswith('undef'):
            self.ownadd(st, a, n)
    def ownadd(self, st, s, n):
        o = st.own.get(s, 0) + n
        if o:
            st.own[s] = max(-3, min(4, o))
        else:
            st.own.pop(s, None)
    def dec(self, st, a, ins):
        self.refevents += 1
        if st.gil:
            self.report('gil', 'changes a reference count without the GIL', ins, key='refcount')
        if a == 0:
            self.report('nullderef', 'decrements the reference count of a null pointer', ins, key='dec-null')
            return
        if is_sym(a) and a[0] != 'u' and not a.startswith('undef'):
            if self.role.get('dying') and st.x.get(('fld', a), -1) >= 0:
                k = ('fld', a)
                self.sh.setdefault('released', {}).setdefault((self.fn.name, st.x[k]), set()).add(self.where(ins))
                if st.x.get(('rel', a)):
                    self.report('ref', 'releases a field twice', ins, key='rel2')
                st.x[('rel', a)] = 1
                return
            if self.may_die(st, a):
                self.pyrun(st, ins, 'releasing an object', of=a)
            self.ownadd(st, a, -1)
    def may_die(self, st, a):
        if a in st.elem:
            return not st.x.get(('plain', a)) and (st.own.get(a, 0) <= 0 or st.own.get(a, 0) == 1)
        if a.startswith('oa'):
            return False
        if st.x.get(('plain', a)):
            return False
        return st.own.get(a, 0) <= 1

    def stale_sym(self, st, s):
        """symbol s is no longer referenced by the program: settle its reference count"""
        o = st.own.get(s, 0)
        if not o:
            st.elem.pop(s, None)
            return
        e = st.elem.get(s)
        st.own.pop(s, None)
        st.elem.pop(s, None)
        if e is not None:
            self.bulk_note(st, e[0], self.bsite(s), o)
            return
        if s.startswith('oa') or s.startswith('uo'):
            # parameters stay alive until the end
            st.own[s] = o
            return
        if o > 0:
            self.report('ref', 'reference acquired here is never released', self.symsite(s), 'object from %s' % self.symdesc(s), key='leak:' + self.symdesc(s))
        else:
            self.report('ref', 'releases a reference it does not own', self.symsite(s), 'object from %s' % self.symdesc(s), key='over:' + self.symdesc(s))
    # Aggregated references to the elements of containers: bulk[(c, site)] = (n, source, count) says that what
    # happened at `site` (a load inside a loop over c, or a block copy into c) changed the balance of every
    # element by n.  Containers filled from one another are accounted together.
    def bsite(self, s):
        return ('si', '#' + s.lstrip('u').rstrip('~'))
    def bulk_note(self, st, c, site, n, src=None, cnt=None):
        if self.islocal(c) and not st.x.get(('lo', c)) and n < 0 and site[0] == 'cp':
            return
        old = st.bulk.get((c, site))
        if old is None or abs(n) >= abs(old[0]):
            st.bulk[(c, site)] = (max(-2, min(2, n)), src, cnt)
    def bulk_group(self, st, c):
        g = {c}
        ch = True
        while ch:
            ch = False
            for (d, site), (n, src, cnt) in st.bulk.items():
                if src is not None and (d in g) != (src in g):
                    g |= {d, src}
                    ch = True
        return g
    def bulk_void(self, st, key, v):
        c = key[0]
        if key[1][0] != 'si' and self.known_empty(st, c) or self.local_borrow(st, c):
            return True
        if key[1][0] == 'si' and self.known_empty(st, c):
            return True
        if v[1] is not None and self.known_empty(st, v[1]):
            return True
        cnt = v[2]
        if isinstance(cnt, tuple) and cnt and cnt[0] == 'szof':
            cnt = st.mem.get(('sz', cnt[1]))
        return cnt is not None and self.known_zero(st, cnt)
    def bulk_total(self, st, g, hand=True):
        t = []
        keys = set()
        for k, v in st.bulk.items():
            if k[0] in g:
                keys.add(k)
                if not self.bulk_void(st, k, v):
                    t.append((k, v[0]))
        if hand:
            for e, (c, i) in st.elem.items():
                o = st.own.get(e, 0)
                if o and c in g:
                    k = (c, self.bsite(e))
                    if k not in keys:
                        keys.add(k)
                        t.append((k, o))
        return self.together(t)
    def together(self, items):
        """balance per element of what happened at several places; places that visit only some of the elements (the
        rest of a range, every other one) visit different ones"""
        t, part = 0, {}
        full = {}
        for k, n in items:
            if k[1][0] == 'si' and len(items) > 1 and self.partial(k[1]):
                q = (k[0], n > 0)
                part[q] = n if q not in part else max(part[q], n, key=abs)
            elif k[1][0] == 'si':
                q = (k[0], n > 0)
                full[q] = full.get(q, 0) + n
            else:
                t += n
        for q in set(part) | set(full):
            t += max(part.get(q, 0), full.get(q, 0), key=abs)
        return t
    def partial(self, site):
        t = self.__dict__.setdefault('_partial', {})
        if site not in t:
            t[site] = self.partial_(site)
        return t[site]
    def partial_(self, site):
        """does the load visit only some of the elements of a loop's range?"""
        d = self.symsite(site[1].lstrip('#'))
        if d is None or d.op != 'load' or not isinstance(d.ops[0], str):
            return False
        a = self.fn.defs.get(d.ops[0])
        if a is not None and a.op in ('call', 'invoke') and a.ops:
            o = a.ops[-1] if len(a.ops) > 1 else None       # operator[](vector, index)
            if o is None:
                return False
        elif a is not None and a.op == 'getelementptr':
            if a.x.get('off') is not None and a.x['off'] != 0 and not a.x.get('sty', '').startswith('%struct'):
                return True
            o = a.ops[-1] if a.x.get('off') is None else a.ops[0]
        else:
            o = d.ops[0]
        for _ in range(6):
            x = self.fn.defs.get(o) if isinstance(o, str) else None
            if x is None:
                return False
            if x.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
                o = x.ops[0]
            elif x.op in ('add', 'sub', 'or') and any(isinstance(y, str) and y.startswith('c:') and y != 'c:0' for y in x.ops):
                y = [z for z in x.ops if not (isinstance(z, str) and z.startswith('c:'))]
                z = self.fn.defs.get(y[0]) if len(y) == 1 else None
                # i - 1 in a loop that counts down is the usual way
                if z is not None and z.op == 'phi' and '%%%d' % x.id in z.ops:
                    o = '%%%d' % z.id
                else:
                    return True
            elif x.op == 'phi':
                for k in range(0, len(x.ops), 2):
                    v = x.ops[k]
                    y = self.fn.defs.get(v) if isinstance(v, str) else None
                    if y is None:
                        continue
                    if y.op == 'phi' and y is not x:
                        return True         # goes on where another loop ended
                    if y.op in ('add', 'sub') and '%%%d' % x.id in y.ops:
                        c = [z for z in y.ops if isinstance(z, str) and z.startswith('c:')]
                        if not c or c[0] not in ('c:1', 'c:-1'):
                            return True
                    if y.op == 'getelementptr' and '%%%d' % x.id == y.ops[0]:
                        if y.x.get('off') not in (8, -8):
                            return True
                return False
            else:
                return False
        return False
    def bulk_totals(self, st, g):
        """balance per element of every source of copies within group g"""
        inc, cps = {}, []
        keys = set()
        for k, v in st.bulk.items():
            c, site = k
            if c not in g:
                continue
            keys.add(k)
            if self.bulk_void(st, k, v):
                continue
            if site[0] == 'si':
                inc.setdefault(c, []).append((k, v[0]))
            else:
                cps.append((c, v[1], v[0]))
        for e, (c, i) in st.elem.items():
            o = st.own.get(e, 0)
            if o and c in g:
                k = (c, self.bsite(e))
                if k not in keys:
                    keys.add(k)
                    inc.setdefault(c, []).append((k, o))
        inc = {c: self.together(l) for c, l in inc.items()}
        for d in g:
            if isinstance(d, tuple) and d[0] == 'blk' and st.x.get(('lo', d)):
                inc[d] = inc.get(d, 0) + 1      # the private array's own references
        out, used = [], set()
        for src in {s for d, s, n in cps if s is not None}:
            used.add(src)
            t = inc.get(src, 0)
            for d, s, n in cps:
                if s == src:
                    used.add(d)
                    t += n + (inc.get(d, 0) if d != src else 0)
            out.append(t)
        for d, s, n in cps:
            if s is None:
                used.add(d)
                out.append(n + inc.get(d, 0))
        return out + [t for c, t in inc.items() if c not in used]
    def bulk_gain(self, st, c):
        """references taken per element of a private container, whoever owns the elements"""
        keys = {k: v[0] for k, v in st.bulk.items() if k[0] == c}
        for e, (d, i) in st.elem.items():
            o = st.own.get(e, 0)
            if o and d == c:
                keys.setdefault((c, self.bsite(e)), o)
        return self.together(list(keys.items()))
    def bulk_move(self, st, c, d):
        for k in [k for k in st.bulk if k[0] == c]:
            st.bulk[(d, k[1])] = st.bulk.pop(k)
    def settle(self, st, c):
        """a private container of borrowed references whose every element was incremented owns them"""
        if not self.local_borrow(st, c) or not st.x.get(('lb', c)):
            return
        if not self.known_empty(st, c):
            if self.bulk_group(st, c) != {c} or self.bulk_gain(st, c) != 1:
                return
            for e, (d, i) in list(st.elem.items()):
                if d == c:
                    st.own.pop(e, None)
                    del st.elem[e]
            self.bulk_clear(st, c)
        st.x.pop(('lb', c))
        st.x.pop(('lbs', c), None)
        st.x[('lo', c)] = 1
    def bulk_clear(self, st, c):
        for k in [k for k in st.bulk if k[0] == c]:
            del st.bulk[k]

    def symsite(self, s):
        m = re.match(r'[a-zA-Z]+?(-?\d+)', s.lstrip('u'))
        if m:
            n = int(m.group(1))
            if n >= 0:
                d = self.fn.defs.get('%%%d' % n)
                if d is not None:
                    return d
            else:
                n = -n - 1000
                try:
                    return self.fn.bbs[n // 1000][n % 1000]
                except IndexError:
                    pass
        return None
    def symdesc(self, s):
        if s.startswith('oa'):
            return 'argument ' + s[2:].rstrip('~')
        d = self.symsite(s)
        if d is None:
            return s
        if d.x.get('f'):
            c = self.p.callees[d.x['f']]
            return c.base if c.kind in ('api', 'c') else (c.meth or c.d[:40])
        return d.op

    # ------------------------------------------------------------------ interpreter re-entry
    def pyrun(self, st, ins, what, of=None):
        """arbitrary Python code may run: everything reachable from the heap may have changed"""
        drop = []
        mine = {k[1] for k in st.x if isinstance(k, tuple) and k[0] == 'newobj'}
        if self.role.get('dying'):
            mine.add('oa0')     # nobody else holds a reference any more
        shared = lambda c: not (self.islocal(c) or (mine and split(c)[0] in mine))
        for k in st.mem:
            if k[0] == 'sz':
                if shared(k[1]):
                    drop.append(k)
            elif k[0] == 'sl':
                if shared(k[1]):
                    drop.append(k)
            elif not (isinstance(k[0], tuple) and k[0][0] == 'al') and k[0] not in ('f',):
                b = k[0]
                if is_sym(b) and not st.x.get(('fresh', b)) and b not in mine:
                    drop.append(k)
        for k in drop:
            del st.mem[k]
        # iterators and element pointers into shared containers
        self.make_stale(st, shared, ('it', 'sl'), what)
    def islocal(self, c):
        b, _ = split(c)
        if isinstance(b, tuple) and b[0] == 'al':
            return True
        if isinstance(b, tuple) and b[0] == 'blk':
            return is_sym(b[1]) and b[1][0] == 'm'     # private allocation
        return False
    def make_stale(self, st, pred, kinds, why, exact=None):
        def f(a):
            if isinstance(a, tuple):
                if a[0] in kinds and pred(a[1]) and (exact is None or a[2] == exact):
                    if a[0] == 'sl' and isinstance(a[1], tuple) and a[1][0] == 'blk' and not (is_sym(a[1][1]) and a[1][1][0] == 'K'):
                        return a
                    return ('st', a, why)
                if a[0] == 'st':
                    return a
                return tuple(f(x) if isinstance(x, tuple) else x for x in a)
            return a
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {k: f(v) for k, v in st.mem.items()}

    # ------------------------------------------------------------------ containers
    def size(self, st, c, ins):
        k = ('sz', c)
        v = st.mem.get(k)
        if v is None and st.x.get(('newobj', split(c)[0])) and ('seen', c) not in st.x:
            st.mem[k] = v = 0
            st.x[('seen', c)] = 1
        if v is None:
            v = self.fresh(st, 'z%d' % (ins.id if ins.id >= 0 else 100000 + ins.bb * 1000 + ins.idx))
            st.mem[k] = v
            self.setfact(st, v, lo=0)
        return v
    def setsize(self, st, c, v):
        if ('newobj', split(c)[0]) in st.x:
            st.x[('seen', c)] = 1
        if v is None:
            st.mem.pop(('sz', c), None)
        else:
            st.mem[('sz', c)] = v
    def owning(self, c_elem):
        return c_elem is not None and c_elem.replace(' ', '').startswith('_object*')
    def drop_slots(self, st, c):
        for k in [k for k in st.mem if k[0] == 'sl' and k[1] == c]:
            del st.mem[k]
    def known_empty(self, st, c):
        v = st.mem.get(('sz', c))
        if v is None and ('newobj', split(c)[0]) in st.x and ('seen', c) not in st.x:
            return True
        return v is not None and self.rng(st, v)[1] == 0
    def known_zero(self, st, v):
        return v is not None and self.rng(st, v)[1] is not None and self.rng(st, v)[1] <= 0

    def load_elem(self, st, ins, c, idx, owning, isobj):
        k = ('sl', c, idx)
        v = st.mem.get(k)
        if v is not None:
            return v
        if isobj and ('zeroed', c) in st.x and not st.x.get(('lo', c)) and not st.x.get(('lb', c)):
            return 0            # nothing has been stored in this calloc()ed block
        s = self.newsym(st, ins, 'oe' if isobj else 'L')
        st.mem[k] = s
        if isobj:
            if st.x.get(('ef', c)):
                st.x[('fits', s)] = st.x[('ef', c)]
                st.x[('istype', s)] = 'int'
                st.x[('plain', s)] = 1
            st.elem[s] = (c, idx)
            if owning:
                self.setfact(st, s, lo=1)
        return s

    def adopt(self, st, c, idx, ins, what):
        """the container gives up its element at idx: the function now holds that reference"""
        if isinstance(c, tuple) and self.local_borrow(st, c):
            return
        v = st.mem.get(('sl', c, idx))
        if v is not None and is_sym(v) and v[0] == 'o':
            self.ownadd(st, v, 1)
            st.elem.pop(v, None)
            return
        if v == 0:
            return
        cand = [s for s, e in st.elem.items() if e[0] == c and e[1] == idx]
        if not cand:
            cand = [s for s, e in st.elem.items() if e[0] == c and st.own.get(s, 0) < 0]
        if not cand and (idx is None or (is_sym(idx) and idx[0] == 'u')):
            cand = [s for s, e in st.elem.items() if e[0] == c]
        if cand:
            s = sorted(cand)[0]
            self.ownadd(st, s, 1)
            st.elem.pop(s, None)
            return
        if self.bulk_total(st, self.bulk_group(st, c)) < 0:
            return
        # equal-valued argument released instead?  (find by identity)
        s = self.newsym(st, ins, 'od', 'x')
        st.own[s] = 1
        st.x[('dropped', s)] = what
        st.mem[('sl', c, ('gone', idx))] = s

    def consume(self, st, c, v, ins):
        """v is stored in an owning container"""
        if not (is_sym(v) and v[0] == 'o'):
            return
        if self.islocal(c):
            f = st.x.get(('fits', v), 0)
            st.x[('ef', c)] = f if ('ef', c) not in st.x else max(f, st.x[('ef', c)]) if f and st.x[('ef', c)] else 0
            if st.own.get(v, 0) >= 1 and not st.x.get(('lb', c)):
                self.ownadd(st, v, -1)
                st.x[('lo', c)] = 1
            else:
                st.x[('lb', c)] = 1
                if v in st.elem and not self.islocal(st.elem[v][0]):
                    st.x[('lbs', c)] = (st.elem[v][0], None, None)
            return
        self.ownadd(st, v, -1)
    def local_borrow(self, st, c):
        return self.islocal(c) and not st.x.get(('lo', c))

    def bulk_copy(self, st, d, s, cnt, ins):
        """elements of s (count cnt) are now also held by d, without having been counted"""
        if cnt is not None and self.known_zero(st, cnt):
            return
        if s is not None and self.known_empty(st, s):
            return
        if self.islocal(d):
            st.x[('ef', d)] = 0
            st.x[('lb', d)] = 1
            if s is not None and not self.islocal(s):
                st.x[('lbs', d)] = (s, None, None)
            return
        if s is not None and self.islocal(s) and st.x.get(('lo', s)):
            st.x.pop(('lo', s), None)   # moved
            return
        self.bulk_note(st, d, ('cp', ins.bb, ins.idx), -1, s, cnt if cnt is not None else (('szof', s) if s is not None else None))

    def bulk_drop(self, st, c, ins, what, rng=None):
        """the container forgets (all) its elements"""
        if self.known_empty(st, c):
            self.bulk_clear(st, c)
            return
        if self.local_borrow(st, c):
            g = sorted(self.bulk_group(st, c) - {c}, key=str)
            if g:       # copies of these elements are still accounted for elsewhere
                self.bulk_move(st, c, g[0])
            elif self.bulk_gain(st, c) > 0:
                self.report('ref', '%s although references to its elements were taken' % what, ins, key='bulkgain:' + what)
            self.bulk_clear(st, c)
            return
        t = self.bulk_total(st, {c})
        if t >= 0:
            for k in sorted((k for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'lbs' and v[0] == c), key=str):
                # a private copy of what is dropped takes over the references
                _, i, n = st.x[k]
                if rng and i is not None and self.decide(st, 'slt', rng[0], i) is True:
                    continue
                st.x.pop(('lb', k[1]), None)
                st.x[('lo', k[1])] = 1
                return
            self.report('ref', '%s without releasing the elements' % what, ins, key='bulkdrop:' + what)
        for e, (cc, i) in list(st.elem.items()):
            if cc == c and st.own.get(e, 0) < 0:
                st.own.pop(e)
                st.elem.pop(e)
        self.bulk_clear(st, c)
        st.x.pop(('lo', c), None)
        st.x.pop(('lb', c), None)
        st.x.pop(('lbs', c), None)

    # ------------------------------------------------------------------ block entry
    def initials(self):
        """one state per combination of absent optional arguments"""
        opt = [k for k, p in enumerate(self.role['params']) if p == 'obj?' and k < len(self.fn.args)]
        out = []
        for m in range(1 << len(opt)):
            out.append(self.initial({k for j, k in enumerate(opt) if m >> j & 1}))
        return out
    def initial(self, absent=()):
        st = State()
        fn, role = self.fn, self.role
        for k, ty in enumerate(fn.args):
            s = 'a%d' % k
            kind = role['params'][k] if k < len(role['params']) else ('int' if ty != 'ptr' else 'ptr')
            if kind == 'obj':
                s = 'oa%d' % k
                st.fact[s] = (1, None, frozenset())
            elif kind == 'obj?':
                s = 'oa%d' % k
                if k in absent:
                    s = 0
                else:
                    st.fact[s] = (1, None, frozenset())
            elif kind == 'null':
                s = 0
            elif kind == 'args':
                st.fact[s] = (1, None, frozenset())
            elif kind == 'ptr':
                st.fact[s] = (1, None, frozenset())
            elif kind == 'nargs':
                st.fact[s] = (0, None, frozenset())
            st.env['%%%d' % k] = s
        if role.get('dying'):
            st.x['dying'] = 1
        return st

    def phi_in(self, st, b, pred):
        bb = self.fn.bbs[b]
        upd = {}
        for i in bb:
            if i.op != 'phi':
                break
            for k in range(0, len(i.ops), 2):
                if i.ops[k + 1] == pred:
                    upd[i] = self.val(st, i.ops[k])
                    break
        return upd

    def enter(self, st, b, pred):
        fn = self.fn
        upd = self.phi_in(st, b, pred) if pred is not None else {}
        loops = fn.loops()
        back = pred is not None and b in loops and pred in loops[b]
        if back:
            n = self.visits.get(b, 0) + 1
            self.visits[b] = n
            snap = st.x.get(('snap', b))
            if snap is not None:
                # containers of an object made before the loop that were not looked at by then were empty
                new = [(k, 0) for k in st.mem if k[0] == 'sz' and self.fresh_before(st, k, b) and all(k != x for x, _ in snap)]
                if new:
                    snap = tuple(sorted(snap + tuple(new), key=repr))
                    st.x[('snap', b)] = snap
            snap = dict(snap) if snap else None
            ph = dict(st.x.get(('ph', b), ()))
            # (key of the new value, name, old value, new value, type)
            items = []
            for i, v in upd.items():
                k = '?%d' % i.id
                st.env[k] = v
                old = st.env.get('%%%d' % i.id)
                if old is None:
                    old = ph.get(i.id)
                if isinstance(v, int) and isinstance(old, int) and not self.recurrent(i):
                    continue
                items.append((('e', k, i.id), 'w%d' % i.id, old, v, i.ty))
            # memory cells holding positions
            for k, v in st.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == 'al' and k[0][1] in self.al_live[b]:
                    items.append((('m', k), 'w%da%d_%d' % (b, k[0][1], k[1]), snap.get(k) if snap else None, v, ''))
                elif k[0] == 'sz' and snap:
                    old = snap.get(k)
                    if old is not None and old != v:
                        items.append((('m', k), 'w%dz%s' % (b, self.sid(k)), old, v, 'i64'))
            self.widen_all(st, b, items, n)
            for i in list(upd):
                upd[i] = st.env.pop('?%d' % i.id)
        for i, v in upd.items():
            st.env['%%%d' % i.id] = v
        # forget dead values
        live = fn.live_in()[b]
        keep = set(live)
        for i in upd:
            keep.add('%%%d' % i.id)
        env = {k: v for k, v in st.env.items() if k in keep}
        st.env = env
        al = self.al_live[b]
        for k in [k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == 'al' and k[0][1] not in al]:
            del st.mem[k]
        for k in [k for k in st.mem if k[0] in ('sl', 'sz')]:
            base, _ = split(k[1])
            if isinstance(base, tuple) and base[0] == 'al' and base[1] not in al:
                del st.mem[k]
        if b in loops:
            snap = tuple(sorted(((k, v) for k, v in st.mem.items() if (isinstance(k[0], tuple) and k[0][0] == 'al') or k[0] == 'sz'), key=repr))
            st.x[('snap', b)] = snap
            st.x[('ph', b)] = tuple(sorted(((i.id, v) for i, v in upd.items() if i.ty in ('i64', 'i32') and (isinstance(v, int) or is_sym(split(v)[0]))), key=repr))
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] in ('snap', 'ph') and k[1] != b and b not in loops.get(k[1], ())]:
            del st.x[k]
        self.collect(st)
        return st

    def fresh_before(self, st, k, b):
        o = split(k[1])[0]
        if not is_sym(o) or ('newobj', o) not in st.x:
            return False
        d = self.symsite(o)
        loops = self.fn.loops()
        if any(h != b and (h in loops[b] or b in loops[h]) for h in loops):
            return False        # loops within loops: nothing is said about what was there before
        return d is not None and d.bb not in loops[b]
    def widen_all(self, st, b, items, n):
        self.wsyms = {split(p)[0] for it in items for p in (posn(it[2]), posn(it[3])) if p is not None}
        for key, name, old, new, ty in items:
            if old is None or old == new:
                continue
            cur = self.wget(st, key)
            # the current names of the old value
            if key[0] == 'e':
                o = st.env.get('%%%d' % key[2])
                if o is None:
                    o = dict(st.x.get(('ph', b), ())).get(key[2])
            else:
                o = dict(st.x.get(('snap', b), ())).get(key[1])
            w = self.widen(st, name, o, cur, ty, n)
            self.wput(st, key, w)
            if key[0] == 'm' and key[1][0] == 'sz' and is_sym(w):
                self.setfact(st, w, lo=0)
    def wget(self, st, key):
        return (st.env if key[0] == 'e' else st.mem).get(key[1])
    def wput(self, st, key, v):
        if key[0] == 'e':
            st.env[key[1]] = v
        elif key[1] in st.mem:
            st.mem[key[1]] = v

    def recurrent(self, phi):
        """the phi is computed from its own previous value"""
        t = self.__dict__.setdefault('_rec', {})
        if phi.id not in t:
            seen, work, r = set(), list(phi.ops[::2]), False
            while work:
                o = work.pop()
                if o == '%%%d' % phi.id:
                    r = True
                    break
                d = self.fn.defs.get(o) if isinstance(o, str) else None
                if d is None or o in seen or d.op in ('load', 'call', 'invoke', 'icmp', 'alloca'):
                    continue
                seen.add(o)
                work += d.ops[::2] if d.op == 'phi' else d.ops
            t[phi.id] = r
        return t[phi.id]
    def sid(self, k):
        t = self.sh.setdefault(('sid', self.fn.name), {})
        return t.setdefault(repr(k), len(t))

    def widen(self, st, name, old, new, ty, n):
        if old == new or old is None:
            return new
        # iterators / slots: widen the position
        if isinstance(new, tuple) and isinstance(old, tuple) and new[0] == old[0] and new[0] in ('it', 'sl') and new[1] == old[1]:
            return (new[0], new[1], self.widen(st, name, old[2], new[2], 'i64', n))
        if isinstance(new, tuple) and new[0] == 'rc':
            return new
        if isinstance(new, int) and isinstance(old, int):
            if ty in ('i1', 'ptr', 'i8'):
                return new
            up = new > old
            if n > 40 or True:
                w = self.general(st, name, new)
                if up:
                    self.setfact(st, w, lo=new)
                else:
                    self.setfact(st, w, hi=new)
                return w
        ob, ok = split(old)
        nb, nk = split(new)
        if nb is None and is_sym(ob):
            return new          # reset to a constant
        if ty == 'ptr' and not (is_sym(nb) and nb == ob):
            return new
        if is_sym(nb):
            base = nb
            if ob == base and base != name and nk != ok:
                # s -> s+k : first widening
                lo, hi = self.rng(st, new)
                olo, ohi = self.rng(st, old)
                w = self.general(st, name, new)
                if nk > ok:
                    if olo is not None:
                        self.setfact(st, w, lo=olo + 1)
                elif ohi is not None:
                    self.setfact(st, w, hi=ohi - 1)
                return w
            if base == name:
                if nk == 0:
                    return new
                # w -> w+k
                f = st.fact.get(name, (None, None, frozenset()))
                lo, hi = (f[0], None) if nk > 0 else (None, f[1])
                w = self.general(st, name, new)     # old one becomes name~
                if lo is not None or hi is not None:
                    self.setfact(st, w, lo=lo, hi=hi)
                return w
            if nk != 0 and nb.endswith('~') and nb[:-1] == name:
                return self.fresh(st, name)
            if n > 24 and ty in ('i64', 'i32', '') and base[0] not in 'om':
                # keep only the sign
                lo, hi = self.rng(st, new)
                w = self.fresh(st, name)
                if lo is not None and lo >= 0:
                    self.setfact(st, w, lo=0)
                if hi is not None and hi <= 0:
                    self.setfact(st, w, hi=0)
                return w
        return new
    def general(self, st, name, new):
        """a fresh symbol that stands for the value new; keeps only small differences to other positions and sizes"""
        if not self.zone:
            w = self.fresh(st, name)
            st.fact.pop(w, None)
            return w
        ys = set(self.wsyms)
        for k, v in st.mem.items():
            if k[0] == 'sz':
                ys.add(split(v)[0])
        for (a, b) in st.rel:
            ys.add(a)
            ys.add(b)
        nb = split(new)[0]
        rel = []
        for y in ys:
            if not is_sym(y) or y == name or y[0] == 'o':
                continue
            for c in (-1, 0, 1):
                if self.le(st, new, y, c):
                    rel.append((0, y, c))
                    break
            for c in (-1, 0, 1):
                if self.le(st, y, new, c):
                    rel.append((1, y, c))
                    break
        w = self.fresh(st, name)
        st.fact.pop(w, None)
        for k in [k for k in st.rel if w in k]:
            del st.rel[k]
        for d, y, c in rel:
            st.rel[(w, y) if d == 0 else (y, w)] = c
        return w

    def collect(self, st):
        """drop facts about symbols nothing refers to any more; settle their reference counts"""
        ref = set()
        for v in st.env.values():
            syms_of(v, ref)
        for k, v in st.x.items():
            if k == 'trust' or not isinstance(k, tuple):
                syms_of(v, ref)
        for k, v in st.bulk.items():
            syms_of(k, ref)
            syms_of(v, ref)
        for k, v in st.mem.items():
            if isinstance(k[0], tuple) and k[0][0] == 'al':
                syms_of(v, ref)
        changed = True
        while changed:
            changed = False
            for k, v in st.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == 'al':
                    continue
                kb = set()
                if k[0] in ('sl', 'sz'):
                    base, _ = split(k[1])
                    syms_of(base, kb)
                else:
                    syms_of(k[0], kb)
                kb -= TAGS
                if kb and not kb <= ref and not all(x in ref or x.startswith('oa') or x.startswith('a') for x in kb):
                    continue
                if k[0] == 'sl':
                    # keep slot contents only while they matter
                    if not (is_sym(v) and (v in ref or v in st.own)):
                        continue
                vs = set()
                syms_of(v, vs)
                if not vs <= ref:
                    ref |= vs
                    changed = True
        # elements whose position is still known
        for s in list(st.own):
            if s not in ref and not s.startswith('oa'):
                e = st.elem.get(s)
                self.stale_sym(st, s)
        for d, t in ((st.mem, 0),):
            for k in list(d):
                if isinstance(k[0], tuple) and k[0][0] == 'al':
                    continue
                kb = set()
                base = split(k[1])[0] if k[0] in ('sl', 'sz') else k[0]
                syms_of(base, kb)
                kb -= TAGS
                if not all(x in ref or x.startswith('oa') or (x[0] == 'a' and x[1:].isdigit()) for x in kb):
                    del d[k]
                elif k[0] == 'sl' and not (is_sym(d[k]) and (d[k] in ref or d[k] in st.own)) :
                    if not (is_sym(d[k]) and d[k] in ref):
                        del d[k]
        for s in list(st.elem):
            if s not in ref and s not in st.own:
                del st.elem[s]
        used = set(ref)
        for k, v in st.mem.items():
            syms_of(k, used)
            syms_of(v, used)
        for k in st.own:
            used.add(k)
        for k, v in st.elem.items():
            used.add(k)
            syms_of(v, used)
        for s in list(st.fact):
            if s not in used:
                del st.fact[s]
        if st.rel:
            self.close_rel(st, used)
        for k in list(st.x):
            if isinstance(k, tuple) and k[0] in ('fresh', 'newobj', 'seen', 'plain', 'dropped', 'istype', 'isnot', 'fits', 'conv', 'fld', 'rel', 'mul', 'sum', 'band', 'slice', 'mort'):
                z = split(k[1])[0] if k[0] == 'seen' else k[1]
                if z not in used:
                    del st.x[k]
    def close_rel(self, st, used):
        dead = set()
        for (a, b) in st.rel:
            for z in (a, b):
                if z not in used and not (isinstance(z, str) and z.startswith('a')):
                    dead.add(z)
        for z in dead:
            ins = [(a, c) for (a, b), c in st.rel.items() if b == z]
            outs = [(b, c) for (a, b), c in st.rel.items() if a == z]
            for a, c in ins:
                for b, d in outs:
                    if a != b and ((a, b) not in st.rel or st.rel[(a, b)] > c + d):
                        st.rel[(a, b)] = c + d
            st.rel = {k: v for k, v in st.rel.items() if z not in k}

    # ------------------------------------------------------------------ main loop
    def run(self):
        fn = self.fn
        work = [(0, None, st) for st in self.initials()]
        seen = [set() for _ in fn.bbs]
        total = 0
        while work:
            b, pred, st = work.pop()
            st = self.enter(st, b, pred)
            k = st.key()
            if k in seen[b]:
                continue
            seen[b].add(k)
            total += 1
            if total > self.cap:
                raise Limit('%s: more than %d states' % (fn.dname, self.cap))
            bb = fn.bbs[b]
            first = 0
            while first < len(bb) and bb[first].op == 'phi':
                first += 1
            stack = [(first, st)]
            while stack:
                i, s = stack.pop()
                while True:
                    ins = bb[i]
                    self.stat['steps'] += 1
                    r = self.step(ins, s)
                    if r is None:
                        i += 1
                        continue
                    for tgt, s2 in r:
                        if tgt == 'next':
                            stack.append((i + 1, s2))
                        elif tgt == 'dead':
                            pass
                        else:
                            work.append((tgt, b, s2))
                    break
        self.stat['states'] = total
        self.finish()
        return self.viol
    def finish(self):
        pass

    # ------------------------------------------------------------------ instructions
    def step(self, ins, st):
        """None: continue in the same state; else list of (target, state)"""
        m = getattr(self, 'op_' + ins.op, None)
        if m is None:
            if ins.id >= 0:
                self.setv(st, ins, self.newsym(st, ins))
            return None
        return m(ins, st)

    def op_alloca(self, ins, st):
        self.setv(st, ins, ('al', ins.id))
    def op_freeze(self, ins, st):
        self.setv(st, ins, self.val(st, ins.ops[0]))
    op_bitcast = op_ptrtoint = op_inttoptr = op_addrspacecast = op_freeze

    def op_zext(self, ins, st):
        v = self.val(st, ins.ops[0])
        fr = ins.x.get('from')
        if fr == 'i1' or self.nonneg(st, v):
            if isinstance(v, int) and v < 0:
                v = 1
            self.setv(st, ins, v)
        else:
            s = self.newsym(st, ins)
            self.setfact(st, s, lo=0, hi=(1 << int(fr[1:])) - 1 if fr and fr[0] == 'i' and fr[1:].isdigit() else None)
            self.setv(st, ins, s)
    def op_sext(self, ins, st):
        v = self.val(st, ins.ops[0])
        self.setv(st, ins, v)
    def op_trunc(self, ins, st):
        v = self.val(st, ins.ops[0])
        bits = int(ins.ty[1:]) if ins.ty[1:].isdigit() else 64
        if isinstance(v, tuple) and v[0] == 'rc' and bits == 32:
            self.setv(st, ins, ('rc32', v[1]))
            return
        self.on_trunc(ins, st, v, bits)
        if bits == 1:
            if isinstance(v, int):
                v = v & 1
            self.setv(st, ins, v)
            return
        lo, hi = self.rng(st, v)
        if isinstance(v, int) and bits < 64:
            v &= (1 << bits) - 1
            if v >> (bits - 1):
                v -= 1 << bits
            self.setv(st, ins, v)
        elif lo is not None and hi is not None and lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1)):
            self.setv(st, ins, v)
        else:
            b, k = split(v)
            s = self.newsym(st, ins)
            self.setv(st, ins, s)
    def on_trunc(self, ins, st, v, bits):
        pass

    def op_add(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        self.setv(st, ins, self.addv(st, ins, a, b))
    def addv(self, st, ins, a, b):
        if isinstance(a, tuple) and a[0] == 'rc' and isinstance(b, int):
            return ('rc', a[1], a[2] + b)
        if isinstance(b, int) and not (isinstance(a, tuple) and a[0] in ('cmp', 'not', 'and', 'or')):
            return add(a, b)
        if isinstance(a, int) and not (isinstance(b, tuple) and b[0] in ('cmp', 'not', 'and', 'or')):
            return add(b, a)
        s = self.newsym(st, ins)
        self.arith(st, '+', s, a, b)
        return s
    def arith(self, st, op, s, a, b):
        """facts about s = a op b"""
        ra, rb = self.rng(st, a), self.rng(st, b)
        lo = hi = None
        if op == '+':
            lo = None if ra[0] is None or rb[0] is None else ra[0] + rb[0]
            hi = None if ra[1] is None or rb[1] is None else ra[1] + rb[1]
        elif op == '-':
            lo = None if ra[0] is None or rb[1] is None else ra[0] - rb[1]
            hi = None if ra[1] is None or rb[0] is None else ra[1] - rb[0]
        if lo is not None or hi is not None:
            self.setfact(st, s, lo=lo, hi=hi)
        if not self.zone:
            return
        if op == '+':
            for p, (lo, hi), q in ((a, rb, b), (b, ra, a)):
                if lo is not None:
                    self.addrel2(st, p, s, -lo)       # p - s <= -lo
                if hi is not None:
                    self.addrel2(st, s, p, hi)
            # s = a + b:  if b <= y - a ... handled through recorded sums
        elif op == '-':
            if rb[0] is not None:
                self.addrel2(st, s, a, -rb[0])
            if rb[1] is not None:
                self.addrel2(st, a, s, rb[1])
            # a - b >= c  known relation between a and b
            for c in (1, 0):
                if self.le(st, b, a, -c):
                    self.setfact(st, s, lo=c)
                    break
            for c in (-1, 0):
                if self.le(st, a, b, c):
                    self.setfact(st, s, hi=c)
                    break
    def addrel2(self, st, a, b, c):
        (x, k), (y, l) = split(a), split(b)
        c = c - k + l
        if is_sym(x) and is_sym(y) and x != y:
            if (x, y) not in st.rel or st.rel[(x, y)] > c:
                st.rel[(x, y)] = c
    def op_sub(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('it', 'sl') and a[1] == b[1]:
            # pointer difference in bytes: keep symbolic
            s = self.newsym(st, ins)
            self.setv(st, ins, s)
            return
        if isinstance(b, int) and not (isinstance(a, tuple) and a[0] in ('cmp', 'not', 'and', 'or', 'rc')):
            self.setv(st, ins, add(a, -b))
            return
        if isinstance(a, tuple) and a[0] == 'rc' and isinstance(b, int):
            self.setv(st, ins, ('rc', a[1], a[2] - b))
            return
        (x, k), (y, l) = split(a), split(b)
        if x == y and x is not None:
            self.setv(st, ins, k - l)
            return
        s = self.newsym(st, ins)
        self.arith(st, '-', s, a, b)
        self.setv(st, ins, s)
    def op_mul(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if isinstance(a, int) and isinstance(b, int):
            self.setv(st, ins, a * b)
            return
        for p, q in ((a, b), (b, a)):
            if q == 1:
                self.setv(st, ins, p)
                return
            if q == 0:
                self.setv(st, ins, 0)
                return
        s = self.newsym(st, ins)
        ra, rb = self.rng(st, a), self.rng(st, b)
        if ra[0] is not None and rb[0] is not None and ra[0] >= 0 and rb[0] >= 0:
            hi = ra[1] * rb[1] if ra[1] is not None and rb[1] is not None else None
            self.setfact(st, s, lo=ra[0] * rb[0], hi=hi)
        st.x[('mul', s)] = (a, b)
        self.setv(st, ins, s)
    op_shl = None
    def op_shl(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        s = self.newsym(st, ins)
        if isinstance(b, int):
            if isinstance(a, int):
                self.setv(st, ins, a << b)
                return
            st.x[('mul', s)] = (a, 1 << b)
            if self.nonneg(st, a):
                self.setfact(st, s, lo=0)
        self.setv(st, ins, s)
    def op_udiv(self, ins, st):
        s = self.newsym(st, ins)
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if self.nonneg(st, a) and isinstance(b, int) and b > 0:
            lo, hi = self.rng(st, a)
            self.setfact(st, s, lo=0, hi=None if hi is None else hi // b)
            if self.zone:
                self.addrel(st, s, a, 0)
        self.setv(st, ins, s)
    def op_sdiv(self, ins, st):
        s = self.newsym(st, ins)
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if self.nonneg(st, a) and isinstance(b, int) and b > 0:
            lo, hi = self.rng(st, a)
            self.setfact(st, s, lo=0, hi=None if hi is None else hi // b)
            if self.zone:
                self.addrel(st, s, a, 0)
        self.setv(st, ins, s)
    op_lshr = op_udiv
    def op_ashr(self, ins, st):
        s = self.newsym(st, ins)
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if self.nonneg(st, a):
            self.setfact(st, s, lo=0)
            if self.zone:
                self.addrel(st, s, a, 0)
        self.setv(st, ins, s)
    def op_lshr(self, ins, st):
        return self.op_ashr(ins, st)
    def op_urem(self, ins, st):
        s = self.newsym(st, ins)
        b = self.val(st, ins.ops[1])
        self.setfact(st, s, lo=0, hi=b - 1 if isinstance(b, int) and b > 0 else None)
        if self.zone and not isinstance(b, int) and self.nonneg(st, b):
            self.addrel(st, s, b, -1)
        self.setv(st, ins, s)
    def op_and(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if ins.ty == 'i1':
            self.setv(st, ins, ('and', a, b))
            return
        s = self.newsym(st, ins)
        for q in (a, b):
            if isinstance(q, int) and q >= 0:
                self.setfact(st, s, lo=0, hi=q)
        st.x[('band', s)] = (a, b)
        self.setv(st, ins, s)
    def op_or(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if ins.ty == 'i1':
            self.setv(st, ins, ('or', a, b))
            return
        s = self.newsym(st, ins)
        if self.nonneg(st, a) and self.nonneg(st, b):
            self.setfact(st, s, lo=0)
        self.setv(st, ins, s)
    def op_xor(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if ins.ty == 'i1' and b in (1, -1):
            self.setv(st, ins, ('not', a) if not isinstance(a, int) else 1 - (a & 1))
            return
        if b == -1 and not isinstance(a, int):
            s = self.newsym(st, ins)
            self.setv(st, ins, s)
            return
        self.setv(st, ins, self.newsym(st, ins))

    def roundtrip(self, ins):
        """(truncated, original, bits, signed) when the comparison asks whether a truncation lost anything"""
        for a, b in (ins.ops[:2], ins.ops[1::-1]):
            d = self.fn.defs.get(a)
            if d is not None and d.op in ('sext', 'zext'):
                t = self.fn.defs.get(d.ops[0])
                if t is not None and t.op == 'trunc' and t.ops[0] == b and t.ty[1:].isdigit() and int(t.ty[1:]) > 1:
                    return t, b, int(t.ty[1:]), d.op == 'sext'
        return None
    def op_icmp(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        p = ins.x['pred']
        if p in ('eq', 'ne'):
            rt = self.roundtrip(ins)
            if rt is not None and not isinstance(a, int) and not isinstance(b, int):
                t, o, bits, sg = rt
                v, w = self.val(st, o), self.val(st, '%%%d' % t.id)
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                if is_sym(w) and v != w and is_sym(split(v)[0]):
                    # the value fits, and the truncated one is the same; or it does not, and they differ
                    s2 = st.copy()
                    out = []
                    if self.assume(st, ('cmp', 'sge', v, lo), True) and self.assume(st, ('cmp', 'sle', v, hi), True):
                        st.rename(w, self.val(st, o))
                        self.setv(st, ins, int(p == 'eq'))
                        out.append(('next', st))
                    x, y = self.rng(s2, v)
                    if x is None or y is None or x < lo or y > hi:
                        self.setv(s2, ins, int(p == 'ne'))
                        out.append(('next', s2))
                    return out
        for q in (a, b):
            if isinstance(q, tuple) and q[0] == 'rc':
                # inlined reference counting: not the last reference
                self.setv(st, ins, {'slt': 0, 'eq': 0, 'ne': 1, 'sge': 1, 'sgt': 1, 'sle': 0}.get(p, 0))
                return
            if isinstance(q, tuple) and q[0] == 'rc32':
                # the immortality test of CPython 3.12: the lower half is negative
                st.x[('mort', q[1])] = 1
                self.setv(st, ins, {'slt': 0, 'eq': 0, 'ne': 1, 'sge': 1, 'sgt': 1, 'sle': 0}.get(p, 0))
                return
        for q, o in ((a, b), (b, a)):
            if isinstance(q, tuple) and q[0] == 'sel':
                m = self.sel_match(st, q, o)
                if m is None:
                    s2 = st.copy()
                    self.setv(st, ins, 1)
                    self.setv(s2, ins, 0)
                    return [('next', st), ('next', s2)]
                self.setv(st, ins, int(m == (p == 'eq')))
                return
        if isinstance(a, tuple) and a[0] == 'sl' or isinstance(b, tuple) and b[0] == 'sl':
            x, y = self.blockaddr(a), self.blockaddr(b)
            if x[0] == y[0] == 'sl' and x[1] == y[1]:
                a, b = x, y
        r = self.decide(st, p, a, b)
        if r is not None:
            self.setv(st, ins, int(r))
        else:
            self.setv(st, ins, ('cmp', p, a, b))
    def sel_match(self, st, sel, o):
        """does a handler for type o take what is in flight?  Library functions throw types derived from std::exception"""
        t = o[1] if isinstance(o, tuple) and o[0] == 'ti' else None
        if t in ('null', '@_ZTISt9exception', 'c:0'):
            return True
        return None
    def op_fcmp(self, ins, st):
        self.setv(st, ins, self.newsym(st, ins))

    def op_select(self, ins, st):
        c = self.val(st, ins.ops[0])
        a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
        r = self.truth(st, c)
        if r is not None or a == b:
            self.setv(st, ins, a if r is not False else b)
            return None
        s2 = st.copy()
        out = []
        if self.assume(st, c, True):
            self.setv(st, ins, self.val(st, ins.ops[1]))
            out.append(('next', st))
        if self.assume(s2, c, False):
            self.setv(s2, ins, self.val(s2, ins.ops[2]))
            out.append(('next', s2))
        return out

    def op_getelementptr(self, ins, st):
        a = self.val(st, ins.ops[0])
        off = ins.x.get('off')
        esz = ins.x.get('esz', 0)
        sty = ins.x.get('sty', '')
        if isinstance(a, tuple) and a[0] == 'st':
            self.setv(st, ins, a)
            return
        if isinstance(a, tuple) and a[0] == 'sl':
            # pointer arithmetic within the block
            if off is not None:
                es = self.eltsize(st, a[1]) or esz or 8
                if off % es == 0:
                    self.setv(st, ins, ('sl', a[1], add(a[2], off // es)))
                else:
                    self.setv(st, ins, ('sl', a[1], self.newsym(st, ins, 'x')))
                return
            idx = self.val(st, ins.ops[-1])
            if len(ins.ops) == 2:
                self.setv(st, ins, ('sl', a[1], self.sumv(st, ins, a[2], idx, esz, a[1])))
            else:
                self.setv(st, ins, ('sl', a[1], self.newsym(st, ins, 'x')))
            return
        if off is not None:
            if a == 0 or isinstance(a, int):
                self.setv(st, ins, add(a, off))
                return
            if len(ins.ops) == 2 and sty == 'ptr' and is_sym(split(a)[0]):
                b, k = split(a)
                if k == 0:
                    self.setv(st, ins, ('sl', ('blk', b), off // 8))
                    return
            if off == 24 and 'PyTupleObject' in sty and is_sym(a):
                self.setv(st, ins, ('sl', ('blk', ('+', a, 24)), 0))    # ob_item
                return
            self.setv(st, ins, add(a, off))
            return
        if len(ins.ops) == 2:
            idx = self.val(st, ins.ops[1])
            if is_sym(a):
                self.setv(st, ins, ('sl', ('blk', a), idx))
                return
        elif len(ins.ops) == 3 and isinstance(a, tuple) and a[0] in ('al', 'g'):
            # array variable
            idx = self.val(st, ins.ops[2])
            self.setv(st, ins, ('sl', a, idx))
            return
        elif len(ins.ops) >= 3:
            # struct->array[idx]
            pre = 0
            idx = self.val(st, ins.ops[-1])
            self.setv(st, ins, ('sl', ('blk', a if is_sym(a) else self.newsym(st, ins, 'x')), idx))
            return
        self.setv(st, ins, self.newsym(st, ins, 'x'))
    def eltsize(self, st, c):
        return st.x.get(('esz', c))
    def sumv(self, st, ins, a, idx, esz, c):
        if isinstance(a, int) and a == 0:
            return idx
        if isinstance(idx, int):
            return add(a, idx)
        if isinstance(a, int):
            return add(idx, a)
        s = self.newsym(st, ins, 'i')
        self.arith(st, '+', s, a, idx)
        st.x[('sum', s)] = (a, idx)
        return s

    # -------------------------------------------------- memory
    def cell(self, a):
        b, k = split(a)
        return (b, k)
    def rawaddr(self, ins):
        """is an address operand of the instruction a number converted from a Python argument?"""
        todo = [o for o in ins.ops if isinstance(o, str)]
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            d = self.fn.defs.get(o)
            if d is None:
                continue
            if d.op in ('call', 'invoke'):
                if d.x.get('f') in ('PyLong_AsVoidPtr', 'PyLong_AsSize_t', 'PyLong_AsUnsignedLongLong', 'PyLong_AsUnsignedLong'):
                    return True
            elif d.op in ('getelementptr', 'phi', 'inttoptr', 'add', 'sub', 'bitcast', 'select', 'freeze'):
                todo += [x for x in d.ops if isinstance(x, str)]
        return False
    def badptr(self, st, a, ins, what):
        if isinstance(a, int) and -4096 < a < 65536:
            if not st.exc and self.rawaddr(ins):
                return True         # the caller asked for address 0: validity of raw addresses is not decided here
            self.report('nullderef', '%s through a null pointer' % what, ins, key='null-' + what)
            return True
        if isinstance(a, tuple) and a[0] == 'st':
            self.report('stale', '%s an element through a position obtained before %s' % (what, a[2]), ins, key='%s|%s' % (what, a[2]))
        return False

    def blockaddr(self, a):
        """the start of an allocated block is the place of its first element"""
        b, k = split(a)
        if is_sym(b) and b[0] == 'm' and isinstance(k, int) and k % 8 == 0:
            return ('sl', ('blk', b), k // 8)
        return a
    def op_load(self, ins, st):
        a = self.val(st, ins.ops[0])
        self.stat['derefs'] += 1
        if self.badptr(st, a, ins, 'reads'):
            return [('dead', st)]
        if isinstance(a, tuple) and a[0] == 'st':
            a = a[1]
        if isinstance(a, tuple) and a[0] == 'g':
            n = a[1]
            if n.startswith('PyExc_'):
                self.setv(st, ins, ('gv', n))
                return
        if ins.ty == 'ptr':
            a = self.blockaddr(a)
        if isinstance(a, tuple) and a[0] == 'sl':
            c, idx = a[1], a[2]
            self.on_access(ins, st, c, idx, 'read')
            isobj = ins.ty == 'ptr'
            own = False
            if isinstance(c, tuple) and c[0] == 'al' and st.x.get(('kind', c)) != 'objs':
                isobj = False
                v = st.mem.get((c, ('i', idx)))
                if isinstance(idx, int):
                    v = st.mem.get((c, idx * 8)) if ins.ty == 'ptr' else v
                self.setv(st, ins, v if v is not None else self.newsym(st, ins, 'L'))
                return
            if isinstance(c, tuple) and c[0] in ('g',):
                self.setv(st, ins, self.newsym(st, ins, 'L'))
                return
            if isinstance(c, tuple) and c[0] == 'blk' and c[1] in self.argarrays and isobj:
                self.setv(st, ins, self.argload(ins, st, c[1], idx))
                return
            if st.x.get(('kind', c)) == 'objs':
                own = True
            self.setv(st, ins, self.load_elem(st, ins, c, idx, own, isobj))
            return
        b, k = split(a)
        # reference count
        if k == 0 and is_sym(b) and ins.ty in ('i64', 'i32') and b[0] in 'oLs' and ins.ty == 'i64' and self.rc_like(ins):
            self.setv(st, ins, ('rc', b, 0))
            return
        if b in self.argarrays and ins.ty == 'ptr':
            self.setv(st, ins, self.argload(ins, st, b, k // 8))
            return
        key = (b, k)
        v = st.mem.get(key)
        if v is None:
            d = self.fn.defs.get(ins.ops[0]) if isinstance(ins.ops[0], str) else None
            if d is not None and d.op == 'getelementptr' and '_typeobject' in d.x.get('sty', ''):
                v = ('ts', d.x.get('off'), b)
            elif isinstance(b, tuple) and b[0] == 'g' and '_typeobject' in self.p.globals.get(b[1], {}).get('ty', '_typeobject' if b[1].endswith('_Type') else ''):
                v = ('ts', k, b)
            else:
                v = self.load_new(ins, st, b, k)
            st.mem[key] = v
        self.setv(st, ins, v)
    def load_new(self, ins, st, b, k):
        if ins.ty == 'ptr' and is_sym(b):
            if k == 24:
                d = self.fn.defs.get(ins.ops[0])
                if d is not None and d.op == 'getelementptr' and 'PyListObject' in d.x.get('sty', ''):
                    return ('sl', ('blk', self.newsym(st, ins, 'K')), 0)    # ob_item
            t = self.ptrfield(ins, k)
            if t:
                v = self.newsym(st, ins, 'of')
                st.x[('fld', v)] = k if b == 'oa0' else -1
                return v
        return self.newsym(st, ins, 'L')
    def argload(self, ins, st, b, idx):
        v = 'oa%s_%s' % (b[1:], idx) if isinstance(idx, int) else self.newsym(st, ins, 'oa%s_v' % b[1:])
        self.setfact(st, v, lo=1)
        self.on_argload(ins, st, b, idx)
        return v
    def on_argload(self, ins, st, b, idx):
        pass
    def ptrfield(self, ins, k):
        """the loaded field is declared as a pointer to a Python object"""
        o = ins.ops[0]
        d = self.fn.defs.get(o) if isinstance(o, str) else None
        if d is None or d.op != 'getelementptr':
            return None
        t = d.x.get('sty', '').replace('%struct.', '').strip('"')
        for m in self.p.structs.get(t, ()):
            if m[1] == d.x.get('off') and m[4]:
                if m[4] in ('_object', 'PyObject') or any(x[0] == 'ob_base' for x in self.p.structs.get(m[4], ())):
                    return m[4]
        return None
    def rc_like(self, ins):
        """the loaded word is compared with 0 / changed by one and stored back"""
        me = '%%%d' % ins.id
        for i in self.fn.bbs[ins.bb][ins.idx + 1:]:
            if me in i.ops and i.op == 'icmp' and 'c:0' in i.ops and i.x.get('pred') in ('slt', 'sge', 'sgt'):
                return True
            if me in i.ops and i.op in ('add', 'sub') and ('c:1' in i.ops or 'c:-1' in i.ops):
                return True
        # in successor blocks (immortality branch)
        return False

    def op_store(self, ins, st):
        v, a = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        self.stat['derefs'] += 1
        if self.badptr(st, a, ins, 'writes'):
            return [('dead', st)]
        if isinstance(a, tuple) and a[0] == 'st':
            a = a[1]
        if isinstance(v, tuple) and v[0] == 'rc':
            b, k = split(a)
            if b == v[1]:
                if st.x.pop(('mort', b), None) is None and v[2] and ('newobj', b) not in st.x:
                    self.report('ref', 'changes the reference count without excluding immortal objects', ins, key='immortal')
                for _ in range(abs(v[2])):
                    if v[2] > 0:
                        self.inc(st, b, ins)
                    else:
                        self.dec(st, b, ins)
                return
        if ins.x.get('vty') == 'ptr':
            a = self.blockaddr(a)
        if isinstance(a, tuple) and a[0] == 'sl':
            c, idx = a[1], a[2]
            self.on_access(ins, st, c, idx, 'write')
            if isinstance(c, tuple) and c[0] == 'al' and st.x.get(('kind', c)) != 'objs':
                if isinstance(idx, int):
                    st.mem[(c, idx * 8)] = v
                return
            if isinstance(c, tuple) and c[0] == 'g':
                return
            self.store_slot(ins, st, c, idx, v)
            return
        b, k = split(a)
        key = (b, k)
        if is_sym(b):
            self.store_field(ins, st, b, k, v)
        st.mem[key] = v
        self.on_store(ins, st, b, k, v)
    def on_store(self, ins, st, b, k, v):
        pass
    def on_access(self, ins, st, c, idx, how):
        pass

    def store_slot(self, ins, st, c, idx, v):
        own = st.x.get(('kind', c)) == 'objs'
        k = ('sl', c, idx)
        if own:
            # the slot gives up its old element and takes the new one
            old = st.mem.get(k)
            if ins.x.get('vty') == 'ptr':
                if v == 0 and old is not None:
                    # cleared after release (SAFE_DECREF on the slot itself)
                    self.adopt(st, c, idx, ins, 'overwriting an element')
                else:
                    if old != 0 and not (old is None and ('zeroed', c) in st.x):
                        self.adopt(st, c, idx, ins, 'overwriting an element')
                    self.consume(st, c, v, ins)
            st.mem = {kk: vv for kk, vv in st.mem.items() if not (kk[0] == 'sl' and kk[1] == c and kk != k)}
            st.mem[k] = v
            return
        if isinstance(c, tuple) and c[0] == 'blk' and is_sym(c[1]) and c[1][0] == 'm':
            # private array: takes over references handed to it
            if ins.x.get('vty') == 'ptr' and v != 0:
                f = st.x.get(('fits', v), 0)
                st.x[('ef', c)] = f if ('ef', c) not in st.x else max(f, st.x[('ef', c)]) if f and st.x[('ef', c)] else 0
            if is_sym(v) and v[0] == 'o' and v not in st.elem and st.own.get(v, 0) > 0:
                self.ownadd(st, v, -1)
                st.x[('lo', c)] = 1
            elif is_sym(v) and v[0] == 'o':
                st.x[('lb', c)] = 1
        st.mem = {kk: vv for kk, vv in st.mem.items() if not (kk[0] == 'sl' and kk[1] == c and kk != k)}
        st.mem[k] = v

    def store_field(self, ins, st, b, k, v):
        """store into a field of a heap object"""
        if ins.x.get('vty') != 'ptr' or k == 0:
            return
        old = st.mem.get((b, k))
        fresh = st.x.get(('fresh', b))
        if is_sym(v) and v[0] == 'o':
            self.ownadd(st, v, -1)
            if fresh:
                self.sh.setdefault('fields', {}).setdefault((fresh, k), set()).add((self.fn.dname, self.where(ins)))
        if not fresh and is_sym(old) and (old[0] == 'o' or old in st.own):
            if self.role.get('dying') and ('fld', old) in st.x:
                return      # releases of fields are recorded as such
            self.ownadd(st, old, 1)

    # -------------------------------------------------- control flow
    def op_br(self, ins, st):
        if len(ins.ops) == 1:
            return [(ins.ops[0], st)]
        c = self.val(st, ins.ops[0])
        t, f = ins.ops[1], ins.ops[2]
        r = self.truth(st, c)
        if r is not None:
            if not self.assume(st, c, r):
                return []
            self.fix_cond(st, c, r)
            return [(t if r else f, st)]
        s2 = st.copy()
        out = []
        if self.assume(st, c, True):
            self.on_branch(ins, st, c, True)
            self.fix_cond(st, c, True)
            out.append((t, st))
        if self.assume(s2, c, False):
            self.on_branch(ins, s2, c, False)
            self.fix_cond(s2, c, False)
            out.append((f, s2))
        return out
    def fix_cond(self, st, c, t):
        """a condition that was branched on is a constant from there on, even when nothing else remembers it"""
        if isinstance(c, tuple):
            n = ('not', c)
            for k, v in st.env.items():
                if v == c:
                    st.env[k] = int(t)
                elif v == n:
                    st.env[k] = int(not t)
    def on_branch(self, ins, st, c, t):
        pass
    def op_switch(self, ins, st):
        v = self.val(st, ins.ops[0])
        default = ins.ops[1]
        out = []
        used = []
        for k in range(2, len(ins.ops), 2):
            c = int(ins.ops[k][2:])
            used.append(c)
            s2 = st.copy()
            if self.assume(s2, ('cmp', 'eq', v, c), True):
                out.append((ins.ops[k + 1], s2))
        s2 = st
        if all(self.assume(s2, ('cmp', 'ne', v, c), True) for c in used):
            out.append((default, s2))
        return out
    def op_unreachable(self, ins, st):
        return [('dead', st)]
    def op_resume(self, ins, st):
        self.escape(ins, st, 'is re-thrown')
        return [('dead', st)]
    def escape(self, ins, st, how, what='exception'):
        if st.gil:
            self.report('gil', 'an exception leaves the function while the GIL is released', ins, key='gil-unwind')
        self.report('escape', 'a C++ exception %s out of the entry point' % how, ins, what, key='escape:' + what)
    def op_landingpad(self, ins, st):
        st.x['lp'] = tuple(ins.x.get('clauses', ()))
        self.setv(st, ins, ('lp', ins.id))
    def op_extractvalue(self, ins, st):
        a = self.val(st, ins.ops[0])
        if isinstance(a, tuple) and a[0] == 'lp':
            self.setv(st, ins, ('sel', a[1]) if ins.x.get('idx') == [1] else 'exn')
            return
        if isinstance(a, tuple) and a[0] == 'agg':
            k = tuple(ins.x.get('idx', ()))
            for kk, v in a[1]:
                if kk == k:
                    self.setv(st, ins, v)
                    return
        self.setv(st, ins, self.newsym(st, ins))
    def op_insertvalue(self, ins, st):
        a, v = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if isinstance(a, tuple) and a[0] == 'lp':
            self.setv(st, ins, a)
            return
        prev = a[1] if isinstance(a, tuple) and a[0] == 'agg' else ()
        if isinstance(v, tuple) and v[0] in ('lp',) or v == 'exn' or (isinstance(v, tuple) and v[0] == 'sel'):
            self.setv(st, ins, ('lp', 0))
            return
        k = tuple(ins.x.get('idx', ()))
        self.setv(st, ins, ('agg', tuple(x for x in prev if x[0] != k) + ((k, v),)))

    # -------------------------------------------------- return
    def op_ret(self, ins, st):
        self.stat['returns'] += 1
        v = self.val(st, ins.ops[0]) if ins.ops else None
        self.at_return(ins, st, v)
        return [('dead', st)]

    def at_return(self, ins, st, v):
        kinds = self.role['ret']
        # result versus exception state
        if st.gil:
            self.report('gil', 'returns without having re-acquired the GIL', ins, key='gil-ret')
        forks = [(v, st)]
        for kind in kinds:
            if kind == 'obj' and isinstance(v, str) and not self.is_ne(st, v, 0) and v[0] not in 'u':
                pass
        for kind in kinds:
            self.check_result(ins, st, v, kind)
        # references
        if 'ref' in self.rules:
            self.balance(ins, st, v, kinds)
    def check_result(self, ins, st, v, kind):
        if st.x.get('dying') or kind in ('void', 'other'):
            return
        err = None
        if kind in ('obj', 'next'):
            if v == 0:
                err = True
            elif self.is_ne(st, v, 0) or (isinstance(v, tuple)):
                err = False
        elif kind in ('int', 'tri', 'len'):
            if isinstance(v, int):
                err = v < 0
            elif self.rng(st, v)[0] is not None and self.rng(st, v)[0] >= 0:
                err = False
            elif isinstance(v, tuple) and v[0] in ('cmp', 'not', 'and', 'or'):
                err = False
        if err is True and not st.exc and kind != 'next':
            self.report('exc', 'reports failure without setting an exception', ins, key='noexc')
        if err is False and st.exc:
            self.report('exc', 'returns a result although an exception is set', ins, key='excset')
        if err is None:
            self.stat['unknown_ret'] = self.stat.get('unknown_ret', 0) + 1
            if st.exc:
                self.report('exc', 'may return a result although an exception is set', ins, key='excset')
    def balance(self, ins, st, v, kinds):
        st = st.copy()
        if ('obj' in kinds or 'next' in kinds) and is_sym(v) and v[0] != 'u':
            if not self.role.get('rawret'):
                self.ownadd(st, v, -1)
        for s, o in list(st.own.items()):
            if not o:
                continue
            if s in st.elem:
                c = st.elem[s][0]
                if s != v:
                    continue
            self.rep_ref(st, s, o, ins)
            st.own.pop(s, None)
        done = set()
        for c in {k[0] for k in st.bulk} | {st.elem[s][0] for s in st.own if s in st.elem}:
            if c in done:
                continue
            g = self.bulk_group(st, c)
            done |= g
            ts = self.bulk_totals(st, g)
            if any(t > 0 for t in ts):
                self.report('ref', 'elements gain a reference that nothing holds', ins, key='bulk+')
            if any(t < 0 for t in ts):
                self.report('ref', 'elements are held without a reference being taken (or released twice)', ins, key='bulk-')
        for k in st.x:
            if isinstance(k, tuple) and k[0] == 'lo' and not self.known_empty(st, k[1]):
                # local container / private array still holding references
                b, _ = split(k[1])
                if isinstance(b, tuple) and b[0] == 'blk' and b not in done and not st.x.get(('nullel', b)):
                    self.report('ref', 'array of references is neither released nor handed on', ins, key='local-array')
    def rep_ref(self, st, s, o, ins):
        if o > 0:
            what = st.x.get(('dropped', s))
            if what:
                self.report('ref', '%s without releasing it' % what, self.symsite(s) or ins, key='drop:' + what)
            else:
                self.report('ref', 'reference acquired here is never released', self.symsite(s) or ins, 'object from %s, return at %s' % (self.symdesc(s), self.where(ins)), key='leak:' + self.symdesc(s))
        else:
            self.report('ref', 'hands out or releases a reference it does not own', self.symsite(s) or ins, 'object from %s, return at %s' % (self.symdesc(s), self.where(ins)), key='over:' + self.symdesc(s))
