"""C07: element positions used natively stay inside the container.

A position is *proved* inside by intervals, differences (zone) and the linear definitions s = a + b, s = a - b.  A position
that is not proved is a violation only when everything in it is *exact*: a number the caller chooses freely, a field of an
iterator, a counter that a loop moves by one up to a comparison, the length of a container at a moment when the caller decides
it, and constants -- and when no comparison the analysis does not understand narrows any of them.  Then the remaining
constraints are differences between free integers, so a value outside exists.  Everything else is `not judged' and listed."""
from engine import *
from calls import Engine

def lin_of(v):
    """linear form {sym: coefficient, None: constant} of a numeric value, or None"""
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, int):
        return {None: v}
    b, k = split(v)
    if is_sym(b):
        return {b: 1, None: k}
    return None

def comb(a, r, b):
    """a + r*b"""
    o = dict(a)
    for k, v in b.items():
        o[k] = o.get(k, 0) + r * v
    return {k: v for k, v in o.items() if v or k is None}

MARK = ('ex', 'tn', 'lin', 'mod', 'gd', 'sle', 'sel1', 'in')
TAINT_OPS = {'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'}

class Bounds(Engine):
    VAGUE = (None, 'slice')
    INVALIDATE = True
    def __init__(self, prog, fn, role, shared, cap=60000):
        super().__init__(prog, fn, role, {'bounds'}, shared, zone=True, cap=cap)
        self.sites = {}
        self.helper = any(r['kind'] == 'helper' for r in role['roles'])
        self.ints = {'a%d' % k for k, p in enumerate(role['params']) if p == 'int'} if not self.helper else set()
    # ------------------------------------------------------------ exactness
    def mark(self, st, v, what):
        b, k = split(v)
        if is_sym(b):
            st.x[('ex', b)] = what
    def taint(self, st, *vs):
        for v in vs:
            s = set()
            syms_of(v, s)
            for b in s:
                if ('ex', b) in st.x or b in self.ints or ('lin', b) in st.x:
                    st.x[('tn', b)] = 1
                    l = st.x.get(('lin', b))
                    if l is not None:
                        for t in l[1:]:
                            if t[0] != 'k' and split(t[0])[0] != b:
                                self.taint(st, t[0])
    def kind(self, st, b, depth=3):
        """what symbol b stands for, when that is exact"""
        if b is None:
            return 'const'
        if not is_sym(b) or ('tn', b) in st.x:
            return None
        if b in self.ints:
            return 'user'
        k = st.x.get(('ex', b))
        if k is not None:
            return k
        l = st.x.get(('lin', b))
        if l is not None and depth:
            for t in l[1:]:
                if t[0] != 'k' and self.kind(st, split(t[0])[0], depth - 1) in (None, 'count'):
                    return None
            return 'sum'
        return None
    def size(self, st, c, ins):
        new = ('sz', c) not in st.mem
        v = super().size(st, c, ins)
        if new and not self.helper and is_sym(v) and not self.islocal(c) and not st.x.get(('newobj', split(c)[0])) and ('mod', c) not in st.x:
            self.mark(st, v, 'size')
        return v
    def setsize(self, st, c, v):
        super().setsize(st, c, v)
        if v is None:
            st.x[('mod', c)] = 1
    def pyrun(self, st, ins, what, of=None):
        if self.INVALIDATE:
            super().pyrun(st, ins, what, of)
            for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'mod' and not self.islocal(k[1])]:
                del st.x[k]
    def api_generic(self, ins, st, spec, n, args):
        r = super().api_generic(ins, st, spec, n, args)
        for how, s in ([('ok', st)] if r is None else r):
            v = s.env.get('%%%d' % ins.id) if ins.id >= 0 else None
            if is_sym(v) and ('conv', v) in s.x:
                self.mark(s, v, 'user')
            elif is_sym(v) and spec.ret in ('L', 'z'):
                self.mark(s, v, 'len')
        return r
    def parse_units(self, ins, st, units, opt, outs):
        r = super().parse_units(ins, st, units, opt, outs)
        pos = 0
        from calls import UNIT_ARGS
        for u in units:
            k = UNIT_ARGS.get(u, 1)
            mine = outs[pos:pos + k]
            pos += k
            if u in ('n', 'i', 'l', 'L') and mine:
                for how, s in r:
                    v = s.mem.get(split(mine[-1]))
                    if is_sym(v) and v[0] == 's':
                        self.mark(s, v, 'user')
        return r
    def load_new(self, ins, st, b, k):
        v = super().load_new(ins, st, b, k)
        if is_sym(v) and v[0] == 'L' and b == 'oa0' and not self.helper and ins.ty in ('i64', 'i32') and k >= 16:
            self.mark(st, v, 'field')
        if is_sym(v) and v[0] == 'L' and is_sym(b) and b[0] == 'o' and b != 'oa0' and k == 16 and ins.ty == 'i64':
            self.mark(st, v, 'len')         # ob_size
        return v
    def step(self, ins, st):
        if ins.op in TAINT_OPS and ins.ty != 'i1':
            a = [self.val(st, o) for o in ins.ops]
            if not any(isinstance(x, int) for x in a) or ins.op not in ('mul', 'shl'):
                self.taint(st, *a)
        return super().step(ins, st)
    def on_call(self, ins, st, ca, args):
        super().on_call(ins, st, ca, args)
        if ca.kind not in ('api', 'vector', 'list', 'vit', 'lit', 'iterop') and ins.id >= 0 and not self.freecall(ca):
            self.taint(st, *[a for a in args if lin_of(a) is not None])
    def freecall(self, ca):
        """does the outcome of the call say nothing about its arguments?"""
        return False
    def assume_or(self, st, a, b):
        r = super().assume_or(st, a, b)
        if self.truth(st, a) is None and self.truth(st, b) is None:
            self.taint(st, a, b)
        return r
    def assume_cmp(self, st, pred, a, b):
        (x, k), (y, l) = split(a), split(b)
        if (is_sym(x) or x is None) and (is_sym(y) or y is None) and pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
            kx, ky = self.kind(st, x), self.kind(st, y)
            # a comparison with something not exactly known narrows the other side in an unknown way
            if kx and ky in self.VAGUE and y[0] != 'o' and x is not None:
                self.taint(st, x)
            if ky and kx in self.VAGUE and x[0] != 'o' and y is not None:
                self.taint(st, y)
            if pred[0] == 'u' and x is not None:
                big = b if pred in ('ult', 'ule') else a
                if not self.nonneg(st, big):
                    self.taint(st, a, b)
            elif pred == 'ne' and x is not None and y is not None and not self.le(st, a, b, 0) and not self.le(st, b, a, 0):
                if not self.unequal(st, a, b, kx, ky):
                    self.taint(st, a, b)
        elif any(isinstance(q, tuple) and q[0] in ('cmp', 'and', 'or', 'not') for q in (a, b)):
            pass
        else:
            self.taint(st, a, b)
        r = super().assume_cmp(st, pred, a, b)
        if r:
            for n, ln, x1, y1, step in self.slices(st):
                self.slice_start(st, x1)
        if r:
            r = self.sums(st, pred, x, y, a, b)
        if r and (is_sym(x) or x is None) and (is_sym(y) or y is None):
            for p, q in ((x, y), (y, x)):
                if p != q:
                    d = self.dist(st, p, q)
                    if d is not None:
                        st.x[('gd', p, q)] = d
        return r
    def unequal(self, st, a, b, kx, ky):
        """is it remembered elsewhere that these differ?"""
        return False
    def sums(self, st, pred, x, y, a, b):
        """what a comparison of sums says about their parts: a difference, or something that differences cannot express"""
        if not any(is_sym(z) and ('lin', z) in st.x for z in (x, y)):
            return True
        cons = []
        fa, fb = lin_of(a), lin_of(b)
        if fa is not None and fb is not None:
            if pred in ('slt', 'sle', 'eq', 'ult', 'ule') and (pred[0] != 'u' or self.nonneg(st, b)):
                cons.append((comb(fa, -1, fb), -1 if pred in ('slt', 'ult') else 0))
            if pred in ('sgt', 'sge', 'eq', 'ugt', 'uge') and (pred[0] != 'u' or self.nonneg(st, a)):
                cons.append((comb(fb, -1, fa), -1 if pred in ('sgt', 'ugt') else 0))
        for z in (x, y):
            if is_sym(z) and ('lin', z) in st.x:
                lo, hi = self.rng(st, z)
                if lo is not None and lo > -2**62:
                    cons.append(({z: -1, None: 0}, -lo))
                if hi is not None and hi < 2**62:
                    cons.append(({z: 1, None: 0}, hi))
        for f, c in cons:
            for _ in range(3):
                for z in [z for z in f if ('lin', z) in st.x]:
                    l = self.getlin(st.x[('lin', z)])
                    if l is not None and z not in l:
                        f = comb({k: v for k, v in f.items() if k != z}, f[z], l)
            k = f.pop(None, 0)
            p = [z for z, v in f.items() if v == 1]
            q = [z for z, v in f.items() if v == -1]
            if len(p) + len(q) == len(f) and len(p) <= 1 and len(q) <= 1:
                if not self.addrel(st, p[0] if p else 0, q[0] if q else 0, c - k):
                    return False
            elif not self.known(st, f, c - k):
                self.taint(st, *f)
        return True
    def known(self, st, f, c):
        u = self.upper(st, {**f, None: 0})
        return u is not None and u <= c
    def op_icmp(self, ins, st):
        """unsigned comparison with a number that may be negative: two cases"""
        p = ins.x['pred']
        if p in ('ult', 'ule', 'ugt', 'uge'):
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            for q, o, flip in ((a, b, False), (b, a, True)):
                s = split(q)[0]
                if is_sym(s) and self.kind(st, s) not in (None, 'slice') and not self.nonneg(st, q) and self.nonneg(st, o):
                    out = []
                    s2 = st.copy()
                    if Engine.assume_cmp(self, s2, 'slt', q, 0):
                        # as unsigned, it is larger than anything that is not negative
                        self.setv(s2, ins, int((p in ('ugt', 'uge')) != flip))
                        out.append(('next', s2))
                    if Engine.assume_cmp(self, st, 'sge', q, 0):
                        r = self.decide(st, p, self.val(st, ins.ops[0]), self.val(st, ins.ops[1]))
                        self.setv(st, ins, int(r) if r is not None else ('cmp', p, self.val(st, ins.ops[0]), self.val(st, ins.ops[1])))
                        out.append(('next', st))
                    return out
        return super().op_icmp(ins, st)
    # ------------------------------------------------------------ linear definitions
    def lins(self, st):
        return {k[1]: v for k, v in st.x.items() if k[0] == 'lin' and is_sym(k[1])} if st.x else {}
    def setlin(self, st, s, e):
        if s in e or len(e) > 4 or any(k is not None and (k[-1] == '~' or k[0] == 'u') for k in e):
            return
        st.x[('lin', s)] = ('L',) + tuple(sorted(((k, v) for k, v in e.items() if k is not None), key=repr)) + (('k', e.get(None, 0)),)
    def getlin(self, v):
        o = {None: 0}
        for t in v[1:]:
            if t[0] == 'k':
                o[None] += t[1]
                continue
            b, k = split(t[0])
            if b is not None and not is_sym(b):
                return None
            if b is not None:
                o[b] = o.get(b, 0) + t[1]
            o[None] += k * t[1]
        return {k: v for k, v in o.items() if v or k is None}
    def arith(self, st, op, s, a, b):
        super().arith(st, op, s, a, b)
        x, y = lin_of(a), lin_of(b)
        if x is not None and y is not None and op in '+-':
            self.setlin(st, s, comb(x, 1 if op == '+' else -1, y))
            if op == '+':
                self.slice_elem(st, s, a, b)
    # ------------------------------------------------------------ slices
    def py_PySlice_AdjustIndices(self, ins, st, args):
        super().py_PySlice_AdjustIndices(ins, st, args)
        n = st.env.get('%%%d' % ins.id)
        f = st.x.get(('slice', n))
        if is_sym(n) and f:
            st.x[('sle', n, split(f[1])[0])] = f
            for v in (n, f[1], f[2]):
                self.mark(st, v, 'slice')
            lo, hi = self.rng(st, f[3])
            if lo is not None and lo > 0:
                self.addrel2(st, f[1], f[0], 0)
    def slices(self, st):
        return [(k[1],) + v for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'sle']
    def slice_elem(self, st, s, a, b):
        """start + i*step: inside when 0 <= i < length"""
        for p, q in ((a, b), (b, a)):
            m = st.x.get(('mul', q)) if is_sym(q) else None
            for n, ln, x, y, step in self.slices(st):
                if x != p:
                    continue
                for i, t in ((m, m[::-1]) if m else ((q, 1),) if step == 1 else ()):
                    if t == step and self.nonneg(st, i) and self.le(st, i, n, -1):
                        self.setfact(st, s, lo=0)
                        self.addrel2(st, s, ln, -1)
                        st.x[('in', s)] = ln
                    elif t == step:
                        st.x[('sel1', s)] = (n, ln, i)
    def slice_start(self, st, idx):
        for n, ln, x, y, step in self.slices(st):
            if x == idx and is_sym(x):
                lo = self.rng(st, n)[0]
                if lo is not None and lo > 0:
                    self.setfact(st, x, lo=0)
                    self.addrel2(st, x, ln, -1)
                elif self.rng(st, step)[0] is not None and self.rng(st, step)[0] > 0:
                    self.setfact(st, x, lo=0)
    def ineqs(self, st):
        """linear forms known to be <= 0"""
        out = []
        for n, ln, a, b, step in self.slices(st):
            f = [lin_of(z) for z in (ln, a, b, n)]
            if None not in f and self.rng(st, step) == (1, 1):
                out.append(comb(comb(f[1], 1, f[3]), -1, f[0]))     # start + length <= size
                out.append(comb(comb(f[2], -1, f[1]), -1, f[3]))    # stop - start <= length
        return out
    def dist(self, st, x, y):
        """least known bound of x - y (None: the constant 0)"""
        if x == y:
            return 0
        best = {x: 0}
        front = [x]
        for _ in range(6):
            nf = []
            for n in front:
                d = best[n]
                for (p, q), w in st.rel.items():
                    if p == n and (q not in best or best[q] > d + w):
                        best[q] = d + w
                        nf.append(q)
                if n is not None:
                    hi = self.rng(st, n)[1]
                    if hi is not None and (None not in best or best[None] > d + hi):
                        best[None] = d + hi
                        nf.append(None)
                else:
                    for s, f in st.fact.items():
                        if f[0] is not None and (s not in best or best[s] > d - f[0]):
                            best[s] = d - f[0]
                            nf.append(s)
            if not nf:
                break
            front = nf
        return best.get(y)
    def upper(self, st, e):
        """an upper bound of the linear form from pairwise bounds, or None"""
        pos = [k for k, v in e.items() if k is not None and v > 0 for _ in range(v)]
        neg = [k for k, v in e.items() if k is not None and v < 0 for _ in range(-v)]
        if len(pos) + len(neg) > 5:
            return None
        def go(ps, ns):
            if not ps:
                t = 0
                for y in ns:
                    d = self.dist(st, None, y)
                    if d is None:
                        return None
                    t += d
                return t
            best = None
            for j, y in enumerate(list(ns) + [None]):
                d = self.dist(st, ps[0], y)
                if d is None:
                    continue
                r = go(ps[1:], ns[:j] + ns[j + 1:])
                if r is not None and (best is None or best > d + r):
                    best = d + r
            return best
        u = go(pos, neg)
        return None if u is None else u + e.get(None, 0)
    def holds(self, st, e, c, depth=4):
        """e <= c ?"""
        ls = self.lins(st)
        iq = self.ineqs(st)
        seen = set()
        work = [(e, 0)]
        n = 0
        while work and n < 60:
            e, d = work.pop(0)
            k = tuple(sorted(e.items(), key=repr))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            u = self.upper(st, e)
            if u is not None and u <= c:
                return True
            if d >= depth:
                continue
            for x in [x for x in e if x in ls]:
                l = self.getlin(ls[x])
                if l is not None and x not in l:
                    f = dict(e)
                    r = f.pop(x)
                    work.append((comb(f, r, l), d + 1))
            for q in iq:
                if any(x in e and (e[x] > 0) == (q[x] > 0) for x in q if x is not None):
                    work.append((comb(e, -1, q), d + 1))
            for (p, q), w in st.rel.items():
                if q in ls and e.get(p, 0) > 0:
                    f = dict(e)
                    r = f.pop(p)
                    work.append((comb(f, r, {q: 1, None: w}), d + 1))
                if p in ls and e.get(q, 0) < 0:
                    f = dict(e)
                    r = f.pop(q)
                    work.append((comb(f, r, {p: 1, None: -w}), d + 1))
            # a defined sum that occurs inside the form: a + b = s
            for s, v in ls.items():
                l = self.getlin(v)
                if l is not None and s not in e:
                    for sg in (1, -1):
                        if all(k is None or e.get(k, 0) * sg * l[k] > 0 for k in l):
                            work.append((comb(comb(e, -sg, l), sg, {s: 1, None: 0}), d + 1))
        return False
    def fits(self, st, a, b, c):
        """a - b <= c ?"""
        if self.le(st, a, b, c):
            return True
        x, y = lin_of(a), lin_of(b)
        if x is None or y is None or not (self.lins(st) or self.slices(st)):
            return False
        return self.holds(st, comb(x, -1, y), c)
    # ------------------------------------------------------------ loops
    def widen_all(self, st, b, items, n):
        super().widen_all(st, b, items, n)
        for (x, y) in [k for k, c in st.rel.items() if abs(c) > 1 and (k[0][0] == 'w' or k[1][0] == 'w')]:
            del st.rel[(x, y)]
    def widen(self, st, name, old, new, ty, n):
        w = super().widen(st, name, old, new, ty, n)
        b, k = split(w)
        if is_sym(b) and b == name and w != new and ty in ('i64', 'i32'):
            ob, ok = split(posn(old) if posn(old) is not None else old)
            nb, nk = split(posn(new) if posn(new) is not None else new)
            if ob == nb and abs(nk - ok) == 1:
                st.x[('ex', b)] = 'count'
            elif st.x.get(('ex', b)) == 'count':
                del st.x[('ex', b)]
        return w
    def project(self, st):
        """before a part of a sum is forgotten: keep what it says about the sum as bounds and differences"""
        live = self.alsolive(st)
        for d in (st.env, st.mem):
            for v in d.values():
                syms_of(v, live)
        sizes = {split(v)[0] for k, v in st.mem.items() if k[0] == 'sz'}
        for s, v in self.lins(st).items():
            if s not in live:
                continue
            l = self.getlin(v)
            if l is None or all(k is None or k in live or k in self.ints for k in l):
                continue
            exact = self.kind(st, s) is not None
            self.bounds_of(st, s, l, sizes)
            del st.x[('lin', s)]
            if exact:
                st.x[('ex', s)] = 'sum'
    def alsolive(self, st):
        return set()
    def bounds_of(self, st, s, l, sizes):
        for sg in (1, -1):
            u = self.upper(st, {k: sg * v for k, v in l.items()})
            if u is not None and abs(u) < 2**62:
                self.setfact(st, s, **({'hi': u} if sg > 0 else {'lo': -u}))
            for z in sizes:
                if is_sym(z) and z != s:
                    u = self.upper(st, comb({k: sg * v for k, v in l.items()}, -sg, {z: 1}))
                    if u is not None and abs(u) < 2**32:
                        if sg > 0:
                            self.addrel2(st, s, z, u)
                        else:
                            self.addrel2(st, z, s, u)
    def collect(self, st):
        if st.x:
            self.project(st)
        super().collect(st)
        for k in [k for k, c in st.rel.items() if abs(c) > 2 and k[0][0] == 'w' and k[1][0] == 'w']:
            del st.rel[k]
        used = self.alsolive(st)
        for d in (st.env, st.mem):
            for k, v in d.items():
                syms_of(v, used)
                if d is st.mem:
                    syms_of(k, used)
        for (a, b) in st.rel:
            used.add(a)
            used.add(b)
        for k in list(st.x):
            if isinstance(k, tuple) and k[0] in MARK:
                z = set()
                syms_of(k[1:], z)
                if k[0] == 'sle':
                    z = {split(st.x[k][1])[0]}
                    syms_of(split(st.x[k][0])[0], z)
                if k[0] == 'sel1':
                    syms_of(st.x[k], z)
                if k[0] == 'lin':
                    syms_of(st.x[k][1:], z)
                    z.discard('k')
                z -= TAGS
                z -= self.ints
                if not z <= used:
                    del st.x[k]
    def fresh(self, st, name):
        r = super().fresh(st, name)
        u = 'u' + name
        for k in [k for k, v in st.x.items() if isinstance(k, tuple) and k[0] in MARK and (mentions(k, u) or mentions(v, u) or mentions(k, name))]:
            del st.x[k]
        return r
    # ------------------------------------------------------------ obligations
    def prove(self, st, ins, c, idx, what, end_ok):
        if isinstance(c, tuple) and c[0] in ('blk', 'cur', 'g') or c is None:
            return
        if isinstance(c, tuple) and c[0] == 'al' and ('sz', c) not in st.mem and not st.x.get(('ctor', c)):
            return      # plain array on the stack
        if what.startswith('list '):
            return      # positions of a list: judged where they are used
        n = self.size(st, c, ins)
        self.slice_start(st, idx)
        lim = 0 if end_ok else -1
        low = self.nonneg(st, idx) or self.fits(st, 0, idx, 0)
        high = self.fits(st, idx, n, lim)
        k = (self.where(ins), what)
        o = self.sites.get(k, 'ok')
        if low and high:
            self.sites[k] = o
            return
        why = self.exact(st, c, idx, n, low, high, lim)
        if why is None:
            self.sites[k] = 'unknown' if o == 'ok' else o
            return
        self.sites[k] = 'bad'
        self.report('bounds', '%s: %s' % (what, why), ins, '%s in container of size %s' % (idx, n), key='%s|%s' % (what, self.where(ins)))
    def exact(self, st, c, idx, n, low, high, lim):
        ib, ik = split(idx)
        nb, nk = split(n)
        if ib is not None and not is_sym(ib) or nb is not None and not is_sym(nb):
            return None
        ki, kn = self.kind(st, ib), self.kind(st, nb)
        if not high and kn in ('size', 'const') and ib is not None:
            f = lin_of(idx)
            for _ in range(3):
                for x in [x for x in f if ('lin', x) in st.x]:
                    l = self.getlin(st.x[('lin', x)])
                    if l is not None and x not in l:
                        f = comb({k: v for k, v in f.items() if k != x}, f[x], l)
            k = f.pop(None, 0)
            for m, ln, a, b, step in self.slices(st):
                a0, m0 = split(a), split(m)
                if not is_sym(a0[0]) or any(('tn', z) in st.x for z in (a0[0], m0[0]) if z is not None):
                    continue
                if f == {a0[0]: 1}:
                    top = -1 if self.rng(st, m)[0] not in (None, 0) else 0
                    if top == 0 and self.rng(st, step)[1] is not None and self.rng(st, step)[1] < 1:
                        continue
                    top += k - a0[1]
                elif is_sym(m0[0]) and f == {a0[0]: 1, m0[0]: 1} and self.rng(st, step) == (1, 1):
                    top = k - a0[1] - m0[1]
                elif st.x.get(('in', ib)) == ln:
                    top = -1 + ik
                else:
                    continue
                lb = split(ln)[0]
                if self.kind(st, lb) in ('size', 'user', 'len', 'sum', 'const') and not self.fits(st, add(ln, top), n, lim):
                    return 'the slice is not one of the current length: a position outside is possible'
        e = st.x.get(('sel1', idx)) if is_sym(idx) else None
        if e is not None and split(e[1])[0] == nb and not high:
            i, j = split(e[2])[0], split(e[0])[0]
            d = st.x.get(('gd', i, j)) if i is not None else None
            if d is not None and d == self.dist(st, i, j) and self.kind(st, i) in ('count', 'user', 'field'):
                return 'the comparison with the length of the slice lets a position outside through'
        if ki is None:
            return None
        if not high and kn in ('size', 'const'):
            if ki in ('user', 'const', 'size', 'sum'):
                return 'nothing keeps the position below the length'
            if ki == 'field' and split(c)[0] != 'oa0':     # the list is another object: anybody can change it
                return 'nothing keeps the position below the length'
            if ki in ('count', 'field') and nb is not None:
                d = st.x.get(('gd', ib, nb))
                if d is not None and d == self.dist(st, ib, nb):
                    return 'the comparison with the length lets a position outside through'
        if not low:
            if ki in ('user', 'size', 'sum') or ki == 'const' and ik < 0:
                return 'nothing keeps the position from being negative'
            if ki in ('count', 'field'):
                d = st.x.get(('gd', None, ib))
                if d is not None and d == self.dist(st, None, ib):
                    return 'the comparison lets a negative position through'
        return None
    def on_access(self, ins, st, c, idx, how):
        self.prove(st, ins, c, idx, how, False)
    def on_pos(self, ins, st, c, idx, what, end_ok):
        self.prove(st, ins, c, idx, what, end_ok)

# ---------------------------------------------------------------- driver
import os, time, traceback
from multiprocessing import Pool
from roles import role_of
from common import Result
_p = None

def _job(a):
    n, cap, inval = a
    fn = _p.funcs[n]
    e = None
    try:
        e = Bounds(_p, fn, role_of(_p, n), {}, cap=cap)
        e.INVALIDATE = inval
        e.run()
        st = 'ok'
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    return fn.dname, fn.file, st, (e.stat if e else {}), (list(e.viol.values()) if e else []), (e.sites if e else {}), n, inval

def run(prog, props, tier, c09=None):
    """C07; and into c09 the positions that are outside only because user code may have changed the length"""
    global _p
    _p = prog
    cap = 40000 if tier == 'quick' else 200000
    names = sorted(prog.roots(), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, cap, True) for n in names], chunksize=1)
        bad = [r[6] for r in res if r[4]]
        other = P.map(_job, [(n, cap, False) for n in bad], chunksize=1) if c09 is not None and bad else []
    out = []
    if c09 is not None:
        still = {(r[6], v.key) for r in other for v in r[4]}
        done = {r[6] for r in other if r[2] == 'ok'}
        for d, f, st, stat, viol, sites, n, inv in res:
            c09.count('native_positions', len(sites))
            for v in viol:
                if n in done and (n, v.key) not in still:
                    c09.add('length|' + v.key, v.site, '%s: %s: the length was read before user code ran' % (d, v.what), v.detail)
    if 'C07' not in props:
        return out
    r = Result('C07')
    r.cov['explanation'] = ('every native position (element read/write, iterator dereference, insert, erase, front/back/pop) on every path of every entry point is '
        'proved inside the container from intervals, differences and linear definitions; one that is not proved although all its parts are free or '
        'exactly known is a violation.  Abstract interpretation of the LLVM IR of every function reachable from a method table, slot table or module init function.')
    unk = []
    for d, f, st, stat, viol, sites, n, inv in sorted(res, key=lambda x: x[0]):
        r.count('entry_points')
        for k in ('states', 'steps'):
            r.count(k, stat.get(k, 0))
        if st != 'ok':
            r.notes.append('%s: %s' % (d, st))
        for (w, what), o in sorted(sites.items()):
            r.count('positions')
            r.count({'ok': 'positions_proved', 'unknown': 'positions_not_judged', 'bad': 'positions_outside'}[o])
            if o == 'unknown':
                unk.append('%s %s %s' % (d, w, what))
            elif o == 'ok':
                r.sample('%s %s %s: inside on every path' % (d, w, what))
        for v in viol:
            r.add(v.key, v.site, '%s: %s' % (d, v.what), v.detail)
    r.cov['not_judged'] = unk
    r.assume.append('positions that depend on derived quantities (steps through a linked list, computed lengths) are not judged where the proof does not go through; they are listed')
    return [r]
