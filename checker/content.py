"""C28 C29: where the elements of a list end up.

Ghost state: for every native container, memory block and Python list an operation touches, its contents as a sequence of
segments -- `elements lo..lo+n of the list at the beginning', `items lo..lo+n of the argument', `this value', `sorted
permutation of ...' -- whose ends are linear forms of the caller's index, the current lengths and the loop counters.
Container operations, single stores, block copies and algorithms transform the sequences; loops are accelerated (a form
that changes by a constant per iteration is re-expressed through the loop's counter).  At every successful return the
sequence is compared with the one the operation's documentation (that of the built-in list) gives.  It is a violation
when the two are shown to differ on a feasible path; what can be neither shown equal nor different is listed as not judged."""
import os, re, time, traceback
from multiprocessing import Pool
from ir import *
from engine import *
from calls import Engine, MNAME, parse_format, UNIT_ARGS
from bounds import Bounds, lin_of, comb
from roles import role_of
from common import Result

ZERO = {None: 0}
ONE = {None: 1}
CONV = {'PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t', 'PyLong_FromSize_t', 'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsInt', '_PyLong_AsInt', 'PyLong_AsSsize_t', 'PyNumber_AsSsize_t',
        'PyNumber_Index', 'PyNumber_Long', 'PyLong_AsLongAndOverflow', 'PyLong_AsLongLongAndOverflow', 'PyLong_AsSize_t', '_PyNumber_Index', 'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong'}
GETITEM = {'PySequence_GetItem', 'PyList_GetItem', 'PyTuple_GetItem', 'PySequence_ITEM', 'PyList_GetItemRef', 'PyList_GET_ITEM', 'PyTuple_GET_ITEM', 'PySequence_Fast_GET_ITEM'}
SAMESEQ = {'PySequence_List', 'PySequence_Tuple', 'PySequence_Fast', 'PyList_AsTuple'}

def frz(f):
    """linear form -> state value"""
    if f is None:
        return None
    return ('F', f.get(None, 0)) + tuple(sorted(((k, v) for k, v in f.items() if k is not None), key=repr))
def thaw(t):
    if t is None:
        return None
    o = {None: t[1]}
    for a, c in t[2:]:
        b, k = split(a)
        o[None] += k * c
        if b is not None:
            o[b] = o.get(b, 0) + c
    return {k: v for k, v in o.items() if v or k is None}
def fsub(a, b):
    return comb(a, -1, b)
def fadd(a, b):
    return comb(a, 1, b)
def isconst(f):
    return all(k is None for k in f)

def plusc(f, k):
    return fadd(f, {None: k})
def stripped(v):
    """without the mark of the previous iteration"""
    if isinstance(v, str):
        return v.rstrip('~')
    if isinstance(v, tuple):
        return tuple(stripped(x) for x in v)
    return v

class Seg:
    """kind R: elements lo..lo+n of base;  V: the value base;  Z: n fresh places;  ?: unknown"""
    __slots__ = ('k', 'b', 'lo', 'n')
    def __init__(s, k, b=None, lo=None, n=None):
        s.k, s.b, s.lo, s.n = k, b, lo, n
    def frozen(s):
        return (s.k, s.b, frz(s.lo), frz(s.n))
    def __repr__(s):
        return '%s(%s,%s,%s)' % (s.k, s.b, s.lo, s.n)
def segs_of(t):
    return [Seg(k, b, thaw(lo), thaw(n)) for k, b, lo, n in t]

def isarg(v):
    """an argument, or an item of an argument tuple"""
    return v.startswith('oa') or re.fullmatch(r'[os]\d+p\d+', v) is not None

def params(d):
    """number of parameters in a demangled signature, or None"""
    d = re.sub(r'\s*\[.*\]$|\s+const$', '', d.strip())
    if not d.endswith(')'):
        return None
    depth = n = 0
    for i in range(len(d) - 1, -1, -1):
        ch = d[i]
        if ch in ')>]}' and d[i - 1:i + 1] != '->':
            depth += 1
        elif ch in '(<[{':
            depth -= 1
            if not depth:
                return n + 1 if d[i + 1:-1].strip() else 0
        elif ch == ',' and depth == 1:
            n += 1
    return None

class Content(Bounds):
    INVALIDATE = True
    VAGUE = (None,)
    def __init__(self, prog, fn, role, shared, cap=30000):
        super().__init__(prog, fn, role, shared, cap=cap)
        self.rules = {'content'}
        self.judged = {}
        self.refuted = set()
        self.guessed, self.confirmed = set(), set()
        self.extra = []
        # positions in linked lists are steps from either end: an index is one walk, a slice is several that depend on each other
        self.nodes = any(prog.callees[i.x['f']].kind in ('list', 'lit') for i in fn.instrs() if i.x.get('f') in prog.callees)
        self.left = None
        self.iterates = any(r.get('pyname') == 'extend' or r.get('slot') in ('sq_inplace_concat', 'tp_init') for r in role['roles'])
        self.roles = [(r['kind'], r.get('pyname') or r.get('slot')) for r in role['roles']]
    def prove(self, *a):
        pass
    def report(self, rule, what, ins, detail='', key=None):
        if rule in ('content', 'order'):
            super().report(rule, what, ins, detail, key)

    # ------------------------------------------------------------ facts
    def ineqs(self, st):
        r = super().ineqs(st) + self.extra + [thaw(t) for t in st.x.get('IQ', ())]
        for k, v in st.x.items():
            # the value of a sum is known
            if isinstance(k, tuple) and k[0] == 'lin' and isinstance(k[1], int):
                f = self.getlin(v)
                if f is not None:
                    f = plusc(f, -k[1])
                    r += [f, {a: -c for a, c in f.items()}]
        for b, d, l, k in st.x.get('RL', ()):
            f = fsub(thaw(l), thaw(k))
            r += [f, {a: -c for a, c in f.items()}]
        return r
    def le0(self, st, f):
        """f <= 0 ?"""
        if isconst(f):
            return f[None] <= 0
        k = frz(f)
        return self.holds(st, dict(f), 0)
    def eqf(self, st, a, b):
        d = fsub(a, b)
        if isconst(d):
            return d[None] == 0
        return self.le0(st, d) and self.le0(st, {k: -v for k, v in d.items()})
    def ltf(self, st, a, b):
        d = fsub(a, b)
        d[None] = d.get(None, 0) + 1
        return self.le0(st, d)
    def nef(self, st, a, b):
        return self.ltf(st, a, b) or self.ltf(st, b, a)
    def lef(self, st, a, b):
        return self.le0(st, fsub(a, b))
    def zero(self, st, f):
        return f is not None and self.lef(st, f, ZERO)
    def pos(self, st, f):
        return f is not None and self.ltf(st, ZERO, f)

    def unequal(self, st, a, b, kx, ky):
        fa, fb = lin_of(a), lin_of(b)
        ok = ('user', 'size', 'len', 'slice', 'field')
        if kx not in ok or ky not in ok or fa is None or fb is None:
            return False
        f = fsub(fa, fb)
        if any(k is not None and k.endswith('~') for k in f):
            return False
        q = st.x.get('NE', ())
        if frz(f) not in q:
            if len(q) >= 4:
                return False
            st.x['NE'] = tuple(sorted(q + (frz(f),), key=repr))
        return True
    def sums(self, st, pred, x, y, a, b):
        tn = {k for k in st.x if isinstance(k, tuple) and k[0] == 'tn'}
        r = super().sums(st, pred, x, y, a, b)
        fa, fb = lin_of(a), lin_of(b)
        if r and fa is not None and fb is not None and any(is_sym(z) and ('lin', z) in st.x for z in (x, y)):
            for p, f in (('le', fsub(fa, fb)), ('ge', fsub(fb, fa))):
                if not (pred == 'eq' or pred[1:] == p or pred[1:] == p[0] + 't'):
                    continue
                if pred[0] == 'u' and not self.nonneg(st, b if p == 'le' else a):
                    continue
                if pred[1:] == p[0] + 't':
                    f = fadd(f, ONE)
                for _ in range(3):
                    for z in [z for z in f if z is not None and ('lin', z) in st.x]:
                        l = self.getlin(st.x[('lin', z)])
                        if l is not None and z not in l:
                            f = comb({k: v for k, v in f.items() if k != z}, f[z], l)
                ks = [k for k in f if k is not None]
                if not ks or any(k.endswith('~') for k in ks):
                    continue
                t = self.keep(st, f)
                if t:
                    for k in ks:
                        if ('tn', k) not in tn:
                            st.x.pop(('tn', k), None)       # kept exactly
        return r

    def keep(self, st, f):
        """remember f <= 0"""
        t = frz(f)
        q = st.x.get('IQ', ())
        for o in q:
            if o[2:] == t[2:]:
                if o[1] >= t[1]:
                    return True
                q = tuple(x for x in q if x != o)
        if len(q) >= 12:
            return False
        st.x['IQ'] = tuple(sorted(q + (t,), key=repr))
        return True

    # ------------------------------------------------------------ sequences
    def Q(self, st):
        return dict(st.x.get('Q', ()))
    def put(self, st, c, segs):
        q = self.Q(st)
        if segs is None:
            q.pop(c, None)
        else:
            q[c] = tuple(s.frozen() for s in self.norm(st, segs))
        st.x['Q'] = tuple(sorted(q.items(), key=repr))
    def unknown(self, st, c):
        self.put(st, c, [Seg('?')])
    def base_of(self, st, c):
        b = split(c)[0]
        if isinstance(c, tuple) and c[0] == 'blk':
            o = c[1]
            return ('P', dict(st.x.get('AL', ())).get(o, o))
        return ('B', c, st.x.get('EP', 0))
    def segs(self, st, c, ins):
        q = self.Q(st)
        if c in q:
            return segs_of(q[c])
        n = lin_of(self.size(st, c, ins))
        if (self.islocal(c) or st.x.get(('newobj', split(c)[0]))) and n is not None and isconst(n) and n[None] == 0:
            r = []
        elif isinstance(c, tuple) and c[0] == 'blk' and is_sym(c[1]) and c[1][0] == 'm':
            r = [Seg('?')]
        else:
            b = self.base_of(st, c)
            z = dict(st.x.get('BZ', ())).get(b)
            if b[0] == 'P' and z is not None:
                n = thaw(z)     # its length was asked for
            r = [Seg('R', b, ZERO, n)]
            self.bsize(st, b, n)
        self.put(st, c, r)
        return r
    def bsize(self, st, b, n):
        z = dict(st.x.get('BZ', ()))
        if b[0] == 'P' and b in z and z[b] != frz(n):
            o = thaw(z[b]) if z[b] is not None else None
            ks = [k for k in n if k is not None]
            if self.INVALIDATE or o is None:
                n = None        # it may have changed in between
            else:
                ls = [k for k in o if k is not None]
                return ls[0] if len(ls) == 1 and o[ls[0]] == 1 and o[None] == 0 else None
        z[b] = frz(n)
        st.x['BZ'] = tuple(sorted(z.items(), key=repr))
    def norm(self, st, segs):
        out = []
        for s in segs:
            if s.k != '?' and s.n is not None and self.zero(st, s.n):
                continue
            if out:
                p = out[-1]
                if p.k == 'R' and s.k == 'R' and p.b == s.b and p.n is not None and self.eqf(st, fadd(p.lo, p.n), s.lo):
                    out[-1] = Seg('R', p.b, p.lo, fadd(p.n, s.n) if s.n is not None else None)
                    continue
                if p.k == s.k == 'Z':
                    out[-1] = Seg('Z', None, None, fadd(p.n, s.n))
                    continue
                if p.k == s.k == '?':
                    continue
            out.append(s)
        return out
    def cut(self, st, segs, pos):
        """(segments before pos, segments from pos) or None"""
        acc = dict(ZERO)
        if self.eqf(st, pos, ZERO):
            return [], list(segs)
        for j, s in enumerate(segs):
            if s.k == '?' or s.n is None:
                return None
            end = fadd(acc, s.n)
            if self.eqf(st, pos, end):
                return list(segs[:j + 1]), list(segs[j + 1:])
            if self.ltf(st, pos, end) or j == len(segs) - 1:
                d = fsub(pos, acc)
                if j and not self.lef(st, ZERO, d):
                    return None
                if s.k in ('R', 'Z', 'C'):
                    a = Seg(s.k, s.b, s.lo, d)
                    b = Seg(s.k, s.b, fadd(s.lo, d) if s.lo is not None else None, fsub(s.n, d))
                    return list(segs[:j]) + [a], [b] + list(segs[j + 1:])
                return None
            if not self.lef(st, end, pos):
                return None
            acc = end
        return None
    def part(self, st, segs, a, b):
        r = self.cut(st, segs, a)
        if r is None:
            return None
        x = self.cut(st, r[1], fsub(b, a))
        return None if x is None else x[0]
    def replace(self, st, c, ins, a, b, new):
        """positions a..b of c become new"""
        s = self.segs(st, c, ins)
        l = self.cut(st, s, a)
        r = self.cut(st, s, b) if l is not None else None
        if l is None or r is None or new is None:
            self.unknown(st, c)
        else:
            self.put(st, c, l[0] + list(new) + r[1])
    def at(self, st, segs, i):
        """segment of one element"""
        r = self.part(st, segs, i, fadd(i, ONE))
        if r:
            r = [s for s in r if not (s.n is not None and self.zero(st, s.n))]
            if len(r) == 1:
                return r[0]
        return None
    def form(self, v):
        return lin_of(v)

    # ------------------------------------------------------------ where a value comes from
    def org(self, st, v):
        if v is None:
            return None
        r = {t[1] for t in st.x.get('O', ()) if t[0] == v}
        if len(r) != 1:
            return None
        r = r.pop()
        return (r[0], thaw(r[1]))
    def setorg(self, st, v, base, idx):
        if not is_sym(v) or idx is None:
            return
        o = [t for t in st.x.get('O', ()) if t[0] != v] + [(v, (base, frz(idx)))]
        st.x['O'] = tuple(sorted(o, key=repr))
    def delorg(self, st, v):
        if is_sym(v):
            if any(t[0] == v for t in st.x.get('O', ())):
                st.x['O'] = tuple(t for t in st.x['O'] if t[0] != v)
    def one(self, st, v):
        """segment of the single value v"""
        o = self.org(st, v)
        if o is not None:
            return Seg('R', o[0], o[1], ONE)
        if is_sym(v) and (isarg(v) or v in self.ints):
            return Seg('R', ('A', v), ZERO, ONE)
        return Seg('V', v if v is not None else '?', None, ONE)
    def setv(self, st, ins, v):
        super().setv(st, ins, v)
    def newsym(self, st, ins, prefix='s', tag=''):
        v = super().newsym(st, ins, prefix, tag)
        if 'O' in st.x:
            self.delorg(st, v)
        return v
    def fresh(self, st, name):
        r = super().fresh(st, name)
        u = 'u' + name
        if any(mentions(st.x[k], u) for k in ('Q', 'O', 'IQ', 'FIN', 'BZ', 'U', 'AL', 'RL', 'NUM', 'SR', 'IT', 'NE') if k in st.x):
            # an unknown earlier value: not one value
            st.x['Q'] = tuple((c, (('?', None, None, None),) if mentions(t, u) else t) for c, t in st.x.get('Q', ()) if not mentions(c, u))
            if 'FIN' in st.x:
                st.x['FIN'] = tuple((c, 'many' if mentions(t, u) else t) for c, t in st.x['FIN'] if not mentions(c, u))
            if mentions(st.x.get('SR', ()), u):
                st.x['SR'] = (('many',),)
            if mentions(st.x.get('IT', ()), u):
                del st.x['IT']
            for k in ('O', 'IQ', 'BZ', 'U', 'AL', 'RL', 'NUM', 'NE'):
                if k in st.x:
                    st.x[k] = tuple(t for t in st.x[k] if not mentions(t, u))
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'stp' and (mentions(k, u) or mentions(st.x[k], u) or k[1] == name)]:
            del st.x[k]
        return r
    def idxform(self, st, c, idx):
        """the index as a linear form; a step through a slice as a pair"""
        f = lin_of(idx)
        if f is None:
            return None
        if len(f) == 2 and f[None] == 0:
            m = st.x.get(('stp', [k for k in f if k is not None][0]))
            if m is not None and lin_of(m[1]) is not None:
                for n, ln, s, e, step in self.slices(st):
                    if s == m[0] and step == m[2]:
                        return ('stride', s, step), lin_of(m[1])
        g = dict(f)
        for _ in range(3):
            for x in list(g):
                if x is not None and ('lin', x) in st.x and ('mul', x) not in st.x:
                    l = self.getlin(st.x[('lin', x)])
                    if l is not None and x not in l:
                        g = comb({k: v for k, v in g.items() if k != x}, g[x], l)
        for x in g:
            if x is not None and ('mul', x) in st.x and g[x] == 1:
                a, b = st.x[('mul', x)]
                rest = {k: v for k, v in g.items() if k != x}
                for n, ln, s, e, step in self.slices(st):
                    for i, t in ((a, b), (b, a)):
                        if t == step and lin_of(s) is not None and fsub(rest, lin_of(s)) == ZERO and lin_of(i) is not None:
                            return ('stride', s, step), lin_of(i)
        return f
    def op_load(self, ins, st):
        a = self.val(st, ins.ops[0])
        a = self.plain(a)
        r = super().op_load(ins, st)
        if isinstance(a, tuple) and a[0] == 'sl' and ins.id >= 0:
            v = st.env.get('%%%d' % ins.id)
            if is_sym(v):
                self.loaded(ins, st, a[1], a[2], v)
        return r
    def loaded(self, ins, st, c, idx, v):
        if isinstance(c, tuple) and c[0] in ('g', 'cur') or not is_sym(v):
            return
        f = self.idxform(st, c, idx)
        if f is None:
            return
        s = self.segs(st, c, ins)
        if not isinstance(f, tuple):
            for n, ln, s1, e1, step in self.slices(st):
                if lin_of(s1) is not None and self.rng(st, step) != (1, 1) and self.eqf(st, f, lin_of(s1)):
                    f = ('stride', s1, step), dict(ZERO)
                    break
        if isinstance(f, tuple):
            if len(s) == 1 and s[0].k == 'R' and s[0].lo == ZERO:
                self.setorg(st, v, (f[0], s[0].b), f[1])
            return
        e = self.at(st, s, f)
        if e is not None and e.k == 'R':
            self.setorg(st, v, e.b, e.lo)
    def refval(self, ins, st, addr):
        v = super().refval(ins, st, addr)
        a = self.plain(addr)
        if v is None and isinstance(a, tuple) and a[0] == 'sl':
            v = self.newsym(st, ins, 'u', 'rv')
        if isinstance(a, tuple) and a[0] == 'sl' and is_sym(v) and self.org(st, v) is None:
            self.loaded(ins, st, a[1], a[2], v)
        return v
    def op_trunc(self, ins, st):
        v = self.val(st, ins.ops[0])
        r = super().op_trunc(ins, st)
        self.follow(ins, st, v)
        return r
    def op_sext(self, ins, st):
        v = self.val(st, ins.ops[0])
        r = super().op_sext(ins, st)
        self.follow(ins, st, v)
        return r
    def follow(self, ins, st, v):
        w = st.env.get('%%%d' % ins.id)
        if is_sym(w) and w != v and is_sym(v):
            self.carry(st, v, w)
            o = self.org(st, v)
            if o is not None:
                self.setorg(st, w, o[0], o[1])
    def op_store(self, ins, st):
        v, a = self.val(st, ins.ops[0]), self.plain(self.val(st, ins.ops[1]))
        if isinstance(a, tuple) and a[0] == 'sl' and not (isinstance(v, tuple) and v[0] == 'rc') and not (isinstance(a[1], tuple) and a[1][0] in ('g', 'cur')):
            c = a[1]
            f = self.form(a[2])
            if c in self.Q(st) or not (isinstance(c, tuple) and c[0] == 'al' and ('ctor', c) not in st.x and ('sz', c) not in st.mem):
                if f is None:
                    self.unknown(st, c)
                else:
                    self.replace(st, c, ins, f, fadd(f, ONE), [self.one(st, v)])
        elif isinstance(a, tuple) and a[0] == 'sl' and isinstance(a[1], tuple) and a[1][0] == 'cur':
            for c in [c for c in self.Q(st)]:
                if not self.islocal(c):
                    self.unknown(st, c)
        return super().op_store(ins, st)
    def py_PySlice_AdjustIndices(self, ins, st, args):
        if self.nodes:
            self.left = 'slices of linked lists'
            return []
        r = super().py_PySlice_AdjustIndices(ins, st, args)
        n = st.env.get('%%%d' % ins.id)
        f = st.x.get(('slice', n))
        if f:
            st.x['SL'] = tuple(st.x.get('SL', ())) + ((n,) + tuple(f),)
        return r
    def slices(self, st):
        return [t for t in st.x.get('SL', ())]
    def load_new(self, ins, st, b, k):
        if ins.ty == 'ptr' and is_sym(b) and k == 24:
            d = self.fn.defs.get(ins.ops[0])
            if d is not None and d.op == 'getelementptr' and 'PyListObject' in d.x.get('sty', ''):
                return ('sl', ('blk', b), 0)
        return super().load_new(ins, st, b, k)

    def freecall(self, ca):
        return ca.base == 'CPython_sort'
    def op_zext(self, ins, st):
        """a truth value that is added to something: both cases"""
        v = self.val(st, ins.ops[0])
        if ins.x.get('from') == 'i1' and isinstance(v, tuple) and self.counted(ins.id) and self.truth(st, v) is None:
            out = []
            for want in (False, True):
                s = st.copy()
                if self.assume(s, v, want):
                    self.setv(s, ins, int(want))
                    out.append(('next', s))
            return out
        return super().op_zext(ins, st)
    def counted(self, k):
        if not hasattr(self, 'sums_of'):
            self.sums_of = {o for i in self.fn.instrs() if i.op in ('add', 'sub', 'mul', 'shl', 'getelementptr') for o in i.ops}
        return '%%%d' % k in self.sums_of

    def argload(self, ins, st, b, idx):
        if self.same and idx == 0 and any(self.OTHER.get(r) == 'args' for r in self.roles):
            return 'oa0'
        return super().argload(ins, st, b, idx)
    def decide(self, st, pred, a, b):
        if self.same and pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if x == ('typ', 'oa0') and isinstance(y, tuple) and y[0] == 'g':
                    own = self.fn.dname.split('_')[0] + 'Type'
                    return (re.fullmatch(r'(.*\D)?\d*%s' % own, y[1]) is not None) == (pred == 'eq')
        return super().decide(st, pred, a, b)

    # ------------------------------------------------------------ interpreter calls
    def pyrun(self, st, ins, what, of=None):
        if self.quiet or not self.INVALIDATE or of is not None and self.isint(st, of):
            return
        self.pushed(st)
        super().pyrun(st, ins, what, of)
        ep = ins.bb * 4096 + ins.idx + 1
        self.purge(st, ep)
        st.x['EP'] = ep
        if 'FIN' in st.x:
            st.x['LATE'] = tuple(sorted(set(st.x.get('LATE', ())) | {ep}))
    def isint(self, st, v):
        """an int made from an element of a list of native ints: nothing of the user's runs when it goes away or is converted"""
        o = self.org(st, v) if is_sym(v) else None
        if o is None or not self.fn.dname.startswith(('Int', 'BigInt')):
            return False
        b = o[0]
        while b[0] == 'T' or isinstance(b[0], tuple):
            b = b[2] if b[0] == 'T' else b[1]
        return b[0] == 'B' and split(b[1])[0] == 'oa0'
    def purge(self, st, ep):
        """contents read at an earlier passage of the same point"""
        def has(b):
            if not isinstance(b, tuple) or not b:
                return False
            if b[0] == 'B':
                return b[2] == ep
            return any(has(x) for x in b)
        q = st.x.get('Q', ())
        if any(has(t) for c, t in q):
            st.x['Q'] = tuple((c, (('?', None, None, None),) if has(t) else t) for c, t in q)
        f = st.x.get('FIN', ())
        if any(has(t) for c, t in f):
            st.x['FIN'] = tuple((c, 'many' if has(t) else t) for c, t in f)
        for k in ('O', 'BZ'):
            if k in st.x and any(has(t) for t in st.x[k]):
                st.x[k] = tuple(t for t in st.x[k] if not has(t))
    quiet = False
    def project(self, st):
        ls = self.lins(st)
        for s in ls:
            l = self.getlin(ls[s])
            if l is not None and any(k in ls for k in l):
                e = self.expand(st, l)
                if s not in e:
                    self.setlin(st, s, e)
        super().project(st)
    def alsolive(self, st):
        r = set()
        for k, v in st.x.items():
            if isinstance(k, str):
                syms_of(v, r)
        return r
    same = False        # the other operand is the list itself
    OTHER = {('slot', 'sq_concat'): 1, ('slot', 'sq_inplace_concat'): 1, ('method', 'extend'): 'args'}
    def initial(self, absent=()):
        st = super().initial(absent)
        if self.same:
            for r in self.roles:
                k = self.OTHER.get(r)
                if isinstance(k, int):
                    if st.env.get('%%%d' % k) == 0:
                        continue
                    st.env['%%%d' % k] = 'oa0'
            st.x[('isnot', 'oa0')] = tuple(sorted(set(TPFLAG.values()), key=repr))
        st.x['ARGV'] = tuple(st.env.get('%%%d' % k) for k in range(len(self.fn.args)))
        return st
    def pushed(self, st):
        """user code is about to run: what it can see is recorded, and unknown afterwards"""
        q = self.Q(st)
        mine = {k[1] for k in st.x if isinstance(k, tuple) and k[0] == 'newobj'}
        fin = dict(st.x.get('FIN', ()))
        ch = False
        for c in list(q):
            if self.islocal(c) or split(c)[0] in mine or c[0] in ('cnt', 'blk'):
                continue
            s = segs_of(q.pop(c))
            ch = True
            if not (len(s) == 1 and s[0].k == 'R' and s[0].b[:2] == ('B', c) and s[0].lo == ZERO) and s != []:
                fin[c] = 'many' if c in fin else tuple(x.frozen() for x in s)
            elif s == [] and ('tch', c) in st.x:
                fin[c] = 'many' if c in fin else ()
        if ch:
            st.x['Q'] = tuple(sorted(q.items(), key=repr))
            if fin:
                st.x['FIN'] = tuple(sorted(fin.items(), key=repr))
    def api_generic(self, ins, st, spec, n, args):
        it = args[0] if args else None
        cnt = None
        if n == 'PyIter_Next' and is_sym(it):
            s = self.segs(st, ('cnt', it), ins) if ('cnt', it) in self.Q(st) else []
            cnt = s[0].n if s else dict(ZERO)
            if self.iterates:
                self.fetch(ins, st, it)
        o = self.org(st, it) if is_sym(it) else None
        self.quiet = n in CONV and is_sym(it) and self.isint(st, it)
        try:
            r = super().api_generic(ins, st, spec, n, args)
        finally:
            self.quiet = False
        for how, s in ([('ok', st)] if r is None else r):
            v = s.env.get('%%%d' % ins.id) if ins.id >= 0 else None
            if n == 'PyIter_Next' and v == 0 and self.iterates and is_sym(it):
                s.x['IT'] = (it, 0, (), 1)
            if not is_sym(v):
                continue
            if n in ('PyMem_Calloc', 'PyMem_Malloc', 'PyMem_RawCalloc', 'PyMem_RawMalloc', 'malloc', 'calloc', 'PyObject_Malloc', 'PyObject_Calloc'):
                f = None
                if n.lower().endswith('calloc') and args[1] == 8:
                    f = self.form(args[0])
                elif not n.lower().endswith('calloc'):
                    f = self.count(s, ('blk', v), args[0])
                self.put(s, ('blk', v), [Seg('Z', None, None, f)] if f is not None else [Seg('?')])
            if n.startswith('PyLong_From') and self.form(it) is not None and n != 'PyLong_FromUnicodeObject':
                s.x['NUM'] = tuple(t for t in s.x.get('NUM', ()) if t[0] != v) + ((v, frz(self.form(it))),)
            if n in CONV:
                self.carry(s, it, v)
            if n in CONV and is_sym(it):
                if o is not None:
                    self.setorg(s, v, o[0], o[1])
                elif it.startswith('oa') or it[0] == 'o':
                    self.setorg(s, v, ('A', it), ZERO)
                u = dict(s.x.get('U', ()))
                a = u.get(it, it)
                if isarg(a):
                    u[v] = a
                    s.x['U'] = tuple(sorted(u.items(), key=repr))
            elif n in GETITEM and is_sym(it):
                f = self.form(args[1])
                if f is not None:
                    self.setorg(s, v, ('P', dict(s.x.get('AL', ())).get(it, it)), f)
            elif cnt is not None or n == 'PyIter_Next':
                if self.iterates:
                    self.fetched(s, it, v)
                if cnt is None:
                    continue
                src = dict(s.x.get('AL', ())).get(it, it)
                self.setorg(s, v, ('P', src), cnt)
                self.put2(s, ('cnt', it), [Seg('N', None, None, fadd(cnt, ONE))])
            elif n in SAMESEQ or n == 'PyObject_GetIter':
                al = dict(s.x.get('AL', ()))
                al[v] = al.get(it, it)
                s.x['AL'] = tuple(sorted(al.items(), key=repr))
            elif n in ('PySequence_Size', 'PySequence_Length', 'PyObject_Size', 'PyObject_Length', 'PyList_Size', 'PyTuple_Size', 'PyList_GET_SIZE', 'PyTuple_GET_SIZE', 'PySequence_Fast_GET_SIZE', 'Py_SIZE') and is_sym(it):
                same = self.bsize(s, ('P', dict(s.x.get('AL', ())).get(it, it)), {v: 1, None: 0})
                if same is not None:
                    self.setv(s, ins, same)
        if n in ('PyList_Append', 'PyList_SetItem', 'PyTuple_SetItem', 'PyList_SET_ITEM', 'PyTuple_SET_ITEM', 'PyList_Insert', 'PyList_SetSlice', 'PyList_Sort', 'PyList_Reverse') and is_sym(it):
            c = ('blk', it)
            for how, s in ([('ok', st)] if r is None else r):
                ok = s.env.get('%%%d' % ins.id) == 0 if ins.id >= 0 else True
                if not ok:
                    continue
                if n == 'PyList_Append':
                    self.put(s, c, self.segs(s, c, ins) + [self.one(s, args[1])])
                elif n in ('PyList_SetItem', 'PyTuple_SetItem', 'PyList_SET_ITEM', 'PyTuple_SET_ITEM') and self.form(args[1]) is not None:
                    f = self.form(args[1])
                    self.replace(s, c, ins, f, fadd(f, ONE), [self.one(s, args[2])])
                else:
                    self.unknown(s, c)
        return r
    def put2(self, st, c, segs):
        q = self.Q(st)
        q[c] = tuple(s.frozen() for s in segs)
        st.x['Q'] = tuple(sorted(q.items(), key=repr))
    def created(self, ins, st, v, n, args):
        super().created(ins, st, v, n, args)
        if n in ('PyList_New', 'PyTuple_New'):
            f = self.form(args[0])
            self.put(st, ('blk', v), [Seg('Z', None, None, f)] if f is not None else [Seg('?')])
    def parse_units(self, ins, st, units, opt, outs):
        r = super().parse_units(ins, st, units, opt, outs)
        pos, k = [], 0
        for u in units:
            w = UNIT_ARGS.get(u, 1)
            pos.append(outs[k:k + w])
            k += w
        for how, s in r:
            un = []
            for j, m in enumerate(pos):
                v = s.mem.get(split(m[-1])) if m else None
                # symbols are named after the unit: parsed unless the default is still there
                un.append((j, units[j], v, int(is_sym(v) and v.endswith('p%d' % j))))
            s.x['UN'] = tuple(un)
        return r

    # ------------------------------------------------------------ containers
    def on_call(self, ins, st, ca, args):
        super().on_call(ins, st, ca, args)
    def it_range(self, a, b):
        """(container, from, to) of two iterators or element pointers"""
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, tuple) and a[0] in ('it', 'sl') and isinstance(b, tuple) and b[0] == a[0] and a[1] == b[1]:
            x, y = self.form(a[2]), self.form(b[2])
            if x is not None and y is not None:
                return a[1], x, y
        return None
    def src(self, st, ins, a, b):
        """segments of a range"""
        r = self.it_range(a, b)
        if r is None or isinstance(r[0], tuple) and r[0][0] in ('g', 'cur'):
            return None
        return self.part(st, self.segs(st, r[0], ins), r[1], r[2])
    def touch(self, st, c):
        st.x[('tch', c)] = 1
        it = st.x.get('IT')
        if it is not None and it[3] == 0:
            st.x['IT'] = it[:3] + ('other',)

    # ------------------------------------------------------------ every item of an iterable goes to the end, once
    def carry(self, st, a, b):
        it = st.x.get('IT')
        if it is not None and is_sym(a) and is_sym(b) and a in it[2] and b not in it[2]:
            st.x['IT'] = it[:2] + (it[2] + (b,),) + it[3:]
    def fetch(self, ins, st, it):
        """before the next item is asked for"""
        p = st.x.get('IT')
        if p is not None and p[0] == it and p[3] == 0 and self.truth(st, ('cmp', 'ne', p[1], 0)) and not self.dead(st):
            self.report('content', 'the next item is fetched although the last one has not been added', ins, key='%s|dropped' % self.opname())
    def fetched(self, st, it, v):
        p = st.x.get('IT')
        src = dict(st.x.get('AL', ())).get(it, it)
        if not isarg(src) or p is not None and p[0] != it:
            st.x['IT'] = (it, v, (v,), 'other')
        else:
            st.x['IT'] = (it, v, (v,), 0)
    def added(self, ins, st, v):
        it = st.x.get('IT')
        if it is None or not is_sym(v) or v not in it[2]:
            return
        if it[3] == 1 and not self.dead(st):
            self.report('content', 'an item of the argument is added twice', ins, key='%s|twice' % self.opname())
        if it[3] == 0:
            st.x['IT'] = it[:3] + (1,)
    def dead(self, st):
        return self.holds(st, {None: 0}, -1)
    def opname(self):
        return self.roles[0][1] if self.roles else '?'
    def v_ctor(self, ins, st, ca, c, args):
        a = ca.args
        new = [Seg('?')]
        if len(args) == 1 or a.startswith('(std::allocator') or a.startswith('(AlignedAllocator'):
            new = []
        elif a.startswith('(unsigned long'):
            f = self.form(args[1])
            new = [Seg('Z', None, None, f)] if f is not None else new
        elif a.startswith('(std::vector') or a.startswith('(std::__cxx11::list'):
            s = self.plain(args[1])
            new = self.segs(st, s, ins)
            if '&&' in a:
                self.touch(st, s)
                self.put(st, s, [])
        elif len(args) >= 3 and (a.startswith('(__gnu_cxx') or a.startswith('(std::_List') or a.startswith('(_object*')or a.startswith('(int') or a.startswith('(long')):
            new = self.src(st, ins, self.itarg2(st, args[1]), self.itarg2(st, args[2]))
            if new is None:
                new = [Seg('?')]
        super().v_ctor(ins, st, ca, c, args)
        self.put(st, c, new)
    def v_dtor(self, ins, st, ca, c, args):
        super().v_dtor(ins, st, ca, c, args)
        self.put(st, c, None)
    def v_assign_op(self, ins, st, ca, c, args):
        s = self.plain(args[1])
        if s != c:
            new = self.segs(st, s, ins)
            self.put(st, c, new)
            if '&&' in ca.args:
                self.touch(st, s)
                self.put(st, s, [])
            self.touch(st, c)
        return super().v_assign_op(ins, st, ca, c, args)
    def v_push_back(self, ins, st, ca, c, args):
        old = self.segs(st, c, ins)
        v = self.refval(ins, st, args[1]) if len(args) > 1 else 0
        self.added(ins, st, v)
        r = super().v_push_back(ins, st, ca, c, args)
        self.put(st, c, old + [self.one(st, v)])
        self.touch(st, c)
        return r
    v_emplace_back = v_push_back
    def v_push_front(self, ins, st, ca, c, args):
        old = self.segs(st, c, ins)
        v = self.refval(ins, st, args[1]) if len(args) > 1 else 0
        r = super().v_push_front(ins, st, ca, c, args)
        self.put(st, c, [self.one(st, v)] + old)
        self.touch(st, c)
        return r
    v_emplace_front = v_push_front
    def v_pop_back(self, ins, st, ca, c, args):
        n = self.form(self.size(st, c, ins))
        s = self.segs(st, c, ins)
        if n is None:
            self.unknown(st, c)
        else:
            self.replace(st, c, ins, fadd(n, {None: -1}), n, [])
        self.touch(st, c)
        return super().v_pop_back(ins, st, ca, c, args)
    def v_pop_front(self, ins, st, ca, c, args):
        self.segs(st, c, ins)
        self.replace(st, c, ins, ZERO, ONE, [])
        self.touch(st, c)
        return super().v_pop_front(ins, st, ca, c, args)
    def v_clear(self, ins, st, ca, c, args):
        self.segs(st, c, ins)
        self.put(st, c, [])
        self.touch(st, c)
        return super().v_clear(ins, st, ca, c, args)
    def v_resize(self, ins, st, ca, c, args):
        n = self.form(args[1])
        old = self.size(st, c, ins)
        m = self.form(old)
        segs = self.segs(st, c, ins)
        self.touch(st, c)
        if n is None or m is None:
            self.unknown(st, c)
            return super().v_resize(ins, st, ca, c, args)
        outs = []
        s2 = st.copy()
        val = self.refval(ins, st, args[2]) if len(args) > 2 else None
        if self.assume(st, ('cmp', 'sle', old, args[1]), True):
            self.put(st, c, segs + [Seg('Z', None, None, fsub(n, m))])
            r = super().v_resize(ins, st, ca, c, args)
            outs += [('ok', st)] if r is None else r
        if self.assume(s2, ('cmp', 'sgt', old, args[1]), True):
            self.replace(s2, c, ins, n, m, [])
            r = super().v_resize(ins, s2, ca, c, args)
            outs += [('ok', s2)] if r is None else r
        return outs
    def v_assign(self, ins, st, ca, c, args):
        if ca.args.startswith('(unsigned long'):
            f = self.form(args[1])
            new = [Seg('Z', None, None, f)] if f is not None else None
        else:
            new = self.src(st, ins, self.itarg2(st, args[1]), self.itarg2(st, args[2])) if len(args) > 2 else None
        r = super().v_assign(ins, st, ca, c, args)
        self.put(st, c, new if new is not None else [Seg('?')])
        self.touch(st, c)
        return r
    def v_insert(self, ins, st, ca, c, args):
        pos = self.itarg2(st, args[1])
        pos = self.plain(pos)
        i = self.form(pos[2]) if isinstance(pos, tuple) and pos[0] == 'it' else None
        self.segs(st, c, ins)
        new = None
        if len(args) == 3:
            new = [self.one(st, self.refval(ins, st, args[2]))]
        elif len(args) == 4 and re.search(r', unsigned long,', ca.args):
            f = self.form(args[2])
            v = self.refval(ins, st, args[3])
            new = [Seg('C', v if v is not None else '?', None, f)] if f is not None else None
        elif len(args) == 4:
            new = self.src(st, ins, self.itarg2(st, args[2]), self.itarg2(st, args[3]))
        if i is None or new is None:
            self.unknown(st, c)
        else:
            self.replace(st, c, ins, i, i, new)
        self.touch(st, c)
        return super().v_insert(ins, st, ca, c, args)
    v_emplace = v_insert
    def v_erase(self, ins, st, ca, c, args):
        pos = self.plain(self.itarg2(st, args[1]))
        i = self.form(pos[2]) if isinstance(pos, tuple) and pos[0] == 'it' else None
        j = None
        if len(args) == 2:
            j = fadd(i, ONE) if i is not None else None
        else:
            e = self.plain(self.itarg2(st, args[2]))
            j = self.form(e[2]) if isinstance(e, tuple) and e[0] == 'it' else None
        self.segs(st, c, ins)
        if i is None or j is None:
            self.unknown(st, c)
        else:
            self.replace(st, c, ins, i, j, [])
        self.touch(st, c)
        return super().v_erase(ins, st, ca, c, args)
    def v_swap(self, ins, st, ca, c, args):
        o = self.plain(args[1])
        a, b = self.segs(st, c, ins), self.segs(st, o, ins)
        r = super().v_swap(ins, st, ca, c, args)
        self.put(st, c, b)
        self.put(st, o, a)
        self.touch(st, c)
        self.touch(st, o)
        return r
    def v_splice(self, ins, st, ca, c, args):
        pos = self.plain(self.itarg2(st, args[1]))
        i = self.form(pos[2]) if isinstance(pos, tuple) and pos[0] == 'it' else None
        o = self.plain(args[2])
        a = b = None
        if len(args) == 3:
            a, b = dict(ZERO), self.form(self.size(st, o, ins))
        elif len(args) == 4:
            p = self.plain(self.itarg2(st, args[3]))
            a = self.form(p[2]) if isinstance(p, tuple) and p[0] == 'it' else None
            b = fadd(a, ONE) if a is not None else None
        else:
            r = self.it_range(self.itarg2(st, args[3]), self.itarg2(st, args[4]))
            if r is not None:
                a, b = r[1], r[2]
        mv = self.part(st, self.segs(st, o, ins), a, b) if a is not None and b is not None else None
        self.segs(st, c, ins)
        if mv is None or i is None or o == c:
            self.unknown(st, o)
            self.unknown(st, c)
        else:
            self.replace(st, c, ins, i, i, mv)
            self.replace(st, o, ins, a, b, [])
        self.touch(st, c)
        self.touch(st, o)
        return super().v_splice(ins, st, ca, c, args)
    def v_reverse(self, ins, st, ca, c, args):
        s = self.segs(st, c, ins)
        self.reordered(st, ins, c, ('rev',))
        return super().v_reverse(ins, st, ca, c, args)
    def v_sort(self, ins, st, ca, c, args):
        self.reordered(st, ins, c, ('sort', self.direction(ins, st, ca, args), 0))
        return super().v_sort(ins, st, ca, c, args)
    def v_merge(self, ins, st, ca, c, args):
        self.unknown(st, c)
        if len(args) > 1:
            self.unknown(st, self.plain(args[1]))
        return super().v_merge(ins, st, ca, c, args)
    def v_remove(self, ins, st, ca, c, args):
        self.segs(st, c, ins)
        self.unknown(st, c)
        self.touch(st, c)
        return super().v_remove(ins, st, ca, c, args)
    v_remove_if = v_unique = v_remove
    def havoc(self, st, c, ins):
        self.unknown(st, c)
        self.touch(st, c)
        super().havoc(st, c, ins)

    # ------------------------------------------------------------ reordering
    def direction(self, ins, st, ca, args):
        d = ca.d
        if re.search(r'std::(ranges::)?greater\b', d):
            return 'desc'
        if re.search(r'std::(ranges::)?less\b', d):
            return 'asc'
        # an empty comparator object is not passed, but it is in the signature
        n = params(d)
        if ca.kind in ('vector', 'list'):
            return 'asc' if len(args) == 1 and not n else '?'
        return 'asc' if len(args) == 2 and n in (2, None) else '?'
    def reordered(self, st, ins, c, how, a=None, b=None):
        """positions a..b of c are permuted"""
        s = self.segs(st, c, ins)
        n = self.form(self.size(st, c, ins)) if a is None else None
        if a is None:
            a, b = dict(ZERO), n
        p = self.part(st, s, a, b) if b is not None else None
        self.touch(st, c)
        if p is None:
            self.unknown(st, c)
            return
        p = self.norm(st, p)
        if not p:
            return
        if len(p) != 1 or p[0].k != 'R':
            self.unknown(st, c)
            return
        src = p[0]
        if how == ('rev',) and src.b[0] == 'T' and src.b[1] == ('rev',):
            t = src.b
            new = Seg('R', t[2], thaw(t[3]), src.n) if thaw(t[3]) is not None else None
        else:
            how, t = self.simpler(st, how, src)
            new = Seg('R', ('T', how, t.b, frz(t.lo), frz(t.n)), ZERO, src.n)
        self.replace(st, c, ins, a, b, [new])
    def simpler(self, st, how, src):
        """a permutation of permuted elements as one permutation, where there is an equal one"""
        def inner(s):
            t = s.b
            if t[0] == 'T' and self.zero(st, s.lo) and thaw(t[4]) is not None and self.eqf(st, thaw(t[4]), s.n):
                return t[1], Seg('R', t[2], thaw(t[3]), s.n)
            return None, None
        plain = self.fn.dname.startswith(('Int', 'BigInt'))     # equal ones cannot be told apart
        h, t = inner(src)
        if h is None or t.lo is None:
            return how, src
        if how[0] == 'sort' and how[2] == 0 and plain:
            return self.simpler(st, how, t)
        if how == ('rev',) and h[0] == 'sort' and h[1] in ('asc', 'desc'):
            d = ('sort', 'desc' if h[1] == 'asc' else 'asc', h[2])
            if h[2] == 0 and plain:
                return self.simpler(st, d, t)
            h2, t2 = inner(t)
            if h2 == ('rev',) and t2.lo is not None:        # how the interpreter sorts in reverse and stably
                return d, t2
        return how, src
    def other(self, ins, st, ca, args):
        m, d = ca.meth, ca.d
        vals = [self.plain(self.itarg2(st, a)) for a in args]
        rng = self.it_range(vals[0], vals[1]) if len(vals) > 1 else None
        done, look = False, None
        rev = '_reverse_iterator' in d or 'reverse_iterator' in d
        if m in ('sort', 'stable_sort', 'timsort') and rng is not None and not rev:
            self.reordered(st, ins, rng[0], ('sort', self.direction(ins, st, ca, args), 0), rng[1], rng[2])
            done = True
        elif m == 'reverse' and rng is not None and not rev:
            self.reordered(st, ins, rng[0], ('rev',), rng[1], rng[2])
            done = True
        elif m in ('simdReverse', 'qReverse') and vals:
            p = self.block_of(vals[0])
            f, n = (self.form(p[1]), self.form(vals[1])) if p else (None, None)
            if p and f is not None and n is not None:
                self.reordered(st, ins, p[0], ('rev',), f, fadd(f, n))
                done = True
        elif m in ('copy', 'move', 'copy_n', '__copy_move_a') and 'std::' in d and len(vals) >= 3 and not rev:
            if m == 'copy_n':
                f = self.form(vals[1])
                x = vals[0]
                rng = (x[1], self.form(x[2]), fadd(self.form(x[2]), f)) if f is not None and isinstance(x, tuple) and x[0] in ('it', 'sl') and self.form(x[2]) is not None else None
            out = vals[2]
            if rng is not None and isinstance(out, tuple) and out[0] in ('it', 'sl') and self.form(out[2]) is not None and not (isinstance(rng[0], tuple) and rng[0][0] in ('g', 'cur')):
                new = self.part(st, self.segs(st, rng[0], ins), rng[1], rng[2])
                f = self.form(out[2])
                n = fsub(rng[2], rng[1])
                self.segs(st, out[1], ins)
                if out[1] == rng[0] and not self.lef(st, f, rng[1]):
                    self.unknown(st, out[1])    # overlapping, forwards
                else:
                    self.replace(st, out[1], ins, f, fadd(f, n), new)
                self.touch(st, out[1])
                done = True
        elif m in ('find', 'count', 'find_if', 'count_if') and rng is not None:
            done = True
            val = None
            if len(args) > 2 and m in ('find', 'count'):
                x = self.refval(ins, st, args[2])
                val = self.one(st, x) if x is not None else None
            if not (isinstance(rng[0], tuple) and rng[0][0] in ('g', 'cur')):
                look = self.segs(st, rng[0], ins)
        elif m in ('next', 'prev', 'advance', '__advance', 'distance', '__distance', 'begin', 'end', 'min', 'max', 'operator new', 'operator delete') or m in ('equal', 'lexicographical_compare', 'any_of', 'all_of', 'none_of', 'mismatch', 'accumulate'):
            done = True
        elif m in ('fast_memcpy', 'simdMemCpy', 'simdMemCpyAligned'):
            done = True     # block_copy
        elif m in ('fill', 'simdFill') and rng is not None:
            self.replace(st, rng[0], ins, rng[1], rng[2], [Seg('Z', None, None, fsub(rng[2], rng[1]))])
            done = True
        if not done and ca.name not in self.p.helpers() and not ca.ro:
            for a in vals:
                if isinstance(a, tuple) and a[0] in ('it', 'sl'):
                    if not (isinstance(a[1], tuple) and a[1][0] in ('g', 'cur')):
                        self.unknown(st, a[1])
                        self.touch(st, a[1])
        r = super().other(ins, st, ca, args)
        if look is not None:
            for how, x in ([('ok', st)] if r is None else r):
                if how == 'ok':
                    self.searched(ins, x, m, rng, val, look)
        return r
    def third(self, ins, st, ca, args):
        if ca.base == 'CPython_sort':
            p = self.block_of(args[0])
            key, rv = args[2], args[3]
            k = 0 if key in (0, ('g', '_Py_NoneStruct')) else key
            if p is not None:
                f, n = self.form(p[1]), self.form(args[1])
                q = None if f is None or n is None else (f, fadd(f, n))
                if q is None:
                    self.unknown(st, p[0])
                else:
                    t = self.truth(st, ('cmp', 'ne', rv, 0)) if not isinstance(rv, int) else rv != 0
                    self.reordered(st, ins, p[0], ('sort', {True: 'desc', False: 'asc', None: rv if is_sym(rv) else '?'}[t], k), *q)
        return super().third(ins, st, ca, args)
    def block_copy(self, ins, st, d, s, n):
        bd, bs = self.block_of(d), self.block_of(s)
        if bd is not None:
            c = bd[0]
            cnt = self.count(st, c, n)
            f = self.form(bd[1])
            new = None
            if bs is not None and cnt is not None and f is not None and self.form(bs[1]) is not None and not (isinstance(bs[0], tuple) and bs[0][0] in ('g', 'cur')):
                g = self.form(bs[1])
                new = self.part(st, self.segs(st, bs[0], ins), g, fadd(g, cnt))
            self.segs(st, c, ins)
            if cnt is not None and f is not None and new is not None:
                self.replace(st, c, ins, f, fadd(f, cnt), new)
            elif not self.known_zero(st, n if not (isinstance(n, tuple) and n[0] == 'els') else n[1]):
                self.unknown(st, c)
            self.touch(st, c)
        return super().block_copy(ins, st, d, s, n)
    def count(self, st, c, n):
        """number of elements of n bytes"""
        w = self.width(c)
        if isinstance(n, tuple) and n and n[0] == 'els':
            return self.form(n[1])
        if isinstance(n, int):
            return {None: n // w} if n % w == 0 else None
        if is_sym(n) and ('mul', n) in st.x:
            a, b = st.x[('mul', n)]
            for x, y in ((a, b), (b, a)):
                if y == w:
                    return self.form(x)
        return None
    def width(self, c):
        return 4 if self.fn.dname.startswith('Int') and not (isinstance(c, tuple) and c[0] == 'blk') else 8
    def block_set(self, ins, st, d, v, n):
        b = self.block_of(d)
        if b is not None and not self.known_zero(st, n):
            self.unknown(st, b[0])
        return super().block_set(ins, st, d, v, n)

    # ------------------------------------------------------------ loops
    def enter(self, st, b, pred):
        st = super().enter(st, b, pred)
        if 'NE' in st.x:
            st.x['NE'] = tuple(t for t in st.x['NE'] if not any(k[-1] == '~' for k, v in t[2:]))
            if not st.x['NE']:
                del st.x['NE']
        loops = self.fn.loops()
        for k in [k for k in st.x if isinstance(k, str) and k[:2] in ('SQ', 'GS', 'SI', 'GQ') and int(k[2:]) != b and b not in loops.get(int(k[2:]), ())]:
            del st.x[k]
        if b in loops:
            if 'O' in st.x:
                st.x['O'] = tuple(t for t in st.x['O'] if not isinstance(t[0], int) or t[1][0][0] == 'A')
            st.x['SQ%d' % b] = st.x.get('Q', ())
            st.x['SI%d' % b] = st.x.get('IQ', ())
        return st
    def collect(self, st):
        # origins of values nobody holds any more
        if 'O' in st.x:
            live = set()
            for d in (st.env, st.mem):
                for v in d.values():
                    syms_of(v, live)
            o = tuple(t for t in st.x['O'] if t[0] in live or isinstance(t[0], int))
            if o:
                st.x['O'] = o
            else:
                del st.x['O']
        super().collect(st)
    def widen_all(self, st, b, items, n):
        news = tuple((j, self.wget(st, it[0])) for j, it in enumerate(items) if it[2] is not None and it[2] != it[3])
        olds = tuple((j, items[j][2]) for j, v in news)
        st.x['WN'] = (news, olds)
        super().widen_all(st, b, items, n)
        news, olds = st.x.pop('WN')
        old0 = dict(olds)
        if news:
            st.x['WD'] = 1
        steps = []      # (widened symbol as a form, its new value, change per iteration)
        for j, nv in news:
            w = posn(self.wget(st, items[j][0]))
            w = self.wget(st, items[j][0]) if w is None else w
            nv = posn(nv) if posn(nv) is not None else nv
            ov = old0[j]
            ov = posn(ov) if posn(ov) is not None else ov
            fw, fn, fo = lin_of(w), lin_of(nv), lin_of(ov)
            if fw is None or fn is None or fo is None or not is_sym(split(w)[0]):
                continue
            d = fsub(fn, fo)
            if isconst(d) and d[None]:
                steps.append((fw, fn, d[None]))
        for fw, fn, d in steps:
            ks = [k for k in fw if k is not None]
            if isconst(fn) and len(ks) == 1 and fw[ks[0]] == 1 and fw[None] == 0 and d == 1:
                # a test against a constant was one against the counter
                for z, f in list(st.fact.items()):
                    if is_sym(z) and z != ks[0] and f[0] == fn[None] and st.x.get(('ex', z)) in ('size', 'len', 'slice', 'user', 'field') and (ks[0], z) not in st.rel:
                        st.rel[(ks[0], z)] = 0
        self.strides(st, b, items, news, old0, steps)
        self.related(st, b, steps)
        self.guards(st, b, steps)
        q = st.x.get('Q', ())
        sq = dict(st.x.get('SQ%d' % b, ()))
        gs = set(st.x.get('GS%d' % b, ()))
        if not q:
            return
        out = {}
        for c, t in q:
            out[c] = t
            if c not in sq:
                # not looked at before this iteration
                bb = ('B', c, st.x.get('EP', 0))
                z = dict(st.x.get('BZ', ())).get(bb)
                if self.fresh_before(st, ('sz', c), b):
                    sq[c] = ()
                elif z is None or self.islocal(c) or isinstance(c, tuple) and c[0] in ('blk', 'cnt'):
                    continue
                else:
                    sq[c] = (('R', bb, frz(ZERO), z),)
            if t == sq[c] and c not in gs:
                continue
            r = self.accelerate(st, segs_of(sq[c]), segs_of(t), steps)
            r = tuple(s.frozen() for s in r) if r is not None else None
            key = (b, self.tag(c), repr(stripped(r)))
            if c in gs and r is not None and self.sameseq(st, r, stripped(sq[c])):
                r = stripped(sq[c])
                self.confirmed.add((b, self.tag(c), repr(stripped(r))))
            elif c in gs or r is None or key in self.refuted or any(s[0] == '?' for s in r):
                r = (('?', None, None, None),)
            else:
                self.guessed.add(key)
            gs.add(c)
            out[c] = r
        st.x['Q'] = tuple(sorted(out.items(), key=repr))
        st.x['GS%d' % b] = tuple(sorted(gs, key=repr))
    def related(self, st, b, steps):
        """two variables of a loop that both change by a constant per iteration: a linear combination stays as it is"""
        old = st.x.pop('RL', ())
        keep = [t for t in old if t[0] != b]
        prev = [(thaw(l), thaw(k), d) for bb, d, l, k in old if bb == b]
        for i in range(1, len(steps)):
            (w1, n1, d1), (w2, n2, d2) = steps[0], steps[i]
            l = comb({k: d2 * v for k, v in w1.items()}, -d1, w2)
            g = comb({k: d2 * v for k, v in n1.items()}, -d1, n2)
            g = self.expand(st, g)
            for pl, pk, d in prev:
                if d == (d1, d2) and isconst(fsub(g, pl)):
                    g = fadd(pk, fsub(g, pl))
            if any(is_sym(k) and (k.endswith('~') or k in l) for k in g):
                continue
            keep.append((b, (d1, d2), frz(l), frz(g)))
        if keep:
            st.x['RL'] = tuple(sorted(keep, key=repr))
    def sameseq(self, st, a, b):
        if a == b:
            return True
        if [x[:2] for x in a] != [x[:2] for x in b]:
            return False
        for x, y in zip(a, b):
            for p, q in ((x[2], y[2]), (x[3], y[3])):
                if (p is None) != (q is None) or p is not None and not self.eqf(st, thaw(p), thaw(q)):
                    return False
        return True
    def guards(self, st, b, steps):
        """what the condition of the loop said about the previous value of a counter, about the present one"""
        q = st.x.get('IQ', ())
        if not q:
            return
        before = set(st.x.get('SI%d' % b, ()))
        known = {frz({k.rstrip('~') if is_sym(k) else k: v for k, v in thaw(t).items()}) for t in st.x.get('GQ%d' % b, ())}
        out, g = [], set()
        for t in q:
            f = thaw(t)
            olds = [k for k in f if is_sym(k) and k.endswith('~')]
            if not olds:
                out.append(t)
                if t in before:
                    continue
                for w, n, d in steps:
                    if any(is_sym(k) and k.endswith('~') for k in n) or abs(d) != 1:
                        continue
                    x = frz(comb(f, d, fsub(w, n)))
                    out.append(x)
                    g.add(x)
                continue
            for w, n, d in steps:
                k = [k for k in n if k is not None]
                if len(k) == 1 and n[k[0]] == 1 and k == olds:
                    x = frz(comb({a: v for a, v in f.items() if a != k[0]}, f[k[0]], plusc(w, -n[None])))
                    if x in known:
                        out.append(x)
                        g.add(x)
                    break
        st.x['IQ'] = tuple(sorted(set(out), key=repr))
        if not st.x['IQ']:
            del st.x['IQ']
        st.x['GQ%d' % b] = tuple(sorted(g, key=repr))
    def tag(self, c):
        return repr(stripped(c))
    def strides(self, st, b, items, news, old0, steps):
        """a variable that moves by the step of a slice: start + counter * step"""
        for j, nv in news:
            w = self.wget(st, items[j][0])
            ov = old0[j]
            fn, fo = lin_of(posn(nv) if posn(nv) is not None else nv), lin_of(posn(ov) if posn(ov) is not None else ov)
            if fn is None or fo is None or not is_sym(w) and posn(w) is None:
                continue
            w = posn(w) if posn(w) is not None else w
            fn = self.expand(st, fn)
            d = fsub(fn, fo)
            ks = [k for k in d if k is not None]
            mark = st.x.pop(('stp', split(posn(ov) if posn(ov) is not None else ov)[0]), None)
            if len(ks) != 1 or d[ks[0]] != 1 or d[None] != 0 or not is_sym(w):
                continue
            step = ks[0]
            key = (b, 'stp', stripped(w), stripped(step))
            for cw, cn, e in steps:
                k = [x for x in cw if x is not None]
                if e != 1 or len(k) != 1 or cw[None] != 0:
                    continue
                co = plusc(cn, -1)
                if mark is None:
                    if isconst(co) and co[None] == 0 and is_sym(posn(ov) if posn(ov) is not None else ov) and not fo[None] and key not in self.refuted:
                        st.x[('stp', w)] = (ov, k[0], step)
                        self.guessed.add(key)
                        break
                elif mark[2] == step and lin_of(mark[1]) == co:
                    st.x[('stp', w)] = (mark[0], k[0], step)
                    self.confirmed.add(key)
                    break
    def expand(self, st, f):
        for _ in range(3):
            for z in [z for z in f if z is not None and ('lin', z) in st.x]:
                l = self.getlin(st.x[('lin', z)])
                if l is not None and z not in l:
                    f = comb({k: v for k, v in f.items() if k != z}, f[z], l)
        return f
    def accelerate(self, st, old, new, steps):
        """the sequence re-expressed through the loop's counters"""
        def shape(l):
            return [(s.k, s.b) for s in l]
        if shape(old) != shape(new):
            cand = None
            if len(new) == len(old) + 1:
                for j in range(len(new)):
                    if shape(new[:j] + new[j + 1:]) == shape(old) and new[j].k == 'R':
                        # a segment that was empty at the beginning
                        x = new[j]
                        cand = old[:j] + [Seg(x.k, x.b, x.lo, dict(ZERO))] + old[j:]
                        break
            elif len(new) == len(old) == 0:
                return new
            if cand is None and len(new) == len(old) - 1:
                return None
            if cand is None:
                return None
            old = cand
        out = []
        for o, s in zip(old, new):
            lo, n = self.refit(o.lo, s.lo, steps), self.refit(o.n, s.n, steps)
            if (lo is None) != (s.lo is None) or (n is None) != (s.n is None):
                return None
            out.append(Seg(s.k, s.b, lo, n))
        return out
    def refit(self, o, s, steps):
        if o is None or s is None:
            return None
        if o == s:
            return s
        # the counter of the previous iteration, expressed through the new one
        f = s
        for w, nv, d in steps:
            ks = [k for k in nv if k is not None]
            if len(ks) == 1 and nv[ks[0]] == 1 and ks[0] in f and ks[0].endswith('~'):
                f = fadd({k: v for k, v in f.items() if k != ks[0]}, {k: v * f[ks[0]] for k, v in fadd(w, {None: -nv[None]}).items()})
        if not any(is_sym(k) and k.endswith('~') for k in f) and f != s:
            return f
        d = fsub(s, o)
        if not isconst(d) or not d[None]:
            return s
        for w, nv, e in steps:
            if d[None] % e == 0:
                m = d[None] // e
                # o + m * (w - (nv - e)) = o + m*e at this moment
                return fadd(o, {k: v * m for k, v in fsub(w, fadd(nv, {None: -e})).items()})
        return s

    # ------------------------------------------------------------ searches
    def searched(self, ins, st, m, rng, val, s):
        """s: what was searched when the call was made"""
        v = st.env.get('%%%d' % ins.id) if ins.id >= 0 else None
        r = lin_of(v[2]) if isinstance(v, tuple) and v[0] in ('it', 'sl') else lin_of(v)
        whole = len(s) == 1 and s[0].k == 'R' and s[0].b[:2] == ('B', rng[0]) and s[0].lo == ZERO
        if any(t[0] == ins.id for t in st.x.get('SR', ())) or r is None or not whole:
            st.x['SR'] = (('many',),)
        else:
            st.x['SR'] = st.x.get('SR', ()) + ((ins.id, m, s[0].b, frz(rng[1]), frz(rng[2]), frz(r), val.frozen() if val is not None else None),)

    def run(self):
        """until every assumption about the iterations of a loop has held"""
        if self.nodes and all(r == ('method', 'index') for r in self.roles):
            self.left = 'searches between two positions of linked lists'
            return
        if all(r == ('slot', 'tp_init') for r in self.roles):
            # what the object holds afterwards if the items' own code leaves it alone while it is filled
            self.INVALIDATE = False
        for k in range(12):
            self.guessed, self.confirmed = set(), set()
            self.judged = {}
            self.viol = {}
            super().run()
            if self.guessed <= self.confirmed:
                return
            self.refuted |= self.guessed - self.confirmed
        raise Limit('assumptions about loops')

    # ------------------------------------------------------------ verdict
    def at_return(self, ins, st, v):
        import expect
        expect.judge(self, ins, st, v)

# ---------------------------------------------------------------- driver
EXPL = {
 'C28': ('the contents of the list are followed through every path of sort (boxing into a Python list, the call of a sorting routine with the key and the '
         'direction, unboxing, every loop) as a sequence of segments with linear ends, and compared at every successful return with: all the elements once, '
         'sorted in the direction asked for, with the key of the caller.  Abstract interpretation of the LLVM IR.'),
 'C29': ('the contents of every container, memory block and Python list an operation touches are followed through every path as a sequence of segments with linear '
         'ends (elements a..b of the list before the call, items of the argument, one value, ...); loops are accelerated; at every successful return the sequence is '
         'compared with the one the built-in list would leave.  Two that are shown to differ on a feasible path are a violation.  Abstract interpretation of the LLVM IR.'),
}
ASSUME = {
 'C28': ['a sorting routine called with a range, a direction and a key sorts that range (the routines themselves: C23)', 'list.sort of the interpreter sorts'],
 'C29': ['contents that cannot be followed exactly (iterables of unknown kind while they run user code, slices of linked lists, some loops over old elements) are not judged; they are listed'],
}
MODE = {False: '', True: ' (user code leaves the lists alone)', 'same': ' (with itself)'}
_p = None
def _job(a):
    n, cap, calm = a
    fn = _p.funcs[n]
    e = None
    try:
        e = Content(_p, fn, role_of(_p, n), {}, cap=cap)
        if calm:
            e.INVALIDATE = False
        e.same = calm == 'same'
        e.run()
        st = 'ok'
    except Limit as l:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    ok = st == 'ok'
    return fn.dname, st, (e.stat if e else {}), (list(e.viol.values()) if e and ok else []), (e.judged if e and ok else {}), (e.left if e else None), n, calm

def run(prog, props, tier):
    import expect
    global _p
    _p = prog
    cap = 20000 if tier == 'quick' else 60000
    roles = {n: [(r['kind'], r.get('pyname') or r.get('slot')) for r in role_of(prog, n)['roles']] for n in prog.roots()}
    def wanted(n):
        for k, m in roles[n]:
            p = expect.prop_of(k, m)
            if p in props:
                return True
        return False
    names = sorted((n for n in roles if wanted(n)), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    # with user code that may change everything it can reach whenever it runs, and with user code that leaves the lists alone
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, cap, calm) for n in names for calm in (False, True, 'same')
                           if (calm or ('slot', 'tp_init') not in roles[n]) and (calm != 'same' or any(r in Content.OTHER for r in roles[n]))], chunksize=1)
    out = []
    for p in props:
        r = Result(p)
        r.cov['explanation'] = EXPL[p]
        r.assume += ASSUME[p]
        unk = []
        seen, said = set(), set()
        for d, st, stat, viol, judged, left, n, calm in sorted(res, key=lambda x: (x[0], str(x[-1]))):
            if not any(expect.prop_of(*x) == p for x in roles[n]):
                continue
            r.count('runs')
            if n not in seen:
                seen.add(n)
                r.count('entry_points')
            for k in ('states', 'steps'):
                r.count(k, stat.get(k, 0))
            if st != 'ok':
                r.notes.append('%s%s: %s' % (d, MODE[calm], st))
            if left and (d, left) not in said:
                said.add((d, left))
                r.notes.append('%s: %s' % (d, left))
            for (q, what), o in sorted(judged.items()):
                if q != p:
                    continue
                r.count('outcomes', o['ok'] + o['unk'] + o['bad'])
                r.count('outcomes_proved', o['ok'])
                r.count('outcomes_not_judged', o['unk'])
                r.sample('%s%s: %s proved on %d outcomes of %d' % (d, MODE[calm], what, o['ok'], o['ok'] + o['unk'] + o['bad']), 60)
                for w, c in sorted(o['why'].items(), key=lambda x: -x[1])[:3]:
                    unk.append('%s%s (%d): %s' % (d, MODE[calm], c, w[:300]))
            for v in viol:
                if v.key not in seen and seen.add(v.key) is None and (v.key.split('|')[2] == 'sort') == (p == 'C28'):
                    r.add(v.key, v.site, '%s: %s' % (d, v.what), v.detail)
        r.cov['not_judged'] = unk
        out.append(r)
    return out
