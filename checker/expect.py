"""What each list operation should leave behind, and the comparison with what the analysis found (content.py)."""
from engine import *
from engine import split as splitsym
from calls import MNAME
import content as K

Seg, ZERO, ONE = K.Seg, K.ZERO, K.ONE
fadd, fsub, frz, thaw, lin_of, isconst = K.fadd, K.fsub, K.frz, K.thaw, K.lin_of, K.isconst

class Unk(Exception):
    pass

def neg(f):
    return {k: -v for k, v in f.items()}
def plus(f, c):
    return fadd(f, {None: c})

# ---------------------------------------------------------------- cases
def con(e, st, f):
    """add f <= 0; False when that is impossible"""
    f = e.expand(st, f)
    if isconst(f):
        return f[None] <= 0
    if e.holds(st, neg(f), -1):
        return False
    st.x['IQ'] = st.x.get('IQ', ()) + (frz(f),)
    ks = [k for k in f if k is not None]
    if len(ks) == 1 and abs(f[ks[0]]) == 1:
        lo, hi, ns = st.fact.get(ks[0], (None, None, frozenset()))
        if f[ks[0]] > 0:
            hi = -f[None] if hi is None else min(hi, -f[None])
        else:
            lo = f[None] if lo is None else max(lo, f[None])
        st.fact[ks[0]] = (lo, hi, ns)
    elif len(ks) == 2 and sorted(f[k] for k in ks) == [-1, 1]:
        p = [k for k in ks if f[k] == 1][0]
        q = [k for k in ks if f[k] == -1][0]
        c = st.rel.get((p, q))
        if c is None or c > -f[None]:
            st.rel[(p, q)] = -f[None]
    return True
def case(e, st, *fs):
    """a copy of the state in which all the forms are <= 0, or None"""
    s = st.copy()
    for f in fs:
        if not con(e, s, f):
            return None
    return None if dead(e, s) else s
def dead(e, st):
    return e.holds(st, {None: 0}, -1) or any(e.eqf(st, K.thaw(t), ZERO) for t in st.x.get('NE', ()))
def exact(e, st, f):
    """nothing the analysis does not understand narrows the form"""
    def ok(k):
        if k is None or k in e.ints:
            return True
        if ('tn', k) in st.x:
            return False
        x = st.x.get(('ex', k))
        if x in ('user', 'size', 'len', 'field', 'slice'):
            return True
        l = st.x.get(('lin', k))
        return l is not None and all(t[0] == 'k' or ok(splitsym(t[0])[0]) for t in l[1:] if t[0] != k)
    return all(ok(k) for k in f)

def may(e, st, f):
    """is every value of the form that the state allows one that occurs?"""
    return exact(e, st, f)
def mayup(e, st, f):
    """can the form be as large as one likes?  A length has no bound from above that is not a fact of the path."""
    if not exact(e, st, f):
        return False
    f = e.expand(st, f)
    ks = [k for k in f if k is not None]
    if len(ks) != 1 or f[ks[0]] != 1 or st.x.get(('ex', ks[0])) not in ('size', 'len'):
        return False
    return (st.fact.get(ks[0]) or (None, None))[1] is None

# ---------------------------------------------------------------- comparison
def rootsym(b):
    """the argument a base belongs to, or None"""
    if b[0] == 'B':
        s = splitsym(b[1])[0]
    elif b[0] in ('P', 'A'):
        s = b[1]
    else:
        return None
    return s if isinstance(s, str) and (K.isarg(s) or s[0] == 'a' and s[1:].isdigit()) else None
def bdiff(e, st, a, b, n):
    """are the elements of base a other ones than those of base b?  True (they are), False (same), None"""
    if a == b:
        return False
    if a[0] == 'T' and b[0] == 'T':
        (_, h, s, lo, m), (_, g, t, lo2, m2) = a, b
        if s != t:
            return True if bdiff(e, st, s, t, n) else None
        if lo is None or lo2 is None or m is None or m2 is None:
            return None
        if not (e.eqf(st, thaw(lo), thaw(lo2)) and e.eqf(st, thaw(m), thaw(m2))):
            d = e.expand(st, fsub(thaw(m2), thaw(m)))
            if mayup(e, st, d) or mayup(e, st, neg(d)):
                return True
            return True if e.nef(st, thaw(lo), thaw(lo2)) or e.nef(st, thaw(m), thaw(m2)) else None
        if h == g:
            return False
        if h[0] != g[0]:
            return True
        if h[0] == 'sort':
            h, g = [(x[0], {True: 'desc', False: 'asc', None: '?'}[e.truth(st, ('cmp', 'ne', x[1], 0))] if is_sym(x[1]) and x[1] not in ('asc', 'desc', '?') else {0: 'asc'}.get(x[1], 'desc') if isinstance(x[1], int) else x[1], x[2]) for x in (h, g)]
            if '?' in (h[1], g[1]):
                return None
            if h == g:
                return False
            if h[1] != g[1]:
                return True
            if (h[2] == 0) != (g[2] == 0):
                return True
            return None
        return None
    if a[0] == 'T' or b[0] == 'T':
        t, o = (a, b) if a[0] == 'T' else (b, a)
        if t[2] == o:
            return True
        return None
    if isinstance(a[0], tuple) or isinstance(b[0], tuple):
        # steps through a slice
        if isinstance(a[0], tuple) and isinstance(b[0], tuple):
            return None
        t, o = (a, b) if isinstance(a[0], tuple) else (b, a)
        if t[1] == o:
            return None
        return None
    x, y = rootsym(a), rootsym(b)
    if x is None or y is None:
        return None
    if x != y:
        return True
    if a[0] != b[0]:
        return True if 'A' in (a[0], b[0]) else None
    return None
def differs(e, st, a, x):
    """(are the first elements of these two other ones?, what)"""
    if '?' in (a.k, x.k) or a.k == 'N':
        return None, ''
    if a.k == 'R' and x.k == 'R':
        d = bdiff(e, st, a.b, x.b, None)
        if d is None:
            return None, ''
        if d:
            return True, 'elements of %s where those of %s belong' % (bname(a.b), bname(x.b))
        if a.lo is None or x.lo is None:
            return None, ''
        if e.eqf(st, a.lo, x.lo):
            return False, ''
        if e.nef(st, a.lo, x.lo):
            return True, 'element %s of %s where element %s belongs' % (fname(e, st, a.lo), bname(a.b), fname(e, st, x.lo))
        return None, ''
    if a.k == 'Z' and x.k == 'Z':
        return False, ''
    if a.k == 'V' and x.k == 'V' and a.b == x.b:
        return False, ''
    if a.k == 'Z' and x.k == 'R':
        return True, 'a place that was never filled where an element of %s belongs' % bname(x.b)
    if a.k == 'R' and x.k == 'Z' and rootsym(a.b):
        return True, 'elements of %s where new places belong' % bname(a.b)
    return None, ''
def bname(b):
    if b[0] == 'B':
        return 'the list' if splitsym(b[1])[0] == 'oa0' else 'the other list'
    if b[0] == 'P':
        return 'the argument'
    if b[0] == 'A':
        return 'the value'
    if b[0] == 'T':
        return ('the reversed ' if b[1][0] == 'rev' else 'the %s sorted%s ' % (b[1][1], ' by key' if b[1][2] != 0 else '')) + bname(b[2])
    return bname(b[1]) if isinstance(b[1], tuple) else 'the list'
def fname(e, st, f):
    return ' + '.join(('%d*' % v if v != 1 else '') + str(k) if k is not None else str(v) for k, v in sorted(f.items(), key=repr) if k is not None or v or len(f) == 1)

def canon(e, st, s):
    """the forms in terms of the symbols everything else is defined by"""
    if s.k == 'R' and isinstance(s.b[0], tuple) and s.b[0][0] == 'stride' and s.lo is not None and lin_of(s.b[0][1]) is not None:
        if e.rng(st, s.b[0][2]) == (1, 1) or s.b[0][2] == 1 or s.n is not None and e.eqf(st, s.n, ONE) and e.zero(st, s.lo) :
            s = Seg('R', s.b[1], fadd(lin_of(s.b[0][1]), s.lo), s.n)
    return Seg(s.k, s.b, e.expand(st, s.lo) if s.lo is not None else None, e.expand(st, s.n) if s.n is not None else None)
def compare(e, st, A, X, budget=None):
    """'ok', ('bad', text) or 'unk'"""
    budget = budget if budget is not None else [40]
    budget[0] -= 1
    if budget[0] < 0:
        return 'unk'
    A, X = list(A), list(X)
    while A and A[0].k != '?' and A[0].n is not None and e.zero(st, A[0].n):
        A.pop(0)
    while X and e.zero(st, X[0].n):
        X.pop(0)
    if not A and not X:
        return 'ok'
    if any(s.k == '?' or s.n is None for s in A[:1]):
        return 'unk'
    if not A or not X:
        s = (A or X)[0]
        if s.k == 'N':
            return 'unk'
        bad = ('bad', ('%s is left over' if not X else '%s is missing') % seg_name(e, st, s))
        if e.pos(st, s.n):
            return bad if X or s.k != 'V' else 'unk'
        s1, s2 = case(e, st, s.n), case(e, st, plus(neg(s.n), 1))
        return split(e, may(e, st, s.n), [compare(e, s1, A[1:], X[1:], budget) if s1 is not None else None,
                                          None if s2 is None else bad if X or s.k != 'V' else 'unk'], mayup(e, st, s.n))
    a, x = A[0], X[0]
    # both not empty?
    for s in (a, x):
        if not e.pos(st, s.n):
            # may be empty: two cases
            s1, s2 = case(e, st, s.n), case(e, st, plus(neg(s.n), 1))
            r1 = compare(e, s1, A[1:] if s is a else A, X[1:] if s is x else X, budget) if s1 is not None else None
            return split(e, may(e, st, s.n), [r1, compare(e, s2, A, X, budget) if s2 is not None and (r1 is None or r1[0] != 'bad' or not may(e, st, s.n)) else r1 if s2 is not None else None], mayup(e, st, s.n))
    d, what = differs(e, st, a, x)
    if d is None:
        if a.k == x.k == 'R' and a.lo is not None and x.lo is not None and bdiff(e, st, a.b, x.b, None) is False:
            # the same place or not: three cases
            f = fsub(a.lo, x.lo)
            s0, s1, s2 = case(e, st, f, neg(f)), case(e, st, plus(f, 1)), case(e, st, plus(neg(f), 1))
            bad = ('bad', 'element %s of %s where element %s belongs' % (fname(e, st, a.lo), bname(a.b), fname(e, st, x.lo)))
            if s0 is not None:
                y = Seg(x.k, x.b, a.lo, x.n)
                return split(e, may(e, st, f), [compare(e, s0, A, [y] + X[1:], budget), bad if s1 is not None else None, bad if s2 is not None else None])
        return 'unk'
    if d:
        if 'T' in (a.b[0] if a.b else '', x.b[0] if x.b else ''):
            # another order shows from two elements on, anywhere where two or more were sorted
            sorted2 = any(y.b and y.b[0] == 'T' and y.b[1][0] == 'sort' and y.b[4] is not None and e.ltf(st, ONE, thaw(y.b[4])) for y in (a, x))
            if not sorted2 and not e.ltf(st, ONE, x.n):
                s1, s2 = case(e, st, plus(x.n, -1)), case(e, st, plus(neg(x.n), 2))
                return split(e, may(e, st, x.n), [compare(e, s1, A[1:], X[1:], budget) if s1 is not None else None, ('bad', what) if s2 is not None else None], mayup(e, st, x.n))
        return ('bad', what)
    for p, q, P, Q in ((a, x, A, X), (x, a, X, A)):
        if e.lef(st, p.n, q.n):
            if e.eqf(st, p.n, q.n):
                return compare(e, st, A[1:], X[1:], budget)
            r = Seg(q.k, q.b, fadd(q.lo, p.n) if q.lo is not None else None, fsub(q.n, p.n))
            return compare(e, st, P[1:], [r] + Q[1:], budget) if p is a else compare(e, st, [r] + Q[1:], P[1:], budget)
    out = []
    for s in (case(e, st, fsub(a.n, x.n)), case(e, st, plus(fsub(x.n, a.n), 1))):
        out.append(compare(e, s, A, X, budget) if s is not None else None)
    return split(e, may(e, st, a.n) and may(e, st, x.n), out)
def split(e, may, rs, up=False):
    """the outcome of two cases (None: cannot be), the second where a length is large"""
    if up and isinstance(rs[1], tuple):
        return rs[1]
    rs = [r for r in rs if r is not None]
    bad = [r for r in rs if isinstance(r, tuple)]
    if bad and (may or len(bad) == len(rs)):
        return bad[0]
    return 'unk' if bad or 'unk' in rs else 'ok'
def seg_name(e, st, s):
    if s.k == 'R':
        return '%s, elements from %s' % (bname(s.b), fname(e, st, s.lo))
    return {'Z': 'a fresh place', 'V': 'a value', 'C': 'copies of a value'}.get(s.k, s.k)

# ---------------------------------------------------------------- judgement
METHODS = {'append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'copy', 'to_list', 'tolist', 'sort', 'resize', 'remove', 'index', 'count'}
SLOTS = {'sq_concat', 'sq_inplace_concat', 'sq_item', 'sq_ass_item', 'mp_subscript', 'mp_ass_subscript', 'sq_contains', 'tp_init'}
def prop_of(kind, name):
    if kind == 'method' and name in METHODS or kind == 'slot' and name in SLOTS:
        return 'C28' if name == 'sort' else 'C29'

def judge(e, ins, st, v):
    for kind, name in e.roles:
        if prop_of(kind, name):
            break
    else:
        return
    if 'Iter' in e.fn.dname and 'Iter_' in e.fn.dname:
        return
    if name in ('sq_ass_item', 'mp_ass_subscript', 'tp_init'):
        if v != 0:
            return
    elif name == 'sq_contains':
        if v == -1:
            return
    elif v == 0 or v is None or e.truth(st, ('cmp', 'eq', v, 0)):
        return
    prop = 'C28' if name == 'sort' else 'C29'
    e.rets = getattr(e, 'rets', 0) + 1
    if dead(e, st):
        return
    if st.x.get('IT') and e.iterates:
        it, item, vs, done = st.x['IT']
        if item == 0 or e.truth(st, ('cmp', 'eq', item, 0)):
            note(e, prop, name, 'ok')
        elif done != 'other' and e.truth(st, ('cmp', 'ne', item, 0)):
            note(e, prop, name, 'bad')
            e.report('content', '%s: returns although the argument may have further items%s' % (name, '' if done else ', and without adding the last one fetched'), ins, key='%s|unfinished' % name)
        else:
            note(e, prop, name, 'unk', 'items of the argument added in a way that is not followed')
        return
    try:
        J(e, ins, st, v, name, prop).go()
    except Unk as u:
        note(e, prop, name, 'unk', str(u))

def note(e, prop, what, r, why=''):
    k = (prop, what)
    o = e.judged.setdefault(k, {'ok': 0, 'unk': 0, 'bad': 0, 'why': {}})
    o[r] += 1
    if why:
        o['why'][why] = o['why'].get(why, 0) + 1

class J:
    def __init__(self, e, ins, st, v, name, prop):
        self.e, self.ins, self.st, self.v, self.name, self.prop = e, ins, st, v, name, prop
        self.bz = {b: thaw(n) for b, n in st.x.get('BZ', ())}
        self.q = e.Q(st)
        self.fin = dict(st.x.get('FIN', ()))
    def go(self):
        f = getattr(self, 'm_' + self.name)
        f()
    # -------------------------------------------------------- pieces
    def containers(self, sym):
        out = set()
        for c in list(self.q) + list(self.fin) + [b[1] for b in self.bz if b[0] == 'B']:
            if splitsym(c)[0] == sym and not (isinstance(c, tuple) and c[0] in ('blk', 'cnt')):
                out.add(c)
        return out
    def me(self):
        cs = self.containers('oa0')
        if not cs and not self.st.x.get('EP'):
            # only its length was looked at
            for k in list(self.st.mem):
                if isinstance(k, tuple) and k[0] == 'sz' and splitsym(k[1])[0] == 'oa0':
                    self.e.segs(self.st, k[1], self.ins)
                    cs.add(k[1])
            self.q, self.bz = self.e.Q(self.st), {b: thaw(t) for b, t in self.st.x.get('BZ', ())}
            if not cs and self.name in ('sort', 'reverse', 'append', 'insert'):
                note(self.e, self.prop, self.name, 'bad')
                self.e.report('content', 'succeeds without a look at the list', self.ins, '', key='%s|untouched' % self.name)
        if len(cs) != 1:
            raise Unk('%d containers of the list looked at' % len(cs))
        return cs.pop()
    def now(self, c):
        """contents when the operation is over (before user code changed it again)"""
        t, f = self.q.get(c), self.fin.get(c)
        if f is not None:
            if t is not None:
                s = K.segs_of(t)
                if not (len(s) == 1 and s[0].k == 'R' and s[0].b[:2] == ('B', c) and s[0].lo == ZERO and ('tch', c) in self.st.x):
                    if any(b[0] == 'B' and b[1] == c and b[2] in self.st.x.get('LATE', ()) for b in all_bases(s)) or any(x.k == '?' for x in s):
                        raise Unk('changed again after user code ran')
                    return s        # filled anew
            if ('sz', c) in self.st.mem:
                raise Unk('looked at again after user code ran')
            if f == 'many':
                raise Unk('changed again after user code ran')
            return K.segs_of(f)
        if t is None:
            raise Unk('contents not followed')
        return K.segs_of(t)
    def base(self, c, segs):
        """(base, size) of the list before the operation"""
        bs = {b for b in all_bases([s for s in segs if s.k == '?' or s.n is None or not self.e.zero(self.st, s.n)]) if b[0] == 'B' and b[1] == c}
        if len(bs) > 1 and self.name == 'sort':
            # put back while it could be looked at: what was sorted counts
            bs = {b for b in all_bases([s for s in segs if s.k == 'R' and s.b[0] == 'T']) if b[0] == 'B' and b[1] == c}
        if len(bs) > 1:
            raise Unk('user code ran in between')
        if not bs:
            bs = {b for b in self.bz if b[0] == 'B' and b[1] == c}
            if len(bs) > 1:
                m = max(b[2] for b in bs)
                bs = {b for b in bs if b[2] == m}
        if not bs:
            raise Unk('the contents before are not known')
        b = bs.pop()
        n = self.bz.get(b)
        if n is None:
            raise Unk('the length before is not known')
        return b, n
    def whole(self, sym, segs=None):
        """segments of all the elements of argument `sym`, as the operation looked at them"""
        cs = [b for b in self.bz if (b[0] == 'B' and splitsym(b[1])[0] == sym or b[0] == 'P' and b[1] == sym)]
        if segs is not None:
            have = {b for b in all_bases(segs) if b[0] in ('B', 'P') and rootsym(b) == sym}
            if len(have) > 1:
                raise Unk('two views of the argument')
            if have:
                b = have.pop()
                al = dict(self.st.x.get('AL', ()))
                for it, t in self.q.items():
                    if isinstance(it, tuple) and it[0] == 'cnt' and al.get(it[1], it[1]) == sym and b[0] == 'P':
                        return [Seg('R', b, dict(ZERO), K.segs_of(t)[0].n)]
                if self.bz.get(b) is not None:
                    return [Seg('R', b, dict(ZERO), self.bz[b])]
                raise Unk('the length of the argument is not known')
        if len(cs) == 1 and self.bz[cs[0]] is not None:
            return [Seg('R', cs[0], dict(ZERO), self.bz[cs[0]])]
        raise Unk('the length of the argument is not known')
    def unit(self, j):
        for a, u, v, given in self.st.x.get('UN', ()):
            if a == j:
                return u, v
        raise Unk('arguments not parsed in a known way')
    def check(self, st, A, X, what):
        if st is None:
            return
        e = self.e
        if dead(e, st):
            return
        A, X = [[canon(e, st, s) for s in l] for l in (A, X)]
        r = compare(e, st, A, X)
        if isinstance(r, tuple):
            note(e, self.prop, self.name, 'bad')
            e.report('content', '%s: %s' % (what, r[1]), self.ins, 'found %s, expected %s' % (show(e, st, A), show(e, st, X)), key='%s|%s' % (self.name, what))
        else:
            note(e, self.prop, self.name, r, '' if r == 'ok' else '%s: found %s, expected %s' % (what, show(e, st, A), show(e, st, X)))
    def untouched(self, c, n_ok=True):
        if ('tch', c) in self.st.x:
            s = self.now(c)
            b, n = self.base(c, s)
            self.check(self.st, s, [Seg('R', b, dict(ZERO), n)], 'the list itself')
    def element(self, st, v, b, p, what):
        """value v is element p"""
        if st is None:
            return
        o = self.e.org(self.st, v)
        if o is None:
            note(self.e, self.prop, self.name, 'unk', '%s: where the result comes from is not known' % what)
            return
        self.check(st, [Seg('R', o[0], o[1], dict(ONE))], [Seg('R', b, p, dict(ONE))], what)
    def other(self, sym):
        return 'oa0' if self.e.same else sym
    # an index of the caller: (state, position)
    def positions(self, u, n):
        e, st = self.e, self.st
        yield case(e, st, neg(u), plus(fsub(u, n), 1)), u, 'index from the front'
        yield case(e, st, plus(u, 1), neg(fadd(u, n))), fadd(u, n), 'index from the end'
    def inside(self, u, n):
        """an index that is not one of the list must not succeed"""
        e, st = self.e, self.st
        for fs, f, what in ((plus(fadd(u, n), 1), fadd(u, n), 'before the beginning'), (plus(fsub(n, u), 0), fsub(u, n), 'after the end')):
            s = case(e, st, fs)
            if s is None:
                note(e, self.prop, self.name, 'ok')
            elif may(e, st, f):
                note(e, self.prop, self.name, 'bad')
                e.report('content', 'succeeds with an index %s' % what, self.ins, 'index %s of a list of %s' % (fname(e, st, e.expand(s, u)), fname(e, st, n)), key='%s|%s' % (self.name, what))
            else:
                note(e, self.prop, self.name, 'unk', 'index %s: %s' % (what, fname(e, st, f)))
    # -------------------------------------------------------- operations
    def m_append(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        self.check(self.st, A, [Seg('R', b, dict(ZERO), n), self.arg('oa1')], 'append')
    def arg(self, sym):
        return Seg('R', ('A', sym), dict(ZERO), dict(ONE))
    def m_extend(self):
        c = self.me()
        sym = self.other('oa1_0')
        A = self.now(c)
        b, n = self.base(c, A)
        self.check(self.st, A, [Seg('R', b, dict(ZERO), n)] + self.whole(sym, A), 'extend')
    def m_sq_inplace_concat(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        self.check(self.st, A, [Seg('R', b, dict(ZERO), n)] + self.whole(self.other('oa1'), A), '+=')
    def result(self):
        cs = self.containers(self.v) if is_sym(self.v) else set()
        if ('blk', self.v) in self.q:
            cs.add(('blk', self.v))
        if len(cs) != 1:
            raise Unk('what is returned is not known')
        return cs.pop()
    def m_sq_concat(self):
        r = self.result()
        A = self.now(r)
        b, n = self.base(self.me(), A)
        self.check(self.st, A, [Seg('R', b, dict(ZERO), n)] + self.whole(self.other('oa1'), A), '+')
        self.untouched(self.me())
    def m_copy(self):
        r = self.result()
        A = self.now(r)
        b, n = self.base(self.me(), A)
        self.check(self.st, A, [Seg('R', b, dict(ZERO), n)], 'copy')
        self.untouched(self.me())
    m_to_list = m_tolist = m_copy
    def m_clear(self):
        self.check(self.st, self.now(self.me()), [], 'clear')
    def m_reverse(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        self.check(self.st, A, [Seg('R', ('T', ('rev',), b, frz(ZERO), frz(n)), dict(ZERO), n)], 'reverse')
    def m_resize(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        u = self.converted('oa1')
        e, st = self.e, self.st
        s = case(e, st, fsub(u, n))
        self.check(s, A, [Seg('R', b, dict(ZERO), u)], 'resize to fewer')
        s = case(e, st, fsub(n, u))
        self.check(s, A, [Seg('R', b, dict(ZERO), n), Seg('Z', None, None, fsub(u, n))], 'resize to more')
    def converted(self, sym):
        us = {v for v, o in self.st.x.get('U', ()) if o == sym and not (isinstance(v, str) and v[-1] == '~')}
        if len(us) != 1:
            raise Unk('the index is not converted in a known way')
        return lin_of(us.pop())
    def m_insert(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        u, w = self.unit(0)
        f = lin_of(w)
        if f is None or u not in ('n', 'i', 'l', 'L'):
            raise Unk('the index is not parsed in a known way')
        u2, x = self.unit(1)
        val = self.e.one(self.st, x)
        e, st = self.e, self.st
        def put(p):
            return [Seg('R', b, dict(ZERO), p), val, Seg('R', b, p, fsub(n, p))]
        self.check(case(e, st, neg(f), fsub(f, n)), A, put(f), 'insert at an index from the front')
        self.check(case(e, st, plus(f, 1), neg(fadd(f, n))), A, put(fadd(f, n)), 'insert at an index from the end')
        self.check(case(e, st, plus(fadd(f, n), 1)), A, put(dict(ZERO)), 'insert before the beginning')
        self.check(case(e, st, plus(fsub(n, f), 1)), A, put(n), 'insert after the end')
    def m_pop(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        def without(p):
            return [Seg('R', b, dict(ZERO), p), Seg('R', b, plus(p, 1), plus(fsub(n, p), -1))]
        us = {v for v, o in self.st.x.get('U', ()) if o == 'oa1_0'}
        if not us:
            if not self.st.x.get(('argused', 'oa1_0')):
                p = plus(n, -1)
                self.check(self.st, A, without(p), 'pop the last')
                self.element(self.st, self.v, b, p, 'result of pop')
                return
        u = self.converted('oa1_0')
        self.inside(u, n)
        for s, p, what in self.positions(u, n):
            self.check(s, A, without(p), 'pop with an ' + what)
            self.element(s, self.v, b, p, 'result of pop with an ' + what)
    def m_sq_item(self):
        c = self.me()
        b, n = self.base(c, [])
        self.inside(lin_of(self.st.x['ARGV'][1]), n)
        for s, p, what in self.positions(lin_of(self.st.x['ARGV'][1]), n):
            self.element(s, self.v, b, p, what)
    def store(self, u, b, n, A, val):
        self.inside(u, n)
        for s, p, what in self.positions(u, n):
            if val is None:
                self.check(s, A, [Seg('R', b, dict(ZERO), p), Seg('R', b, plus(p, 1), plus(fsub(n, p), -1))], 'delete at an ' + what)
            else:
                self.check(s, A, [Seg('R', b, dict(ZERO), p), val, Seg('R', b, plus(p, 1), plus(fsub(n, p), -1))], 'store at an ' + what)
    def m_sq_ass_item(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        self.store(lin_of(self.st.x['ARGV'][1]), b, n, A, self.third())
    def third(self):
        a = self.argval(2)
        if a == 0:
            return None
        if a is None:
            raise Unk('store or delete?')
        return self.arg(a)
    def argval(self, k):
        """current name of argument k (0 when known to be absent)"""
        v = self.st.x['ARGV'][k]
        if is_sym(v):
            lo = self.e.truth(self.st, ('cmp', 'ne', v, 0))
            return v if lo else None
        return v
    def slice(self, n):
        out = []
        for m, ln, s, t, step in self.e.slices(self.st):
            f = lin_of(ln)
            if f is not None and self.e.eqf(self.st, f, n):
                out.append((lin_of(m), lin_of(s), step, s))
        if len(out) != 1:
            raise Unk('not one slice of the length')
        return out[0]
    def m_mp_subscript(self):
        c = self.me()
        if any(True for _ in self.e.slices(self.st)):
            r = self.result()
            A = self.now(r)
            b, n = self.base(c, A)
            m, s, step, ss = self.slice(n)
            if self.e.rng(self.st, step) == (1, 1):
                X = [Seg('R', b, s, m)]
            else:
                X = [Seg('R', (('stride', ss, step), b), dict(ZERO), m)]
            self.check(self.st, A, X, 'slice')
            self.untouched(c)
            return
        b, n = self.base(c, [])
        u = self.converted('oa1')
        self.inside(u, n)
        for s, p, what in self.positions(u, n):
            self.element(s, self.v, b, p, what)
    def m_mp_ass_subscript(self):
        c = self.me()
        A = self.now(c)
        b, n = self.base(c, A)
        if any(True for _ in self.e.slices(self.st)):
            m, s, step, ss = self.slice(n)
            if self.e.rng(self.st, step) != (1, 1):
                raise Unk('extended slice')
            v = self.argval(2)
            if v is None:
                raise Unk('store or delete?')
            mid = [] if v == 0 else self.whole(v, A)
            end = fadd(s, m)
            self.check(self.st, A, [Seg('R', b, dict(ZERO), s)] + mid + [Seg('R', b, end, fsub(n, end))], 'delete a slice' if v == 0 else 'store a slice')
            return
        self.store(self.converted('oa1'), b, n, A, self.third())
    def m_tp_init(self):
        c = self.me()
        A = self.now(c)
        un = {j: (u, v, g) for j, u, v, g in self.st.x.get('UN', ())}
        if 0 not in un or un[0][0] != 'O':
            raise Unk('arguments not parsed in a known way')
        v = un[0][1]
        if not un[0][2] and (v == 0 or v == ('g', '_Py_NoneStruct')) or v == 0:
            self.check(self.st, A, [], 'made without an argument')
        elif is_sym(v) and any(rootsym(b) == v for b in all_bases(A)):
            self.check(self.st, A, self.whole(v, A), 'made from an iterable')
        else:
            raise Unk('how the argument is used is not known')
    # -------------------------------------------------------- searches
    def search(self, kinds):
        """(base, length before, from, to, result) of the one search of the operation"""
        sr = self.st.x.get('SR', ())
        if len(sr) != 1 or len(sr[0]) < 3 or sr[0][1] not in kinds:
            raise Unk('not one search')
        _, m, b, lo, hi, r, val = sr[0]
        if splitsym(b[1])[0] != 'oa0' or b not in self.bz:
            raise Unk('not a search of the list')
        n = self.bz[b]
        return b, n, thaw(lo), thaw(hi), thaw(r), val
    def looked(self, st, b, lo, hi, xlo, xhi, what):
        self.check(st, [Seg('R', b, lo, fsub(hi, lo))], [Seg('R', b, xlo, fsub(xhi, xlo))], what)
    def number(self, st, r, what):
        f = [thaw(f) for v, f in st.x.get('NUM', ()) if v == self.v]
        if len(f) != 1:
            note(self.e, self.prop, self.name, 'unk', 'what is returned is not known')
        elif self.e.eqf(st, f[0], r):
            note(self.e, self.prop, self.name, 'ok')
        else:
            d = self.e.expand(st, fsub(f[0], r))
            off = isconst(d) and d[None] != 0
            for g in (plus(d, 1), plus(neg(d), 1)):
                off = off or not isconst(d) and may(self.e, st, d) and case(self.e, st, g) is not None
            if off:
                note(self.e, self.prop, self.name, 'bad')
                self.e.report('content', '%s: the result is off by %s' % (what, fname(self.e, st, d)), self.ins, key='%s|result' % self.name)
            else:
                note(self.e, self.prop, self.name, 'unk', 'the result is %s' % fname(self.e, st, f[0]))
    def m_remove(self):
        c = self.me()
        b, n, lo, hi, r, val = self.search(('find',))
        A = self.now(c)
        b2, n2 = self.base(c, A)
        if b2 != b:
            raise Unk('user code ran in between')
        self.check(self.st, A, [Seg('R', b, dict(ZERO), r), Seg('R', b, plus(r, 1), plus(fsub(n, r), -1))], 'remove')
        self.looked(self.st, b, lo, hi, dict(ZERO), n, 'the range searched by remove')
    def m_count(self):
        b, n, lo, hi, r, val = self.search(('count',))
        self.looked(self.st, b, lo, hi, dict(ZERO), n, 'the range searched by count')
        self.number(self.st, r, 'count')
    def m_sq_contains(self):
        b, n, lo, hi, r, val = self.search(('find',))
        e, st = self.e, self.st
        self.looked(st, b, lo, hi, dict(ZERO), n, 'the range searched by in')
        if self.v not in (0, 1):
            raise Unk('the answer is not known')
        found, lost = e.ltf(st, r, hi), e.eqf(st, r, hi)
        if not found and not lost:
            raise Unk('found or not?')
        if found == (self.v == 1):
            note(e, self.prop, self.name, 'ok')
        else:
            note(e, self.prop, self.name, 'bad')
            e.report('content', 'in: %s although the value was %sfound' % (bool(self.v), '' if found else 'not '), self.ins, key='%s|answer' % self.name)
    def m_index(self):
        e, st = self.e, self.st
        b, n, lo, hi, r, val = self.search(('find',))
        un = {j: (u, v, g) for j, u, v, g in st.x.get('UN', ())}
        if set(un) != {0, 1, 2} or un[1][0] != 'n' or un[2][0] != 'n':
            raise Unk('arguments not parsed in a known way')
        def part(j, dflt, top):
            u, v, g = un[j]
            f = lin_of(v)
            if not g and not top:
                yield [], dflt, 'none'
                return
            if not g:
                # the length before the arguments were converted, or something beyond any length
                ks = [k for k in f if k is not None] if f is not None else []
                if f is None or not ks and f[None] < 2**60:
                    raise Unk('an absent argument is marked in another way')
                old = len(ks) == 1 and f[ks[0]] == 1 and f[None] == 0 and st.x.get(('ex', ks[0])) == 'size'
                if old:
                    yield [fsub(f, n)], f, 'none'
                    yield [plus(fsub(n, f), 1)], n, 'none'
                else:
                    yield [], n, 'none'
                return
            yield [neg(f)] + ([fsub(f, n)] if top else []), f, 'from the front'
            yield [plus(f, 1), neg(fadd(f, n))], fadd(f, n), 'from the end'
            if top:
                yield [plus(fsub(n, f), 1)], n, 'after the end'
            else:
                yield [plus(fadd(f, n), 1)], dict(ZERO), 'before the beginning'
        for ca, a, wa in part(1, dict(ZERO), False):
            for cb, z, wb in part(2, n, True):
                s = case(e, st, *(ca + cb))
                if s is None:
                    continue
                self.looked(s, b, lo, hi, a, z, 'the range searched by index (start %s, stop %s)' % (wa, wb))
        self.number(st, r, 'index')
    # -------------------------------------------------------- sort
    def m_sort(self):
        e, st = self.e, self.st
        un = {j: (u, v, g) for j, u, v, g in st.x.get('UN', ())}
        if set(un) != {0, 1}:
            raise Unk('arguments not parsed in a known way')
        rv = un[1][1]
        if un[1][2] and is_sym(rv) and e.truth(st, ('cmp', 'ne', rv, 0)) is None:
            for pred in ('eq', 'ne'):
                s = st.copy()
                if e.assume(s, ('cmp', pred, rv, 0), True) and not dead(e, s):
                    J(e, self.ins, s, s.x['UN'] and self.v, self.name, self.prop).m_sort()
            return
        key = un[0][1]
        c = self.me()
        A = self.now(c)
        # the direction handed over may be computed: both outcomes
        for w in sorted({d for d in directions(A) if is_sym(d) and d not in ('asc', 'desc', '?') and e.truth(st, ('cmp', 'ne', d, 0)) is None}):
            for pred in ('eq', 'ne'):
                s = st.copy()
                if e.assume(s, ('cmp', pred, w, 0), True) and not dead(e, s):
                    J(e, self.ins, s, self.v, self.name, self.prop).m_sort()
            return
        b, n = self.base(c, A)
        t = bool(un[1][2]) and (rv != 0 if isinstance(rv, int) else True)
        if not un[0][2] and not (is_sym(key) and key.startswith('o')) or key == ('g', '_Py_NoneStruct') or key == 0:
            k = 0
        elif is_sym(key) or isinstance(key, tuple) and key[0] == 'g':
            k = key         # one that is None has been compared with it
        else:
            raise Unk('the key is not known')
        self.check(st, A, [Seg('R', ('T', ('sort', 'desc' if t else 'asc', k), b, frz(ZERO), frz(n)), dict(ZERO), n)], 'sort')

def directions(segs):
    out = set()
    def go(b):
        if isinstance(b, tuple) and b and b[0] == 'T':
            if b[1][0] == 'sort':
                out.add(b[1][1])
            go(b[2])
    for s in segs:
        if s.k == 'R':
            go(s.b)
    return out
def all_bases(segs):
    out = set()
    def go(b):
        if not isinstance(b, tuple):
            return
        if b and b[0] == 'T':
            go(b[2])
        elif b and isinstance(b[0], tuple):
            go(b[1])
        elif b:
            out.add(b)
    for s in segs:
        if s.k == 'R':
            go(s.b)
    return out
def show(e, st, l):
    return '[' + ', '.join('%s' % (seg_name(e, st, s) + (' x %s' % fname(e, st, s.n) if s.n is not None else '')) for s in l) + ']'
