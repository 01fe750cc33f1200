"""C19: the relation each comparison operator applies.

Every tp_richcompare function is analysed once per operator, with the operator pinned, over all its paths.  A pair is
an operand of the left container (or of its size) against one of the right operand; which side a value comes from is a
static backward slice of the instruction that made it.  The analysis keeps the set of relations (lt, eq, gt) the last
compared pair can be in, and at every return of True or False requires the answer to be right for all of them."""
import os, re, traceback
from multiprocessing import Pool
from ir import *
from engine import Limit, split, is_sym, NEG
from calls import Engine
from roles import role_of
from common import Result

OPS = ['<', '<=', '==', '!=', '>', '>=']
REL = {0: {'lt'}, 1: {'lt', 'eq'}, 2: {'eq'}, 3: {'lt', 'gt'}, 4: {'gt'}, 5: {'gt', 'eq'}}
ALL = {'lt', 'eq', 'gt'}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
PRED = {'eq': {'eq'}, 'ne': {'lt', 'gt'}, 'slt': {'lt'}, 'ult': {'lt'}, 'sle': {'lt', 'eq'}, 'ule': {'lt', 'eq'}, 'sgt': {'gt'}, 'ugt': {'gt'}, 'sge': {'gt', 'eq'}, 'uge': {'gt', 'eq'}}
SWAP = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}
SIZECALL = re.compile(r'(PySequence|PyObject|PyList|PyTuple|PyMapping)_(Size|Length)$|PyObject_LengthHint')
WHOLE = re.compile(r'(^|::)(equal|operator==|operator!=|operator<|operator<=|operator>|operator>=|operator<=>|lexicographical_compare(_three_way)?)(?!\w)|^(memcmp|bcmp)$')

class Sides:
    """which operand of the comparison a value is taken from"""
    def __init__(s, prog, fn):
        s.p, s.fn = prog, fn
        s.memo = {}
        s.into = {}         # root -> operands whose contents flow into the object
        for i in fn.instrs():
            if i.op == 'store':
                r = s.root(i.ops[1])
                if r is not None:
                    s.into.setdefault(r, []).append(i.ops[0])
            elif i.op in ('call', 'invoke'):
                f = i.x.get('f') or ''
                ca = prog.callees.get(f)
                b = ca.base if ca is not None and ca.base else f
                if re.match(r'_?Py', b) and not re.match(r'Py(List|Tuple|Sequence)_(SetItem|SET_ITEM|Append|Insert|SetSlice)', b) or b.startswith('llvm.') and 'mem' not in b or not i.ops:
                    continue
                r = s.root(i.ops[0], stop=re.match(r'_?Py', b))
                if r is not None:
                    s.into.setdefault(r, []).extend(i.ops[1:])
    def root(s, o, depth=0, stop=False):
        """the local object or newly made object an address lies in"""
        if not isinstance(o, str) or depth > 12:
            return None
        d = s.fn.defs.get(o)
        if d is None:
            return None
        if d.op == 'alloca':
            return o
        if d.op in ('getelementptr', 'bitcast', 'freeze'):
            return s.root(d.ops[0], depth + 1, stop)
        if d.op == 'load':
            return None if stop else s.root(d.ops[0], depth + 1)
        if d.op in ('call', 'invoke') and d.ty == 'ptr' and re.match(r'Py(List|Tuple)_New$|PySequence_(List|Tuple|Fast)$|malloc$|PyMem_', d.x.get('f') or ''):
            return o
        if d.op == 'phi':
            for x in d.ops[::2]:
                r = s.root(x, depth + 1, stop)
                if r is not None:
                    return r
        return None
    def of(s, o, seen=()):
        """(sides, kinds)"""
        if not isinstance(o, str) or o in seen:
            return frozenset(), frozenset()
        if o in s.memo:
            return s.memo[o]
        r = s._of(o, seen + (o,))
        if not seen:
            s.memo[o] = r
        return r
    def union(s, os, seen):
        a, b = frozenset(), frozenset()
        for o in os:
            x, y = s.of(o, seen)
            a, b = a | x, b | y
        return a, b
    def contents(s, r, seen):
        return s.union(s.into.get(r, ()), seen)
    def _of(s, o, seen):
        if o == '%0':
            return frozenset([0]), frozenset()
        if o == '%1':
            return frozenset([1]), frozenset()
        d = s.fn.defs.get(o)
        if d is None:
            return frozenset(), frozenset()
        if d.op == 'alloca':
            return s.contents(o, seen)
        if d.op == 'load':
            a, k = s.union([d.ops[0]], seen)
            g = s.fn.defs.get(d.ops[0])
            if g is not None and g.op == 'getelementptr' and re.search(r'PyVarObject', g.x.get('sty', '')) and g.x.get('off') == 16:
                return a, frozenset(['size'])
            return a, k - {'size'} if d.ty == 'ptr' else k
        if d.op == 'getelementptr':
            return s.union([d.ops[0]], seen)
        if d.op in ('call', 'invoke'):
            f = d.x.get('f') or ''
            if SIZECALL.match(f):
                return s.of(d.ops[0], seen)[0], frozenset(['size'])
            ca = s.p.callees.get(f)
            ps = [x for x in d.ops if s.isptr(x)]
            a, k = s.union(ps, seen)
            if not a:
                a, k = s.union(d.ops, seen)
            if ca is not None and ca.kind in ('vector', 'list') and ca.meth in ('size',):
                return a, frozenset(['size'])
            if s.root(o) == o:
                x, y = s.contents(o, seen)
                a, k = a | x, k | y
            return a, k
        if d.op == 'phi':
            return s.union(d.ops[::2], seen)
        if d.op == 'select':
            return s.union(d.ops[1:] if s.of(d.ops[0], seen)[0] != {0, 1} else d.ops, seen)
        if d.op == 'sub':
            x, y = (s.fn.defs.get(v) if isinstance(v, str) else None for v in d.ops[:2])
            a, k = s.union(d.ops[:2], seen)
            if x is not None and y is not None and x.op == y.op == 'ptrtoint':
                k = k | {'size'}
            return a, k
        if d.op in ('icmp', 'fcmp'):
            a, _ = s.union(d.ops[:2], seen)
            return (a, frozenset(['flag'])) if a == {0, 1} else (frozenset(), frozenset())
        if d.op in ('landingpad', 'extractvalue'):
            return frozenset(), frozenset()
        return s.union([x for x in d.ops if isinstance(x, str)], seen)
    def isptr(s, o):
        if not isinstance(o, str):
            return False
        d = s.fn.defs.get(o)
        return d.ty == 'ptr' if d is not None else o[0] == '@' or re.match(r'%\d+$', o) and int(o[1:]) < len(s.fn.args) and s.fn.args[int(o[1:])] == 'ptr'

def arithmetic(fn, sides):
    """a comparison of the two operands whose outcome is used as a number (three-way results computed without branching)"""
    use = {}
    for i in fn.instrs():
        for o in i.ops:
            if isinstance(o, str) and o[0] == '%':
                use.setdefault(o, []).append(i)
    for i in fn.instrs():
        if i.op == 'icmp' and set().union(*[sides.of(o)[0] for o in i.ops[:2]]) == {0, 1}:
            todo, seen = ['%%%d' % i.id], set()
            while todo:
                o = todo.pop()
                for u in use.get(o, ()):
                    if u.op in ('zext', 'sext', 'trunc', 'freeze', 'xor', 'and', 'or') and u.id not in seen:
                        seen.add(u.id)
                        todo.append('%%%d' % u.id)
                    elif u.op in ('add', 'sub', 'mul', 'shl'):
                        return u
    return None

class Cmp(Engine):
    def __init__(self, prog, fn, role, rules, shared, op, sides, cap=60000):
        super().__init__(prog, fn, role, rules, shared, zone=True, cap=cap)
        self.cop = op
        self.sd = sides
        self.byid = {i.id: i for i in fn.instrs() if i.id >= 0}
        self.pairs = set()
        self.answers = 0
        self.table = set()
        self.at = {}
        self.extent = Extent(prog, fn, sides)
    def initial(self, absent=()):
        st = super().initial(absent)
        st.env['%2'] = self.cop
        return st
    # ------------------------------------------------------------ sides of symbols
    def origin(self, v):
        m = re.match(r'u*([A-Za-z]+)(\d+)', v) if isinstance(v, str) else None
        return self.byid.get(int(m.group(2))) if m and m.group(1) not in ('a', 'oa') else None
    def side(self, v):
        """(side or None, kind, sides)"""
        b, k = split(v)
        if b in ('oa0', 'oa1'):
            return int(b[2]), 'self', frozenset([int(b[2])])
        i = self.origin(b) if is_sym(b) else None
        if i is None:
            return None, None, frozenset()
        a, kd = self.sd.of('%%%d' % i.id)
        kind = 'size' if 'size' in kd or str(b).lstrip('u')[:1] == 'z' else 'elem'
        return (next(iter(a)) if len(a) == 1 and k == 0 else None), kind, a
    # constants found for a value keep its name
    def setfact(self, st, sym, lo=None, hi=None, ne=None):
        if is_sym(sym) and self.side(sym)[2]:
            from engine import meet
            f = st.fact.get(sym, (None, None, frozenset()))
            lo, hi, ns = meet(f, (lo, hi, frozenset([ne]) if ne is not None else frozenset()))
            while lo is not None and lo in ns:
                lo += 1
            while hi is not None and hi in ns:
                hi -= 1
            ns = frozenset(sorted(x for x in ns if (lo is None or x > lo) and (hi is None or x < hi))[:4])
            if lo is not None and hi is not None and lo > hi:
                return False
            if lo is not None and lo == hi == 0 and sym[0] == 'o':
                return super().setfact(st, sym, lo=lo, hi=hi)
            st.fact[sym] = (lo, hi, ns)
            return True
        return super().setfact(st, sym, lo=lo, hi=hi, ne=ne)
    # ------------------------------------------------------------ what the last pair can be
    def learn(self, st, a, b, rel, kind):
        old = st.x.get('R')
        rel = set(rel)
        if is_sym(a) and b != '':
            rel = {r for r in rel if super(Cmp, self).truth(st, ('cmp', {'lt': 'slt', 'eq': 'eq', 'gt': 'sgt'}[r], a, b)) is not False} or rel
        if kind == 'elem':
            # the same position read twice is the same pair
            ix = [self.position(st, v) for v in (a, b)]
            if None not in ix:
                a, b = ix
        if kind == 'size' and is_sym(a) and is_sym(b):
            st.x['RS'] = (a, b, ','.join(sorted(rel)))
        if old and old[0] == a and old[1] == b:
            rel &= set(old[2].split(','))
        if not rel:
            return False
        st.x['R'] = (a, b, ','.join(sorted(rel)), kind)
        st.x.pop('sz', None)
        st.x.pop('ss', None)
        return True
    def assume_cmp(self, st, pred, a, b):
        if isinstance(a, tuple) and a[0] in ('cmp', 'not', 'and', 'or') or isinstance(b, tuple) and b[0] in ('cmp', 'not', 'and', 'or'):
            return super().assume_cmp(st, pred, a, b)
        sg = [self.sign(st, x) for x in (a, b)]
        if not super().assume_cmp(st, pred, a, b):
            return False
        r = self.relate(st, pred, a, b)
        if r is not None:
            return r
        for v, o, p in ((a, b, pred), (b, a, SWAP.get(pred, pred))):
            if isinstance(o, int):
                r = self.difference(st, p, v, o)
                if r is not None:
                    return r
        (x, kx, sx), (y, ky, sy) = self.side(a), self.side(b)
        for v, sv in ((a, sx), (b, sy)):
            if sv == {0, 1} and self.unknown(st, v):
                st.x.pop('R', None)
                st.x['tch'] = 1
        if any(sv and not self.checked(v) for v, sv in ((a, sx), (b, sy))):
            st.x['tch'] = 1
            if 'size' in (kx, ky) and not (isinstance(a, int) or isinstance(b, int)):
                st.x['sz'] = 1
                if not (kx == ky == 'size' and sx == sy and len(sx) == 1):
                    st.x.pop('ss', None)
            elif 'size' in (kx, ky):
                st.x['sz'] = 1
        for k, (v, o, p) in enumerate(((a, b, pred), (b, a, SWAP.get(pred, pred)))):
            if isinstance(o, int) and sg[k] is not None:
                if not self.result(st, v, p, o, sg[k]):
                    return False
        return True
    def relate(self, st, pred, a, b):
        """a comparison of a pair came out as (a pred b); None when it is no pair"""
        (x, kx, sx), (y, ky, sy) = self.side(a), self.side(b)
        if x is not None and y is not None and x != y and kx == ky:
            if pred[0] == 'u' and kx == 'elem' and self.origin(split(a)[0]) is not None and self.origin(split(a)[0]).ty != 'ptr':
                self.report('rel', 'elements are compared as unsigned numbers', self.cur, key='unsigned|%s' % OPS[self.cop])
            rel = PRED[pred]
            self.pairs.add((kx, self.where(self.cur)))
            if kx == 'elem' and any(self.origin(split(v)[0]) is not None and self.origin(split(v)[0]).ty == 'ptr' for v in (a, b)):
                return self.learn(st, a, b, {'eq'}, kx) if pred == 'eq' else True     # identity says nothing about different objects
            if kx == 'self':
                if pred == 'eq':
                    return self.learn(st, a, b, {'eq'}, kx)
                return True
            return self.learn(st, a, b, rel, kx) if x == 0 else self.learn(st, b, a, {FLIP[r] for r in rel}, kx)
        if kx == ky == 'size' and x is not None and x == y:
            st.x['ss'] = x
        return None
    def checked(self, v):
        """only says what kind of object an operand is"""
        b, _ = split(v)
        if b in ('oa0', 'oa1'):
            return True
        i = self.origin(b)
        if i is None:
            return False
        f = i.x.get('f') or ''
        return bool(re.match(r'Py\w+_(Check(Exact)?|IsSubtype|IsInstance|HasFeature)$', f)) or i.op == 'load' and i.ty == 'ptr' and self.sd.of(i.ops[0])[1] == {'type'}
    def unknown(self, st, v):
        """made from both operands in a way the analysis does not follow"""
        i = self.origin(split(v)[0])
        return i is None or i.op not in ('call', 'invoke') or self.compares(st, i) is None
    def truth(self, st, c):
        r = super().truth(st, c)
        if r is not None and isinstance(c, tuple) and c[0] == 'cmp' and is_sym(c[2]) and is_sym(c[3]):
            self.relate(st, c[1] if r else NEG[c[1]], c[2], c[3])
        return r
    def op_icmp(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if is_sym(a) and is_sym(b):
            self.truth(st, ('cmp', ins.x['pred'], a, b))
        return super().op_icmp(ins, st)
    def op_sub(self, ins, st):
        self.mixed(ins, st)
        return super().op_sub(ins, st)
    def op_xor(self, ins, st):
        self.mixed(ins, st)
        return super().op_xor(ins, st)
    def mixed(self, ins, st):
        """a number made from one value of each operand"""
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        st.x.pop(('ar', ins.id), None)
        if is_sym(a) and is_sym(b):
            (x, kx, _), (y, ky, _) = self.side(a), self.side(b)
            if x is not None and y is not None and x != y and kx == ky and kx in ('elem', 'size'):
                st.x[('ar', ins.id)] = (a, b)
    def difference(self, st, pred, v, o):
        """(a - b) or (a ^ b) came out as (pred o): what that says about the pair; None when v is no such number"""
        b, k = split(v)
        i = self.origin(b) if is_sym(b) else None
        if i is None or i.op not in ('sub', 'xor') or k or ('ar', i.id) not in st.x:
            return None
        if o == 1 and pred in ('slt', 'sge'):
            pred, o = {'slt': 'sle', 'sge': 'sgt'}[pred], 0
        elif o == -1 and pred in ('sgt', 'sle'):
            pred, o = {'sgt': 'sge', 'sle': 'slt'}[pred], 0
        a, b = st.x[('ar', i.id)]
        if o != 0 or pred[0] == 'u' or i.op == 'xor' and pred not in ('eq', 'ne'):
            return None
        if pred not in ('eq', 'ne') and self.side(a)[1] == 'elem' and not all(self.narrow(st, x, i) for x in (a, b)):
            self.report('rel', 'decides the order of two elements by their difference, which wraps around for elements far apart', self.cur, key='wrap|%s' % OPS[self.cop])
        return self.relate(st, pred, a, b)
    def narrow(self, st, v, i):
        bits = lambda t: int(t[1:]) if re.match(r'i\d+$', t or '') else 64
        w = bits(i.ty)
        o = self.origin(split(v)[0])
        lo, hi = self.rng(st, v)
        return o is not None and bits(o.ty) < w or lo is not None and hi is not None and -(1 << w - 2) <= lo and hi <= 1 << w - 2
    def position(self, st, v):
        """where in its operand an element was taken from"""
        m = re.match(r'[A-Za-tv-z]+(\d+)$', v) if is_sym(v) else None
        return st.x.get(('px', int(m.group(1)))) if m else None
    def fix_cond(self, st, c, t):
        pass                    # the returned truth value keeps its comparison
    def assume(self, st, c, t):
        if is_sym(c) and self.truth(st, c) is None:
            return self.assume_cmp(st, 'ne' if t else 'eq', c, 0)
        return super().assume(st, c, t)
    def sign(self, st, v):
        i = self.origin(v) if is_sym(v) else None
        if i is None or i.op not in ('call', 'invoke'):
            return None
        return self.rng(st, v)
    def result(self, st, v, pred, c, before):
        """the result v of a comparing call was found to be (pred c)"""
        i = self.origin(v)
        t = self.compares(st, i)
        if t is None:
            return True
        lo, hi = before if i.ty != 'i1' else (0, 1)
        if pred == 'eq':
            lo = hi = c
        elif pred == 'ne':
            lo = lo + 1 if lo == c else lo
            hi = hi - 1 if hi == c else hi
            if lo is None and c == 0:
                lo, hi = None, None
        elif pred[1:] == 'lt':
            hi = c - 1 if hi is None else min(hi, c - 1)
        elif pred[1:] == 'le':
            hi = c if hi is None else min(hi, c)
        elif pred[1:] == 'gt':
            lo = c + 1 if lo is None else max(lo, c + 1)
        elif pred[1:] == 'ge':
            lo = c if lo is None else max(lo, c)
        yes, flip, kind, three = t
        if yes is None:
            rel = {r for r, x, y in (('lt', None, -1), ('eq', 0, 0), ('gt', 1, None)) if (y is None or lo is None or lo <= y) and (x is None or hi is None or hi >= x)}
        elif lo == 0 and hi == 0:
            rel = ALL - yes
        elif lo is not None and lo >= 1 or three and pred == 'ne' and c == 0:
            rel = yes
        else:
            return True
        self.pairs.add((kind, self.where(i)))
        return self.learn(st, 'r%d' % i.id, '', {FLIP[r] for r in rel} if flip else rel, kind)
    def compares(self, st, i):
        """(relation a true result means, operands swapped, kind, any non-zero value is true) for a comparing call"""
        f = i.x.get('f') or ''
        ca = self.p.callees.get(f)
        if f in ('PyObject_RichCompareBool', 'PyObject_RichCompare'):
            op = st.x.get(('rcop', i.id))
            s = [self.sd.of(o)[0] for o in i.ops[:2]]
            if op not in REL or len(s[0]) != 1 or len(s[1]) != 1 or s[0] == s[1]:
                return None
            return REL[op], s[0] == {1}, 'elem', False
        if f in ('PyObject_IsTrue', 'PyObject_Not'):
            k = st.x.get(('ist', i.id))
            t = self.compares(st, self.byid[k]) if k is not None else None
            return t if t is None or f == 'PyObject_IsTrue' else (ALL - t[0],) + t[1:]
        d = ca.d if ca is not None else f
        if d.startswith('decltype('):
            d = re.sub(r'^decltype\(.*?\) (?=std::)', '', d)
        if ca is not None and WHOLE.search(re.sub(r'<.*', '', d.split('(')[0].replace('operator<', 'operator\x00')).replace('\x00', '<')):
            s = [self.sd.of(o)[0] for o in i.ops]
            sides = [next(iter(x)) for x in s if len(x) == 1]
            if set(sides) != {0, 1}:
                return None
            fl = sides[0] == 1
            if f in ('memcmp', 'bcmp'):
                return {'lt', 'gt'}, fl, 'elem', True
            m = re.search(r'operator(<=>|==|!=|<=|>=|<|>)', d)
            if m and m.group(1) == '<=>' or 'three_way' in d:
                return None, fl, 'whole', True
            if m:
                return {'==': REL[2], '!=': REL[3], '<': REL[0], '<=': REL[1], '>': REL[4], '>=': REL[5]}[m.group(1)], fl, 'whole', True
            if 'lexicographical' in d:
                return REL[0], fl, 'whole', True
            return REL[2], fl, 'elem', True
        return None
    def on_call(self, ins, st, ca, args):
        f = ins.x.get('f')
        if f in ('PyObject_RichCompareBool', 'PyObject_RichCompare'):
            op = args[2] if isinstance(args[2], int) else None
            st.x[('rcop', ins.id)] = op
            s = [self.sd.of(o)[0] for o in ins.ops[:2]]
            self.pairs.add(('elem', self.where(ins)))
            if op is None:
                return
            allowed = {self.cop, 2, 3}
            if s == [frozenset([1]), frozenset([0])] and op in (0, 1, 4, 5) and self.cop == (4, 5, 2, 3, 0, 1)[op]:
                return
            if op not in allowed:
                self.report('rel', 'compares elements with %s for the operator %s' % (OPS[op] if 0 <= op < 6 else op, OPS[self.cop]), ins, key='op|%s' % OPS[self.cop])
            elif s[0] == {1} and s[1] == {0} and op not in (2, 3):
                self.report('rel', 'compares the right operand\'s element with the left one\'s for the operator %s' % OPS[self.cop], ins, key='order|%s' % OPS[self.cop])
        elif f == 'PyBool_FromLong':
            st.x[('bl', ins.id)] = args[0]
        elif f in ('PyObject_IsTrue', 'PyObject_Not'):
            i = self.origin(args[0]) if is_sym(args[0]) else None
            if i is not None and i.x.get('f') == 'PyObject_RichCompare':
                st.x[('ist', ins.id)] = i.id
            else:
                st.x.pop(('ist', ins.id), None)
    # ------------------------------------------------------------ answers
    def step(self, ins, st):
        self.cur = ins
        if ins.id >= 0 and ins.op in ('load', 'call', 'invoke'):
            if ins.id not in self.at:
                self.at[ins.id] = self.extent.index('%%%d' % ins.id)
            o = self.at[ins.id]
            if o is not None:
                r = self.val(st, o) if o in st.env or o[0] != '%' else None
                if isinstance(r, int) or is_sym(r):
                    st.x[('px', ins.id)] = r
                else:
                    st.x.pop(('px', ins.id), None)
        return super().step(ins, st)
    def at_return(self, ins, st, v):
        self.cur = ins
        if isinstance(v, tuple) and v[0] == 'g' and v[1] in ('_Py_TrueStruct', '_Py_FalseStruct'):
            self.judge(ins, st, v[1] == '_Py_TrueStruct')
        elif is_sym(v):
            i = self.origin(v)
            if i is not None and i.op in ('call', 'invoke'):
                f = i.x.get('f')
                if f == 'PyObject_RichCompare':
                    self.answers += 1
                    op = st.x.get(('rcop', i.id))
                    if op is not None and op != self.cop:
                        self.report('rel', 'answers %s with the result of comparing elements with %s' % (OPS[self.cop], OPS[op]), ins, key='answer|%s' % OPS[self.cop])
                    elif self.cop not in (2, 3):
                        R = st.x.get('R')
                        if (R and R[3] == 'elem' and 'eq' in R[2].split(',')) or (not R or R[3] != 'elem') and not any(isinstance(k, tuple) and k[0] == 'rcop' and x in (2, 3) for k, x in st.x.items()):
                            self.report('rel', 'answers %s with the result for elements that may be equal' % OPS[self.cop], ins, key='undecided|%s' % OPS[self.cop])
                elif f == 'PyBool_FromLong':
                    c = st.x.get(('bl', i.id))
                    for t in (True, False):
                        if isinstance(c, int):
                            if bool(c) == t:
                                self.judge(ins, st, t)
                        elif c is not None:
                            s2 = st.copy()
                            if is_sym(c) and self.side(c)[2] == {0, 1} and self.unknown(st, c):
                                continue
                            if isinstance(c, tuple) and c[0] in ('cmp', 'not', 'and', 'or') and self.assume(s2, c, t) or is_sym(c) and self.assume_cmp(s2, 'ne' if t else 'eq', c, 0):
                                self.judge(ins, s2, t)
        return super().at_return(ins, st, v)
    def lengths(self, st):
        """the relations the two lengths compared last can still be in"""
        if 'RS' not in st.x:
            return None
        a, b, rs = st.x['RS']
        return {r for r in rs.split(',') if self.decide(st, {'lt': 'slt', 'eq': 'eq', 'gt': 'sgt'}[r], a, b) is not False}
    def judge(self, ins, st, value):
        if st.exc:
            return
        self.answers += 1
        R = st.x.get('R')
        if R is None:
            if not st.x.get('tch') and self.cop in (2, 3):
                if value != (self.cop == 3):
                    self.report('rel', 'answers %s to %s without having compared anything' % (value, OPS[self.cop]), ins, key='blind|%s' % OPS[self.cop])
            return
        rel = set(R[2].split(','))
        want = {r in REL[self.cop] for r in rel}
        if self.cop in (2, 3):
            bad = want == {not value} and not (st.x.get('sz') and value == (self.cop == 3))
            bad = bad or (not st.x.get('sz') and len(want) == 2)
            if value == (self.cop == 2) and R[3] != 'self':
                # equal sequences have equal lengths
                rs = self.lengths(st)
                if rs is not None and rs != {'eq'} or rs is None and R[0][0] == 'r' and R[3] == 'elem' and R[1] == '':
                    self.report('rel', 'answers %s to %s where the left length %s' % (value, OPS[self.cop], 'was not compared with the right one\'s' if rs is None else 'may be %s the right one\'s' %
                                ' or '.join({'lt': 'smaller than', 'eq': 'equal to', 'gt': 'greater than'}[x] for x in ('lt', 'eq', 'gt') if x in rs)), ins, key='lengths|%s|%s' % (OPS[self.cop], value))
        else:
            if st.x.get('sz') and 'ss' in st.x and R[3] == 'elem' and R[2] == 'eq' and 'RS' in st.x:
                # the last lengths compared were those of one operand
                rs = self.lengths(st)
                if {r in REL[self.cop] for r in rs} - {value}:
                    self.report('rel', 'answers %s to %s after comparing a length of the %s operand with itself, where the left length may be %s the right one\'s' % (value, OPS[self.cop], ('left', 'right')[st.x['ss']],
                                ' or '.join({'lt': 'smaller than', 'eq': 'equal to', 'gt': 'greater than'}[x] for x in ('lt', 'eq', 'gt') if x in rs)), ins, key='length|%s|%s' % (OPS[self.cop], value))
            if st.x.get('sz'):
                return
            bad = want != {value} or R[3] == 'elem' and 'eq' in rel
        self.table.add((OPS[self.cop], R[3], R[2], value))
        if bad:
            self.report('rel', 'answers %s to %s where the left %s may be %s the right one\'s' % (value, OPS[self.cop], {'elem': 'element', 'size': 'length', 'whole': 'sequence', 'self': 'operand'}[R[3]],
                        ' or '.join({'lt': 'smaller than', 'eq': 'equal to', 'gt': 'greater than'}[x] for x in ('lt', 'eq', 'gt') if x in rel)), ins, key='answer|%s|%s|%s' % (OPS[self.cop], R[3], value))

class Extent:
    """which positions a comparison of elements covers: static rules over the index expressions"""
    def __init__(self, prog, fn, sides):
        self.p, self.fn, self.sd = prog, fn, sides
        self.out = []           # (what, instruction, key)
        self.n = 0
    def strip(self, o):
        while isinstance(o, str):
            d = self.fn.defs.get(o)
            if d is None or d.op not in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
                break
            o = d.ops[0]
        return o
    def const(self, o):
        o = self.strip(o)
        return int(o[2:]) if isinstance(o, str) and re.match(r'c:-?\d+$', o) else None
    def d(self, o):
        return self.fn.defs.get(o) if isinstance(o, str) else None
    def index(self, o, depth=0):
        """the index operand an element was taken with"""
        o = self.strip(o)
        d = self.d(o)
        if d is None or depth > 8:
            return None
        if d.op == 'load':
            return self.index(d.ops[0], depth + 1)
        if d.op == 'getelementptr':
            if 'off' in d.x or len(d.ops) != 2:
                return None
            return self.strip(d.ops[1])
        if d.op in ('call', 'invoke'):
            f = d.x.get('f') or ''
            ca = self.p.callees.get(f)
            if re.match(r'Py(Sequence|List|Tuple|Sequence_Fast)_(GetItem|GET_ITEM|ITEM)$', f) or ca is not None and ca.kind == 'vector' and ca.meth in ('operator[]', 'at'):
                return self.strip(d.ops[1])
            if re.match(r'PyLong_As\w+$|PyNumber_(As|Index|Long)\w*$', f) or re.search(r'Py_NewRef', f):
                return self.index(d.ops[0], depth + 1)
        return None
    def affine(self, o):
        """(base, constant)"""
        o = self.strip(o)
        k = 0
        d = self.d(o)
        while d is not None and d.op in ('add', 'sub') and self.const(d.ops[1]) is not None:
            k += self.const(d.ops[1]) * (1 if d.op == 'add' else -1)
            o = self.strip(d.ops[0])
            d = self.d(o)
        c = self.const(o)
        return ('', k + c) if c is not None else (o, k)
    def counter(self, o):
        """(first value, step) of a counting loop variable"""
        d = self.d(o)
        if d is None or d.op != 'phi':
            return None
        init, step = set(), set()
        for v in d.ops[::2]:
            b, k = self.affine(v)
            if b == o:
                step.add(k)
            elif b == '':
                init.add(k)
            else:
                return None
        return (init.pop(), step.pop()) if len(init) == 1 and len(step) == 1 else None
    def reach(self, b, stop):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            for y in self.fn.succ[x]:
                if y not in seen and y != stop:
                    seen.add(y)
                    todo.append(y)
        return seen
    def run(self):
        cmps = []
        for i in self.fn.instrs():
            if i.op == 'icmp' or i.op in ('call', 'invoke') and re.match(r'PyObject_RichCompare(Bool)?$', i.x.get('f') or ''):
                a, b = i.ops[:2]
                (sa, ka), (sb, kb) = self.sd.of(a), self.sd.of(b)
                if len(sa) == len(sb) == 1 and sa != sb and 'size' not in ka | kb:
                    ia, ib = self.index(a), self.index(b)
                    if ia is not None and ib is not None:
                        cmps.append((i, ia, ib))
            elif i.op in ('call', 'invoke') and (i.x.get('f') or '') in ('memcmp', 'bcmp'):
                self.bytes(i)
        for i, ia, ib in cmps:
            self.n += 1
            (ba, ka), (bb, kb) = self.affine(ia), self.affine(ib)
            if ba == bb and ka != kb:
                self.out.append(('compares elements at different positions (%d apart)' % abs(ka - kb), i, 'position'))
                continue
            ca, cb = self.counter(ba), self.counter(bb)
            if ba != bb and ca and cb and self.d(ba).bb == self.d(bb).bb:
                if ca[1] == cb[1] and ca[0] + ka != cb[0] + kb:
                    self.out.append(('compares elements at different positions (%d apart)' % abs(ca[0] + ka - cb[0] - kb), i, 'position'))
                elif ca[1] != cb[1]:
                    self.out.append(('compares elements at positions that move apart', i, 'position'))
                continue
            if ba != bb or ca is None or ka != 0:
                continue
            head = self.d(ba).bb
            others = [j.bb for j, x, y in cmps if (self.affine(x)[0], self.affine(x)[1]) != (ba, ka)]
            whole = [j.bb for j in self.fn.instrs() if j.op in ('call', 'invoke') and j is not i and (lambda ca: ca is not None and WHOLE.search(re.sub(r'<.*', '', ca.d.split('(')[0])) or (j.x.get('f') or '') in ('memcmp', 'bcmp'))(self.p.callees.get(j.x.get('f') or ''))]
            if ca[0] > 0 and ca[1] == 1 and not any(head in self.reach(b, None) for b in others + whole):
                self.out.append(('starts comparing at position %d' % ca[0], i, 'first'))
            if ca[1] > 1:
                offs = {self.affine(x)[1] for j, x, y in cmps if self.affine(x)[0] == ba}
                if len(offs) < ca[1] and not any(b in self.reach(head, None) for b in others + whole):
                    self.out.append(('compares only some of every %d positions' % ca[1], i, 'stride'))
            if ca[0] == 0 and ca[1] == 1:
                for t in self.fn.instrs():
                    if t.op == 'icmp' and t.x['pred'] in ('slt', 'ult', 'ne', 'sge', 'uge', 'eq') and t.bb in self.reach(head, None) | {head} and self.affine(t.ops[0])[0] == ba:
                        b, k = self.affine(t.ops[1])
                        k -= self.affine(t.ops[0])[1]
                        if k < 0 and 'size' in self.sd.of(b)[1] and not any(x in self.reach(t.bb, head) and x not in self.body(head) for x in others + whole):
                            self.out.append(('stops comparing %d before the end' % -k, t, 'last'))
    def body(self, head):
        r = self.reach(head, None)
        return {b for b in r if head in self.reach(b, None)}
    def bytes(self, i):
        """the length of a comparison of memory against the elements it stands for"""
        s = [self.sd.of(o)[0] for o in i.ops[:2]]
        if [len(x) for x in s] != [1, 1] or s[0] == s[1]:
            return
        es = None
        d = self.d(self.strip(i.ops[0]))
        if d is not None and d.op in ('call', 'invoke'):
            ca = self.p.callees.get(d.x.get('f') or '')
            if ca is not None and ca.kind == 'vector' and ca.meth == 'data':
                es = {'int': 4, 'long long': 8, 'long': 8, 'unsigned int': 4, '_object*': 8}.get(ca.elem)
        if es is None:
            return
        self.n += 1
        m = self.d(self.strip(i.ops[2]))
        k = None
        if m is not None and m.op == 'mul':
            for a, b in (m.ops, m.ops[::-1]):
                if self.const(b) is not None and 'size' in self.sd.of(a)[1] and self.affine(a)[1] == 0:
                    k = self.const(b)
        elif m is not None and m.op == 'shl' and self.const(m.ops[1]) is not None and 'size' in self.sd.of(m.ops[0])[1]:
            k = 1 << self.const(m.ops[1])
        elif m is not None and m.op in ('call', 'invoke') and 'size' in self.sd.of(i.ops[2])[1] and (lambda c: c is not None and c.meth == 'size')(self.p.callees.get(m.x.get('f') or '')):
            k = 1
        if k is not None and k != es:
            self.out.append(('compares %d bytes for each element of %d' % (k, es), i, 'bytes'))

_p = None
def _job(a):
    n, op, cap = a
    fn = _p.funcs[n]
    e = None
    ext = (0, [])
    try:
        sd = Sides(_p, fn)
        if op == 0:
            x = Extent(_p, fn, sd)
            x.run()
            ext = (x.n, [(w, _p.where(i.loc), k) for w, i, k in x.out])
        u = arithmetic(fn, sd)
        if u is not None:
            return n, op, 'not analysed: the outcome of a comparison is computed with at %s' % _p.where(u.loc), {}, [], set(), 0, [], ext
        e = Cmp(_p, fn, role_of(_p, n), {'rel'}, {}, op, sd, cap=cap)
        e.run()
        st = 'ok'
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-700:]
    return n, op, st, (e.stat if e else {}), list(e.viol.values()) if e else [], (e.pairs if e else set()), (e.answers if e else 0), (sorted(e.table) if e else []), ext

def c19(prog, tier):
    global _p
    _p = prog
    r = Result('C19')
    r.cov['explanation'] = ('Every tp_richcompare function, once per operator with the operator pinned, over all paths (abstract interpretation of LLVM IR). Compared pairs: a value taken from the left container against one taken '
                            'from the right operand (static backward slices), by machine comparison, PyObject_RichCompare[Bool] or a library call. At every True/False answer: the answer must be right for every relation the '
                            'last compared pair can be in, and an ordering answered from elements needs elements found unequal.')
    names = sorted(n for n, rs in prog.roots().items() if any(x['kind'] == 'slot' and x['slot'] == 'tp_richcompare' for x in rs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, op, 20000 if tier == 'quick' else 200000) for n in names for op in range(6)], chunksize=1)
    for n, op, st, stat, viol, pairs, answers, table, ext in res:
        r.count('analyses')
        r.count('states', stat.get('states', 0))
        r.count('compared_pairs', len(pairs))
        r.count('answers', answers)
        r.count('obligations', answers + len(pairs))
        r.count('indexed_comparisons', ext[0])
        r.count('obligations', ext[0])
        for w, site, k in ext[1]:
            r.add('%s|%s' % (prog.funcs[n].dname, k), site, '%s: %s' % (prog.funcs[n].dname, w))
        if st != 'ok':
            r.notes.append('%s %s: %s' % (prog.funcs[n].dname, OPS[op], st))
        if not pairs:
            r.notes.append('%s %s: no compared pair recognised' % (prog.funcs[n].dname, OPS[op]))
        r.sample('%s %s: pairs at %s; answers %s' % (prog.funcs[n].dname, OPS[op], ', '.join(sorted('%s %s' % (k, w.split('/')[-1]) for k, w in pairs)), '; '.join('%s {%s} -> %s' % (k, rel, v) for _, k, rel, v in table)), 60)
        for v in viol:
            if v.rule == 'rel':
                r.add('%s|%s' % (prog.funcs[n].dname, v.key), v.site, '%s: %s' % (prog.funcs[n].dname, v.what), v.detail)
    return r
