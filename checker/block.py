"""C22: block kernels (copy, reverse) by abstract interpretation over linear forms of byte offsets.

A kernel is executed over forms: every load, store and block call is an event at a linear offset from one of the
kernel's pointers.  Loops are accelerated (every header value is its entry value plus a constant step times the
iteration number; the facts at the header are those of the entry, or the conditions of one previous iteration),
and the set of finished bytes is a list of intervals with linear ends, checked to be preserved by the loop body.
Obligations: events inside the ranges, every written byte comes from its place, alignment of aligned accesses,
everything finished at every return.  Anything the interpretation does not recognise makes the kernel 'not judged'."""
import re
from linear import *

class NotJudged(Exception):
    pass

SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'char8_t': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2,
         'int': 4, 'unsigned int': 4, 'float': 4, 'wchar_t': 4, 'char32_t': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
         'unsigned long long': 8, 'double': 8, 'long double': 16, '__int128': 16, 'unsigned __int128': 16}

def sizeof(t):
    t = t.strip()
    if t.endswith('*'):
        return 8
    return SIZES.get(t)

def kernel(fn):
    """role of a kernel by its interface: dict(kind, src, dst, n, esz, align) or None"""
    base, _, par = fn.dname.partition('<')
    par = par[:-1] if par else ''
    if base in ('simdMemCpy', 'simdMemCpyAligned') and len(fn.args) == 3:
        e = sizeof(par)
        if e:
            return dict(kind='copy', src='%0', dst='%1', n='%2', esz=e, align=64 if base.endswith('Aligned') else min(e, 16), name=base)
    if base == 'fast_memcpy' and len(fn.args) == 3:
        return dict(kind='copy', src='%1', dst='%0', n='%2', esz=1, align=1, name=base)
    if base == 'qReverse' and len(fn.args) == 2:
        m = re.match(r'(\d+)', par)
        if m:
            return dict(kind='reverse', src='%0', dst='%0', n='%1', esz=int(m.group(1)), align=1, name=base)
    if base == 'simdReverse' and len(fn.args) == 2:
        e = sizeof(par)
        if e:
            return dict(kind='reverse', src='%0', dst='%0', n='%1', esz=e, align=min(e, 16), name=base)
    return None

def tysize(t):
    """bytes of a first-class type in memory"""
    m = re.match(r'<(\d+) x (\w+)>$', t)
    if m:
        e = tysize(m.group(2))
        return e and e * int(m.group(1))
    if t == 'ptr':
        return 8
    if t == 'x86_fp80':
        return 16
    if t == 'float':
        return 4
    if t == 'double':
        return 8
    m = re.match(r'i(\d+)$', t)
    if m:
        return (int(m.group(1)) + 7) // 8
    return None

def place(prog, loc):
    """innermost location in the project's tree"""
    while loc >= 0:
        f, l, fn, ia = prog.locs[loc]
        if '/pyfastutil/' in f and l > 0:
            return '%s:%d' % (f.split('/pyfastutil/')[-1], l)
        loc = ia
    return '?'

def lanes(t):
    m = re.match(r'<(\d+) x (\w+)>$', t)
    return (int(m.group(1)), tysize(m.group(2))) if m else None

class St:
    __slots__ = ('env', 'cons', 'iv', 'al', 'flags', 'exact', 'mem', 'divs', 'path', 'log', 'stores')
    def copy(s):
        n = St()
        n.env, n.cons, n.iv = dict(s.env), list(s.cons), list(s.iv)
        n.al, n.flags, n.exact = dict(s.al), dict(s.flags), s.exact
        n.mem, n.divs, n.path, n.log, n.stores = dict(s.mem), dict(s.divs), s.path, s.log, list(s.stores)
        return n

class Block:
    def __init__(s, prog, fn, role, kernels):
        s.prog, s.fn, s.k, s.kernels = prog, fn, role, kernels
        s.total = sym('n', role['esz'])
        s.findings = {}
        s.open = set()
        s.loops = fn.loops()
        s.nt = 0
        s.steps = 0
        s.events = 0
        s.obl = 0
        s.sites = set()
        s.memo = {}

    # ---- facts
    def ent(s, st, f):
        n = norm(f)
        if n is None:
            return True
        if n is False:
            # may still hold when the state is infeasible
            return feasible(st.cons) is False
        k = (key(f), tuple(key(c) for c in st.cons))
        r = s.memo.get(k)
        if r is None:
            r = s.memo[k] = entails(st.cons, f)
            if len(s.memo) > 200000:
                s.memo.clear()
        return r
    def enteq(s, st, f):
        return not f or (s.ent(st, f) and s.ent(st, scale(f, -1)))
    def ok(s, st):
        return feasible(st.cons) is not False
    def with_(s, st, *fs):
        n = st.copy()
        for f in fs:
            if norm(f) is not None:
                n.cons.append(f)
        return n if s.ok(n) else None

    # ---- values
    def val(s, st, o, ty=None):
        if o[0] == '%':
            v = st.env.get(o)
            return v if v is not None else ('u',)
        if o.startswith('c:'):
            return ('n', const(int(o[2:])))
        if o == 'null':
            return ('p', 'null', {})
        if o[0] == '@':
            return ('p', o, {})
        if o.startswith('v:'):
            return ('v', tuple(o[2:].split(',')))
        return ('u',)

    def formula(s, st, o):
        v = s.val(st, o)
        if v[0] == 'f':
            return v[1]
        if v[0] == 'n' and is_const(v[1]):
            return ('c', cval(v[1]) & 1 == 1)
        return ('u',)

    # ---- conditions -> list of states
    def assume(s, st, f, t):
        k = f[0]
        if k == 'c':
            return [st] if f[1] == t else []
        if k == 'not':
            return s.assume(st, f[1], not t)
        if k in ('and', 'or'):
            if (k == 'and') == t:
                return [y for x in s.assume(st, f[1], t) for y in s.assume(x, f[2], t)]
            out = s.assume(st, f[1], t)
            for x in s.assume(st, f[1], not t):
                out += s.assume(x, f[2], t)
            return out
        if k == 'xor':
            out = []
            for a in (True, False):
                for x in s.assume(st, f[1], a):
                    out += s.assume(x, f[2], a != t)
            return out
        if k == 'g':
            if f[1] in st.flags:
                return [st] if st.flags[f[1]] == t else []
            n = st.copy()
            n.flags[f[1]] = t
            return [n]
        if k == 'al':
            n = st.copy()
            b, m = f[1], f[2]
            kn = 'al:%s:%d' % (b, m)
            if kn in n.flags:
                return [n] if n.flags[kn] == t else []
            if t:
                n.al[b] = max(n.al.get(b, 1), m)
                for x in list(n.flags):
                    if x.startswith('al:%s:' % b) and not n.flags[x] and m % int(x.rsplit(':', 1)[1]) == 0:
                        return []
            elif n.al.get(b, 1) % m == 0:
                return []
            n.flags[kn] = t
            return [n]
        if k == 'cmp':
            return s.assume_cmp(st, f[1], f[2], f[3], t)
        n = st.copy()
        n.exact = False
        return [n]

    def nonneg(s, st, a):
        """split by the sign of a: [(state, True/False)]"""
        if s.ent(st, a):
            n = st.copy()
            if not is_const(a):
                n.cons.append(a)
            return [(n, True)]
        out = []
        for g, r in ((a, True), (add(scale(a, -1), const(-1)), False)):
            n = s.with_(st, g)
            if n:
                out.append((n, r))
        return out

    def assume_cmp(s, st, pred, a, b, t):
        inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
        if not t:
            pred = inv[pred]
        if pred == 'eq':
            d = sub(a, b)
            n = s.with_(st, d, scale(d, -1))
            return [n] if n else []
        if pred == 'ne':
            d = sub(a, b)
            out = []
            for g in (add(d, const(-1)), add(scale(d, -1), const(-1))):
                n = s.with_(st, g)
                if n:
                    out.append(n)
            return out
        if pred[1:] in ('gt', 'ge'):
            a, b, pred = b, a, pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]]
        # a < b or a <= b
        goal = add(sub(b, a), const(-1 if pred[1:] == 'lt' else 0))
        if pred[0] == 's':
            n = s.with_(st, goal)
            return [n] if n else []
        out = []
        for x, pa in s.nonneg(st, a):
            for y, pb in s.nonneg(x, b):
                if pa == pb:
                    n = s.with_(y, goal)
                    if n:
                        out.append(n)
                elif pa:          # b is a huge unsigned number
                    out.append(y)
        return out

    # ---- findings
    def report(s, st, ins, kind, text, extra=()):
        """a violation, when the facts allow it (an integer witness exists)"""
        if not st.exact:
            s.open.add('condition not recognised before ' + kind)
            return
        w = pinned(list(st.cons) + list(extra))
        if w is None:
            s.open.add('cannot decide: ' + text)
            return
        n = w.get('n')
        fl = ', '.join('%s=%s' % (k.replace('@_ZN4simd', '').strip('0123456789E'), v) for k, v in sorted(st.flags.items()) if k[0] == '@')
        s.findings.setdefault((kind, s.where(ins)), (ins, text + ' (for example count=%s%s)' % (n, ', ' + fl if fl else '')))

    def where(s, ins):
        return place(s.prog, ins.loc)

    # ---- intervals of finished bytes
    def cover(s, st, lo, hi):
        for k, (a, b) in enumerate(st.iv):
            if s.ent(st, sub(b, lo)) and s.ent(st, sub(hi, a)):
                out = []
                for x, l in s.least(st, lo, a):
                    for y, h in s.least(x, scale(hi, -1), scale(b, -1)):
                        n = y.copy()
                        n.iv = [v for j, v in enumerate(n.iv) if j != k]
                        out += s.cover(n, l, scale(h, -1))
                return out
        n = st.copy()
        n.iv = [(a, b) for a, b in n.iv if not (b and s.ent(n, sub(a, b)))] + [(lo, hi)]
        if len(n.iv) > 8:
            n.iv = s.distinct(n, n.iv)
        if len(n.iv) > 8:
            raise NotJudged('too many separate pieces')
        return [n]
    def distinct(s, st, iv):
        """without the pieces inside another one"""
        out = list(iv)
        for p in iv:
            for q in out:
                if q is not p and s.ent(st, sub(p[0], q[0])) and s.ent(st, sub(q[1], p[1])):
                    out = [x for x in out if x is not p]
                    break
        return out
    def least(s, st, a, b):
        if s.ent(st, sub(b, a)):
            return [(st, a)]
        if s.ent(st, sub(a, b)):
            return [(st, b)]
        out = []
        for g, v in ((sub(b, a), a), (add(sub(a, b), const(-1)), b)):
            n = s.with_(st, g)
            if n:
                out.append((n, v))
        return out

    def inside(s, st, ins, off, ln, what):
        s.obl += 1
        if not s.ent(st, off):
            s.report(st, ins, 'range', '%s before the start of the range' % what, [add(scale(off, -1), const(-1)), add(ln, const(-1))])
        over = sub(add(off, ln), s.total)
        if not s.ent(st, scale(over, -1)):
            s.report(st, ins, 'range', '%s beyond the end of the range' % what, [add(over, const(-1)), add(ln, const(-1))])

    def aligned(s, st, ins, p, al, what):
        if al < 16 and s.k['align'] < 16:
            return
        if al < 16:
            return
        s.obl += 1
        base, off = p[1], p[2]
        if not (base in (s.k['src'], s.k['dst'])):
            return
        have = st.al.get(base, 1)
        if have % al or any(c % al for c in off.values()):
            from math import gcd
            g = have
            for c in off.values():
                g = gcd(g, abs(c))
            kn = 'alignment-%d' % al
            if not st.exact:
                s.open.add('alignment after unrecognised condition')
                return
            s.findings.setdefault((kn, s.where(ins)), (ins, '%s assumes %d-byte alignment, only %d is established' % (what, al, g)))

    # ---- memory events
    def load(s, st, ins, p, w, al):
        """-> (list of bytes)"""
        base, off = p[1], p[2]
        if base in (s.k['src'], s.k['dst']):
            s.events += 1
            s.sites.add(ins.loc)
            s.inside(st, ins, off, const(w), 'reads')
            s.aligned(st, ins, p, al, 'the load')
            if s.k['kind'] == 'reverse':
                for a, b in st.iv:
                    if s.ent(st, sub(a, b)) or s.ent(st, sub(a, add(off, const(w)))) or s.ent(st, sub(off, b)):
                        continue
                    # overlaps bytes already exchanged?
                    x = list(st.cons) + [add(sub(b, off), const(-1)), add(sub(add(off, const(w)), a), const(-1)), add(sub(b, a), const(-1))]
                    if witness(x) is None:
                        raise NotJudged('cannot separate a load from finished bytes')
                    return tuple(('dirty', k) for k in range(w))
            return tuple((base, key(add(off, const(k)))) for k in range(w))
        if base.startswith('alloca'):
            if not is_const(off):
                raise NotJudged('variable offset in a local')
            o = cval(off)
            return tuple(st.mem.get((base, o + k), ('?',)) for k in range(w))
        return tuple(('?',) for _ in range(w))

    def store(s, st, ins, p, bs, al):
        base, off = p[1], p[2]
        w = len(bs)
        if base.startswith('alloca'):
            if not is_const(off):
                raise NotJudged('variable offset in a local')
            n = st.copy()
            for k, b in enumerate(bs):
                n.mem[(base, cval(off) + k)] = b
            return [n]
        if base not in (s.k['src'], s.k['dst']):
            return [st]
        s.events += 1
        s.sites.add(ins.loc)
        if base != s.k['dst']:
            s.report(st, ins, 'source', 'writes into the source range')
            return [st]
        s.inside(st, ins, off, const(w), 'writes')
        s.aligned(st, ins, p, al, 'the store')
        e = s.k['esz']
        for k, b in enumerate(bs):
            d = add(off, const(k))
            if s.k['kind'] == 'copy':
                want = (s.k['src'], d)
            else:
                if any(c % e for v, c in off.items() if v != 1):
                    raise NotJudged('offset is not a multiple of the element')
                r = cval(d) % e
                want = (s.k['src'], add(add(s.total, add(d, const(-r)), -1), const(r - e)))
            s.obl += 1
            if b[0] == '?':
                raise NotJudged('stores a value of unknown origin')
            if b[0] == 'dirty':
                s.report(st, ins, 'stale', 'stores bytes that were already exchanged')
                break
            got = dict(b[1])
            if b[0] != want[0]:
                s.report(st, ins, 'origin', 'writes bytes that were not read from the source')
                break
            if not s.enteq(st, sub(got, want[1])):
                df = sub(got, want[1])
                x1, x2 = add(df, const(-1)), add(scale(df, -1), const(-1))
                s.report(st, ins, 'origin', 'byte %s receives the byte at %s, not the one at %s' % (show(d), show(got), show(want[1])),
                         [x1 if pinned(list(st.cons) + [x1]) is not None else x2])
                break
        st.stores.append((off, w))
        return s.cover(st, off, add(off, const(w)))

    def block(s, st, ins, frm, to, ln, what):
        """memcpy-like event with symbolic length"""
        if frm[0] != 'p' or to[0] != 'p':
            raise NotJudged('block call on an unknown pointer')
        if is_const(ln) and cval(ln) <= 512 and not (what == 'call' and to[1] == s.k['dst'] and s.k['kind'] == 'copy'):
            bs = s.load(st, ins, frm, cval(ln), 1)
            return s.store(st, ins, to, bs, 1)
        if s.k['kind'] != 'copy':
            raise NotJudged('block copy of variable length in a reversal')
        if s.ent(st, scale(ln, -1)):
            return [st]
        s.events += 1
        s.sites.add(ins.loc)
        s.obl += 1
        if to[1] != s.k['dst'] or frm[1] != s.k['src']:
            if to[1] == s.k['src']:
                s.report(st, ins, 'source', 'writes into the source range', [add(ln, const(-1))])
                return [st]
            raise NotJudged('block call on another object')
        s.inside(st, ins, frm[2], ln, 'reads')
        s.inside(st, ins, to[2], ln, 'writes')
        d = sub(frm[2], to[2])
        if not s.enteq(st, d):
            x1, x2 = add(d, const(-1)), add(scale(d, -1), const(-1))
            s.report(st, ins, 'origin', 'copies from offset %s to offset %s' % (show(frm[2]), show(to[2])),
                     [x1 if pinned(list(st.cons) + [x1]) is not None else x2])
        return s.cover(st, to[2], add(to[2], ln))

    def finish(s, st, ins):
        s.obl += 1
        if s.ent(st, scale(s.total, -1)):
            return
        if s.k['kind'] == 'copy':
            for a, b in st.iv:
                if s.ent(st, scale(a, -1)) and s.ent(st, sub(b, s.total)):
                    return
            pre = {}
            more = True
            while more:
                more = False
                for a, b in st.iv:
                    if s.ent(st, sub(pre, a)) and not s.ent(st, sub(pre, b)) and s.ent(st, sub(b, pre)):
                        pre, more = b, True
            if s.ent(st, sub(pre, s.total)):
                return
            ex = [add(sub(s.total, pre), const(-1))]
            for a, b in st.iv:
                if a and not s.ent(st, sub(pre, b)):
                    ex.append(add(sub(a, pre), const(-1)))
            s.report(st, ins, 'incomplete', 'returns with bytes from offset %s on not copied' % show(pre), ex)
            return
        pre, suf = {}, s.total
        for a, b in st.iv:
            if s.ent(st, scale(a, -1)) and s.ent(st, sub(b, pre)):
                pre = b
            if s.ent(st, sub(b, s.total)) and s.ent(st, sub(suf, a)):
                suf = a
        e = s.k['esz']
        if s.ent(st, sub(pre, suf)):
            return
        gap = sub(suf, pre)
        if s.ent(st, sub(const(e), gap)) and s.enteq(st, sub(add(pre, suf), s.total)):
            return
        s.report(st, ins, 'incomplete', 'returns with the bytes between %s and %s not reversed' % (show(pre), show(suf)), [add(gap, const(-e - 1))])

    # ---- instructions
    def div(s, st, ins, a, m, unsigned=True, tag=''):
        """a // m for a >= 0 -> list of (state, q form, r form)"""
        if is_const(a):
            v = cval(a) % 2 ** 64 if unsigned else cval(a)
            if v < 0:
                v = 2 ** 70        # signed division of a negative constant: not needed
                st.exact = False
            return [(st, const(v // m), const(v % m))]
        if all(c % m == 0 for c in a.values()):
            return [(st, {v: c // m for v, c in a.items()}, {})]
        out = []
        for x, pos in s.nonneg(st, a):
            if not pos:
                for k in range(1, 5):
                    if unsigned and s.enteq(x, add(a, const(k))):
                        out.append((x, const((2 ** 64 - k) // m), const((2 ** 64 - k) % m)))
                        break
                else:
                    x.exact = False
                    out.append((x, None, None))
                continue
            kk = (key(a), m)
            if kk in x.divs:
                q, r = x.divs[kk]
            else:
                q, r = 'q%d%s' % (ins.id, tag), 'r%d%s' % (ins.id, tag)
                while any(v in (q, r) for c in x.cons for v in c):
                    q, r = q + '.', r + '.'
                x.divs[kk] = (q, r)
                d = sub(a, add(sym(q, m), sym(r)))
                x.cons += [d, scale(d, -1), sym(r), add(const(m - 1), sym(r), -1), sym(q)]
            out.append((x, sym(q), sym(r)))
        return out

    def step(s, st, ins):
        """-> list of states (not for terminators)"""
        op, o = ins.op, ins.ops
        me = '%%%d' % ins.id
        def put(v, x=st):
            x.env[me] = v
            return [x]
        if op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'udiv', 'urem', 'lshr', 'sdiv', 'srem', 'ashr'):
            if ins.ty == 'i1':
                f, g = s.formula(st, o[0]), s.formula(st, o[1])
                return put(('f', ({'and': 'and', 'or': 'or', 'xor': 'xor', 'add': 'xor', 'sub': 'xor'}.get(op, 'u'), f, g) if op in ('and', 'or', 'xor', 'add', 'sub') else ('u',)))
            a, b = s.val(st, o[0]), s.val(st, o[1])
            if op in ('and', 'urem') and a[0] == 'a' and b[0] == 'n' and is_const(b[1]):
                m = cval(b[1]) + (1 if op == 'and' else 0)
                if m > 0 and m & (m - 1) == 0:
                    return put(('ar', a[1], a[2], m))
                return put(('u',))
            if op == 'or' and a[0] == 'ar' and b[0] == 'ar':
                return put(('aro', a, b))
            if op == 'or' and a[0] == 'a' and b[0] == 'a':
                return put(('ao', (a, b)))
            if op == 'or' and a[0] == 'ao' and b[0] == 'a':
                return put(('ao', a[1] + (b,)))
            if op in ('and', 'urem') and a[0] == 'ao' and b[0] == 'n' and is_const(b[1]):
                m = cval(b[1]) + (1 if op == 'and' else 0)
                if m > 0 and m & (m - 1) == 0:
                    r = ('ar', a[1][0][1], a[1][0][2], m)
                    for y in a[1][1:]:
                        r = ('aro', r, ('ar', y[1], y[2], m))
                    return put(r)
                return put(('u',))
            if a[0] == 'a' and b[0] == 'n' and op in ('add', 'sub'):
                return put(('a', a[1], add(a[2], b[1], 1 if op == 'add' else -1)))
            if op == 'sub' and a[0] == 'a' and b[0] == 'a' and a[1] == b[1]:
                return put(('n', sub(a[2], b[2])))
            if a[0] != 'n' or b[0] != 'n':
                return put(('u',))
            x, y = a[1], b[1]
            if op == 'add':
                return put(('n', add(x, y)))
            if op == 'sub':
                return put(('n', sub(x, y)))
            if op == 'mul':
                if is_const(y):
                    return put(('n', scale(x, cval(y))))
                if is_const(x):
                    return put(('n', scale(y, cval(x))))
                return put(('u',))
            if op == 'shl' and is_const(y) and 0 <= cval(y) < 63:
                return put(('n', scale(x, 1 << cval(y))))
            if is_const(y):
                c = cval(y)
                m = None
                if op in ('udiv', 'urem', 'sdiv', 'srem') and c > 0:
                    m = c
                elif op in ('lshr', 'ashr') and 0 <= c < 63:
                    m = 1 << c
                elif op == 'and' and c >= 0 and (c + 1) & c == 0:
                    m = c + 1
                elif op == 'and' and c < 0 and (-c) & (-c - 1) == 0:
                    m = -c
                if m:
                    out = []
                    for z, q, r in s.div(st.copy(), ins, x, m, op not in ('sdiv', 'srem', 'ashr')):
                        if q is None:
                            z.env[me] = ('u',)
                        elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                            z.env[me] = ('n', q)
                        elif op == 'and' and c < 0:
                            z.env[me] = ('n', scale(q, m))
                        else:
                            z.env[me] = ('n', r)
                        out.append(z)
                    return out
                if op == 'or' and c == 0:
                    return put(('n', x))
            return put(('u',))
        if op == 'icmp':
            a, b = s.val(st, o[0]), s.val(st, o[1])
            p = ins.x['pred']
            if a[0] == 'n' and b[0] == 'n':
                return put(('f', ('cmp', p, a[1], b[1])))
            if a[0] in ('p', 'a') and b[0] == a[0] and a[1] == b[1]:
                return put(('f', ('cmp', p, a[2], b[2])))
            if a[0] in ('p',) and b == ('p', 'null', {}) and p in ('eq', 'ne'):
                return put(('f', ('c', p == 'ne')) if a[1].startswith('alloca') else ('f', ('u',)))
            if b[0] == 'n' and is_const(b[1]) and cval(b[1]) == 0 and p in ('eq', 'ne') and a[0] in ('ar', 'aro'):
                f = s.arf(a)
                return put(('f', f if p == 'eq' else ('not', f)) if f else ('f', ('u',)))
            if a[0] == 'f' and b[0] == 'n' and is_const(b[1]) and p in ('eq', 'ne'):
                t = (cval(b[1]) & 1 == 1) == (p == 'eq')
                return put(('f', a[1] if t else ('not', a[1])))
            return put(('f', ('u',)))
        if op in ('zext', 'sext', 'trunc'):
            a = s.val(st, o[0])
            if ins.ty == 'i1' and op == 'trunc' and a[0] == 'b' and len(a[1]) == 1:
                return put(('bool', a[1]))
            if a[0] == 'bool' and op == 'zext' and ins.ty == 'i8':
                return put(('b', a[1]))
            if ins.ty == 'i1' and op == 'trunc':
                return put(a if a[0] == 'f' else ('f', ('u',)))
            if a[0] == 'f':
                return put(a)          # 0/1: compared with 0 or truncated again
            if a[0] == 'n':
                if is_const(a[1]):
                    return put(a)
                bits = int((ins.ty if op == 'trunc' else ins.x['from'])[1:])
                if op == 'sext':
                    return put(a)
                if s.ent(st, a[1]) and (bits >= 63 or s.ent(st, sub(const((1 << bits) - 1), a[1]))):
                    return put(a)
                return put(('u',))
            return put(('u',))
        if op == 'bitcast' or op == 'freeze':
            return put(s.val(st, o[0]))
        if op == 'ptrtoint':
            a = s.val(st, o[0])
            return put(('a', a[1], a[2]) if a[0] == 'p' else ('u',))
        if op == 'inttoptr':
            a = s.val(st, o[0])
            return put(('p', a[1], a[2]) if a[0] == 'a' else ('u',))
        if op == 'getelementptr':
            a = s.val(st, o[0])
            if a[0] != 'p':
                return put(('u',))
            if 'off' in ins.x:
                return put(('p', a[1], add(a[2], const(ins.x['off']))))
            if len(o) == 2:
                i = s.val(st, o[1])
                if i[0] == 'n':
                    return put(('p', a[1], add(a[2], i[1], ins.x['esz'])))
            return put(('u',))
        if op == 'alloca':
            return put(('p', 'alloca%d' % ins.id, {}))
        if op == 'select':
            f = s.formula(st, o[0])
            out = []
            for t in (True, False):
                for x in s.assume(st, f, t):
                    if x is st:
                        x = st.copy()
                    x.env[me] = s.val(x, o[1 if t else 2])
                    out.append(x)
            return out
        if op == 'load':
            p = s.val(st, o[0])
            if p[0] == 'p' and p[1].startswith('@'):
                if p[1].startswith('@_ZN4simd') and ins.ty == 'i8':
                    return put(('f', ('g', p[1])))
                return put(('u',))
            if p[0] != 'p':
                raise NotJudged('load through an unknown pointer')
            w = tysize(ins.ty)
            if not w:
                raise NotJudged('load of type ' + ins.ty)
            bs = s.load(st, ins, p, w, ins.x.get('al', 1))
            if bs and bs[0][0] == 'v' and all(b == ('v', bs[0][1], k) for k, b in enumerate(bs)):
                return put(bs[0][1])
            return put(('b', bs))
        if op == 'store':
            p = s.val(st, o[1])
            w = tysize(ins.x['vty'])
            if p[0] == 'p' and p[1][0] == '@':
                return [st]
            if p[0] != 'p' or not w:
                raise NotJudged('store through an unknown pointer')
            v = s.val(st, o[0])
            if v[0] == 'b' and len(v[1]) == w:
                bs = v[1]
            elif p[1].startswith('alloca'):
                bs = tuple(('v', v, k) for k in range(w))
            else:
                bs = tuple(('?',) for _ in range(w))
            return s.store(st, ins, p, bs, ins.x.get('al', 1))
        if op == 'shufflevector':
            a, b = s.val(st, o[0]), s.val(st, o[1])
            ln = lanes(ins.ty)
            if a[0] == 'b' and ln:
                e = ln[1]
                n1 = len(a[1]) // e
                out = []
                for m in ins.x['mask']:
                    if m < 0:
                        out += [('?',)] * e
                    elif m < n1:
                        out += a[1][m * e:(m + 1) * e]
                    elif b[0] == 'b':
                        out += b[1][(m - n1) * e:(m - n1 + 1) * e]
                    else:
                        out += [('?',)] * e
                return put(('b', tuple(out)))
            return put(('u',))
        if op == 'call':
            return s.call(st, ins)
        if op in ('extractvalue', 'insertvalue', 'extractelement', 'insertelement', 'fence', 'landingpad'):
            return put(('u',)) if ins.id >= 0 else [st]
        if ins.id >= 0:
            return put(('u',))
        return [st]

    def arf(s, a):
        if a[0] == 'ar':
            if any(c % a[3] for c in a[2].values()):
                return None
            return ('al', a[1], a[3])
        x, y = s.arf(a[1]), s.arf(a[2])
        return ('and', x, y) if x and y else None

    def call(s, st, ins):
        f = ins.x.get('f', '')
        o = ins.ops
        me = '%%%d' % ins.id
        def put(v):
            st.env[me] = v
            return [st]
        if f.startswith('llvm.memcpy') or f.startswith('llvm.memmove') or f in ('memcpy', 'memmove', '__memcpy_chk'):
            to, frm, ln = s.val(st, o[0]), s.val(st, o[1]), s.val(st, o[2])
            if ins.id >= 0:
                st.env[me] = to
            if ln[0] != 'n':
                raise NotJudged('copy of unknown length')
            return s.block(st, ins, frm, to, ln[1], 'memcpy')
        if f.startswith(('llvm.prefetch', 'llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.x86.sse.sfence', 'llvm.x86.avx.vzero')):
            return [st]
        if f.startswith('llvm.bswap'):
            a = s.val(st, o[0])
            return put(('b', tuple(reversed(a[1]))) if a[0] == 'b' else ('u',))
        if f.startswith('llvm.umin') or f.startswith('llvm.umax'):
            a, b = s.val(st, o[0]), s.val(st, o[1])
            if a[0] == b[0] == 'n':
                out = []
                for t in (True, False):
                    for x in s.assume_cmp(st, 'ule', a[1], b[1], t):
                        x = x.copy()
                        x.env[me] = a if t == f.startswith('llvm.umin') else b
                        out.append(x)
                return out
            return put(('u',))
        m = re.match(r'llvm\.x86\.(ssse3|avx2|avx512)\.pshuf\.b', f)
        if m:
            a, i = s.val(st, o[0]), s.val(st, o[1])
            if a[0] == 'b' and i[0] == 'v' and len(i[1]) == len(a[1]):
                out = []
                for k, x in enumerate(i[1]):
                    if x == 'u' or int(x) & 0x80:
                        out.append(('?',))
                    else:
                        out.append(a[1][(k // 16) * 16 + (int(x) & 15)])
                return put(('b', tuple(out)))
            return put(('u',))
        m = re.match(r'llvm\.x86\.avx(2|512)\.perm(?:var\.)?(qi|hi|si|di|sf|df|d|ps)', f)
        if m:
            a, i = s.val(st, o[0]), s.val(st, o[1])
            if a[0] == 'b' and i[0] == 'v':
                n = len(i[1])
                e = len(a[1]) // n
                out = []
                for x in i[1]:
                    if x == 'u':
                        out += [('?',)] * e
                    else:
                        j = int(x) & (n - 1)
                        out += a[1][j * e:(j + 1) * e]
                return put(('b', tuple(out)))
            return put(('u',))
        k = s.kernels.get(f)
        if k:
            s.obl += 1
            n = s.val(st, o[int(k['n'][1:])])
            if n[0] != 'n':
                raise NotJudged('kernel called with unknown count')
            src, dst = s.val(st, o[int(k['src'][1:])]), s.val(st, o[int(k['dst'][1:])])
            if src[0] != 'p' or dst[0] != 'p':
                raise NotJudged('kernel called on unknown pointer')
            if k['align'] > 1:
                for p in (src, dst):
                    s.aligned(st, ins, p, k['align'], 'the call of ' + k['name'])
            if k['kind'] == 'copy':
                return s.block(st, ins, src, dst, scale(n[1], k['esz']), 'call')
            if s.k['kind'] != 'reverse':
                raise NotJudged('reversal inside a copy')
            ln = scale(n[1], k['esz'])
            if src[1] != s.k['src'] or src[2]:
                raise NotJudged('partial reversal')
            s.events += 1
            s.sites.add(ins.loc)
            if k['esz'] != s.k['esz']:
                s.report(st, ins, 'element', 'reverses elements of %d bytes, not %d' % (k['esz'], s.k['esz']), [add(s.total, const(-17))])
                return s.cover(st, {}, s.total)
            d = sub(ln, s.total)
            if not s.enteq(st, d):
                x1, x2 = add(d, const(-1)), add(scale(d, -1), const(-1))
                s.report(st, ins, 'element', 'reverses %s bytes, not %s' % (show(ln), show(s.total)), [x1 if pinned(list(st.cons) + [x1]) is not None else x2])
            return s.cover(st, {}, s.total)
        for a in o:
            v = s.val(st, a)
            if v[0] in ('p', 'a'):
                raise NotJudged('call of ' + (f or 'a pointer'))
        if ins.id >= 0:
            return put(('u',))
        return [st]

    # ---- control flow
    def enter(s, st, b, pred):
        """evaluate the phis of block b"""
        vals = []
        for ins in s.fn.bbs[b]:
            if ins.op != 'phi':
                break
            for k in range(0, len(ins.ops), 2):
                if ins.ops[k + 1] == pred:
                    vals.append(('%%%d' % ins.id, s.val(st, ins.ops[k])))
        for k, v in vals:
            st.env[k] = v

    def run(s, start, loop=None, header=None):
        """start: [(block, pred, state)] (phis not evaluated unless pred is None).
        -> back [(pred, state)] to header, exits [(block, pred, state)] leaving the loop"""
        work = list(start)
        back, exits = [], []
        while work:
            b, pred, st = work.pop()
            s.steps += 1
            if s.steps > 60000:
                raise NotJudged('too many paths')
            if pred is not None:
                if header is not None and b == header:
                    back.append((pred, st))
                    continue
                if loop is not None and b not in loop:
                    exits.append((b, pred, st))
                    continue
                if b in s.loops:
                    for e in s.do_loop(b, pred, st):
                        work.append(e)
                    continue
                s.enter(st, b, pred)
            sts = [st]
            term = s.fn.bbs[b][-1]
            for ins in s.fn.bbs[b][:-1]:
                if ins.op == 'phi':
                    continue
                sts = [y for x in sts for y in s.step(x, ins)]
                if not sts:
                    break
            for x in sts:
                if term.op == 'ret':
                    s.finish(x, term)
                elif term.op == 'br':
                    if len(term.ops) == 1:
                        work.append((term.ops[0], b, x))
                    else:
                        f = s.formula(x, term.ops[0])
                        for t in (True, False):
                            for y in s.assume(x, f, t):
                                work.append((term.ops[1 if t else 2], b, y.copy()))
                elif term.op == 'switch':
                    v = s.val(x, term.ops[0])
                    if v[0] != 'n':
                        raise NotJudged('switch on an unknown value')
                    rest = [x]
                    cs = sorted((int(term.ops[k][2:]), term.ops[k + 1]) for k in range(2, len(term.ops), 2))
                    for c, t in cs:
                        d = add(v[1], const(-c))
                        n = s.with_(x, d, scale(d, -1))
                        if n:
                            work.append((t, b, n))
                    # default: larger than all when the cases are 0..k of a value >= 0
                    y = x.copy()
                    if s.ent(y, v[1]) and [c for c, _ in cs] == list(range(len(cs))):
                        y.cons.append(add(v[1], const(-len(cs))))
                    else:
                        for c, _ in cs:
                            if s.ent(y, add(v[1], const(-c))):
                                y.cons.append(add(v[1], const(-c - 1)))
                    if s.ok(y):
                        work.append((term.ops[1], b, y))
                elif term.op == 'unreachable':
                    pass
                else:
                    raise NotJudged('terminator ' + term.op)
        return back, exits

    def phis(s, h):
        return ['%%%d' % i.id for i in s.fn.bbs[h] if i.op == 'phi']

    def do_loop(s, h, pred, st0):
        loop = s.loops[h]
        e = st0.copy()
        s.enter(e, h, pred)
        phis = s.phis(h)
        s.nt += 1
        if s.nt > 400:
            raise NotJudged('too many loop entries')
        tn = 't%d' % s.nt
        # phase 1: generic iteration
        g = e.copy()
        gen = {}
        for p in phis:
            v = e.env[p]
            x = 'x%s_%d' % (p, s.nt)
            if v[0] == 'n':
                g.env[p] = ('n', sym(x))
            elif v[0] in ('p', 'a'):
                g.env[p] = (v[0], v[1], sym(x))
            else:
                g.env[p] = ('u',)
            gen[p] = x
        g.iv = []
        g.stores = []
        g.mem = {k: v for k, v in g.mem.items()}
        sv = (s.findings, s.obl, s.events)
        s.findings = {}
        quiet = s.quiet_run([(h, None, g)], loop, h)
        s.findings, s.obl, s.events = sv
        step = {p: None for p in phis}
        first = True
        offs = []
        for bp, x in quiet:
            for p in phis:
                nv = s.phi_in(x, h, p, bp)
                gv = g.env[p]
                d = None
                if nv[0] == gv[0] and nv[0] == 'n':
                    d = sub(nv[1], gv[1])
                elif nv[0] == gv[0] and nv[0] in ('p', 'a') and nv[1] == gv[1]:
                    d = sub(nv[2], gv[2])
                d = cval(d) if d is not None and is_const(d) else 'no'
                step[p] = d if first or step[p] == d else 'no'
            first = False
            offs += x.stores
        # what memory of locals the loop changes is unknown at the header
        memk = set()
        for bp, x in quiet:
            for k2, v2 in x.mem.items():
                if g.mem.get(k2) != v2:
                    memk.add(k2)
        head = e.copy()
        back_sub = {}
        for p in phis:
            v = e.env[p]
            d = step[p]
            if first:
                pass               # no second iteration: the values on entry
            elif isinstance(d, int) and v[0] == 'n':
                head.env[p] = ('n', add(v[1], sym(tn, d)))
            elif isinstance(d, int) and v[0] in ('p', 'a'):
                head.env[p] = (v[0], v[1], add(v[2], sym(tn, d)))
            else:
                # no closed form: a value nothing is known about
                if v[0] == 'n':
                    head.env[p] = ('n', sym('h%s_%d' % (p, s.nt)))
                    head.exact = False
                else:
                    head.env[p] = ('u',)
        for k2 in memk:
            head.mem[k2] = ('?',)
        e.iv = s.distinct(e, e.iv)
        cands = [(a, b, 0, 0) for a, b in e.iv]
        m = {gen[p]: (e.env[p][1] if e.env[p][0] == 'n' else e.env[p][2]) for p in phis if e.env[p][0] in ('n', 'p', 'a')}
        ms = {gen[p]: step[p] for p in phis if isinstance(step[p], int)}
        seen = set()
        for off, w in offs:
            if any(v not in ms for v in off if str(v).startswith('x%')):
                continue
            if any(str(v).startswith(('q', 'r')) and not any(v in c for c in e.cons) for v in off if v != 1):
                continue
            d = sum(c * ms.get(v, 0) for v, c in off.items() if v != 1)
            o0 = subst(off, m)
            kk = (key(o0), w, d)
            if d == 0 or kk in seen:
                continue
            seen.add(kk)
            if d > 0:
                cands.append((o0, o0, 0, d))
                for a, b in e.iv:
                    if s.ent(e, sub(b, o0)) and s.ent(e, sub(o0, a)):
                        cands.append((a, o0, 0, d))
            else:
                t0 = add(o0, const(w))
                cands.append((t0, t0, d, 0))
                for a, b in e.iv:
                    if s.ent(e, sub(t0, a)) and s.ent(e, sub(b, t0)):
                        cands.append((t0, b, d, 0))
        un, ks = [], set()
        for c in cands:
            kk = (key(c[0]), key(c[1]), c[2], c[3])
            if kk not in ks:
                ks.add(kk)
                un.append(c)
        cands = un
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise NotJudged('no invariant for the finished bytes')
            sv = (dict(s.findings), s.obl, s.events, set(s.open))
            ok, bad, exits = s.inductive(h, loop, head, tn, cands, e)
            if ok:
                return s.join_exits(exits, tn)
            s.findings, s.obl, s.events, s.open = sv
            cands = [c for k, c in enumerate(cands) if k not in bad]

    def join_exits(s, exits, tn):
        """the exits after no iteration and after some, as one state where that is exact"""
        out = []
        for b, pred, st in exits:
            live = set(s.fn.live_in()[b])
            for i in s.fn.bbs[b]:
                if i.op == 'phi':
                    live |= {i.ops[k] for k in range(0, len(i.ops), 2) if i.ops[k + 1] == pred and i.ops[k][0] == '%'}
            live |= {'%%%d' % k for k in range(len(s.fn.args))}
            x = st.copy()
            x.env = {k: v for k, v in x.env.items() if k in live}
            x.stores = []
            for k, (eb, ep, e) in enumerate(out):
                if (eb, ep) == (b, pred) and e.env == x.env and e.iv == x.iv and e.al == x.al and e.flags == x.flags and e.mem == x.mem and e.exact and x.exact:
                    j = s.join(e, x, tn) or s.join(x, e, tn)
                    if j:
                        out[k] = (b, pred, j)
                        break
            else:
                out.append((b, pred, x))
        return out

    def join(s, a, b, tn):
        keep = {'n', tn}
        def scan(v):
            if isinstance(v, dict):
                keep.update(k for k in v if k != 1)
            elif isinstance(v, (tuple, list)):
                for y in v:
                    scan(y)
        scan(list(a.env.values()))
        scan(a.iv)
        zero, more = scale(sym(tn), -1), add(sym(tn), const(-1))
        if not s.ent(a, zero) or not s.ent(b, more):
            return None
        pa, xa = project(a.cons, keep)
        pb, xb = project(b.cons, keep)
        if not xa or not xb or pa is None or pb is None:
            return None
        j = a.copy()
        j.divs = {}
        j.cons = [c for c in pa if entails(pb, c)] + [c for c in pb if entails(pa, c)]
        if all(entails(j.cons + [zero], c) for c in pa) and all(entails(j.cons + [more], c) for c in pb):
            j.cons = tidy(j.cons)
            return j
        return None

    def quiet_run(s, start, loop, h):
        """generic iteration: only shape is of interest"""
        q = Quiet(s)
        return q.run(start, loop, h)[0]

    def phi_in(s, st, h, p, pred):
        for ins in s.fn.bbs[h]:
            if ins.op == 'phi' and '%%%d' % ins.id == p:
                for k in range(0, len(ins.ops), 2):
                    if ins.ops[k + 1] == pred:
                        return s.val(st, ins.ops[k])
        return ('u',)

    def inductive(s, h, loop, head, tn, cands, e):
        iv = [(add(a, sym(tn, da)) if da else a, add(b, sym(tn, db)) if db else b) for a, b, da, db in cands]
        nxt = {tn: add(sym(tn), const(1))}
        iv1 = [(subst(a, nxt), subst(b, nxt)) for a, b in iv]
        base = head.copy()
        base.iv = list(iv)
        base.cons.append(sym(tn))
        base.stores = []
        first = base.copy()
        first.cons.append(scale(sym(tn), -1))
        pend, seen, exits, bad = [first], set(), [], set()
        # which growing pieces are non-trivial matters only for the result; merge the empty ones lazily
        while pend:
            hs = pend.pop()
            n0 = len(hs.cons)
            b, x = s.run([(h, None, hs.copy())], loop, h)
            exits += x
            for bp, st in b:
                if not s.ok(st):
                    continue
                for k, (a1, b1) in enumerate(iv1):
                    if k in bad:
                        continue
                    if s.ent(st, sub(a1, b1)):
                        continue
                    if not any(s.ent(st, sub(a1, a)) and s.ent(st, sub(b, b1)) for a, b in st.iv):
                        bad.add(k)
                if bad:
                    return False, bad, []
                # header state of the next iteration: what this iteration established, one step earlier
                new = [c for c in st.cons[n0:]]
                syms = {v for c in base.cons for v in c} | {v for w in head.env.values() if w[0] in ('n', 'p', 'a') for v in (w[1] if w[0] == 'n' else w[2])}
                ren = {tn: add(sym(tn), const(-1))}
                for c in new:
                    for v in c:
                        if v != 1 and v not in syms and v not in ren:
                            ren[v] = sym(v + "'")
                sh = [subst(c, ren) for c in new]
                kk = (frozenset(key(c) for c in sh), tuple(sorted(st.flags.items())), tuple(sorted(st.al.items())))
                if kk in seen:
                    continue
                seen.add(kk)
                if len(seen) > 60:
                    raise NotJudged('too many loop histories')
                n = base.copy()
                n.flags, n.al = dict(st.flags), dict(st.al)
                n.exact = base.exact and st.exact
                n.cons += [add(sym(tn), const(-1))] + sh
                if s.ok(n):
                    pend.append(n)
        return True, bad, exits

    def analyse(s):
        st = St()
        st.env, st.cons, st.iv, st.al, st.flags, st.exact = {}, [sym('n')], [], {}, {}, True
        st.mem, st.divs, st.path, st.log, st.stores = {}, {}, (), (), []
        for k, a in enumerate(s.fn.args):
            r = '%%%d' % k
            st.env[r] = ('p', r, {}) if a == 'ptr' else ('u',)
        st.env[s.k['n']] = ('n', sym('n'))
        for r in (s.k['src'], s.k['dst']):
            st.al[r] = s.k['align']
        st.iv = [({}, {})]
        if s.k['kind'] == 'reverse':
            st.iv.append((s.total, s.total))
        if 0 in s.loops:
            raise NotJudged('entry block is a loop')
        s.run([(0, None, st)])
        return s.findings

class Quiet(Block):
    """the same interpretation without obligations (used to find the steps of a loop)"""
    def __init__(s, o):
        s.__dict__.update(o.__dict__)
        s.findings = {}
    def inside(s, *a):
        pass
    def aligned(s, *a):
        pass
    def report(s, *a, **k):
        pass
    def finish(s, *a):
        pass
    def cover(s, st, lo, hi):
        return [st]
    def load(s, st, ins, p, w, al):
        if p[1].startswith('alloca'):
            return Block.load(s, st, ins, p, w, al)
        return tuple(('?',) for _ in range(w))
    def store(s, st, ins, p, bs, al):
        if p[1].startswith('alloca'):
            return Block.store(s, st, ins, p, bs, al)
        n = st.copy()
        n.stores.append((p[2], len(bs)))
        return [n]
    def block(s, st, ins, frm, to, ln, what):
        if to[0] == 'p' and is_const(ln):
            return s.store(st, ins, to, s.load(st, ins, frm, cval(ln), 1) if frm[0] == 'p' else tuple(('?',) for _ in range(cval(ln))), 1)
        return [st]
    def do_loop(s, h, pred, st0):
        # inner loop inside a generic iteration: values it changes are unknown afterwards
        raise NotJudged('nested loop')



EXPL = ('Abstract interpretation of every block kernel (simdMemCpy, simdMemCpyAligned, fast_memcpy, simdReverse, qReverse; each element type the program instantiates) over linear forms of byte '
        'offsets, with the CPU feature flags free and the count any number >= 0.  Loops are accelerated (entry value + constant step * iteration) and the finished bytes are intervals checked to be '
        'preserved by the loop body.  Obligations: every load, store and block call inside the two ranges; every written byte comes from its place (through vector shuffles, permutations and byte swaps); '
        'aligned accesses only where the alignment is established; everything finished at every return; nested kernels called with the same element size and count.')

_p = None
_ks = None
def _job(n):
    fn, k = _p.funcs[n], _ks[n]
    b = Block(_p, fn, k, _ks)
    st = 'ok'
    try:
        b.analyse()
        if b.open:
            st = '; '.join(sorted(b.open))[:300]
    except NotJudged as e:
        st = str(e)
    except RecursionError:
        st = 'internal: recursion'
    except Exception as e:
        import traceback
        st = 'internal: ' + traceback.format_exc()[-400:]
    f = [(kind, w, text) for (kind, w), (ins, text) in b.findings.items()]
    return n, st, f, b.obl, b.steps, len(b.sites), sorted({place(_p, x) for x in b.sites})

def run(prog, tier):
    global _p, _ks
    import os
    from multiprocessing import Pool
    from common import Result
    _p = prog
    ks = {n: kernel(f) for n, f in prog.funcs.items()}
    _ks = {n: k for n, k in ks.items() if k}
    r = Result('C22')
    r.cov['explanation'] = EXPL
    r.assume += ['bool objects hold 0 or 1', 'source and destination of a copy do not overlap (the parameters are __restrict)']
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, sorted(_ks), chunksize=1)
    for n, st, f, obl, steps, ns, sites in res:
        fn = prog.funcs[n]
        r.count('kernels')
        r.count('obligations', obl)
        r.count('blocks_interpreted', steps)
        r.count('access_sites', ns)
        if st != 'ok':
            r.notes.append('%s: %s' % (fn.dname, st))
        else:
            r.count('kernels_judged')
        if sites:
            r.sample('%s: %d obligations at %s' % (fn.dname, obl, ', '.join(sites[:6])))
        for kind, w, text in f:
            r.add('%s|%s' % (fn.dname.split('<')[0], kind), w, '%s: %s' % (fn.dname, text))
    if not _ks:
        r.notes.append('no block kernels found')
    return [r]
