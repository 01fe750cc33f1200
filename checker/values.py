"""C06 C20 C21: what happens to the numbers that come from, or go back to, Python."""
import os, time, traceback, re
from multiprocessing import Pool
from ir import *
from engine import Limit, split, is_sym, add, syms_of
from calls import Engine, parse_format, UNIT_ARGS
from roles import role_of
from common import Result

RULE = {'C06': 'narrow', 'C20': 'wrap', 'C21': 'value'}
TEXT = {
 'C06': 'every narrowing of a number that comes from a Python argument is dominated by a test that it fits; no masking conversion function or format unit; no signed number of unknown sign used as a byte count; no raw digit of a Python int',
 'C20': 'every product and every sum of unbounded Python-derived numbers is proved not to wrap on the path: bounded by container sizes, or guarded by a division or comparison',
 'C21': 'every native integer handed to PyLong_From*: the signedness of every extension on the way from the native value is that of its declared type, no narrowing, the sink is as wide and of the same signedness (or the value is known non-negative)',
}
MAXS = 2**63 - 1
SIGNED = {'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsInt', '_PyLong_AsInt', 'PyLong_AsSsize_t', 'PyNumber_AsSsize_t', 'PyLong_AsLongAndOverflow', 'PyLong_AsLongLongAndOverflow'}
UNSIGNED = {'PyLong_AsSize_t', 'PyLong_AsUnsignedLong', 'PyLong_AsUnsignedLongLong'}
MASKS = {'PyLong_AsUnsignedLongMask', 'PyLong_AsUnsignedLongLongMask'}
FLOATS = {'PyFloat_AsDouble', 'PyLong_AsDouble'}
PYSRC = SIGNED | UNSIGNED | MASKS | FLOATS | {'PyLong_AsVoidPtr'}
SUNIT = set('bhilLn')           # checked format units
MUNIT = set('BHIkK')            # masking format units
# byte-count parameters
BYTES = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,), 'memcpy': (2,), 'memmove': (2,), 'memset': (2,), 'PyMem_Malloc': (0,), 'PyMem_RawMalloc': (0,),
         'PyMem_Calloc': (0, 1), 'PyMem_Realloc': (1,), 'PyObject_Malloc': (0,), 'aligned_alloc': (0, 1), 'posix_memalign': (1, 2), 'PyMem_RawCalloc': (0, 1), 'PyMem_RawRealloc': (1,)}
SINK = {'PyLong_FromLong': ('s', 64), 'PyLong_FromLongLong': ('s', 64), 'PyLong_FromSsize_t': ('s', 64),
        'PyLong_FromSize_t': ('u', 64), 'PyLong_FromUnsignedLong': ('u', 64), 'PyLong_FromUnsignedLongLong': ('u', 64)}
WIDTH = {'char': ('s', 8), 'signed char': ('s', 8), 'unsigned char': ('u', 8), 'short': ('s', 16), 'unsigned short': ('u', 16), 'int': ('s', 32), 'unsigned int': ('u', 32),
         'long': ('s', 64), 'unsigned long': ('u', 64), 'long long': ('s', 64), 'unsigned long long': ('u', 64)}

FOREIGN = {'callInt': ('s', 32), 'callLongLong': ('s', 64)}
CTYPE = dict(WIDTH, **{'Py_ssize_t': ('s', 64), 'ssize_t': ('s', 64), 'size_t': ('u', 64), 'int32_t': ('s', 32), 'uint32_t': ('u', 32), 'int64_t': ('s', 64), 'uint64_t': ('u', 64),
         'std::size_t': ('u', 64), 'unsigned': ('u', 32), 'long int': ('s', 64), 'long unsigned int': ('u', 64), 'uintptr_t': ('u', 64), 'intptr_t': ('s', 64)})
def elem_bytes(ca):
    """bytes per element of the container class of a callee"""
    e = (ca.elem or '').strip()
    if ca.kind == 'list':
        return 24
    if e.endswith('*'):
        return 8
    if e in WIDTH:
        return WIDTH[e][1] // 8
    return None

class VA(Engine):
    def __init__(self, prog, fn, role, rules, shared, cap=60000):
        super().__init__(prog, fn, role, rules, shared, zone=True, cap=cap)
        self.sites = {}
        self._src = {}
        self.lists = set()

    # ---------------------------------------------------------------- where a number comes from
    def stores_to(self, al):
        if not hasattr(self, '_st'):
            self._st = {}
            for i in self.fn.instrs():
                if i.op == 'store' and isinstance(i.ops[1], str):
                    self._st.setdefault(i.ops[1], []).append(i)
                if i.op in ('call', 'invoke') and i.x.get('f') in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyArg_Parse', '_PyArg_ParseTuple_SizeT', '_PyArg_ParseTupleAndKeywords_SizeT'):
                    kw = 'Keywords' in i.x['f']
                    f = self.p.gstr(i.ops[2 if kw else 1])
                    units, opt = parse_format(f or '')
                    outs = i.ops[4 if kw else 2:]
                    pos = 0
                    for u in units:
                        k = UNIT_ARGS.get(u, 1)
                        for o in outs[pos:pos + k]:
                            self._st.setdefault(o, []).append((i, u))
                        pos += k
        return self._st.get(al, ())
    def sources(self, o):
        """leaves a value is computed from"""
        if o in self._src:
            return self._src[o]
        out, seen, work = set(), set(), [o]
        while work:
            x = work.pop()
            if not isinstance(x, str) or x in seen:
                continue
            seen.add(x)
            d = self.fn.defs.get(x)
            if d is None:
                if x[0] == '%' and x[1:].isdigit():
                    k = int(x[1:])
                    if k < len(self.fn.args):
                        out.add(('param', k))
                continue
            if d.op in ('phi',):
                work += d.ops[::2]
            elif d.op in ('select',):
                work += d.ops[1:]
            elif d.op in ('freeze', 'add', 'sub', 'mul', 'shl', 'sext', 'zext', 'trunc', 'bitcast', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'extractvalue', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
                work += d.ops
            elif d.op == 'load':
                a = self.fn.defs.get(d.ops[0]) if isinstance(d.ops[0], str) else None
                ss = self.stores_to(d.ops[0])
                if a is not None and a.op == 'alloca' and ss:
                    for s in ss:
                        if isinstance(s, tuple):
                            out.add(('unit', s[1]))
                        else:
                            work.append(s.ops[0])
                    # sub-objects written by reference (PySlice_Unpack ...)
                else:
                    out.add(('load', x))
            elif d.op in ('call', 'invoke'):
                f = d.x.get('f') or '?'
                ca = self.p.callees.get(f)
                n = ca.base if ca is not None else f
                if n in ('min', 'max', 'llvm.smax.i64', 'llvm.smin.i64', 'llvm.umin.i64', 'llvm.umax.i64', 'llvm.abs.i64', 'abs', 'labs'):
                    work += d.ops
                elif n.startswith('llvm.') and '.with.overflow' in n:
                    work += d.ops
                else:
                    out.add(('call', n))
        self._src[o] = out
        return out
    def python(self, o):
        """is the number (partly) from a Python argument?"""
        for s in self.sources(o):
            if s[0] == 'call' and s[1] in PYSRC or s[0] == 'unit' and s[1] in SUNIT | MUNIT:
                return True
            if s[0] == 'param' and s[1] < len(self.role['params']) and self.role['params'][s[1]] == 'int':
                return True
        return False
    def signed_src(self, o):
        for s in self.sources(o):
            if s[0] == 'call' and s[1] in SIGNED or s[0] == 'unit' and s[1] in SUNIT:
                return True
            if s[0] == 'param' and s[1] < len(self.role['params']) and self.role['params'][s[1]] == 'int':
                return True
        return False
    def site(self, ins, what, ok):
        k = (self.where(ins), what)
        self.sites[k] = self.sites.get(k, True) and bool(ok)

    # ---------------------------------------------------------------- C06
    def on_trunc(self, ins, st, v, bits):
        if bits == 1 or 'narrow' not in self.rules or isinstance(v, int) or not self.python(ins.ops[0]):
            return
        if self.only_byte(ins):
            return
        if any(u.op == 'icmp' and u.x['pred'] in ('eq', 'ne') and (self.roundtrip(u) or [None])[0] is ins for u in self.fn.instrs()):
            self.site(ins, 'narrow', True)      # compared with the original: judged by the comparison
            return
        lo, hi = self.bounds(st, v)
        ok = lo is not None and hi is not None and (lo >= -(1 << (bits - 1)) and hi < 1 << (bits - 1) or lo >= 0 and hi < 1 << bits)
        self.site(ins, 'narrow', ok)
        if not ok:
            self.report('narrow', 'a number from Python is cut down to %d bits without having been found to fit' % bits, ins, 'range %s..%s' % (lo, hi), key='trunc%d|%s' % (bits, self.srcnames(ins.ops[0])))
    def srcnames(self, o):
        return ','.join(sorted(str(s[1]) for s in self.sources(o) if s[0] in ('call', 'unit', 'param')))
    def only_byte(self, ins):
        """the value of memset()"""
        me = '%%%d' % ins.id
        us = [i for i in self.fn.instrs() if me in i.ops]
        return bool(us) and all(i.op in ('call', 'invoke') and (i.x.get('f') or '').startswith(('memset', 'llvm.memset')) and i.ops[1] == me for i in us)
    def bounds(self, st, v):
        lo, hi = self.rng(st, v)
        b, k = split(v)
        if is_sym(b):
            for (x, y), c in st.rel.items():
                if x == b and y is not None:
                    h = self.rng(st, y)[1]
                    if h is not None and (hi is None or h + c + k < hi):
                        hi = h + c + k
                elif y == b:
                    l = self.rng(st, x)[0]
                    if l is not None and (lo is None or l - c + k > lo):
                        lo = l - c + k
        return lo, hi
    def op_fptosi(self, ins, st):
        if 'narrow' in self.rules and self.python(ins.ops[0]):
            self.report('narrow', 'a number from Python goes through a floating-point value', ins, key='float')
        self.setv(st, ins, self.newsym(st, ins))
    op_fptoui = op_fptosi

    def on_call(self, ins, st, ca, args):
        n = ca.base
        if 'narrow' in self.rules:
            if n in MASKS:
                self.report('narrow', '%s discards the bits that do not fit' % n, ins, key='mask:' + n)
            if n == 'PyNumber_AsSsize_t':
                self.site(ins, n, args[1] != 0)
                if args[1] == 0:
                    self.report('narrow', 'PyNumber_AsSsize_t clips numbers that do not fit', ins, key='clip')
            if n in ('PyLong_AsLongAndOverflow', 'PyLong_AsLongLongAndOverflow'):
                pass
            if ca.kind == 'api' and n.startswith('PyArg_Parse'):
                f = self.p.gstr(ins.ops[2 if 'Keywords' in n else 1])
                for u in parse_format(f or '')[0]:
                    self.site(ins, 'unit', u not in MUNIT)
                    if u in MUNIT:
                        self.report('narrow', 'format unit %s does not check for overflow' % u, ins, key='unit:' + u)
            b = BYTES.get('memcpy' if n.startswith('llvm.memcpy') else 'memmove' if n.startswith('llvm.memmove') else 'memset' if n.startswith('llvm.memset') else n)
            for k in b or ():
                if k < len(args) and isinstance(ins.ops[k], str) and self.signed_src(ins.ops[k]) and not isinstance(args[k], int):
                    ok = self.nonneg(st, args[k])
                    self.site(ins, 'bytes', ok)
                    if not ok:
                        self.report('narrow', 'a number from Python that may be negative is used as a byte count', ins, key='negbytes:' + n)
        if ca.kind in ('vector', 'list') and args:
            c = args[0]
            if isinstance(c, tuple) and c[0] == 'st':
                c = c[1]
            eb = elem_bytes(ca)
            if eb:
                st.x[('esize', c)] = eb
            if ca.kind == 'list':
                self.lists.add(c)
        if ca.kind == 'other' and 'wrap' in self.rules and args:
            m = re.match(r'void simd::\w+<([^<>]+)>\(.*unsigned long\)', ca.d)
            t = m.group(1) if m else ''
            w = 8 if t.endswith('*') or t == 'double' else 16 if t == 'long double' else 4 if t in ('float', 'wchar_t', 'char32_t') else 2 if t == 'char16_t' else WIDTH.get(t, (0, 0))[1] // 8
            if w > 1 and not isinstance(args[-1], int):
                h = self.bounds(st, args[-1])[1]
                ok = self.nonneg(st, args[-1]) and h is not None and h * w <= MAXS
                self.site(ins, 'simd count', ok)
                if not ok:
                    self.report('wrap', 'the byte count of %s may wrap around' % ca.d.split('(')[0].replace('void ', ''), ins, str(args[-1]), key='count|%s' % self.srcnames(ins.ops[-1]))
        if 'value' in self.rules and ca.base in SINK and args:
            self.sink(ins, st, ca.base, ins.ops[0], args[0])
        if 'value' in self.rules and ca.base in ('_PyLong_New', '_PyLong_FromDigits', '_PyLong_FromByteArray', 'PyLong_FromDouble'):
            if ca.base == '_PyLong_FromByteArray':
                pass
            else:
                self.site(ins, 'digits', False)
                self.report('value', 'builds a Python integer with %s, not from the native value' % ca.base, ins, key='digits:' + ca.base)
        if 'value' in self.rules and ca.base == 'Py_BuildValue':
            self.build(ins, st)
        super().on_call(ins, st, ca, args)

    # ---------------------------------------------------------------- C21
    def sink(self, ins, st, name, o, v):
        bad = self.lossy(st, o, SINK[name][0], set())
        self.site(ins, name, not bad)
        if bad:
            self.report('value', '%s: %s' % (name, bad), ins, key='%s|%s' % (name, bad))
    def lossy(self, st, o, sink, seen):
        """why the number o may not be the mathematical value of what it was computed from (None: it is)"""
        if not isinstance(o, str) or o in seen:
            return None
        if o.startswith('c:'):
            return 'a negative constant becomes an unsigned number' if sink == 'u' and int(o[2:]) < 0 else None
        if o[0] != '%':
            return None
        seen = seen | {o}
        d = self.fn.defs.get(o)
        v = self.val(st, o) if o in st.env else None
        def inrange(x, bits, kind):
            lo, hi = self.bounds(st, x)
            if kind == 's':
                return lo is not None and hi is not None and lo >= -(1 << (bits - 1)) and hi < 1 << (bits - 1)
            return lo is not None and lo >= 0 and (bits == 64 or hi is not None and hi < 1 << bits)
        if d is None:       # parameter: signed
            return None if sink == 's' or v is not None and self.nonneg(st, v) else 'a signed number that may be negative becomes an unsigned one'
        if d.op in ('phi', 'select'):
            for x in (d.ops[::2] if d.op == 'phi' else d.ops[1:]):
                if isinstance(x, str) and x[0] == '%' and x not in st.env and d.op == 'phi':
                    r = self.lossy(st, x, 's' if sink == 's' else 'any', seen)
                elif isinstance(x, str) and x.startswith('c:') and d.op == 'phi' and v is not None and v != int(x[2:]):
                    r = None
                else:
                    r = self.lossy(st, x, sink, seen)
                if r:
                    return r
            return None
        if d.op == 'freeze':
            return self.lossy(st, d.ops[0], sink, seen)
        if d.op == 'sext':
            t = self.leaftype(d.ops[0])
            if t and t[0] == 'u':
                return 'an unsigned %d-bit number is sign-extended' % t[1]
            r = self.lossy(st, d.ops[0], 's', seen)
            if r:
                return r
            if sink == 'u' and not (v is not None and self.nonneg(st, v)):
                return 'a signed number that may be negative becomes an unsigned one'
            return None
        if d.op == 'zext':
            if d.x.get('from') == 'i1':
                return None
            t = self.leaftype(d.ops[0])
            if t and t[0] == 's':
                w = self.val(st, d.ops[0]) if d.ops[0] in st.env else None
                if w is None or not self.nonneg(st, w):
                    return 'a signed %d-bit number is zero-extended' % t[1]
            return self.lossy(st, d.ops[0], 'any', seen)
        if d.op == 'trunc':
            w = self.val(st, d.ops[0]) if d.ops[0] in st.env else None
            bits = int(d.ty[1:])
            if bits == 1:
                return None
            if w is None or not (inrange(w, bits, 's') or inrange(w, bits, 'u') and sink != 's'):
                return 'the number is cut down to %d bits' % bits
            return self.lossy(st, d.ops[0], sink, seen)
        if d.op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext'):
            return 'the number goes through a floating-point value'
        if d.op in ('and', 'or', 'xor', 'lshr', 'ashr') and self.leaftype(o):
            return 'the bits of the number are changed (%s)' % d.op
        if d.op in ('call', 'invoke') and re.search(r'(^|:)(labs|llabs|abs|bswap)\b|llvm\.(abs|bswap|bitreverse)', d.x.get('f') or ''):
            return 'the number is changed by %s' % d.x['f']
        t = self.leaftype(o)
        if sink == 'any' or t is None:
            return None
        if sink == 'u' and t[0] == 's' and not (v is not None and self.nonneg(st, v)):
            return 'a signed number that may be negative becomes an unsigned one'
        if sink == 's' and t == ('u', 64):
            h = self.bounds(st, v)[1] if v is not None else None
            if h is None or h > MAXS:
                return 'an unsigned 64-bit number becomes a signed one'
        return None
    def leaftype(self, o, depth=12):
        """declared type (signedness, bits) of the native value o is, or None"""
        if depth == 0 or not isinstance(o, str):
            return None
        d = self.fn.defs.get(o)
        if d is None:
            if o[0] == '%' and o[1:].isdigit() and int(o[1:]) < len(self.fn.args) and self.fn.args[int(o[1:])][0] == 'i':
                return ('s', int(self.fn.args[int(o[1:])][1:]))
            return None
        if d.op in ('phi', 'select'):
            ts = {self.leaftype(x, depth - 1) for x in (d.ops[::2] if d.op == 'phi' else d.ops[1:]) if isinstance(x, str) and x[0] == '%' and x != o} - {None}
            return next(iter(ts)) if len(ts) == 1 else None
        if d.op == 'freeze' or d.op in ('and', 'or', 'xor'):
            return self.leaftype(d.ops[0], depth - 1)
        if d.op in ('add', 'sub', 'mul') and d.op != 'mul':
            ts = {self.leaftype(x, depth - 1) for x in d.ops if isinstance(x, str) and x[0] == '%'} - {None}
            if d.op == 'sub' and len(ts) == 1 and d.ops[0].startswith('c:'):
                return ('s', next(iter(ts))[1])
            return next(iter(ts)) if len(ts) == 1 and d.op == 'add' else None
        if d.op in ('call', 'invoke'):
            n = d.x.get('f')
            if n is None and d.ty in ('i32', 'i64'):    # native function called by address: its documented type
                return next((FOREIGN[r['pyname']] for r in self.role['roles'] if r.get('pyname') in FOREIGN and FOREIGN[r['pyname']][1] == int(d.ty[1:])), None)
            if n in SIGNED:
                return ('s', 32 if n in ('PyLong_AsInt', '_PyLong_AsInt') else 64)
            if n in UNSIGNED:
                return ('u', 64)
            return None
        if d.op == 'load':
            a = self.fn.defs.get(d.ops[0]) if isinstance(d.ops[0], str) else None
            while a is not None and a.op in ('phi', 'bitcast', 'freeze') or a is not None and a.op == 'getelementptr' and len(a.ops) == 2 and not a.x.get('sty', '').startswith('%'):
                nxt = a.ops[0]
                if not isinstance(nxt, str) or depth <= 0:
                    return None
                depth -= 1
                a = self.fn.defs.get(nxt)
            if a is None:
                return None
            if a.op in ('call', 'invoke') and a.x.get('f'):
                ca = self.p.callees.get(a.x['f'])
                if ca is not None and ca.kind in ('vector', 'vit', 'lit', 'list') and ca.elem in WIDTH:
                    return WIDTH[ca.elem]
                return None
            if a.op == 'getelementptr':
                t = a.x.get('sty', '').replace('%struct.', '').replace('%class.', '').strip('"')
                for m in self.p.structs.get(t, ()):
                    if m[1] == a.x.get('off') and not m[4]:
                        return CTYPE.get(m[3])
                return None
            if a.op == 'alloca':
                ts = {self.leaftype(x.ops[0], depth - 1) for x in self.stores_to(d.ops[0]) if not isinstance(x, tuple) and isinstance(x.ops[0], str) and x.ops[0][0] == '%'} - {None}
                return next(iter(ts)) if len(ts) == 1 else None
        return None
    def build(self, ins, st):
        f = self.p.gstr(ins.ops[0])
        if f is None:
            return
        units = [c for c in f if c not in ' ,:()[]{}']
        k = 1
        for u in units:
            if k >= len(ins.ops):
                break
            if u in 'bBhHiIlkLKn':
                sink = 's' if u in 'bhilLn' else 'u'
                wide = u in 'lkLKn'
                t = self.fn.defs.get(ins.ops[k])
                ty = t.ty if t is not None else ''
                bad = None
                if ty == 'i64' and not wide:
                    bad = 'format unit %s takes fewer bits than it is given' % u
                elif ty == 'i32' and wide:
                    bad = 'format unit %s takes more bits than it is given' % u
                else:
                    bad = self.lossy(st, ins.ops[k], sink, set())
                self.site(ins, 'Py_BuildValue', not bad)
                if bad:
                    self.report('value', 'Py_BuildValue: %s' % bad, ins, key='build|%s' % bad)
            k += 1
    def size(self, st, c, ins):
        v = super().size(st, c, ins)
        eb = st.x.get(('esize', c))
        if eb and is_sym(v):
            self.setfact(st, v, hi=MAXS // eb)
        return v
    def op_load(self, ins, st):
        if 'narrow' in self.rules and ins.ty == 'i32':
            d = self.fn.defs.get(ins.ops[0]) if isinstance(ins.ops[0], str) else None
            hops = 0
            while d is not None and hops < 4:
                if d.op == 'getelementptr' and re.search(r'_longobject|_PyLongValue', d.x.get('sty', '')):
                    self.report('narrow', 'uses a single digit of a Python integer', ins, key='digit')
                    break
                d = self.fn.defs.get(d.ops[0]) if d.op in ('getelementptr', 'bitcast', 'phi', 'select') and isinstance(d.ops[0], str) else None
                hops += 1
        return super().op_load(ins, st)

    def api_generic(self, ins, st, spec, n, args):
        r = super().api_generic(ins, st, spec, n, args)
        if n in UNSIGNED:
            for s in [x[1] for x in r] if isinstance(r, list) else [st]:
                v = self.val(s, '%%%d' % ins.id)
                if is_sym(v):
                    self.setfact(s, v, lo=0, hi=2**64 - 1)
        return r
    def op_icmp(self, ins, st):
        if 'narrow' in self.rules and ins.x['pred'][0] == 's' and ins.x.get('oty') == 'i64':
            for o in ins.ops:
                self.signed_use(ins, st, o)
        return super().op_icmp(ins, st)
    def signed_use(self, ins, st, o):
        """a number that may be above 2**63 looked at as a signed one"""
        if not isinstance(o, str) or o[0] != '%':
            return
        v = self.val(st, o)
        b, k = split(v)
        if is_sym(b) and st.x.get(('conv', b)) in UNSIGNED:
            ok = self.bounds(st, v)[1] is not None and self.bounds(st, v)[1] <= MAXS
            self.site(ins, 'sign', ok)
            if not ok:
                self.report('narrow', 'a number of up to 64 bits is treated as a signed one', ins, key='sign:' + st.x[('conv', b)])
    # ---------------------------------------------------------------- less state: references and exceptions do not matter here
    def enter(self, st, b, pred):
        st.own, st.elem, st.bulk = {}, {}, {}
        st.x = {k: v for k, v in st.x.items() if not (isinstance(k, tuple) and (k[0] == 'quot' and k[1] not in st.env.values() or k[0] == 'kind' and isinstance(k[1], tuple) and k[1][0] == 'cur'))}
        # list positions are of no interest either, and not related to any number
        for j, d in enumerate((st.env, st.mem)):
            for k, v in d.items():
                if isinstance(v, tuple) and v[0] == 'it' and v[1] in self.lists or j == 1 and isinstance(k[0], tuple) and k[0][0] == 'al' and '_List_' in self.al_aty.get(k[0][1], ''):
                    d[k] = 'uI%d_%s' % (j, k[1:] if j == 0 else '%s_%s' % (k[0][1], k[1]) if isinstance(k[0], tuple) else self.sid(k))
        return super().enter(st, b, pred)
    def collect(self, st):
        used = set()
        for d in (st.env, st.mem):
            for v in d.values():
                syms_of(v, used)
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'slice']:
            if is_sym(st.x[k][3]) and st.x[k][3] not in used and k[1] not in used:
                del st.x[k]
        keep = {k: v for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'slice'}
        facts = {k[1]: st.fact[k[1]] for k in keep if k[1] in st.fact}
        rels = {(a, b): c for (a, b), c in st.rel.items() if ('slice', a) in keep or ('slice', b) in keep}
        super().collect(st)
        st.x.update(keep)
        st.fact.update(facts)
        alive = set(st.fact) | used | {k[1] for k in keep}
        st.rel.update({(a, b): c for (a, b), c in rels.items() if a in alive and b in alive})
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'prod' and not all(not is_sym(split(z)[0]) or split(z)[0] in used for z in k[1:])]:
            del st.x[k]

    # ---------------------------------------------------------------- C20
    def v_max_size(self, ins, st, ca, c, args):
        eb = elem_bytes(ca)
        if eb:
            self.setv(st, ins, MAXS // eb)
        else:
            self.setv(st, ins, self.newsym(st, ins))
    def op_udiv(self, ins, st):
        r = super().op_udiv(ins, st)
        self.quot(ins, st)
        return r
    def op_sdiv(self, ins, st):
        r = super().op_sdiv(ins, st)
        self.quot(ins, st)
        return r
    def quot(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        s = self.val(st, '%%%d' % ins.id)
        if isinstance(a, int) and isinstance(b, int) and b > 0 and a >= 0:
            self.setv(st, ins, a // b)
        elif is_sym(s) and self.nonneg(st, a) and self.nonneg(st, b):
            st.x[('quot', s)] = (a, b)
            _, ha = self.bounds(st, a)
            lb, _ = self.bounds(st, b)
            self.setfact(st, s, lo=0, hi=None if ha is None else ha // max(1, lb or 1))
    def assume_cmp(self, st, pred, a, b):
        r = super().assume_cmp(st, pred, a, b)
        if r and pred in ('ule', 'ult', 'sle', 'slt', 'eq'):
            for p, k in ((a, b),) + (((b, a),) if pred == 'eq' else ()):
                q = st.x.get(('quot', k)) if is_sym(k) else None
                if q is not None and not isinstance(q[1], int) and self.nonneg(st, p):
                    h = self.rng(st, q[0])[1]
                    if h is not None:
                        st.x[('prod', p, q[1])] = h
        return r
    def op_mul(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        ok = self.wrap(ins, st, a, b)
        r = super().op_mul(ins, st)
        s = self.val(st, '%%%d' % ins.id)
        if ok and is_sym(s) and self.nonneg(st, a) and self.nonneg(st, b):
            self.setfact(st, s, lo=0, hi=MAXS)
        return r
    def op_shl(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if isinstance(b, int) and 0 <= b < 64:
            self.wrap(ins, st, a, 1 << b)
        return super().op_shl(ins, st)
    def wrap(self, ins, st, a, b):
        if ins.ty not in ('i64', 'i32') or isinstance(a, int) and isinstance(b, int):
            return False
        top = MAXS if ins.ty == 'i64' else 2**31 - 1
        ok = self.fits(st, a, b, top)
        if 'wrap' in self.rules:
            self.site(ins, 'product', ok)
            if not ok:
                self.report('wrap', 'a product of sizes may wrap around', ins, '%s * %s' % (a, b), key='mul|%s' % (self.srcnames(ins.ops[0]) + '*' + self.srcnames(ins.ops[1])))
        return ok
    def fits(self, st, a, b, top):
        for p, q in ((a, b), (b, a)):
            if p in (0, 1, -1):
                return True
            lo, hi = self.bounds(st, p)
            l2, h2 = self.bounds(st, q)
            m = None if None in (lo, hi) else max(abs(lo), abs(hi))
            n = None if None in (l2, h2) else max(abs(l2), abs(h2))
            if m is not None and n is not None and m * n <= top:
                return True
            if lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
                # p * y <= top was established on the path, and q <= y
                for k, t in [(k, v) for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'prod']:
                    for x, y in ((k[1], k[2]), (k[2], k[1])):
                        if t <= top and self.le(st, p, x, 0) and self.le(st, q, y, 0):
                            return True
            # positions of a slice: start + i * step stays within the container
            for k, (ln, x, y, step) in [(k[1], v) for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'slice']:
                if q == step and self.nonneg(st, p) and self.le(st, p, k, -1):
                    return True
        return False
    def to_size(self, ins):
        """does the result decide how much is allocated, copied or filled?"""
        if not hasattr(self, '_users'):
            self._users = {}
            for i in self.fn.instrs():
                for o in i.ops:
                    if isinstance(o, str) and o[0] == '%':
                        self._users.setdefault(o, []).append(i)
            self._ts = {}
        r = self._ts.get(ins.id)
        if r is None:
            r, seen, work = False, set(), ['%%%d' % ins.id]
            while work and not r:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in self._users.get(x, ()):
                    if u.op in ('phi', 'select', 'add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or'):
                        work.append('%%%d' % u.id)
                    elif u.op == 'store' and u.ops[0] == x and isinstance(u.ops[1], str):
                        a = self.fn.defs.get(u.ops[1])
                        if a is not None and a.op == 'alloca':
                            for w in self._users.get(u.ops[1], ()):
                                if w.op == 'load':
                                    work.append('%%%d' % w.id)
                                elif w.op in ('call', 'invoke') and self.sizearg(w, u.ops[1]):
                                    r = True
                    elif u.op in ('call', 'invoke') and self.sizearg(u, x):
                        r = True
            self._ts[ins.id] = r
        return r
    def sizearg(self, i, x):
        f = i.x.get('f')
        if f is None:
            return False
        ca = self.p.callees[f]
        n = ca.base
        if ca.kind in ('vector', 'list'):
            return ca.meth in ('resize', 'reserve', 'assign', 'insert', 'vector', 'list') and x in i.ops[1:]
        if n.startswith('llvm.mem'):
            return len(i.ops) > 2 and i.ops[2] == x
        if n in BYTES:
            return any(k < len(i.ops) and i.ops[k] == x for k in BYTES[n])
        if n in ('PyList_New', 'PyTuple_New', 'PyBytes_FromStringAndSize', 'PyUnicode_FromStringAndSize', '_Znwm', '_Znam'):
            return x in i.ops
        if ca.kind == 'other' and re.search(r'simd::|memcpy|alignedAlloc', ca.d):
            return i.ops[-1] == x or 'alignedAlloc' in ca.d
        return False
    def op_add(self, ins, st):
        r = super().op_add(ins, st)
        self.sum(ins, st, 1)
        return r
    def op_sub(self, ins, st):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        r = super().op_sub(ins, st)
        self.sum(ins, st, -1)
        s = self.val(st, '%%%d' % ins.id)
        if is_sym(s) and ins.ty == 'i64' and not isinstance(a, tuple) and not isinstance(b, tuple) and self.le(st, b, a, 0):
            lo = 1 if self.le(st, b, a, -1) else 0
            self.setfact(st, s, lo=lo, hi=2**64 - 1)
        return r
    def unsigned_only(self, ins):
        """is the result looked at as an unsigned number only?"""
        self.to_size(ins)
        for u in self._users.get('%%%d' % ins.id, ()):
            if u.op in ('sdiv', 'srem', 'ashr', 'sext') or u.op == 'icmp' and u.x['pred'][0] == 's':
                return False
        return True
    def sum(self, ins, st, sg):
        if 'wrap' not in self.rules or ins.ty != 'i64' or not self.to_size(ins):
            return
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if not (self.python(ins.ops[0]) or self.python(ins.ops[1])) or isinstance(a, int) and isinstance(b, int):
            return
        if isinstance(a, tuple) and a[0] in ('sl', 'it') or isinstance(b, tuple) and b[0] in ('sl', 'it'):
            return
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if sg < 0:
            lb, hb = None if hb is None else -hb, None if lb is None else -lb
        D = lambda l, h: (-2**63 if l is None else l, MAXS if h is None else h)
        la, ha = D(la, ha)
        lb, hb = D(lb, hb)
        ok = la + lb >= -2**63 and ha + hb <= MAXS
        if not ok and self.unsigned_only(ins):
            ok = la + lb >= 0 and ha + hb <= 2**64 - 1 or sg < 0 and self.le(st, b, a, 0)
        self.site(ins, 'sum', ok)
        if not ok:
            self.report('wrap', 'a size computed from numbers from Python may wrap around', ins, '%s %s %s: %s' % (a, '+' if sg > 0 else '-', b, (la, ha, lb, hb)), key='sum|%s' % (self.srcnames(ins.ops[0]) + '+' + self.srcnames(ins.ops[1])))

_p = None
def _job(a):
    n, rules, cap = a
    fn = _p.funcs[n]
    t = time.time()
    e = None
    try:
        e = VA(_p, fn, role_of(_p, n), set(rules), {}, cap=cap)
        e.run()
        st = 'ok'
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    return n, fn.dname, fn.file, st, time.time() - t, (e.stat if e else {}), list(e.viol.values()) if e else [], (e.sites if e else {})

def run(prog, props, tier):
    global _p
    _p = prog
    cap = 20000 if tier == 'quick' else 100000
    names = sorted(prog.roots(), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, [RULE[p] for p in props], cap) for n in names], chunksize=1)
    out = []
    WHAT = {'C06': ('narrow', 'clip', 'unit', 'bytes', 'sign', 'PyNumber_AsSsize_t'), 'C20': ('product', 'sum', 'simd count')}
    for p in props:
        r = Result(p)
        r.cov['explanation'] = TEXT[p] + '.  Intervals, differences and products tracked along every path of the LLVM IR of every function reachable from a method table, slot table or module init function.'
        for n, d, f, st, t, stat, viol, sites in res:
            r.count('entry_points')
            r.count('states', stat.get('states', 0))
            r.count('calls', stat.get('calls', 0))
            for (w, what), ok in sorted(sites.items()):
                if what in WHAT.get(p, (what,)) and (p != 'C21' or what not in WHAT['C06'] + WHAT['C20']):
                    r.count('obligations')
                    if len(r.samples) < 12:
                        r.sample('%s at %s: %s%s' % (d, w, what, '' if ok else ' NOT proved'))
            if st != 'ok':
                r.notes.append('%s: %s' % (d, st))
            for v in viol:
                if v.rule == RULE[p]:
                    r.add(v.key, v.site, '%s: %s' % (d, v.what), v.detail)
        out.append(r)
    return out
