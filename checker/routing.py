"""C27: the unchecked primitives of Unsafe and SIMD hand each argument, in its documented role, to the operation they are named after."""
import re, time
from ir import *
from calls import parse_format
from roles import VARARGS, O, FASTCALL, NOARGS
from common import Result

TYPES = {'Int': 'int', 'UnsignedInt': 'unsigned int', 'Long': 'long', 'UnsignedLong': 'unsigned long', 'LongLong': 'long long', 'UnsignedLongLong': 'unsigned long long',
         'Short': 'short', 'UnsignedShort': 'unsigned short', 'Float': 'float', 'Double': 'double', 'LongDouble': 'long double', 'Char': 'char', 'UnsignedChar': 'unsigned char',
         'WChar': 'wchar_t', 'Char16': 'char16_t', 'Char32': 'char32_t', 'Bool': 'bool', 'Int8': 'signed char', 'UInt8': 'unsigned char', 'Int16': 'short', 'UInt16': 'unsigned short',
         'Int32': 'int', 'UInt32': 'unsigned int', 'Int64': 'long', 'UInt64': 'unsigned long'}
SIZE = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'wchar_t': 4, 'char32_t': 4,
        'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8, 'long double': 16}
CONV = re.compile(r'^_?(PyLong_As|PyFloat_As|PyNumber_(Index|Long|Float)|PyBytes_(AsString|Size)|PyUnicode_AsUTF8|PyObject_(Length|Size))')
PARSERS = {'PyArg_ParseTuple': 2, '_PyArg_ParseTuple_SizeT': 2, 'PyArg_UnpackTuple': 4}
RESULT = re.compile(r'^(PyLong_From|PyBytes_From|Py_BuildValue|PyUnicode_From|PyFloat_From)')

# (name, roles of the operands of the operation): dst, src, size ... as argument numbers of the Python call
MEM = re.compile(r'^(llvm\.memcpy|llvm\.memmove|memcpy$|memmove$|mempcpy$)')
def by_name(n):
    """kind, {role: argument}"""
    if n.endswith('memcpy') and n == 'memcpy':
        return ('copy', dict(src=0, dst=1, size=2))
    m = re.fullmatch(r'memcpy(.+?)(Aligned)?', n)
    if m:
        return ('copyT', dict(src=0, dst=1, size=2), m.group(1), bool(m.group(2)))
    m = re.fullmatch(r'reverse(.+)', n)
    if m:
        return ('reverseT', dict(addr=0, size=1), m.group(1))
    m = re.fullmatch(r'set(AVX512|AVX2)Vector(8|16|32|64)', n)
    if m:
        return ('lanes', {'AVX512': 512, 'AVX2': 256}[m.group(1)], int(m.group(2)))
    return {'malloc': ('alloc', dict(size=0), 'malloc'), 'calloc': ('alloc', dict(num=0, size=1), 'calloc'), 'realloc': ('alloc', dict(addr=0, size=1), 'realloc'),
            'aligned_malloc': ('alloc', dict(size=0, align=1), 'aligned'), 'free': ('free', dict(addr=0), 'malloc'), 'aligned_free': ('free', dict(addr=0), 'aligned'),
            'get': ('read', dict(addr=0, size=1)), 'set': ('write', dict(dst=0, src=1, size=1)), 'memset': ('fill', dict(dst=0, val=1, size=2)),
            'callVoid': ('call', dict(func=0), 'void'), 'callInt': ('call', dict(func=0), 'i32'), 'callLongLong': ('call', dict(func=0), 'i64'),
            'call': ('callbuf', dict(func=0, dst=1, size=2)), 'get_address': ('same', dict(obj=0)), 'as_object': ('same', dict(obj=0)),
            'incref': ('ref', dict(obj=0), 1), 'decref': ('ref', dict(obj=0), -1), 'refcnt': ('count', dict(obj=0)),
            'fputs': ('fputs', dict(text=0)), 'fgets': ('fgets', dict(size=0))}.get(n)

ALLOC = {'malloc': ('malloc', dict(size=0)), 'calloc': ('calloc', dict(num=0, size=1)), 'realloc': ('realloc', dict(addr=0, size=1)),
         'aligned_alloc': ('aligned', dict(align=0, size=1)), 'memalign': ('aligned', dict(align=0, size=1)), 'posix_memalign': ('aligned', dict(align=1, size=2)), '_aligned_malloc': ('aligned', dict(size=0, align=1)),
         '_mm_malloc': ('aligned', dict(size=0, align=1))}
FREE = {'free': 'malloc', '_aligned_free': 'msvc', '_mm_free': 'malloc', 'PyMem_Free': 'pymem', 'PyObject_Free': 'pyobj', 'PyMem_RawFree': 'pyraw'}

class Slice:
    """labels a value can come from: ('arg', k) | ('op', kind) | 'local' | 'vec' | 'tuple' | 'self' | '?'; constants contribute nothing"""
    def __init__(s, prog, fn, flags):
        s.p, s.fn = prog, fn
        s.flags = flags
    def top(s, k):
        if k == 0:
            return {'self'}
        if s.flags & FASTCALL:
            return {'vec'} if k == 1 else {'nargs'} if k == 2 else {'?'}
        if s.flags & VARARGS:
            return {'tuple'} if k == 1 else {'?'}
        if s.flags & O:
            return {('arg', 0)} if k == 1 else {'?'}
        return {'?'}
    def of(s, fn, op, ctx, seen=frozenset(), depth=0):
        if op in ('null', 'undef', 'poison', 'zero', 'none') or isinstance(op, str) and op.startswith(('c:', 'f:')):
            return set()
        if not isinstance(op, str) or depth > 12:
            return {'?'}
        if op.startswith('@'):
            return {('glob', op[1:])}
        if not op.startswith('%'):
            return {'?'}
        k = (fn.name, op, id(ctx))
        if k in seen:
            return set()
        seen = seen | {k}
        n = int(op[1:])
        if n < len(fn.args):
            if ctx is None:
                return s.top(n)
            cfn, call, cctx = ctx
            return s.of(cfn, call.ops[n], cctx, seen, depth + 1) if n < len(call.ops) else {'?'}
        ins = fn.defs.get(op)
        if ins is None:
            return {'?'}
        o = ins.op
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast', 'freeze', 'fptrunc', 'fpext', 'sitofp', 'uitofp'):
            return s.of(fn, ins.ops[0], ctx, seen, depth)
        if o == 'phi':
            r = set()
            for v in ins.ops[0::2]:
                r |= s.of(fn, v, ctx, seen, depth)
            return r
        if o == 'select':
            return s.of(fn, ins.ops[1], ctx, seen, depth) | s.of(fn, ins.ops[2], ctx, seen, depth)
        if o in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'and', 'or', 'xor'):
            r = set()
            for v in ins.ops:
                r |= s.of(fn, v, ctx, seen, depth)
            return r
        if o == 'alloca':
            return {('local', fn.name, op)}
        if o == 'getelementptr':
            b = s.of(fn, ins.ops[0], ctx, seen, depth)
            return b
        if o == 'load':
            return s.load(fn, ins.ops[0], ctx, seen, depth)
        if o in ('call', 'invoke'):
            return s.call(fn, ins, ctx, seen, depth)
        if o == 'extractvalue':
            return s.of(fn, ins.ops[0], ctx, seen, depth)
        return {'?'}
    def load(s, fn, ptr, ctx, seen, depth):
        # element of the argument vector
        off, base = 0, ptr
        known = True
        while isinstance(base, str) and base.startswith('%') and base in fn.defs and fn.defs[base].op in ('getelementptr', 'bitcast'):
            g = fn.defs[base]
            if g.op == 'getelementptr':
                if 'off' in g.x:
                    off += g.x['off']
                elif all(isinstance(v, str) and v == 'c:0' for v in g.ops[1:]):
                    pass
                else:
                    known = False
            base = g.ops[0]
        b = s.of(fn, base, ctx, seen, depth)
        if b == {'vec'}:
            return {('arg', off // 8)} if known and off >= 0 and off % 8 == 0 else {'?'}
        r = set()
        for l in b:
            if isinstance(l, tuple) and l[0] == 'local':
                r |= s.local(l, seen, depth + 1, ctx)
            elif isinstance(l, tuple) and l[0] == 'arg':
                r.add(('field', l[1], off))
            elif isinstance(l, tuple) and l[0] == 'glob':
                r.add(l)
            else:
                r.add('?')
        return r or {'?'}
    def local(s, l, seen, depth, ctx):
        """what the variable may hold; stores are looked for in the function that owns it and in those it hands its address to"""
        _, fname, op = l
        f = s.p.funcs[fname]
        r = set()
        k = ('mem', fname, op)
        if k in seen:
            return set()
        seen = seen | {k}
        return s.stores(f, op, s.ctx_of(fname, ctx), seen, depth)
    def ctx_of(s, fname, ctx):
        # contexts are (calling function, call, context of the caller); the owner is an ancestor or the current function
        c = ctx
        while c is not None:
            if c[0].name == fname:
                return c[2]
            c = c[2]
        return ctx
    def stores(s, f, op, ctx, seen, depth):
        r = set()
        if depth > 12:
            return {'?'}
        for ins in f.instrs():
            if op not in [x for x in ins.ops if isinstance(x, str)]:
                continue
            if ins.op == 'store':
                if ins.ops[1] == op:
                    r |= s.of(f, ins.ops[0], ctx, seen, depth)
                else:
                    r.add('?')
            elif ins.op in ('call', 'invoke'):
                name = ins.x.get('f')
                i = [k for k, x in enumerate(ins.ops) if x == op]
                if name is None:
                    r.add('?')
                    continue
                if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
                    continue
                if name in PARSERS and s.of(f, ins.ops[0], ctx, seen, depth) == {'tuple'}:
                    first = PARSERS[name]
                    if name == 'PyArg_UnpackTuple':
                        r |= {('arg', k - first) for k in i}
                        continue
                    fmt = s.p.gstr(ins.ops[1])
                    if fmt is None:
                        r.add('?')
                        continue
                    units, _ = parse_format(fmt)
                    pos = first
                    hit = False
                    for k, u in enumerate(units):
                        w = 2 if u in ('s#', 'z#', 'y#', 'O!', 'O&', 'es', 'et') else 3 if u in ('es#', 'et#') else 1
                        if any(pos <= x < pos + w for x in i):
                            r.add(('arg', k))
                            hit = True
                        pos += w
                    if not hit:
                        r.add('?')
                    continue
                g = s.p.funcs.get(name)
                if g is not None and g.bbs and not name.startswith('llvm.'):
                    for k in i:
                        if k < len(g.args):
                            r |= s.stores(g, '%%%d' % k, (f, ins, ctx), seen, depth + 1)
                    continue
                if MEM.match(name):
                    if i == [0]:
                        for l in s.of(f, ins.ops[1], ctx, seen, depth):
                            r.add(l if isinstance(l, tuple) and l[0] == 'arg' else '?')
                    continue
                r.add('?')
            elif ins.op in ('getelementptr', 'bitcast'):
                if any(x.op != 'load' for x in f.instrs() if ins.id is not None and '%%%s' % ins.id in [y for y in x.ops if isinstance(y, str)]):
                    r.add('?')
            elif ins.op in ('load', 'icmp'):
                pass
            else:
                r.add('?')
        return r
    def call(s, fn, ins, ctx, seen, depth):
        name = ins.x.get('f')
        if name is None:
            return {('op', 'call')}
        if CONV.match(name) or name in ('llvm.expect.i64', 'llvm.expect.i1'):
            return s.of(fn, ins.ops[0], ctx, seen, depth)
        if name in ALLOC:
            return {('op', name)}
        g = s.p.funcs.get(name)
        if g is not None and g.bbs:
            if depth > 8:
                return {'?'}
            r = set()
            for x in g.instrs():
                if x.op == 'ret' and x.ops:
                    r |= s.of(g, x.ops[0], (fn, ins, ctx), seen, depth + 1)
            return r
        if RESULT.match(name):
            r = set()
            for k, v in enumerate(ins.ops):
                if k or name != 'Py_BuildValue':
                    r |= s.of(fn, v, ctx, seen, depth)
            return r
        return {('op', name)}

class Routing:
    def __init__(s, prog, res):
        s.p, s.r = prog, res
    def calls(s, fn, ctx=None, depth=0, stack=()):
        """(function, call, context) of every call reached from fn through functions of the tree that are not operations themselves"""
        out = []
        if depth > 6 or fn.name in stack:
            return out
        for ins in fn.instrs():
            if ins.op in ('call', 'invoke'):
                out.append((fn, ins, ctx))
                g = s.p.funcs.get(ins.x.get('f') or '')
                if g is not None and g.bbs and not s.kernel(g):
                    out += s.calls(g, (fn, ins, ctx), depth + 1, stack + (fn.name,))
        return out
    def kernel(s, g):
        d = g.dem or ''
        m = re.search(r'\bsimd::(simdMemCpyAligned|simdMemCpy|simdReverse)<(.*?)>\(', d)
        if m:
            return m.group(1), m.group(2).replace('_object*', 'PyObject*').replace('_object *', 'PyObject*')
        if re.match(r'(void )?(fast_memcpy|fastMemcpy)\w*\(', d) or g.dname.startswith('fast_memcpy'):
            return 'fast_memcpy', None
        return None
    def add(s, key, fn, ins, text, detail=''):
        site = s.p.where(ins.loc) if ins is not None else '%s:%d' % (fn.file.split('/pyfastutil/')[-1], fn.line)
        s.r.add(key, site, '%s: %s' % (fn.dname, text), detail)
    def role(s, root, py, sl, f, ins, ctx, what, op, want):
        """operand op must come from argument `want`"""
        ls = sl.of(f, op, ctx)
        s.r.count('operands')
        args = {l[1] for l in ls if isinstance(l, tuple) and l[0] == 'arg'}
        if want in args or '?' in ls or any(isinstance(l, tuple) and l[0] in ('local', 'op', 'glob', 'field') or l in ('self', 'vec', 'nargs', 'tuple') for l in ls):
            if args == {want} and ls == {('arg', want)}:
                s.r.count('operands traced to the documented argument')
                return True
            return None
        if not args:
            return None
        s.add('role|%s|%s' % (py, what), root, ins, 'the %s of the operation is taken from argument %s, "%s" documents it as argument %d' % (what, ' or '.join(str(a + 1) for a in sorted(args)), py, want + 1))
        return False
    def run(s):
        p = s.p
        partner = {}
        for n, rs in sorted(p.roots().items()):
            fn = p.funcs[n]
            for r in rs:
                if r['kind'] != 'method' or not re.search(r'(SIMD|Unsafe)_methods', r.get('table') or ''):
                    continue
                spec = by_name(r['pyname'])
                if spec is None:
                    s.r.count('methods without an operand role')
                    continue
                s.r.count('methods')
                s.r.sample('"%s" (%s): %s' % (r['pyname'], fn.dname, spec))
                s.method(fn, r['pyname'], r['flags'], spec, partner)
        a, b = partner.get('aligned alloc'), partner.get('aligned free')
        if a and b:
            s.r.count('obligations')
            fam = {'_aligned_malloc': '_aligned_free', '_mm_malloc': '_mm_free'}
            for x in sorted(a[0]):
                if fam.get(x, 'free') not in b[0] and not (fam.get(x) == '_mm_free' and 'free' in b[0]):
                    s.add('pair|aligned', b[1], b[2], 'releases with %s what aligned_malloc allocates with %s' % (', '.join(sorted(b[0])), x))
    def method(s, fn, py, flags, spec, partner):
        p = s.p
        sl = Slice(p, fn, flags)
        calls = s.calls(fn)
        name = lambda i: i.x.get('f') or ''
        kind, roles = spec[0], spec[1]
        seen = 0
        def check(f, ins, ctx, m):
            for what, pos in m.items():
                s.r.count('obligations')
                s.role(fn, py, sl, f, ins, ctx, what, ins.ops[pos], roles[what])
        if kind in ('copy', 'write', 'copyT', 'callbuf', 'reverseT'):
            for f, ins, ctx in calls:
                g = p.funcs.get(name(ins))
                k = s.kernel(g) if g is not None and g.bbs else None
                if kind in ('copyT', 'reverseT'):
                    if k is None or k[0] == 'fast_memcpy':
                        continue
                    seen += 1
                    rev = k[0] == 'simdReverse'
                    s.r.count('obligations', 2)
                    if rev != (kind == 'reverseT'):
                        s.add('op|%s' % py, fn, ins, '"%s" performs %s' % (py, k[0]))
                        continue
                    if kind == 'copyT' and k[0] == 'simdMemCpyAligned' and not spec[3]:
                        s.add('op|%s' % py, fn, ins, '"%s" makes no promise about alignment but performs %s' % (py, k[0]))
                    want = TYPES.get(spec[2])
                    if want is None and spec[2].endswith('Ptr'):
                        want = 'pointer'
                    if want is not None:
                        have = k[1].strip()
                        sz = 8 if have.endswith('*') else SIZE.get(have)
                        wz = 8 if want == 'pointer' else SIZE[want]
                        if sz is not None and sz != wz:
                            s.add('type|%s' % py, fn, ins, '"%s" works on elements of type %s (%d bytes), its name says %s (%d bytes)' % (py, have, sz, want, wz))
                    if kind == 'copyT':
                        check(f, ins, ctx, dict(src=0, dst=1, size=2))
                    else:
                        check(f, ins, ctx, dict(addr=0, size=1))
                elif k and k[0] == 'fast_memcpy' or MEM.match(name(ins)):
                    d = sl.of(f, ins.ops[0], ctx)
                    q = sl.of(f, ins.ops[1], ctx)
                    if kind == 'callbuf':
                        if any(isinstance(l, tuple) and l[0] == 'arg' for l in d):
                            seen += 1
                            check(f, ins, ctx, dict(dst=0, size=2))
                        continue
                    if not any(isinstance(l, tuple) and l[0] == 'arg' for l in d | q) or any(isinstance(l, tuple) and l[0] == 'local' for l in d | q):
                        continue
                    seen += 1
                    check(f, ins, ctx, dict(dst=0, src=1, size=2))
                elif k:     # typed copies used for an untyped one
                    if k[0] == 'simdReverse':
                        s.add('op|%s' % py, fn, ins, '"%s" performs %s' % (py, k[0]))
                        continue
                    seen += 1
                    check(f, ins, ctx, dict(src=0, dst=1, size=2))
            if kind == 'callbuf':
                for f, ins, ctx in calls:
                    if 'ind' in ins.x:
                        s.func(fn, py, sl, f, ins, ctx)
        elif kind == 'fill':
            for f, ins, ctx in calls:
                if re.match(r'^(llvm\.memset|memset$)', name(ins)):
                    d = sl.of(f, ins.ops[0], ctx)
                    if any(isinstance(l, tuple) and l[0] == 'local' for l in d):
                        continue
                    seen += 1
                    check(f, ins, ctx, dict(dst=0, val=1, size=2))
        elif kind == 'alloc':
            ops = set()
            for f, ins, ctx in calls:
                if name(ins) in ALLOC:
                    fam, pos = ALLOC[name(ins)]
                    seen += 1
                    ops.add(name(ins))
                    if fam != spec[2] and (fam == 'aligned') != (spec[2] == 'aligned'):
                        s.r.count('obligations')
                        s.add('op|%s' % py, fn, ins, '"%s" allocates with %s' % (py, name(ins)))
                        continue
                    if name(ins) == 'calloc':        # the product counts
                        a, b = (sl.of(f, o, ctx) for o in ins.ops[:2])
                        s.r.count('obligations')
                        if a == b and len(a) == 1 and isinstance(next(iter(a)), tuple) and next(iter(a))[0] == 'arg':
                            s.add('role|%s|size' % py, fn, ins, 'number and size are both taken from argument %d' % (next(iter(a))[1] + 1))
                    else:
                        check(f, ins, ctx, {k: v for k, v in pos.items() if k in roles})
            if spec[2] == 'aligned' and ops:
                partner['aligned alloc'] = (ops, fn, None)
            other = [name(i) for _, i, _ in calls]
            if spec[2] == 'realloc' and ops and 'realloc' not in ops and not any(MEM.match(x) or 'memcpy' in x.lower() or 'memmove' in x.lower() for x in other) and not s.loops(fn, calls):
                s.add('op|%s' % py, fn, None, '"%s" allocates anew without keeping the contents' % py)
            if spec[2] == 'calloc' and ops and 'calloc' not in ops and not any('memset' in x.lower() or 'fill' in x.lower() for x in other) and not s.loops(fn, calls):
                s.add('op|%s' % py, fn, None, '"%s" returns memory that is not cleared' % py)
            if seen:
                s.returned(fn, py, sl, ops)
        elif kind == 'free':
            ops, at = set(), None
            for f, ins, ctx in calls:
                if name(ins) in FREE and sl.of(f, ins.ops[0], ctx) & {('arg', 0)}:
                    seen += 1
                    ops.add(name(ins))
                    at = ins
                    s.r.count('obligations')
                    if spec[2] == 'malloc' and name(ins) not in ('free',):
                        s.add('op|%s' % py, fn, ins, '"%s" releases what malloc, calloc or realloc made with %s' % (py, name(ins)))
            if spec[2] == 'aligned' and ops:
                partner['aligned free'] = (ops, fn, at)
        elif kind == 'read':
            for f, ins, ctx in calls:
                if name(ins) == 'PyBytes_FromStringAndSize' and ins.ops[0] != 'null':
                    seen += 1
                    check(f, ins, ctx, dict(addr=0, size=1))
                elif MEM.match(name(ins)) or (p.funcs.get(name(ins)) is not None and p.funcs[name(ins)].bbs and (s.kernel(p.funcs[name(ins)]) or ('',))[0] == 'fast_memcpy'):
                    if sl.of(f, ins.ops[1], ctx) & {('arg', 0), ('arg', 1)}:
                        seen += 1
                        check(f, ins, ctx, dict(addr=1, size=2))
        elif kind == 'call':
            for f, ins, ctx in calls:
                if 'ind' in ins.x:
                    seen += 1
                    s.func(fn, py, sl, f, ins, ctx)
                    s.r.count('obligations')
                    if ins.ty != spec[2] and not (spec[2] == 'void'):
                        s.add('result|%s' % py, fn, ins, '"%s" calls the function as one that returns %s' % (py, {'void': 'nothing'}.get(ins.ty, ins.ty)))
            if seen and spec[2] != 'void':
                s.returned(fn, py, sl, {'call'})
        elif kind == 'same':
            seen += 1
            s.returned_arg(fn, py, sl)
        elif kind == 'count':
            seen += 1
        elif kind == 'ref':
            ups = [(s.refop(ins), ins) for f, ins, ctx in calls if s.refop(ins) and sl.of(f, ins.ops[0], ctx) == {('arg', 0)}]
            seen += len(ups)
            if ups:
                s.r.count('obligations')
                if all(k == -spec[2] for k, _ in ups):
                    s.add('op|%s' % py, fn, ups[0][1], '"%s" %s its argument' % (py, 'releases a reference of' if spec[2] > 0 else 'takes a reference of'))
        elif kind in ('fputs', 'fgets'):
            for f, ins, ctx in calls:
                if name(ins) == kind:
                    seen += 1
                    if kind == 'fputs':
                        check(f, ins, ctx, dict(text=0))
                    else:
                        check(f, ins, ctx, dict(size=1))
                    s.r.count('obligations')
                    st = sl.of(f, ins.ops[-1], ctx)
                    want = {'fputs': 'stdout', 'fgets': 'stdin'}[kind]
                    if st and all(isinstance(l, tuple) and l[0] == 'glob' for l in st) and st != {('glob', want)}:
                        s.add('stream|%s' % py, fn, ins, '"%s" uses %s instead of %s' % (py, ', '.join(sorted(l[1] for l in st)), want))
        elif kind == 'lanes':
            seen = s.lanes(fn, py, spec)
        if not seen:
            s.r.notes.append('%s (%s): the operation is not recognised, not judged' % (py, fn.dname))
    def loops(s, fn, calls):
        fs = {fn.name} | {i.x.get('f') for _, i, _ in calls}
        return any(s.p.funcs[n].loops() for n in fs if n in s.p.funcs and s.p.funcs[n].bbs)
    def refop(s, ins):
        m = re.search(r'Py_X?(INCREF|DECREF|IncRef|DecRef)', ins.x.get('f') or '')
        return 0 if not m else 1 if m.group(1).lower() == 'incref' else -1
    def func(s, fn, py, sl, f, ins, ctx):
        s.r.count('obligations')
        s.role(fn, py, sl, f, ins, ctx, 'function', ins.x['ind'], 0)
    def rets(s, fn):
        for ins in fn.instrs():
            if ins.op == 'ret' and ins.ops:
                yield ins
    def returned(s, fn, py, sl, ops):
        """the successful result is made from the result of the operation"""
        s.r.count('obligations')
        ls = set()
        for ins in s.rets(fn):
            ls |= sl.of(fn, ins.ops[0], None)
        ls = {l for l in ls if l != ('glob', '_Py_NoneStruct')}
        if '?' in ls or any(isinstance(l, tuple) and l[0] == 'op' and (l[1] in ops or l[1] not in ALLOC and l[1] != 'PyErr_NoMemory') for l in ls):
            return
        s.add('return|%s' % py, fn, None, 'the result of "%s" does not come from %s' % (py, 'the called function' if ops == {'call'} else ', '.join(sorted(ops))),
              'it comes from %s' % ', '.join(sorted(map(str, ls))) if ls else 'it is a constant')
    def returned_arg(s, fn, py, sl):
        s.r.count('obligations')
        ls = set()
        for ins in s.rets(fn):
            ls |= sl.of(fn, ins.ops[0], None)
        if ls & {'?'} or ('arg', 0) in ls or any(isinstance(l, tuple) and l[0] == 'op' for l in ls):
            return
        s.add('return|%s' % py, fn, None, 'the result of "%s" does not come from its argument' % py, 'it comes from %s' % ', '.join(sorted(map(str, ls))) if ls else 'it is a constant')
    # ---- lanes
    def affine(s, f, op, depth=0):
        """{phi or None: coefficient} with None for the constant; None: not affine"""
        if isinstance(op, str) and op.startswith('c:'):
            return {None: int(op[2:])}
        d = f.defs.get(op) if isinstance(op, str) else None
        if d is None or depth > 10:
            return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            return s.affine(f, d.ops[0], depth + 1)
        if d.op in ('add', 'sub'):
            a, b = s.affine(f, d.ops[0], depth + 1), s.affine(f, d.ops[1], depth + 1)
            if a is None or b is None:
                return None
            g = 1 if d.op == 'add' else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + g * v
            return {k: v for k, v in r.items() if v or k is None}
        if d.op == 'mul' and isinstance(d.ops[1], str) and d.ops[1].startswith('c:'):
            a = s.affine(f, d.ops[0], depth + 1)
            return None if a is None else {k: v * int(d.ops[1][2:]) for k, v in a.items()}
        if d.op == 'xor' and isinstance(d.ops[1], str) and d.ops[1] == 'c:-1':
            a = s.affine(f, d.ops[0], depth + 1)
            return None if a is None else {**{k: -v for k, v in a.items() if k is not None}, None: -a.get(None, 0) - 1}
        if d.op == 'phi':
            return {op: 1}
        return None
    def bytes_of(s, f, op):
        """(base, affine byte offset)"""
        r = {None: 0}
        while isinstance(op, str) and op in f.defs and f.defs[op].op in ('getelementptr', 'bitcast'):
            g = f.defs[op]
            if g.op == 'getelementptr':
                if 'off' in g.x:
                    r[None] += g.x['off']
                else:
                    m = re.match(r'^\[(\d+) x (.+)\]$', g.x.get('sty') or '')
                    idx = g.ops[1:]
                    if m and len(idx) == 2 and idx[0] == 'c:0':
                        w = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}.get(m.group(2))
                    elif len(idx) == 1:
                        w = g.x.get('esz')
                    else:
                        return None
                    a = s.affine(f, idx[-1])
                    if a is None or w is None:
                        return None
                    for k, v in a.items():
                        r[k] = r.get(k, 0) + v * w
            op = g.ops[0]
        return op, {k: v for k, v in r.items() if v or k is None}
    def lanes(s, fn, py, spec):
        bits, w = spec[1], spec[2]
        lanes, size = bits // w, w // 8
        seen = 0
        for f in [fn] + [s.p.funcs[i.x['f']] for i in fn.instrs() if i.op in ('call', 'invoke') and (i.x.get('f') or '') in s.p.funcs and s.p.funcs[i.x['f']].bbs]:
            if f.name == fn.name:
                vec = '%1'
            else:
                cs = [i for i in fn.instrs() if i.op in ('call', 'invoke') and i.x.get('f') == f.name]
                ps = {k for i in cs for k, x in enumerate(i.ops) if x == '%1'}
                if len(ps) != 1:
                    continue
                vec = '%%%d' % ps.pop()
            for ins in f.instrs():
                if ins.op != 'store' or not re.match(r'^i\d+$', ins.x.get('vty') or ''):
                    continue
                v = ins.ops[0]
                while v in f.defs and f.defs[v].op in ('trunc', 'sext', 'zext', 'freeze'):
                    v = f.defs[v].ops[0]
                c = f.defs.get(v)
                if c is None or c.op not in ('call', 'invoke') or not CONV.match(c.x.get('f') or ''):
                    continue
                l = f.defs.get(c.ops[0])
                if l is None or l.op != 'load':
                    continue
                src, dst = s.bytes_of(f, l.ops[0]), s.bytes_of(f, ins.ops[1])
                if src is None or dst is None or src[0] != vec or src[1] == {None: 0}:
                    continue
                seen += 1
                s.r.count('obligations', 2)
                if ins.x['vty'] != 'i%d' % w:
                    s.add('lane|%s' % py, fn, ins, '"%s" writes lanes of %s bits, its name says %d' % (py, ins.x['vty'][1:], w))
                    continue
                # argument number a(i), lane number b(i): a + b == lanes
                if any(x % 8 for x in src[1].values()) or any(x % size for x in dst[1].values()):
                    continue
                t = {}
                for k, x in src[1].items():
                    t[k] = t.get(k, 0) + x // 8
                for k, x in dst[1].items():
                    t[k] = t.get(k, 0) + x // size
                t = {k: x for k, x in t.items() if x}
                if set(t) - {None}:
                    if len(set(t) | set(src[1]) | set(dst[1])) <= 2:
                        s.add('lane|%s' % py, fn, ins, '"%s" does not write the lanes in the order of its parameters, highest lane first' % py)
                    continue
                if t.get(None, 0) != lanes:
                    s.add('lane|%s' % py, fn, ins, '"%s" writes argument %d + i to lane %d - i' % (py, 1, t.get(None, 0) - 1), 'the vector has %d lanes, highest first' % lanes)
                ph = [k for k in src[1] if k is not None]
                if ph:
                    s.trip(fn, f, ins, ph[0], lanes, py)
        if seen:
            for f, ins, ctx in s.calls(fn):
                if MEM.match(ins.x.get('f') or '') and ins.ops[2].startswith('c:'):
                    s.r.count('obligations')
                    if int(ins.ops[2][2:]) != bits // 8 and int(ins.ops[2][2:]) > size:
                        s.add('lane|%s' % py, fn, ins, '"%s" copies %s bytes of a vector of %d' % (py, ins.ops[2][2:], bits // 8))
        return seen
    def trip(s, fn, f, ins, phi, lanes, py):
        """number of iterations of a loop counted by phi, when it is a plain one"""
        d = f.defs[phi]
        ini = [v for v in d.ops[0::2] if v.startswith('c:')]
        stp = [f.defs[v] for v in d.ops[0::2] if v in f.defs]
        if len(ini) != 1 or len(stp) != 1 or stp[0].op != 'add' or stp[0].ops[0] != phi or not stp[0].ops[1].startswith('c:'):
            return
        a, b = int(ini[0][2:]), int(stp[0].ops[1][2:])
        cmps = [i for i in f.instrs() if i.op == 'icmp' and i.ops[0] == phi and isinstance(i.ops[1], str) and i.ops[1].startswith('c:')]
        if len(cmps) != 1 or b != 1 or cmps[0].x['pred'] not in ('ult', 'slt', 'ne', 'ule', 'sle'):
            return
        n = int(cmps[0].ops[1][2:]) - a + (1 if cmps[0].x['pred'] in ('ule', 'sle') else 0)
        s.r.count('obligations')
        if n != lanes:
            s.add('lane|%s' % py, fn, cmps[0], '"%s" writes %d of %d lanes' % (py, n, lanes))

def run(prog, tier):
    r = Result('C27')
    Routing(prog, r).run()
    r.assume = ['the copy and reverse kernels do what C22 states for their parameters', 'the called C library functions behave as documented']
    return [r]
