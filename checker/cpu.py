"""C13: code for an instruction-set extension is reached only where the CPU (and the operating system) have it.

1. What a feature flag guarantees: every path of its detection function that can make it true is enumerated over
   bit-level facts (CPUID register bits known to be one, highest CPUID leaf, XCR0 bits); the guarantee of the flag is
   what all those paths have in common.  XGETBV itself needs OSXSAVE to be established, leaf 7 needs the highest-leaf test.
2. Where extension code is reached: conditional constant propagation through the whole call graph for every
   combination of the flags; each reachable call of an intrinsic (or operation on a wide vector type) needs features
   that the flags true in that combination guarantee."""
import re, os, glob
from common import Result

# ------------------------------------------------------------------ features
HEADERS = {'xmmintrin': (), 'emmintrin': (), 'mmintrin': (), 'pmmintrin': ('SSE3',), 'tmmintrin': ('SSSE3',), 'smmintrin': ('SSE4.1',), 'nmmintrin': ('SSE4.2',), 'crc32intrin': ('SSE4.2',),
           'popcntintrin': ('POPCNT',), 'avxintrin': ('AVX',), 'avx2intrin': ('AVX2',), 'fmaintrin': ('FMA',), 'f16cintrin': ('F16C',), 'bmiintrin': ('BMI',), 'bmi2intrin': ('BMI2',),
           'lzcntintrin': ('LZCNT',), 'avx512fintrin': ('AVX512F',), 'avx512bwintrin': ('AVX512BW',), 'avx512dqintrin': ('AVX512DQ',), 'avx512cdintrin': ('AVX512CD',),
           'avx512vlintrin': ('AVX512VL',), 'avx512vlbwintrin': ('AVX512VL', 'AVX512BW'), 'avx512vldqintrin': ('AVX512VL', 'AVX512DQ'), 'avx512vlcdintrin': ('AVX512VL', 'AVX512CD'),
           'avx512vbmiintrin': ('AVX512VBMI',), 'avx512vbmivlintrin': ('AVX512VBMI', 'AVX512VL'), 'avx512vbmi2intrin': ('AVX512VBMI2',), 'avx512vlvbmi2intrin': ('AVX512VBMI2', 'AVX512VL'),
           'avx512ifmaintrin': ('AVX512IFMA',), 'avx512ifmavlintrin': ('AVX512IFMA', 'AVX512VL'), 'avx512vnniintrin': ('AVX512VNNI',), 'avx512vlvnniintrin': ('AVX512VNNI', 'AVX512VL'),
           'avx512bitalgintrin': ('AVX512BITALG',), 'avx512vlbitalgintrin': ('AVX512BITALG', 'AVX512VL'), 'avx512vpopcntdqintrin': ('AVX512VPOPCNTDQ',), 'avx512vpopcntdqvlintrin': ('AVX512VPOPCNTDQ', 'AVX512VL')}
UP = {'SSSE3': 'SSE3', 'SSE4.1': 'SSSE3', 'SSE4.2': 'SSE4.1', 'AVX': 'SSE4.2', 'AVX2': 'AVX', 'FMA': 'AVX', 'F16C': 'AVX', 'AVX512F': 'AVX2', 'ZMM': 'YMM'}
# (leaf, register) -> {bit: feature}
BITS = {(1, 0, 'ecx'): {0: 'SSE3', 9: 'SSSE3', 19: 'SSE4.1', 20: 'SSE4.2', 23: 'POPCNT', 28: 'AVX', 12: 'FMA', 29: 'F16C', 27: 'OSXSAVE'},
        (7, 0, 'ebx'): {3: 'BMI', 5: 'AVX2', 8: 'BMI2', 16: 'AVX512F', 17: 'AVX512DQ', 21: 'AVX512IFMA', 28: 'AVX512CD', 30: 'AVX512BW', 31: 'AVX512VL'},
        (7, 0, 'ecx'): {1: 'AVX512VBMI', 6: 'AVX512VBMI2', 11: 'AVX512VNNI', 12: 'AVX512BITALG', 14: 'AVX512VPOPCNTDQ'},
        (0x80000001, 0, 'ecx'): {5: 'LZCNT'}}

def closure(fs):
    out = set()
    for f in fs:
        while f and f not in out:
            out.add(f)
            f = 'AVX512F' if f.startswith('AVX512') and f != 'AVX512F' else UP.get(f)
    return out

def intrinsics():
    m = {}
    for d in sorted(glob.glob('/usr/lib/llvm-18/lib/clang/*/include')):
        for h, fs in HEADERS.items():
            p = os.path.join(d, h + '.h')
            if os.path.exists(p):
                for x in re.findall(r'\b(_mm\w*)\s*\(', open(p, encoding='latin-1').read()):
                    m.setdefault(x, {})[h] = fs
    out = {}
    for x, hs in m.items():
        # uses inside other headers mention a name too: its own header is the one of the smallest requirement
        out[x] = min(hs.values(), key=lambda f: (len(closure(f)), f))
    return out

def wide(t):
    m = re.match(r'<(\d+) x (i\d+|float|double|ptr)>$', t or '')
    if not m:
        return None
    e = m.group(2)
    b = 64 if e in ('double', 'ptr') else 32 if e == 'float' else int(e[1:])
    return int(m.group(1)) * b, e

def needs(prog, ins, names):
    """(what, features) of an instruction, or None"""
    fs, what = set(), None
    if ins.op == 'call':
        f = ins.x.get('f', '')
        m = re.search(r'(_mm\w*?)(?:Dv|PK|Pv|P|i|l|x|f|d|e|s|t|c|h|j|m|y|v|$|\.)', f) if f.startswith('_ZL') else None
        if f.startswith('_ZL'):
            m = re.match(r'_ZL(\d+)(_mm\w*)', f)
            if m:
                n = m.group(2)[:int(m.group(1))]
                if n in names:
                    what, fs = n, set(names[n])
        elif f.startswith('llvm.x86.'):
            what = f
            if f.startswith('llvm.x86.avx512'):
                fs = {'AVX512F'}
            elif f.startswith('llvm.x86.avx2'):
                fs = {'AVX2'}
            elif f.startswith('llvm.x86.avx.'):
                fs = {'AVX'}
            elif f.startswith('llvm.x86.ssse3'):
                fs = {'SSSE3'}
            elif f.startswith('llvm.x86.sse41'):
                fs = {'SSE4.1'}
            elif f.startswith('llvm.x86.sse42'):
                fs = {'SSE4.2'}
    if not fs and ins.op in ('shufflevector', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'load', 'store', 'shl', 'lshr', 'ashr', 'icmp', 'select') and not what:
        w = wide(ins.x.get('vty') if ins.op == 'store' else ins.ty)
        if w and w[0] > 256:
            what, fs = '%s of %d-bit vectors' % (ins.op, w[0]), {'AVX512BW' if w[1] in ('i8', 'i16') and ins.op not in ('load', 'store') else 'AVX512F'}
        elif w and w[0] > 128:
            what, fs = '%s of %d-bit vectors' % (ins.op, w[0]), {'AVX'}
    if not fs:
        return None
    c = closure(fs)
    if any(f.startswith('AVX512') for f in c):
        fs = fs | {'ZMM'}
    elif c & {'AVX', 'AVX2', 'FMA', 'F16C'}:
        fs = fs | {'YMM'}
    return what, frozenset(fs)

# ------------------------------------------------------------------ detection functions
class TooMany(Exception):
    pass

class Path:
    __slots__ = ('env', 'conds', 'visits')
    def copy(s):
        n = Path()
        n.env, n.conds, n.visits = dict(s.env), list(s.conds), dict(s.visits)
        return n

REG = ('eax', 'ebx', 'ecx', 'edx')
AT_LEAST_1 = ('reg', 0, 0, 'eax')

class Detect:
    def __init__(s, prog):
        s.p = prog
        s.memo = {}
        s.xget = {}       # instruction place -> ok
        s.paths = 0

    def cpu(s, fn, seen=()):
        for i in fn.instrs():
            if i.op == 'call':
                if 'cpuid' in i.x.get('asm', '') or 'xgetbv' in i.x.get('asm', '') or i.x.get('f', '').startswith('llvm.x86.xgetbv'):
                    return True
                g = s.p.funcs.get(i.x.get('f'))
                if g and g.name not in seen and s.cpu(g, tuple(seen) + (fn.name,)):
                    return True
        return False

    def v(s, pa, o):
        if o[0] == '%':
            return pa.env.get(o, ('u',))
        if o.startswith('c:'):
            return ('k', int(o[2:]))
        if o in ('undef', 'poison'):
            return ('undef',)
        if o == 'true' or o == 'false':
            return ('k', int(o == 'true'))
        return ('u',)

    def form(s, x):
        """truth of an i1 value"""
        if x[0] == 'f':
            return x[1]
        if x[0] == 'k':
            return ('c', bool(x[1] & 1))
        if x[0] == 'bits' and x[2] and x[2] & (x[2] - 1) == 0 and x[2] >> x[3] == 1:
            return ('eq', x[1], x[2], x[2])
        if x[0] == 'undef':
            return ('undef',)
        return ('u',)

    def bits(s, x):
        if x[0] in ('reg', 'xcr'):
            return ('bits', x, 2 ** 64 - 1 if x[0] == 'xcr' else 2 ** 32 - 1, 0)
        return x if x[0] == 'bits' else None

    def step(s, pa, ins):
        op, o = ins.op, ins.ops
        me = '%%%d' % ins.id
        def put(v):
            pa.env[me] = v
            return [pa]
        if op == 'call':
            a = ins.x.get('asm')
            f = ins.x.get('f', '')
            if a is not None and 'cpuid' in a:
                cons = ins.x.get('cons', '').split(',')
                regs = [c for c in cons if c.startswith('=')]
                names = []
                for c in regs:
                    names.append({'={ax}': 'eax', '={bx}': 'ebx', '={cx}': 'ecx', '={dx}': 'edx'}.get(c))
                left = [r for r in REG if r not in names]
                names = [n or (left.pop(0) if left else None) for n in names]
                vs = [s.v(pa, x) for x in o]
                leaf = vs[0][1] if vs and vs[0][0] == 'k' else None
                sub = (vs[1][1] if vs[1][0] == 'k' else None) if len(vs) > 1 else 0
                return put(('asm', [('reg', leaf % 2 ** 32, sub, n) if leaf is not None and n and sub is not None else ('u',) for n in names]))
            if f.startswith('llvm.x86.xgetbv') or a is not None and 'xgetbv' in a:
                ones, top, unk = s.facts(pa.conds)
                ok = bool(ones.get(('reg', 1, 0, 'ecx'), 0) >> 27 & 1) or unk
                w = ins
                s.xget[id(ins)] = (ins, s.xget.get(id(ins), (ins, True))[1] and ok)
                k = s.v(pa, o[0]) if o else ('k', 0)
                if a is not None:
                    return put(('asm', [('reg', 'xcr', 0, 'eax'), ('u',)]))
                return put(('xcr',) if k == ('k', 0) else ('u',))
            g = s.p.funcs.get(f)
            if g:
                out = []
                cond = s.facts(pa.conds)
                for conds, r in s.run(g, [s.v(pa, x) for x in o], pa.conds):
                    n = pa.copy()
                    n.conds = conds
                    if ins.id >= 0:
                        n.env[me] = r
                    out.append(n)
                return out
            return put(('u',)) if ins.id >= 0 else [pa]
        if op == 'extractvalue':
            x = s.v(pa, o[0])
            return put(x[1][ins.x['idx'][0]] if x[0] == 'asm' and ins.x['idx'][0] < len(x[1]) else ('u',))
        if op in ('zext', 'trunc', 'freeze', 'sext', 'bitcast'):
            x = s.v(pa, o[0])
            if op == 'trunc' and x[0] in ('reg', 'xcr', 'bits') and ins.ty != 'i1':
                b = s.bits(x)
                w = int(ins.ty[1:])
                return put(('bits', b[1], b[2] & ((1 << w) - 1) << b[3], b[3]))
            if op == 'trunc' and ins.ty == 'i1' and x[0] in ('reg', 'xcr', 'bits'):
                b = s.bits(x)
                m = b[2] & 1 << b[3]
                return put(('f', ('eq', b[1], m, m) if m else ('c', False)))
            if op == 'trunc' and ins.ty == 'i1' and x[0] == 'k':
                return put(('k', x[1] & 1))
            return put(x)
        if op == 'and' or op == 'or' or op == 'xor':
            a, b = s.v(pa, o[0]), s.v(pa, o[1])
            if ins.ty == 'i1' or a[0] == 'f' and (b[0] in ('f', 'k')) or b[0] == 'f' and a[0] == 'k':
                f, g = s.form(a), s.form(b)
                if op == 'xor':
                    if g[0] == 'c':
                        return put(('f', ('not', f) if g[1] else f))
                    return put(('f', ('u',)))
                return put(('f', (op, f, g)))
            if op == 'and':
                if a[0] == 'k':
                    a, b = b, a
                x = s.bits(a)
                if b[0] == 'k' and x:
                    m = b[1] % 2 ** 64
                    return put(('bits', x[1], x[2] & (m << x[3]), x[3]))
                if a[0] == b[0] == 'k':
                    return put(('k', a[1] & b[1]))
                if a[0] == 'undef':
                    return put(('undef',))
                # bits of two registers and-ed: true only where both are
                y = s.bits(b)
                return put(('u',))
            if a[0] == b[0] == 'k' and op == 'or':
                return put(('k', a[1] | b[1]))
            return put(('undef',) if 'undef' in (a[0], b[0]) else ('u',))
        if op in ('lshr', 'ashr'):
            a, b = s.v(pa, o[0]), s.v(pa, o[1])
            x = s.bits(a)
            if x and b[0] == 'k':
                k = x[3] + b[1]
                return put(('bits', x[1], x[2] >> k << k, k))
            return put(('undef',) if a[0] == 'undef' else ('u',))
        if op == 'shl':
            a, b = s.v(pa, o[0]), s.v(pa, o[1])
            if a[0] == b[0] == 'k':
                return put(('k', a[1] << b[1]))
            return put(('u',))
        if op == 'icmp':
            return put(('f', s.cmp(ins.x['pred'], s.v(pa, o[0]), s.v(pa, o[1]))))
        if op == 'select':
            f = s.form(s.v(pa, o[0]))
            out = []
            for t in (True, False):
                if f == ('c', not t):
                    continue
                n = pa.copy()
                if f[0] != 'c':
                    n.conds.append((f, t))
                n.env[me] = s.v(pa, o[1 if t else 2])
                out.append(n)
            return out
        if ins.id >= 0:
            return put(('u',))
        return [pa]

    def cmp(s, pred, a, b):
        if a[0] == 'k' and b[0] != 'k':
            a, b = b, a
            pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
        if a[0] == 'undef' or b[0] == 'undef':
            return ('undef',)
        if b[0] != 'k':
            return ('u',)
        k = b[1]
        if a[0] == 'k':
            d = {'eq': a[1] == k, 'ne': a[1] != k, 'ult': a[1] < k, 'ule': a[1] <= k, 'ugt': a[1] > k, 'uge': a[1] >= k, 'slt': a[1] < k, 'sle': a[1] <= k, 'sgt': a[1] > k, 'sge': a[1] >= k}
            return ('c', d[pred])
        if a[0] == 'f':
            if pred in ('eq', 'ne') and k in (0, 1, -1):
                return a[1] if bool(k) == (pred == 'eq') else ('not', a[1])
            return ('u',)
        if a == AT_LEAST_1:
            k %= 2 ** 32
            if pred in ('ult', 'slt'):
                return ('not', ('ge', k))
            if pred in ('uge', 'sge'):
                return ('ge', k)
            if pred in ('ugt', 'sgt'):
                return ('ge', k + 1)
            if pred in ('ule', 'sle'):
                return ('not', ('ge', k + 1))
            if k == 0:
                return ('not', ('ge', 1)) if pred == 'eq' else ('ge', 1)
            return ('u',)
        x = s.bits(a)
        if x and pred in ('eq', 'ne'):
            f = ('eq', x[1], x[2], (k << x[3]) % (2 ** 64 if x[1][0] == 'xcr' else 2 ** 32))
            return f if pred == 'eq' else ('not', f)
        if x and pred in ('ugt', 'sgt') and k == 0 and pred == 'ugt':
            return ('not', ('eq', x[1], x[2], 0))
        if x and pred == 'uge' and k == 1:
            return ('not', ('eq', x[1], x[2], 0))
        if x and pred == 'slt' and k == 0 and x[2] == 2 ** 32 - 1 and x[3] == 0:
            return ('eq', x[1], 1 << 31, 1 << 31)
        if x and pred == 'sgt' and k == -1 and x[2] == 2 ** 32 - 1 and x[3] == 0:
            return ('not', ('eq', x[1], 1 << 31, 1 << 31))
        return ('u',)

    # ---- facts of a conjunction: ({register: ones}, highest leaf at least, unknown condition seen)
    def fact1(s, f, t):
        k = f[0]
        if k == 'not':
            return s.fact1(f[1], not t)
        if k == 'c':
            return ({}, 0, False) if f[1] == t else None
        if k == 'ge':
            if t:
                return {}, f[1], False
            return None if f[1] <= 1 else ({}, 0, False)
        if k == 'eq':
            _, r, m, v = f
            if t:
                if v & ~m:
                    return None
                return {r: v}, 0, False
            if m and m & (m - 1) == 0 and v == 0:
                return {r: m}, 0, False
            return {}, 0, False
        if k in ('and', 'or'):
            a, b = s.fact1(f[1], t), s.fact1(f[2], t)
            if (k == 'and') == t:
                if a is None or b is None:
                    return None
                return {r: a[0].get(r, 0) | b[0].get(r, 0) for r in set(a[0]) | set(b[0])}, max(a[1], b[1]), a[2] or b[2]
            if a is None:
                return b
            if b is None:
                return a
            return {r: a[0].get(r, 0) & b[0].get(r, 0) for r in set(a[0]) & set(b[0])}, min(a[1], b[1]), a[2] or b[2]
        if k == 'undef':
            return {}, 0, False
        return {}, 0, True

    def facts(s, conds):
        ones, top, unk = {}, 1, False
        for f, t in conds:
            x = s.fact1(f, t)
            if x is None:
                return {}, 0, None       # infeasible
            for r, m in x[0].items():
                ones[r] = ones.get(r, 0) | m
            top = max(top, x[1])
            unk = unk or x[2]
        return ones, top, unk

    def run(s, fn, args=(), conds=()):
        """[(conditions, returned value)] of every path"""
        pa = Path()
        pa.env, pa.conds, pa.visits = {}, list(conds), {}
        for k, a in enumerate(args):
            pa.env['%%%d' % k] = a
        out = []
        work = [(0, None, pa)]
        while work:
            b, pred, pa = work.pop()
            s.paths += 1
            if s.paths > 20000:
                raise TooMany()
            pa.visits[b] = pa.visits.get(b, 0) + 1
            if pa.visits[b] > 3:
                raise TooMany()
            vals = []
            for i in fn.bbs[b]:
                if i.op == 'phi':
                    for k in range(0, len(i.ops), 2):
                        if i.ops[k + 1] == pred:
                            vals.append(('%%%d' % i.id, s.v(pa, i.ops[k])))
            pa.env.update(vals)
            ps = [pa]
            for i in fn.bbs[b][:-1]:
                if i.op != 'phi':
                    ps = [y for x in ps for y in s.step(x, i)]
            t = fn.bbs[b][-1]
            for x in ps:
                if s.facts(x.conds)[2] is None:
                    continue
                if t.op == 'ret':
                    out.append((x.conds, s.v(x, t.ops[0]) if t.ops else ('u',)))
                elif t.op == 'br' and len(t.ops) == 1:
                    work.append((t.ops[0], b, x))
                elif t.op == 'br':
                    f = s.form(s.v(x, t.ops[0]))
                    for tr in (True, False):
                        if f == ('c', not tr):
                            continue
                        n = x.copy()
                        if f[0] != 'c':
                            n.conds.append((f, tr))
                        if s.facts(n.conds)[2] is not None:
                            work.append((t.ops[1 if tr else 2], b, n))
                elif t.op == 'unreachable':
                    pass
                else:
                    raise TooMany()
        return out

    def guarantee(s, conds_vals):
        """(features common to all ways of being true, unknown)"""
        common, unk = None, False
        for conds, v in conds_vals:
            f = s.form(v)
            if f == ('c', False):
                continue
            ones, top, u = s.facts(list(conds) + [(f, True)])
            if u is None:
                continue
            fs = set()
            for r, m in ones.items():
                if r[0] == 'xcr' or r[1] == 'xcr':
                    if m & 6 == 6:
                        fs.add('YMM')
                    if m & 0xE6 == 0xE6:
                        fs.add('ZMM')
                    continue
                if r[1] > top and r[1] < 0x80000000:
                    continue             # the leaf may not exist
                for b, name in BITS.get(r[1:], {}).items():
                    if m >> b & 1:
                        fs.add(name)
            fs = closure(fs)
            if u:
                unk = True
            else:
                common = fs if common is None else common & fs
        return common, unk

def flags(prog, det):
    """{global: (features or None when unknown, place)} of the globals set from CPU detection"""
    out = {}
    def src(fn, o, depth=0):
        d = fn.defs.get(o)
        if d is None or depth > 4:
            return None
        if d.op in ('zext', 'trunc', 'freeze'):
            return src(fn, d.ops[0], depth + 1)
        return d
    for n, fn in prog.funcs.items():
        for i in fn.instrs():
            if i.op == 'store' and i.ops[1].startswith('@') and '+' not in i.ops[1]:
                d = src(fn, i.ops[0])
                if d is None:
                    continue
                g = prog.funcs.get(d.x.get('f')) if d.op == 'call' else None
                if g is None or not det.cpu(g):
                    continue
                try:
                    fs, unk = det.guarantee(det.run(g))
                except TooMany:
                    fs, unk = None, True
                old = out.get(i.ops[1])
                if unk:
                    fs = None
                elif fs is None:
                    fs = {'never'}
                out[i.ops[1]] = (fs, g, i) if old is None else (old[0] & fs if old[0] is not None and fs is not None else None, g, i)
    return out

def spot(prog, fn):
    import block
    return next((block.place(prog, i.loc) for i in fn.instrs() if i.loc), fn.dname)

def feature(name):
    """the feature a name speaks of (IS_SSE41_SUPPORTED, isAVX512Supported), or None"""
    m = re.match(r'(?:is|has|supports)?_?(sse3|ssse3|sse4_?1|sse4_?2|avx|avx2|avx_?512f?|avx_?512bw|avx_?512dq|avx_?512vl|fma|bmi2?|popcnt)_?(?:supported|available)?$', name, re.I)
    if not m:
        return None
    x = m.group(1).upper().replace('_', '')
    return {'SSE41': 'SSE4.1', 'SSE42': 'SSE4.2', 'AVX512': 'AVX512F'}.get(x, x)

# ------------------------------------------------------------------ reachability under flag values
T = 'T'

def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a[0] in ('nn', 'fn') and b[0] in ('nn', 'fn'):
        return ('nn',)
    return T

class Reach:
    """conditional constant propagation, whole program, for one assignment of the flags"""
    def __init__(s, prog, fns, consts, roots, tracked):
        s.p, s.fns, s.consts, s.roots, s.tracked = prog, fns, consts, roots, tracked
        s.args = {n: [T if n in roots else None] * len(prog.funcs[n].args) for n in fns}
        s.ret = {n: None for n in fns}
        s.gl = dict(tracked)
        s.live = set(r for r in roots if r in fns)
        s.blocks = {n: set() for n in fns}
        s.changed = True
        rounds = 0
        while s.changed:
            s.changed = False
            rounds += 1
            if rounds > 60:
                break
            for n in list(s.live):
                s.func(n)

    def func(s, n):
        fn = s.p.funcs[n]
        env = {'%%%d' % k: a for k, a in enumerate(s.args[n])}
        edges = set()
        blocks = {0}
        work = True
        rounds = 0
        while work:
            work = False
            rounds += 1
            if rounds > 80:
                break
            for b in sorted(blocks):
                for i in fn.bbs[b]:
                    if i.op in ('br', 'switch', 'invoke') or i.op == 'ret':
                        for t in s.term(fn, b, i, env):
                            if (b, t) not in edges:
                                edges.add((b, t))
                                work = True
                            if t not in blocks:
                                blocks.add(t)
                                work = True
                        if i.op == 'ret' and i.ops:
                            r = join(s.ret[n], s.v(env, i.ops[0]))
                            if r != s.ret[n]:
                                s.ret[n] = r
                                s.changed = True
                        if i.op != 'invoke':
                            continue
                    v = s.eval(fn, b, i, env, edges)
                    if i.id >= 0:
                        me = '%%%d' % i.id
                        r = v if i.op != 'phi' else v
                        r = join(env.get(me), r)
                        if r != env.get(me):
                            env[me] = r
                            work = True
        if blocks - s.blocks[n]:
            s.blocks[n] |= blocks
            s.changed = True

    def v(s, env, o):
        if not isinstance(o, str):
            return T
        if o[0] == '%':
            return env.get(o)
        if o.startswith('c:'):
            return ('k', int(o[2:]))
        if o == 'null':
            return ('k', 0)
        if o[0] == '@':
            return ('fn', o[1:])
        return T

    def term(s, fn, b, i, env):
        if i.op == 'ret':
            return []
        if i.op == 'br':
            if len(i.ops) == 1:
                return [i.ops[0]]
            c = s.v(env, i.ops[0])
            if c is None:
                return []
            if c != T and c[0] == 'k':
                return [i.ops[1 if c[1] & 1 else 2]]
            return [i.ops[1], i.ops[2]]
        if i.op == 'switch':
            c = s.v(env, i.ops[0])
            if c is None:
                return []
            cs = [(i.ops[k], i.ops[k + 1]) for k in range(2, len(i.ops), 2)]
            if c != T and c[0] == 'k':
                for l, t in cs:
                    if int(l[2:]) == c[1]:
                        return [t]
                return [i.ops[1]]
            return [i.ops[1]] + [t for _, t in cs]
        return [x for x in fn.succ(b)] if callable(getattr(fn, 'succ', None)) else list(fn.succ[b])

    def eval(s, fn, b, i, env, edges):
        op, o = i.op, i.ops
        if op == 'phi':
            r = None
            for k in range(0, len(o), 2):
                if (o[k + 1], b) in edges:
                    if o[k] in ('undef', 'poison'):
                        continue
                    r = join(r, s.v(env, o[k]))
            return r
        if op in ('call', 'invoke'):
            f = i.x.get('f')
            if f in s.fns:
                if f not in s.live:
                    s.live.add(f)
                    s.changed = True
                na = len(s.args[f])
                for k in range(min(na, len(o))):
                    r = join(s.args[f][k], s.v(env, o[k]))
                    if r != s.args[f][k]:
                        s.args[f][k] = r
                        s.changed = True
                return s.ret[f]
            if f and f.startswith('_Zn'):
                return ('nn',)
            return T
        if op == 'load':
            g = o[0]
            if g in s.consts:
                return ('k', s.consts[g])
            if g in s.gl:
                return s.gl[g]
            return T
        if op == 'store':
            if o[1] in s.gl:
                r = join(s.gl[o[1]], s.v(env, o[0]))
                if r != s.gl[o[1]]:
                    s.gl[o[1]] = r
                    s.changed = True
            return None
        vs = [s.v(env, x) for x in o if isinstance(x, str)]
        if op == 'select':
            c = vs[0]
            if c is None:
                return None
            if c != T and c[0] == 'k':
                return vs[1 if c[1] & 1 else 2]
            return join(vs[1], vs[2])
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            x = vs[0]
            if x is not None and x != T and x[0] == 'k' and op == 'trunc':
                return ('k', x[1] & ((1 << int(i.ty[1:])) - 1))
            if x is not None and x != T and x[0] == 'k' and op == 'zext' and x[1] < 0:
                return ('k', x[1] & ((1 << int(i.x['from'][1:])) - 1))
            if op in ('ptrtoint', 'inttoptr', 'bitcast') and x is not None and x != T and x[0] != 'k':
                return T
            return x
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'icmp') and len(vs) == 2:
            a, c = vs
            if op == 'and' and ('k', 0) in (a, c):
                return ('k', 0)
            if op == 'or' and i.ty == 'i1' and any(x not in (None, T) and x[0] == 'k' and x[1] & 1 for x in (a, c)):
                return ('k', 1)
            if a is None or c is None:
                return None
            if op == 'icmp' and i.x['pred'] in ('eq', 'ne'):
                for x, y in ((a, c), (c, a)):
                    if x != T and x[0] in ('nn', 'fn') and y == ('k', 0):
                        return ('k', int(i.x['pred'] == 'ne'))
            if a == T or c == T or a[0] != 'k' or c[0] != 'k':
                return T
            x, y = a[1], c[1]
            if op == 'icmp':
                p = i.x['pred']
                u = lambda z: z % 2 ** 64
                d = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': u(x) < u(y), 'ule': u(x) <= u(y), 'ugt': u(x) > u(y), 'uge': u(x) >= u(y)}
                return ('k', int(d[p]))
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << (y & 63)}[op]
            if i.ty == 'i1':
                r &= 1
            if abs(r) >= 2 ** 31:
                return T
            return ('k', r)
        return T

EXPL = ('(1) For every global flag set from CPU detection: all paths of its detection function over bit-level facts (CPUID bits, highest leaf, XCR0) - what every way of being true has in common is the '
        'guarantee of the flag; XGETBV only after OSXSAVE.  (2) For every combination of the flags: whole-program conditional constant propagation; every reachable intrinsic or wide vector operation needs only '
        'features guaranteed by flags that are true.  The feature of an intrinsic is that of the compiler header that defines it.')

def run(prog, tier):
    r = Result('C13')
    r.cov['explanation'] = EXPL
    r.assume += ['CPUID leaf 1 exists (x86-64)', 'AVX-512F implies AVX2, AVX2 implies AVX, AVX implies SSE4.2 and so on (architecture)',
                 'instructions the compiler itself selects are governed by the build flags, not by the source']
    names = intrinsics()
    det = Detect(prog)
    fl = flags(prog, det)
    short = lambda g: re.sub(r'^@(_ZN?\d*\w*?\d+)?(?=[A-Z]{2})', '', g).rstrip('E')
    nm = {g: (prog.globals.get(g[1:]) or {}).get('src') or g for g in fl}
    for g, (fs, f, i) in sorted(fl.items()):
        r.count('flags')
        r.sample('%s: guarantees %s' % (nm[g], 'not judged' if fs is None else ', '.join(sorted(fs)) or 'nothing'), 40)
        if fs is None:
            r.notes.append('%s: conditions of %s not recognised' % (nm[g], f.dname))
        x = feature(nm[g].split('::')[-1])
        if x:
            r.count('flags_by_name')
            if fs is not None and fs != {'never'} and x not in closure(fs):
                r.add('flag|%s' % x, spot(prog, f), '%s can be true where %s is not established (%s)' % (nm[g], x, f.dname))
    r.cov['detection_paths'] = det.paths
    for k, (ins, ok) in det.xget.items():
        r.count('xgetbv_sites')
        if not ok:
            r.add('xgetbv|%s' % prog.where(ins.loc), prog.where(ins.loc), 'XGETBV is executed without OSXSAVE (CPUID.1:ECX bit 27) being established')
    # sites
    sites = {}
    for n, fn in prog.funcs.items():
        for b, bb in enumerate(fn.bbs):
            for i in bb:
                q = needs(prog, i, names)
                if q:
                    sites.setdefault(n, []).append((b, i) + q)
    call = {n: {i.x.get('f') for i in fn.instrs() if i.op in ('call', 'invoke')} & set(prog.funcs) for n, fn in prog.funcs.items()}
    rel = set(sites)
    ch = True
    while ch:
        ch = False
        for n in prog.funcs:
            if n not in rel and call[n] & rel:
                rel.add(n)
                ch = True
    # the queries for a feature
    query = {}
    for n, l in prog.roots().items():
        for e in l:
            x = feature(e.get('pyname') or '') if e['kind'] == 'method' else None
            if x and re.match('is|has|supports', e['pyname']):
                query[n] = (x, e['pyname'])
    work = list(query)
    while work:
        n = work.pop()
        rel.add(n)
        work += [m for m in call[n] if m not in rel]
    byname = {feature(nm[g].split('::')[-1]): g for g in fl}
    called = set()
    for n in prog.funcs:
        called |= call[n]
    addr = set()
    for n, fn in prog.funcs.items():
        for i in fn.instrs():
            for k, o in enumerate(i.ops):
                if isinstance(o, str) and o.startswith('@') and o[1:] in prog.funcs:
                    addr.add(o[1:])
    def scan(v):
        if isinstance(v, str) and v.startswith('@') and v[1:] in prog.funcs:
            addr.add(v[1:])
        elif isinstance(v, (list, tuple)):
            for x in v:
                scan(x)
        elif isinstance(v, dict):
            for x in v.values():
                scan(x)
    for g, d in prog.globals.items():
        scan(d.get('init'))
    roots = {n for n in rel if n not in called or n in addr or n in prog.roots()}
    # globals that only these functions load and store
    tracked = {}
    bad = set(fl)
    for n, fn in prog.funcs.items():
        for i in fn.instrs():
            for k, o in enumerate(i.ops):
                if isinstance(o, str) and o.startswith('@') and o[1:] in prog.globals and not (i.op == 'load' or i.op == 'store' and k == 1):
                    bad.add(o)
                if isinstance(o, str) and o.startswith('@') and '+' in o:
                    bad.add(o.split('+')[0])
    for g, d in prog.globals.items():
        o = '@' + g
        if o in bad:
            continue
        init = d.get('init')
        if init in ('zero', 'null', 'c:0') or isinstance(init, str) and init.startswith('c:'):
            if d.get('ty', '') in ('ptr', 'i1', 'i8', 'i16', 'i32', 'i64'):
                tracked[o] = ('k', int(init[2:]) if init.startswith('c:') else 0)
    for n, fn in prog.funcs.items():
        if n in rel:
            continue
        for i in fn.instrs():
            if i.op == 'store' and i.ops[1] in tracked:
                o = i.ops[0]
                tracked[i.ops[1]] = join(tracked[i.ops[1]], ('k', int(o[2:])) if o.startswith('c:') else ('k', 0) if o == 'null' else T)
    used = {o for n in rel for i in prog.funcs[n].instrs() if i.op == 'load' for o in i.ops if o in fl}
    used = sorted(used)
    if len(used) > 8:
        r.notes.append('too many flags')
        return [r]
    rstat = {}
    for m in range(1 << len(used)):
        consts = {g: m >> k & 1 for k, g in enumerate(used)}
        for g, (fs, f, i) in fl.items():
            if fs == {'never'} and consts.get(g):
                consts = None
                break
        if consts is None:
            continue
        r.count('combinations')
        # a combination that cannot occur need not be looked at: a flag is true while one that asks for less is false
        have, unk = set(), False
        for g in used:
            if consts[g]:
                if fl[g][0] is None:
                    unk = True
                else:
                    have |= fl[g][0]
        have = closure(have)
        R = Reach(prog, rel, consts, roots, tracked)
        for n, (x, py) in sorted(query.items()):
            v = R.ret.get(n)
            v = v[1] if v and v[0] == 'fn' else None
            ans = {'_Py_TrueStruct': True, '_Py_FalseStruct': False}.get(v)
            r.count('query_answers')
            fn = prog.funcs[n]
            if ans is None:
                r.notes.append('%s: answer not recognised' % py)
                continue
            if ans and not unk and x not in have:
                r.add('query|%s' % py, spot(prog, fn), '%s answers True where %s is not established (flags true: %s)' % (py, x, ', '.join(nm[g] for g in used if consts[g]) or 'none'))
            elif not ans and x in byname and consts.get(byname[x]):
                r.add('query|%s' % py, spot(prog, fn), '%s answers False although %s is true' % (py, nm[byname[x]]))
        for n in R.live:
            for b, i, what, fs in sites.get(n, ()):
                if b not in R.blocks[n]:
                    continue
                k = (n, id(i))
                e = rstat.setdefault(k, [n, i, what, fs, 0, None])
                e[4] += 1
                if not unk and not closure(fs) <= have and e[5] is None:
                    e[5] = (sorted(closure(fs) - have), [nm[g] for g in used if consts[g]])
    for n, l in sites.items():
        r.count('extension_sites', len(l))
    for k, (n, i, what, fs, cnt, badc) in rstat.items():
        r.count('reached_sites')
        if badc:
            miss, on = badc
            fn = prog.funcs[n]
            import block
            r.add('%s|%s|%s' % (fn.dname.split('<')[0], what, '+'.join(miss)), block.place(prog, i.loc),
                  '%s: %s needs %s, which nothing on the way establishes (flags true: %s)' % (fn.dname, what, ', '.join(miss), ', '.join(on) or 'none'))
    r.count('functions', len(rel))
    return [r]
