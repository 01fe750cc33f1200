"""C10: calling conventions, argument formats and argument vectors.
C11: the published Python surface (stubs, re-exports) against the native tables.
C19: the relation each comparison operator applies."""
import os, re, ast, time, traceback
from multiprocessing import Pool
from ir import *
from engine import Limit, split, is_sym
from calls import Engine, parse_format, UNIT_ARGS
from roles import role_of, SLOT_PARAMS, VARARGS, KEYWORDS, NOARGS, O, CLASS, STATIC, FASTCALL
from common import Result

PARSE = {'PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT', 'PyArg_ParseTupleAndKeywords', '_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_UnpackTuple'}
UNIT_TYPE = {'s': ('ptr',), 'z': ('ptr',), 'y': ('ptr',), 'O': ('ptr',), 'S': ('ptr',), 'U': ('ptr',), 'Y': ('ptr',), 's#': ('ptr', 'i64'), 'z#': ('ptr', 'i64'), 'y#': ('ptr', 'i64'),
             's*': ('{buf}',), 'z*': ('{buf}',), 'y*': ('{buf}',), 'w*': ('{buf}',), 'es': (None, 'ptr'), 'et': (None, 'ptr'), 'es#': (None, 'ptr', 'i64'), 'et#': (None, 'ptr', 'i64'),
             'O!': (None, 'ptr'), 'O&': (None, None), 'b': ('i8',), 'B': ('i8',), 'h': ('i16',), 'H': ('i16',), 'i': ('i32',), 'I': ('i32',), 'l': ('i64',), 'k': ('i64',),
             'L': ('i64',), 'K': ('i64',), 'n': ('i64',), 'c': ('i8',), 'C': ('i32',), 'f': ('float',), 'd': ('double',), 'p': ('i32',), 'D': (None,)}
BUILD_TYPE = {'s': 'ptr', 'z': 'ptr', 'y': 'ptr', 'U': 'ptr', 'u': 'ptr', 'O': 'ptr', 'N': 'ptr', 'S': 'ptr', 'i': 'i32', 'b': 'i32', 'B': 'i32', 'h': 'i32', 'H': 'i32', 'I': 'i32',
              'c': 'i32', 'C': 'i32', 'l': 'i64', 'k': 'i64', 'L': 'i64', 'K': 'i64', 'n': 'i64', 'd': 'double', 'f': 'double', 'D': 'ptr'}
SLOT_IR = {'obj': 'ptr', 'obj?': 'ptr', 'ptr': 'ptr'}
I32 = {('tp_richcompare', 2), ('bf_getbuffer', 2)}
RET_IR = {'len': 'i64', 'obj': 'ptr', 'next': 'ptr', 'int': 'i32', 'tri': 'i32', 'void': 'void', 'hash': 'i64'}

def flag_names(f):
    return '|'.join(n for b, n in ((VARARGS, 'METH_VARARGS'), (KEYWORDS, 'METH_KEYWORDS'), (NOARGS, 'METH_NOARGS'), (O, 'METH_O'), (CLASS, 'METH_CLASS'), (STATIC, 'METH_STATIC'), (FASTCALL, 'METH_FASTCALL')) if f & b) or str(f)

def convention(f):
    """(parameter types promised by the flags, minimal number a function may declare) or None: not a valid combination"""
    k = f & ~(CLASS | STATIC | 0x40)
    if f & CLASS and f & STATIC:
        return None
    return {VARARGS: (['ptr', 'ptr'], 2), VARARGS | KEYWORDS: (['ptr', 'ptr', 'ptr'], 3), NOARGS: (['ptr', 'ptr'], 1), O: (['ptr', 'ptr'], 2),
            FASTCALL: (['ptr', 'ptr', 'i64'], 3), FASTCALL | KEYWORDS: (['ptr', 'ptr', 'i64', 'ptr'], 4)}.get(k)

# ---------------------------------------------------------------- C10
class Sig:
    def __init__(s, prog, r):
        s.p, s.r = prog, r
        s.callers = None
    def add(s, key, fn, what, detail='', ins=None):
        s.r.add(key, s.p.where(ins.loc) if ins is not None else '%s:%d' % (fn.file.split('/pyfastutil/')[-1], fn.line), '%s: %s' % (fn.dname, what), detail)
    def tables(s):
        p = s.p
        for n, rs in sorted(p.roots().items()):
            fn = p.funcs[n]
            for r in rs:
                if r['kind'] == 'method':
                    s.r.count('obligations')
                    c = convention(r['flags'])
                    s.r.sample('%s published as %s with %s: parameters (%s)' % (fn.dname, r['pyname'], flag_names(r['flags']), ', '.join(fn.args)))
                    if c is None:
                        s.add('flags|%s' % fn.dname, fn, 'published as "%s" with an invalid combination of flags (%s)' % (r['pyname'], flag_names(r['flags'])))
                        continue
                    want, least = c
                    if not (least <= len(fn.args) <= len(want)) or list(fn.args) != want[:len(fn.args)]:
                        s.add('arity|%s' % fn.dname, fn, 'published as "%s" with %s, which calls it with (%s), but it takes (%s)' % (r['pyname'], flag_names(r['flags']), ', '.join(want), ', '.join(fn.args)))
                    elif fn.ret != 'ptr':
                        s.add('ret|%s' % fn.dname, fn, 'published as "%s" but does not return an object' % r['pyname'])
                elif r['kind'] == 'slot':
                    sl = r['slot']
                    if sl not in SLOT_PARAMS:
                        continue
                    s.r.count('obligations')
                    want = ['i64' if x == 'int' and (sl, k) not in I32 else 'i32' if x == 'int' or (sl, k) in I32 else 'ptr' for k, x in enumerate(SLOT_PARAMS[sl])]
                    ret = RET_IR.get(SLOT_RET.get(sl))
                    if list(fn.args) != want:
                        s.add('slot|%s' % fn.dname, fn, 'used as %s, which calls it with (%s), but it takes (%s)' % (sl, ', '.join(want), ', '.join(fn.args)))
                    elif ret and fn.ret != ret:
                        s.add('slotret|%s' % fn.dname, fn, 'used as %s, which expects %s back, but it returns %s' % (sl, ret, fn.ret))
        live = p.reachable(['PyInit___pyfastutil'])
        for g, v in sorted(p.globals.items()):
            if g in live and re.search(r'\[\d+ x %struct\.PyMethodDef', v['ty']) and isinstance(v['init'], list):
                s.r.count('obligations')
                last = v['init'][-1]
                nul = lambda e: e in ('null', 'zero', 'c:0', None) or isinstance(e, list) and all(nul(x) for x in e)
                if not (nul(last) or isinstance(last, list) and last and nul(last[0])):
                    s.r.add('table|%s' % g, v.get('src', g), 'method table %s has no terminating entry' % g)
                names = [p.gstr(e[0]) for e in v['init'] if isinstance(e, list) and e and isinstance(e[0], str)]
                for nm in sorted({x for x in names if x and names.count(x) > 1}):
                    s.r.add('dup|%s|%s' % (g, nm), v.get('src', g), 'method table %s publishes "%s" twice' % (g, nm))
    # where a pointer operand comes from: parameter numbers of entry points
    def origin(s, fn, o, seen=()):
        """set of ('param', function, k) / other leaves"""
        if not isinstance(o, str) or (fn.name, o) in seen:
            return set()
        seen = seen + ((fn.name, o),)
        d = fn.defs.get(o)
        if d is None:
            if o[0] == '%' and o[1:].isdigit() and int(o[1:]) < len(fn.args):
                k = int(o[1:])
                out = set()
                if fn.name in s.p.roots() and any(r['kind'] != 'helper' for r in s.p.roots()[fn.name]):
                    out.add((fn.name, k))
                for f2, i in s.sites(fn.name):
                    if k < len(i.ops):
                        out |= s.origin(f2, i.ops[k], seen)
                return out
            return {('?', o)}
        if d.op == 'phi':
            return set().union(*[s.origin(fn, x, seen) for x in d.ops[::2]])
        if d.op == 'select':
            return set().union(*[s.origin(fn, x, seen) for x in d.ops[1:]])
        if d.op in ('freeze', 'bitcast'):
            return s.origin(fn, d.ops[0], seen)
        if d.op == 'load':
            a = fn.defs.get(d.ops[0])
            if a is not None and a.op == 'alloca':
                st = [i for i in fn.instrs() if i.op == 'store' and i.ops[1] == d.ops[0]]
                if st:
                    return set().union(*[s.origin(fn, i.ops[0], seen) for i in st])
        return {('?', d.op, d.x.get('f') if d.op in ('call', 'invoke') else None)}
    def sites(s, name):
        if s.callers is None:
            s.callers = {}
            for f in s.p.funcs.values():
                for i in f.instrs():
                    if i.op in ('call', 'invoke') and i.x.get('f'):
                        s.callers.setdefault(i.x['f'], []).append((f, i))
        return s.callers.get(name, [])
    def parsing(s):
        p = s.p
        live = p.reachable(['PyInit___pyfastutil'])
        for n, fn in sorted(p.funcs.items()):
            if n not in live:
                continue
            for i in fn.instrs():
                if i.op not in ('call', 'invoke'):
                    continue
                f = i.x.get('f') or ''
                if re.match(r'_?Py(Long|Float|Unicode|Bytes|ByteArray|List|Slice|Dict|Capsule|Number)_(?!Type)', f) and i.ops and isinstance(i.ops[0], str):
                    for src in s.origin(fn, i.ops[0]):
                        if len(src) == 2 and src[0] in p.funcs and src[1] in (1, 2):
                            for r in p.roots()[src[0]]:
                                if r['kind'] == 'method' and r['flags'] & VARARGS and not (src[1] == 2 and f.startswith('PyDict_')):
                                    s.r.count('obligations')
                                    s.add('tuple|%s|%s' % (fn.dname, f), fn, '%s is given the argument %s of %s, which is published with %s' % (f, 'tuple' if src[1] == 1 else 'dictionary', p.funcs[src[0]].dname, flag_names(r['flags'])), ins=i)
                if f in PARSE:
                    s.parse(fn, i, f)
                elif f in ('PyErr_Format', 'PyUnicode_FromFormat', 'PyErr_WarnFormat'):
                    k = 1 if f == 'PyErr_Format' else 0 if f == 'PyUnicode_FromFormat' else 2
                    s.printf(fn, i, f, k)
                elif f in ('printf', 'fprintf', 'sprintf', 'snprintf', 'PySys_WriteStdout', 'PyOS_snprintf'):
                    s.printf(fn, i, f, {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'PySys_WriteStdout': 0, 'PyOS_snprintf': 2}[f])
                elif f in ('Py_BuildValue', '_Py_BuildValue_SizeT', 'PyObject_CallFunction', 'PyObject_CallMethod', '_PyObject_CallFunction_SizeT', '_PyObject_CallMethod_SizeT'):
                    s.build(fn, i, f, {'P': 0}.get(f[:1] if 'Build' in f else '', 2 if 'CallMethod' in f else 1) if 'Build' not in f else 0)
                elif f in ('PyObject_CallFunctionObjArgs', 'PyObject_CallMethodObjArgs'):
                    s.r.count('obligations')
                    if i.ops[-1] not in ('null', 'c:0'):
                        s.add('objargs|%s' % fn.dname, fn, 'the argument list of %s does not end with NULL' % f, ins=i)
                elif f == 'PyTuple_Pack':
                    s.r.count('obligations')
                    if isinstance(i.ops[0], str) and i.ops[0].startswith('c:') and int(i.ops[0][2:]) != len(i.ops) - 1:
                        s.add('pack|%s' % fn.dname, fn, 'PyTuple_Pack announces %s objects and is given %d' % (i.ops[0][2:], len(i.ops) - 1), ins=i)
    def parse(s, fn, i, f):
        kw = 'Keywords' in f
        s.r.count('obligations')
        # the argument tuple (and dictionary) must be the ones the calling convention passes
        for opn, bit in ((0, 'tuple'),) + (((1, 'dict'),) if kw else ()):
            for src in s.origin(fn, i.ops[opn]):
                if len(src) == 2 and src[0] in s.p.funcs:
                    for r in s.p.roots()[src[0]]:
                        ok = r['kind'] == 'helper' or r['kind'] == 'slot' and r['slot'] in ('tp_init', 'tp_new', 'tp_call') and src[1] == opn + 1 \
                            or r['kind'] == 'method' and r['flags'] & VARARGS and src[1] == opn + 1 and (bit == 'tuple' or r['flags'] & KEYWORDS)
                        if not ok:
                            s.add('parse|%s|%s' % (fn.dname, bit), fn, '%s is given parameter %d of %s as argument %s, which its calling convention does not pass as one' % (f, src[1], s.p.funcs[src[0]].dname, bit), ins=i)
        if f == 'PyArg_UnpackTuple':
            return
        fi = 2 if kw else 1
        fmt = s.p.gstr(i.ops[fi])
        if fmt is None:
            s.r.notes.append('%s: argument format is not a constant' % fn.dname)
            return
        units, opt = parse_format(fmt)
        outs = i.ops[4 if kw else 2:]
        s.r.sample('%s: format "%s" fills %s' % (fn.dname, fmt, ', '.join((fn.defs[o].x.get('var') or o) if o in fn.defs else str(o) for o in outs)), 24)
        want = sum(len(UNIT_TYPE.get(u, (None,))) for u in units)
        if want != len(outs):
            s.add('count|%s|%s' % (fn.dname, fmt), fn, 'format "%s" fills %d variables but is given %d' % (fmt, want, len(outs)), ins=i)
            return
        k = 0
        for un, u in enumerate(units):
            ts = UNIT_TYPE.get(u)
            if ts is None:
                s.add('unit|%s|%s' % (fn.dname, u), fn, 'unknown format unit "%s"' % u, ins=i)
                ts = (None,)
            for t in ts:
                o = outs[k]
                k += 1
                s.r.count('obligations')
                if t is None or t == '{buf}':
                    continue
                for have, size, al, f2 in s.target(fn, o):
                    if have is None:
                        continue
                    bits = {'ptr': 64, 'float': 32, 'double': 64}.get(t) or int(t[1:])
                    if have in ('ptr', 'float', 'double') or t in ('ptr', 'float', 'double'):
                        bad = have != t
                    else:
                        bad = have != t
                    if bad:
                        s.add('width|%s|%s%d' % (fn.dname, u, un), fn, 'format unit "%s" writes %s (%d bytes) into %s of type %s' % (u, t, bits // 8, (al.x.get('var') if al is not None else '') or o, have), ins=i)
                    if al is not None and opt is not None and un >= opt and s.read(f2, al) and not s.initialised(f2, al, fn, i):
                        s.add('init|%s|%s%d' % (fn.dname, u, un), fn, 'optional argument %d ("%s"): the variable it fills is read but was not initialised on every path' % (un + 1, u), ins=i)
        if kw:
            s.kwlist(fn, i, len(units), fmt)
    def target(s, fn, o, depth=0):
        """[(IR type, bytes, alloca, function)] an output operand points to"""
        d = fn.defs.get(o) if isinstance(o, str) else None
        if d is None:
            if isinstance(o, str) and o[0] == '%' and o[1:].isdigit() and depth < 4:
                return [t for f2, i in s.sites(fn.name) if int(o[1:]) < len(i.ops) for t in s.target(f2, i.ops[int(o[1:])], depth + 1)]
            if isinstance(o, str) and o.startswith('@'):
                g = s.p.globals.get(o[1:].partition('+')[0])
                return [(g['ty'] if g and re.match(r'i\d+$|ptr$|double$|float$', g['ty']) else None, 0, None, fn)]
            return []
        if d.op == 'alloca':
            t = d.x.get('aty')
            if t and not re.match(r'i\d+$|ptr$|double$|float$', t):
                t = None
            return [(t, d.x.get('asz'), d, fn)]
        if d.op == 'getelementptr':
            t = d.x.get('sty', '').replace('%struct.', '').replace('%class.', '').strip('"')
            for m in s.p.structs.get(t, ()):
                if m[1] == d.x.get('off'):
                    return [('ptr' if '*' in m[3] or m[4] else {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(m[2]) if m[3] not in ('double', 'float') else m[3], m[2], None, fn)]
            return []
        if d.op in ('phi', 'select'):
            return [t for x in (d.ops[::2] if d.op == 'phi' else d.ops[1:]) for t in s.target(fn, x, depth + 1)] if depth < 4 else []
        return []
    def read(s, fn, al):
        me = '%%%d' % al.id
        return any(i.op == 'load' and i.ops[0] == me or i.op in ('call', 'invoke') and me in i.ops and (i.x.get('f') or '') not in PARSE for i in fn.instrs())
    def initialised(s, fn, al, pf, parse):
        """stored to on every path from the entry to the parsing call (which is in function pf)"""
        me = '%%%d' % al.id
        stop = [(b, k) for b, bb in enumerate(fn.bbs) for k, i in enumerate(bb) if fn is pf and i is parse or fn is not pf and i.op in ('call', 'invoke') and i.x.get('f') == pf.name and me in i.ops]
        gen = [next((k for k, i in enumerate(bb) if i.op == 'store' and i.ops[1] == me or i.op in ('call', 'invoke') and (i.x.get('f') or '').startswith('llvm.memset') and i.ops[0] == me), None) for bb in fn.bbs]
        seen, todo = set(), [0]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for sb, k in stop:
                if sb == b and (gen[b] is None or gen[b] > k):
                    return False
            if gen[b] is None:
                todo += fn.succ[b]
        return True
    def kwlist(s, fn, i, n, fmt):
        s.r.count('obligations')
        g = s.p.globals.get(str(i.ops[3]).lstrip('@'))
        if not g or not isinstance(g['init'], list):
            s.r.notes.append('%s: keyword list is not a constant' % fn.dname)
            return
        nul = lambda e: e in ('null', 'zero', 'c:0')
        names = []
        end = False
        for e in g['init']:
            if nul(e):
                end = True
                break
            names.append(s.p.gstr(e))
        if not end:
            s.add('kwend|%s' % fn.dname, fn, 'the keyword list does not end with NULL', ins=i)
        if len(names) != n:
            s.add('kwlen|%s' % fn.dname, fn, 'format "%s" has %d units but the keyword list has %d names' % (fmt, n, len(names)), ins=i)
        for x in sorted({x for x in names if x and names.count(x) > 1}):
            s.add('kwdup|%s|%s' % (fn.dname, x), fn, 'keyword "%s" is listed twice' % x, ins=i)
    def optype(s, fn, o):
        if not isinstance(o, str):
            return None
        if o[0] == '%':
            d = fn.defs.get(o)
            if d is not None:
                return d.ty
            if o[1:].isdigit() and int(o[1:]) < len(fn.args):
                return fn.args[int(o[1:])]
        if o[0] == '@' or o == 'null':
            return 'ptr'
        return None
    def variadic(s, fn, i, f, fmt, want, given):
        s.r.count('obligations')
        if len(want) != len(given):
            s.add('vcount|%s|%s' % (fn.dname, fmt), fn, '%s: format "%s" takes %d values but is given %d' % (f, fmt, len(want), len(given)), ins=i)
            return
        for t, o in zip(want, given):
            h = s.optype(fn, o)
            if t and h and t != h:
                s.add('vtype|%s|%s' % (fn.dname, fmt), fn, '%s: format "%s" takes a value of type %s but is given %s' % (f, fmt, t, h), ins=i)
    def printf(s, fn, i, f, k):
        fmt = s.p.gstr(i.ops[k])
        if fmt is None:
            return
        want = []
        for m in re.finditer(r'%(%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z]))', fmt):
            if m.group(1) == '%':
                continue
            want += ['i32'] * ((m.group(2) == '*') + (m.group(3) == '*'))
            c, ln = m.group(5), m.group(4) or ''
            if c in 'spRSAUTN':
                want.append('ptr')
                if c == 'V':
                    want.append('ptr')
            elif c == 'V':
                want += ['ptr', 'ptr']
            elif c in 'diuxXoc':
                want.append('i64' if ln in ('l', 'll', 'z', 'j', 't') else 'i32')
            elif c in 'fFeEgGaA':
                want.append('double')
            else:
                return
        s.variadic(fn, i, f, fmt, want, i.ops[k + 1:])
    def build(s, fn, i, f, k):
        o = i.ops[k]
        if o in ('null', 'c:0'):
            want, fmt = [], ''
        else:
            fmt = s.p.gstr(o)
            if fmt is None:
                return
            want = []
            j = 0
            while j < len(fmt):
                c = fmt[j]
                if c in BUILD_TYPE:
                    want.append(BUILD_TYPE[c])
                    if j + 1 < len(fmt) and fmt[j + 1] == '#':
                        want.append('i64')
                        j += 1
                    elif j + 1 < len(fmt) and fmt[j + 1] == '&':
                        want = want[:-1] + ['ptr', 'ptr']
                        j += 1
                j += 1
        s.variadic(fn, i, f, fmt, want, i.ops[k + 1:])

class Vec(Engine):
    """argument vectors are indexed within the argument count established on the path"""
    def __init__(self, prog, fn, role, rules, shared, cap=60000):
        super().__init__(prog, fn, role, rules, shared, zone=True, cap=cap)
        self.sites = {}
        self.counts = set()
    def initial(self, absent=()):
        st = super().initial(absent)
        for k, r in enumerate(self.role['params']):
            if r == 'nargs' and k < len(self.fn.args):
                st.x['nargs'] = 'a%d' % k
        return st
    def on_argload(self, ins, st, b, idx):
        n = st.x.get('nargs')
        if 'vector' not in self.rules or n is None:
            return
        ok = self.le(st, idx, n, -1) and self.nonneg(st, idx)
        k = self.where(ins)
        self.sites[k] = self.sites.get(k, True) and ok
        if not ok:
            self.report('vector', 'reads argument %s without having established that there are that many' % (idx if isinstance(idx, int) else ''), ins, 'argument count %s' % (self.rng(st, n),), key='vec|%s' % (idx if isinstance(idx, int) else 'i'))
    def at_return(self, ins, st, v):
        if 'counts' in self.rules and v != 0 and not (is_sym(v) and self.rng(st, v) == (0, 0)):
            n = st.x.get('nargs')
            if n is not None:
                self.counts.add(self.rng(st, n))
        return super().at_return(ins, st, v)

_p = None
def _job(a):
    n, rules, cap = a
    fn = _p.funcs[n]
    e = None
    try:
        e = Vec(_p, fn, role_of(_p, n), set(rules), {}, cap=cap)
        e.run()
        st = 'ok'
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    return n, st, (e.stat if e else {}), list(e.viol.values()) if e else [], (e.sites if e else {}), (e.counts if e else set())

def vectors(prog, rules, tier):
    global _p
    _p = prog
    cap = 20000 if tier == 'quick' else 100000
    names = sorted((n for n, rs in prog.roots().items() if any(r['kind'] == 'method' and r['flags'] & FASTCALL for r in rs)), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        return P.map(_job, [(n, rules, cap) for n in names], chunksize=1)

def c10(prog, tier):
    r = Result('C10')
    r.cov['explanation'] = ('Every entry of every method table and slot: the parameter and return types of the function against the ones its flags or slot promise. Every PyArg_Parse*, Py_BuildValue, '
                            'PyErr_Format, printf-like and object-list call: number and machine type of the variables against the units of its constant format; keyword lists: length and terminator; optional targets '
                            'initialised on every path. Every read of a METH_FASTCALL argument vector: position proved below the argument count on every path (intervals over LLVM IR).')
    s = Sig(prog, r)
    s.tables()
    s.parsing()
    for n, st, stat, viol, sites, _ in vectors(prog, ['vector'], tier):
        r.count('entry_points')
        r.count('states', stat.get('states', 0))
        r.count('argument_reads', len(sites))
        r.count('obligations', len(sites))
        if st != 'ok':
            r.notes.append('%s: %s' % (prog.funcs[n].dname, st))
        for v in viol:
            if v.rule == 'vector':
                r.add(v.key, v.site, '%s: %s' % (prog.funcs[n].dname, v.what), v.detail)
    return r

def c11(prog, tier):
    import surface
    vec = {}
    bad = []
    for n, st, stat, viol, sites, counts in vectors(prog, ['counts'], tier):
        if st == 'ok':
            vec[n] = counts
        else:
            bad.append('%s: %s' % (prog.funcs[n].dname, st))
    r = surface.check(prog, tier, Sig(prog, Result('C11')), vec)
    r.notes += bad
    return r

def run(prog, props, tier):
    import relations
    fs = {'C10': c10, 'C11': c11, 'C19': relations.c19}
    return [fs[p](prog, tier) for p in props]
