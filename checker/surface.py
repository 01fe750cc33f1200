"""C11: the published Python surface (stubs, re-exporting modules) against the native tables.

Everything is read: the .pyi/.py files with Python's own parser, the native side from the constant method tables,
type slots, argument formats, checked argument counts and returned objects in the program's IR."""
import os, ast, re
from ir import *
from roles import VARARGS, KEYWORDS, NOARGS, O, CLASS, STATIC, FASTCALL
from calls import parse_format
from common import Result
from typestate import Types
import build

INF = 1 << 30
# what a class that is declared to be a list has, besides what its own stub says: positional counts, keywords, result
LIST = {'append': (1, 1, (), 'None'), 'extend': (1, 1, (), 'None'), 'pop': (0, 1, (), 'elem'), 'index': (1, 3, (), 'int'), 'count': (1, 1, (), 'int'),
        'insert': (2, 2, (), 'None'), 'remove': (1, 1, (), 'None'), 'sort': (0, 0, ('key', 'reverse'), 'None'), 'reverse': (0, 0, (), 'None'),
        'clear': (0, 0, (), 'None'), 'copy': (0, 0, (), 'self|list')}
LISTDUNDER = ['__len__', '__iter__', '__getitem__', '__setitem__', '__delitem__', '__add__', '__iadd__', '__mul__', '__rmul__', '__imul__', '__contains__', '__reversed__',
              '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__repr__']
SLOTOF = {'__len__': ('sq_length', 'mp_length'), '__getitem__': ('sq_item', 'mp_subscript'), '__setitem__': ('sq_ass_item', 'mp_ass_subscript'), '__delitem__': ('sq_ass_item', 'mp_ass_subscript'),
          '__contains__': ('sq_contains',), '__iter__': ('tp_iter',), '__next__': ('tp_iternext',), '__add__': ('sq_concat', 'nb_add'), '__iadd__': ('sq_inplace_concat', 'nb_inplace_add'),
          '__mul__': ('sq_repeat', 'nb_multiply'), '__rmul__': ('sq_repeat', 'nb_multiply'), '__imul__': ('sq_inplace_repeat', 'nb_inplace_multiply'), '__repr__': ('tp_repr',),
          '__str__': ('tp_str', 'tp_repr'), '__hash__': ('tp_hash',), '__call__': ('tp_call',), '__init__': ('tp_init', 'tp_new'), '__bool__': ('nb_bool', 'sq_length', 'mp_length'),
          **{k: ('tp_richcompare',) for k in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')}}
INHERITED = {'__init__', '__eq__', '__ne__', '__repr__', '__str__', '__hash__', '__class__', '__new__', '__doc__'}   # object has them
ADD = {'PyModule_AddObject': (1, 2), 'PyModule_AddObjectRef': (1, 2)}

class Py:
    """the Python side"""
    def __init__(s, root):
        s.root = root
        s.classes = {}      # class -> dict(file, line, bases, methods {name: [sig]})
        s.exports = []      # (file, line, public name, submodule, attribute)
        s.imports = []      # (file, line, submodule)
        s.public = {}       # .pyi/.py directory-module -> set of names assigned
        for d, dirs, fs in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ('src', '__pycache__', 'tests')]
            for f in sorted(fs):
                if f.endswith(('.py', '.pyi')):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p, encoding='utf-8').read())
                    rel = os.path.relpath(p, os.path.dirname(root))
                    if f.endswith('.pyi'):
                        s.stub(t, rel)
                    else:
                        s.module(t, rel)
    def stub(s, t, rel):
        al = {}
        for n in t.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
                v = n.value
                if isinstance(tg, ast.Name) and isinstance(v, ast.Call):
                    for k in v.keywords:
                        if k.arg == 'bound':
                            al[tg.id] = ast.unparse(k.value)
        for n in t.body:
            if isinstance(n, ast.ClassDef) and not any(isinstance(b, ast.Name) and b.id == 'IntEnum' for b in n.bases):
                c = s.classes.setdefault(n.name, dict(file=rel, line=n.lineno, bases=[ast.unparse(b) for b in n.bases], methods={}))
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        c['methods'].setdefault(m.name, []).append(s.sig(m, al, rel))
    def sig(s, m, al, rel):
        deco = [ast.unparse(d) for d in m.decorator_list]
        a = m.args
        pos = a.posonlyargs + a.args
        skip = 0 if 'staticmethod' in deco else 1
        ps = pos[skip:]
        least = max(0, len(pos) - len(a.defaults) - skip)
        kw = [p.arg for k, p in enumerate(pos) if k >= skip and p in a.args and not p.arg.startswith('__')]
        ret = ast.unparse(m.returns) if m.returns is not None else None
        return dict(line=m.lineno, file=rel, lo=least, hi=INF if a.vararg else len(ps), kw=kw, order=[p.arg for p in ps], kwonly=[p.arg for p in a.kwonlyargs], ret=al.get(ret, ret), raw=ret, deco=deco)
    def module(s, t, rel):
        loc = {}
        for n in t.body:
            if isinstance(n, ast.ImportFrom) and (n.module or '').split('.')[-1] == '__pyfastutil':
                for x in n.names:
                    loc[x.asname or x.name] = x.name
                    s.imports.append((rel, n.lineno, x.name))
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id in loc:
                for tg in n.targets:
                    if isinstance(tg, ast.Name):
                        s.exports.append((rel, n.lineno, tg.id, loc[n.value.value.id], n.value.attr))

class Native:
    """the native side"""
    def __init__(s, prog, sig):
        s.p, s.sig = prog, sig
        s.unknown = []
        s.mods = {}         # submodule name -> module
        s.objs = {}         # module -> {name: type global}
        s.types = {}        # type global -> {method: (function, flags)}, slots
        s.t = Types(prog)
        live = prog.reachable(['PyInit___pyfastutil'])
        for n, fn in prog.funcs.items():
            if n not in live:
                continue
            for i in fn.instrs():
                if i.op in ('call', 'invoke') and i.x.get('f') in ADD:
                    kn, ko = ADD[i.x['f']]
                    for name, ob, mod in s.triples(fn, i.ops[kn], i.ops[ko], i.ops[0]):
                        if name is None or ob is None or mod is None:
                            s.unknown.append('%s: an added name or object is not a constant' % fn.dname)
                        elif ob[0] in ('mod', 'ext'):
                            s.mods[name] = ob
                        else:
                            s.objs.setdefault(mod, {})[name] = ob[1]
        for ob in {o for d in s.objs.values() for o in d.values()}:
            sl = s.t.slots.get('@' + ob, {})
            ms = {}
            g = prog.globals.get(str(sl.get('tp_methods', '')).lstrip('@'))
            if g and isinstance(g['init'], list):
                for e in g['init']:
                    if isinstance(e, list) and e and isinstance(e[0], str):
                        nm = prog.gstr(e[0])
                        if nm:
                            fl = next((int(x[2:]) for x in e[2:3] if isinstance(x, str) and x.startswith('c:')), 0)
                            ms[nm] = (e[1].lstrip('@'), fl)
            elif sl.get('tp_methods') and not (g and g['init'] == 'zero'):
                s.unknown.append('%s: method table is not a constant' % ob)
            s.types[ob] = (ms, sl)
    def triples(s, fn, a, b, m, depth=0):
        """(constant name, object, module) of an AddObject call, through wrappers"""
        v = [s.const(fn, a), s.one(fn, b), s.one(fn, m)]
        if any(isinstance(x, int) for x in v) and depth < 4:
            out = []
            for f2, i in s.sig.sites(fn.name):
                o = [i.ops[x] if isinstance(x, int) and x < len(i.ops) else y for x, y in zip(v, (a, b, m))]
                out += [tuple(w if isinstance(x, int) else x for x, w in zip(v, t)) for t in s.triples(f2, o[0], o[1], o[2], depth + 1)]
            return out
        return [tuple(None if isinstance(x, int) else x for x in v)]
    def const(s, fn, o):
        if isinstance(o, str) and re.match(r'%\d+$', o) and o not in fn.defs and int(o[1:]) < len(fn.args):
            return int(o[1:])
        d = fn.defs.get(o) if isinstance(o, str) else None
        if d is not None and d.op == 'load':
            st = [i for i in fn.instrs() if i.op == 'store' and i.ops[1] == d.ops[0]]
            if len(st) == 1:
                return s.const(fn, st[0].ops[0])
        return s.p.gstr(o)
    def one(s, fn, o):
        v = s.obj(fn, o, ())
        return next(iter(v)) if len(v) == 1 else None
    def obj(s, fn, o, seen, depth=0):
        """{('mod', function, instruction) | ('ext', name) | ('type', global) | parameter number}"""
        if not isinstance(o, str) or o in seen or o == 'null' or depth > 5:
            return set()
        seen = seen + (o,)
        if o.startswith('@'):
            return {('type', o[1:].partition('+')[0])}
        d = fn.defs.get(o)
        if d is None:
            return {int(o[1:])} if re.match(r'%\d+$', o) else {None}
        if d.op in ('call', 'invoke'):
            f = d.x.get('f') or ''
            if f.startswith('PyModule_Create'):
                return {('mod', fn.name, d.id)}
            if f in s.p.funcs:
                out = set()
                for i in s.p.funcs[f].instrs():
                    if i.op == 'ret' and i.ops:
                        for v in s.obj(s.p.funcs[f], i.ops[0], (), depth + 1):
                            out |= s.obj(fn, d.ops[v], seen, depth) if isinstance(v, int) else {v}
                return out
            if f.startswith('PyInit'):
                return {('ext', f)}
            return {None}
        if d.op in ('phi', 'select'):
            return set().union(*[s.obj(fn, x, seen, depth) for x in (d.ops[::2] if d.op == 'phi' else d.ops[1:])])
        if d.op in ('bitcast', 'freeze'):
            return s.obj(fn, d.ops[0], seen, depth)
        if d.op == 'load':
            st = [i for i in fn.instrs() if i.op == 'store' and i.ops[1] == d.ops[0]]
            if st:
                return set().union(*[s.obj(fn, i.ops[0], seen, depth) for i in st])
        return {None}
    # ------------------------------------------------------------ accepted argument counts
    def formats(s, name):
        """parsing calls whose argument tuple is parameter 1 of the function"""
        out = []
        live = s.p.reachable([name])
        for n in live:
            fn = s.p.funcs.get(n)
            if fn is None:
                continue
            for i in fn.instrs():
                if i.op in ('call', 'invoke') and re.match(r'_?PyArg_ParseTuple', i.x.get('f') or '') and (name, 1) in s.sig.origin(fn, i.ops[0]):
                    kw = 'Keywords' in i.x['f']
                    fmt = s.p.gstr(i.ops[2 if kw else 1])
                    names = None
                    if kw:
                        g = s.p.globals.get(str(i.ops[3]).lstrip('@'))
                        names = [s.p.gstr(e) for e in g['init'] if s.p.gstr(e)] if g and isinstance(g['init'], list) else None
                    out.append((fmt, names))
        return out
    def counts(s, name, flags, vec):
        """[(lo, hi)] positional counts the function may accept, keyword names; None: not known"""
        if flags is None:       # tp_init
            flags = VARARGS | KEYWORDS
        k = flags & ~(CLASS | STATIC | 0x40)
        if k == NOARGS:
            return [(0, 0)], []
        if k == O:
            return [(1, 1)], []
        if k & FASTCALL:
            c = vec.get(name)
            if not c:
                return None, None
            return [(lo or 0, INF if hi is None else hi) for lo, hi in c], []
        fs = s.formats(name)
        if not fs or any(f is None for f, _ in fs):
            return None, None
        out, kws = [], []
        for f, names in fs:
            u, opt = parse_format(f)
            out.append((len(u) if opt is None else opt, len(u)))
            if k & KEYWORDS:
                kws = names
        return out, kws
    # ------------------------------------------------------------ kinds of returned objects
    def kinds(s, name, depth=0):
        """{(kind, site)} of the objects the function may return; kind None: not known"""
        fn = s.p.funcs.get(name)
        out = set()
        if fn is None or depth > 5:
            return {(None, '')}
        for i in fn.instrs():
            if i.op == 'ret' and i.ops:
                out |= s.kind(fn, i.ops[0], (), depth)
        return out
    def kind(s, fn, o, seen, depth):
        if o in ('null', 'c:0', 'undef', 'poison'):
            return set()
        if isinstance(o, str) and o.startswith('@'):
            b = o[1:].partition('+')[0]
            return {({'_Py_NoneStruct': 'None', '_Py_TrueStruct': 'bool', '_Py_FalseStruct': 'bool', '_Py_NotImplementedStruct': 'NotImplemented'}.get(b), fn.dname)}
        if not isinstance(o, str) or o in seen:
            return set()
        seen = seen + (o,)
        d = fn.defs.get(o)
        if d is None:
            if re.match(r'%\d+$', o):
                return {('param%d' % int(o[1:]), fn.dname)}
            return {(None, '')}
        if d.op in ('phi', 'select'):
            return set().union(*[s.kind(fn, x, seen, depth) for x in (d.ops[::2] if d.op == 'phi' else d.ops[1:])])
        if d.op in ('freeze', 'bitcast'):
            return s.kind(fn, d.ops[0], seen, depth)
        at = s.p.where(d.loc)
        if d.op == 'load':
            a = fn.defs.get(d.ops[0])
            if a is not None and a.op == 'alloca':
                st = [i for i in fn.instrs() if i.op == 'store' and i.ops[1] == d.ops[0]]
                if st and not any(d.ops[0] in i.ops for i in fn.instrs() if i.op in ('call', 'invoke')):
                    return set().union(*[s.kind(fn, i.ops[0], seen, depth) for i in st])
            return {(None, at)}
        if d.op in ('call', 'invoke') and not d.x.get('f') and d.ops and isinstance(d.ops[0], str) and '_typeobject' in s.p.globals.get(d.ops[0].lstrip('@'), {}).get('ty', ''):
            return {('obj:' + d.ops[0][1:], at)}       # type.tp_alloc(&type, n), type.tp_new(&type, ...)
        if d.op in ('call', 'invoke'):
            f = d.x.get('f') or ''
            if f in s.p.funcs:
                out = set()
                for k, w in s.kinds(f, depth + 1):
                    if k and k.startswith('param') and int(k[5:]) < len(d.ops):
                        out |= s.kind(fn, d.ops[int(k[5:])], seen, depth)
                    elif k and k.startswith('objparam') and int(k[8:]) < len(d.ops):
                        out.add(s.newobj(fn, d.ops[int(k[8:])], at))
                    else:
                        out.add((k, w))
                return out
            for pat, k in ((r'PyLong_From|_PyLong_From', 'int'), (r'PyFloat_From', 'float'), (r'PyBool_From', 'bool'), (r'PyList_(New|GetSlice)$', 'list'), (r'PyBytes_From', 'bytes'),
                           (r'PyByteArray_From', 'bytearray'), (r'PyUnicode_(From|Join|Concat|Decode|Substring)', 'str'), (r'PyObject_(Repr|Str)$', 'str'), (r'PyTuple_(New|Pack)$', 'tuple'),
                           (r'PyDict_(New|Copy)$', 'dict'), (r'PyErr_(NoMemory|Format|SetFromErrno)', 'error'), (r'PySequence_List$', 'list'), (r'PyNumber_(Long|Index)$', 'int'),
                           (r'PyMemoryView_', 'memoryview'), (r'PySet_New', 'set'), (r'Py_GenericAlias', 'alias'), (r'PyObject_RichCompare$', None), (r'PyObject_IsTrue', None)):
                if re.match(pat, f):
                    return set() if k == 'error' else {(k, at)}
            if f in ('Py_NewRef', '_Py_NewRef', 'Py_XNewRef'):
                return s.kind(fn, d.ops[0], seen, depth)
            if re.match(r'_?PyObject_(Call|VectorCall)', f) and not re.search('Method', f) and isinstance(d.ops[0], str) and '_typeobject' in s.p.globals.get(d.ops[0].lstrip('@'), {}).get('ty', ''):
                return {('obj:' + d.ops[0][1:], at)}
            if f in ('_PyObject_New', '_PyObject_GC_New', 'PyType_GenericAlloc', 'PyObject_Init'):
                return {s.newobj(fn, d.ops[0 if f != 'PyObject_Init' else 1], at)}
            if re.match(r'_?Py_BuildValue', f):
                m = s.p.gstr(d.ops[0])
                return {({'s': 'str', 'z': 'str', 'U': 'str', 'y': 'bytes', 'i': 'int', 'l': 'int', 'n': 'int', 'L': 'int', 'K': 'int', 'k': 'int', 'I': 'int', 'd': 'float', '': 'None'}.get(m), at)}
        return {(None, at)}
    def newobj(s, fn, o, at):
        if isinstance(o, str) and o.startswith('@'):
            return ('obj:' + o[1:].partition('+')[0], at)
        if isinstance(o, str) and re.match(r'%\d+$', o) and o not in fn.defs:
            return ('objparam%d' % int(o[1:]), at)
        return (None, at)

def expected(ret, cls, native):
    """set of kinds a declared annotation allows, None: anything"""
    if ret is None:
        return None
    if ret == 'None':
        return {'None'}
    if ret in ('int', 'SupportsIndex'):
        return {'int', 'bool'}
    if ret in ('bool', 'bytes', 'str', 'float', 'tuple', 'dict', 'bytearray'):
        return {ret}
    if ret == 'list' or ret.startswith(('list[', 'List[')):
        return {'list'}
    r = re.sub(r'\[.*', '', ret).strip('\'"')
    if r in native:
        return {'obj:' + native[r]} | ({'self'} if r == cls else set())
    return None

def check(prog, tier, sig, vec):
    """vec: FASTCALL function -> set of accepted count ranges"""
    r = Result('C11')
    r.cov['explanation'] = ('Every class and method of the .pyi stubs and every re-export of the .py modules, against the native side read from the program: objects added to each submodule, constant method tables and type '
                            'slots, argument counts each function accepts (flags, constant argument formats, and the counts proved possible at its successful returns), keyword names, and the kind of object returned '
                            '(backward slice of the returned value to the interpreter call that made it).')
    py = Py(os.path.join(build.REPO, 'pyfastutil'))
    nat = Native(prog, sig)
    r.notes += sorted(set(nat.unknown))
    full = not nat.unknown
    typeof = {}
    for m, init in nat.mods.items():
        for nm, ob in nat.objs.get(init, {}).items():
            typeof[nm] = ob
    raw = {'SIMDLowAVX512'}       # analysed from its own translation unit (see avx.py)
    at = lambda f, l: '%s:%d' % (f, l)
    for f, l, m in py.imports:
        r.count('obligations')
        if full and m not in nat.mods:
            r.add('import|%s|%s' % (f, m), at(f, l), 'imports the native submodule "%s", which the module does not provide' % m)
    for f, l, pub, m, attr in py.exports:
        r.count('obligations')
        if m in nat.mods and full and m not in raw and attr not in nat.objs.get(nat.mods[m], {}):
            r.add('export|%s|%s' % (f, pub), at(f, l), '%s is taken from the native submodule "%s", which does not provide "%s"' % (pub, m, attr))
        if pub in py.classes and attr in py.classes and pub != attr:
            r.add('export|%s|%s' % (f, pub), at(f, l), '%s is bound to the native class %s' % (pub, attr))
        if full and m in nat.mods and m not in raw and attr in nat.objs.get(nat.mods[m], {}):
            ob = nat.objs[nat.mods[m]][attr]
            r.sample('%s: %s is %s.%s, %d native methods' % (f, pub, m, attr, len(nat.types.get(ob, ({}, {}))[0])))
    exported = {pub for _, _, pub, _, _ in py.exports}
    for c, d in sorted(py.classes.items()):
        r.count('obligations')
        r.count('classes')
        if c not in exported:
            r.add('class|%s' % c, at(d['file'], d['line']), 'the stub declares class %s, which no Python module provides' % c)
            continue
        if c in raw or c not in typeof:
            continue
        ob = typeof[c]
        ms, sl = nat.types[ob]
        islist = any(b == 'list' or b.startswith('list[') for b in d['bases'])
        decl = {}
        for n, sigs in d['methods'].items():
            decl[n] = sigs
        if islist:
            for n, (lo, hi, kw, ret) in LIST.items():
                decl.setdefault(n, [dict(line=d['line'], file=d['file'], lo=lo, hi=hi, kw=[], order=[], kwonly=list(kw), ret='list' if ret == 'self|list' else None if ret == 'elem' else ret, raw=ret, deco=[])])
            for n in LISTDUNDER:
                decl.setdefault(n, [])
        if any(re.match(r'(Iterator|Iterable)\b', b) for b in d['bases']):
            decl.setdefault('__iter__', [])
        for n, sigs in sorted(decl.items()):
            r.count('obligations')
            r.count('methods')
            site = at(sigs[0]['file'], sigs[0]['line']) if sigs else at(d['file'], d['line'])
            fns = []
            if n in ms:
                fns = [(ms[n][0], ms[n][1])]
            if n in SLOTOF:
                have = [x for x in SLOTOF[n] if sl.get(x) not in (None, 'null', 'c:0', 'zero')]
                if have and not fns:
                    fns = [(sl[x].lstrip('@'), 'slot:' + x) for x in have if isinstance(sl[x], str) and sl[x].startswith('@')]
                    if not fns:
                        continue
                if n == '__init__' and not (set(have) - {'tp_new'}):
                    fns = []
            if not fns:
                if n in INHERITED and not (islist and n in ('__repr__', '__eq__', '__ne__')):
                    continue
                if full:
                    r.add('missing|%s.%s' % (c, n), site, '%s.%s is declared%s but %s has no such native method or slot' % (c, n, '' if sigs else ' (by its base class)', c))
                continue
            for fname, fl in fns:
                if isinstance(fl, str) and fl != 'slot:tp_init':
                    acc, kws = None, None
                else:
                    acc, kws = nat.counts(fname, None if isinstance(fl, str) else fl, vec)
                for g in sigs:
                    st = at(g['file'], g['line'])
                    if acc is not None:
                        r.count('obligations')
                        ok = all(any(a <= k <= b for a, b in acc) for k in range(g['lo'], min(g['hi'], 70) + 1))
                        if not ok:
                            r.add('count|%s.%s|%d-%d' % (c, n, g['lo'], g['hi']), st, '%s.%s is declared to take %s positional arguments, the native function accepts %s' % (
                                c, n, g['lo'] if g['lo'] == g['hi'] else '%d to %d' % (g['lo'], g['hi']), ' or '.join(sorted({str(a) if a == b else '%d to %s' % (a, b if b < INF else 'any') for a, b in acc}))), 'native: %s' % prog.funcs[fname].dname if fname in prog.funcs else '')
                        for x in g['kwonly'] + (g['kw'] if n == '__init__' else []):
                            if kws is not None and x not in kws:
                                r.add('kw|%s.%s|%s' % (c, n, x), st, '%s.%s is declared to take the keyword "%s", the native function does not' % (c, n, x))
                    if isinstance(fl, int):
                        stat = 'staticmethod' in g['deco']
                        if g['deco'] and any(x in g['deco'] for x in ('staticmethod', 'classmethod')):
                            want = STATIC if stat else CLASS
                            if not fl & (STATIC | CLASS):
                                r.add('static|%s.%s' % (c, n), st, '%s.%s is declared %s but the native method is an instance method' % (c, n, 'static' if stat else 'a class method'))
                    want = expected(g['ret'], c, typeof)
                    if g['raw'] == 'self|list':
                        want = {'list', 'obj:' + ob}
                    if want is not None and n not in ('__init__',):
                        r.count('obligations')
                        for k, w in sorted(nat.kinds(fname), key=str):
                            if k is None or k.startswith('objparam'):
                                continue
                            if k == 'param0' and 'obj:' + ob in want:
                                continue
                            if k.startswith('param'):
                                if k != 'param0':
                                    continue
                                k = 'obj:' + ob
                            if k not in want:
                                r.add('kind|%s.%s|%s' % (c, n, k), w or st, '%s.%s is declared to return %s but the native function can return %s' % (c, n, g['raw'] if g['raw'] != 'self|list' else 'a list', k.replace('obj:', 'a ')), 'stub %s' % st)
            r.sample('%s.%s: %s' % (c, n, ', '.join('%s%s' % (prog.funcs[f].dname if f in prog.funcs else f, '' if isinstance(fl, int) else ' (%s)' % fl[5:]) for f, fl in fns)), 60)
        for n, (fname, fl) in sorted(ms.items()):
            r.count('obligations')
            if not n.startswith('_') and n not in decl:
                fn = prog.funcs.get(fname)
                r.add('undeclared|%s.%s' % (c, n), '%s:%d' % (fn.file.split('/pyfastutil/')[-1], fn.line) if fn else ob, 'the native method %s.%s is not declared in the stubs' % (c, n))
    for m, init in sorted(nat.mods.items()):
        for nm in sorted(nat.objs.get(init, {})):
            r.count('obligations')
            if full and nm not in exported:
                r.add('unexported|%s' % nm, 'PyInit_' + m, 'the native class %s is not re-exported by any Python module' % nm)
            elif nm not in py.classes and nm not in raw:
                r.add('nostub|%s' % nm, 'PyInit_' + m, 'the native class %s is not declared in the stubs' % nm)
    return r
