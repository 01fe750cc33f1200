"""Models of the functions called by the extension: Python C API, containers, algorithms, allocation."""
from capacity import cannot_throw
from engine import *
from engine import Engine as Core

CREATES = {'PyBytes_FromStringAndSize': 'bytes', 'PyList_New': 'list', 'PyTuple_New': 'tuple', 'PyDict_New': 'dict',
           'PyLong_FromLong': 'int', 'PyLong_FromLongLong': 'int', 'PyLong_FromSsize_t': 'int', 'PyLong_FromSize_t': 'int',
           'PyLong_FromUnsignedLong': 'int', 'PyLong_FromUnsignedLongLong': 'int', 'PyLong_FromVoidPtr': 'int', '_PyLong_FromDigits': 'int',
           'PyLong_FromDouble': 'int', 'PyNumber_Index': 'int', 'PyNumber_Long': 'int', 'PyUnicode_FromString': 'str',
           'PyUnicode_FromFormat': 'str', 'PyUnicode_FromStringAndSize': 'str', 'PyObject_Repr': 'str', 'PyObject_Str': 'str',
           'PySequence_List': 'list', 'PySequence_Tuple': 'tuple', 'PyFloat_FromDouble': 'float', 'PyList_AsTuple': 'tuple'}
NEEDS = {'PyBytes_AsString': 'bytes', 'PyBytes_Size': 'bytes', 'PyList_Size': 'list', 'PyTuple_Size': 'tuple', 'PyDict_Size': 'dict',
         'PyUnicode_GetLength': 'str', 'PyList_AsTuple': 'list'}
INTCONV = {'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsInt', '_PyLong_AsInt', 'PyLong_AsUnsignedLongMask', 'PyLong_AsUnsignedLongLongMask',
           'PyLong_AsSsize_t', 'PyLong_AsSize_t', 'PyLong_AsUnsignedLong', 'PyLong_AsUnsignedLongLong', 'PyNumber_AsSsize_t', 'PyLong_AsVoidPtr',
           'PyNumber_Index', 'PyFloat_AsDouble'}
INTBITS = {'PyLong_AsInt': 32, '_PyLong_AsInt': 32, 'PyLong_AsLong': 64, 'PyLong_AsLongLong': 64, 'PyLong_AsSsize_t': 64, 'PyNumber_AsSsize_t': 64}
RANGE = {'PyLong_AsInt': (-2**31, 2**31 - 1), '_PyLong_AsInt': (-2**31, 2**31 - 1), 'PyLong_AsLong': (-2**63, 2**63 - 1), 'PyLong_AsLongLong': (-2**63, 2**63 - 1),
         'PyLong_AsSsize_t': (-2**63, 2**63 - 1), 'PyNumber_AsSsize_t': (-2**63, 2**63 - 1)}
# C++ functions that cannot throw although not declared so
NOTHROW = {'sort', 'find', 'count', 'reverse', 'swap', 'min', 'max', 'fill', 'copy', 'iter_swap', 'distance', 'advance', 'equal', 'find_if', 'lower_bound', 'upper_bound', 'max_element', 'min_element',
           'qReverse', 'CPython_sort', 'rotate', 'move', 'operator*', 'operator++', 'operator--', 'lock_guard', '~lock_guard', 'accumulate'}
INTRIN_SKIP = ('llvm.experimental.noalias', 'llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.prefetch', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore')


HELPER = A('N', py=True)

LIMITS = re.compile(r'std::numeric_limits<([\w ]+)>::(min|max|lowest)\(')
INTW = {'char': (1, 8), 'signed char': (1, 8), 'unsigned char': (0, 8), 'short': (1, 16), 'unsigned short': (0, 16), 'int': (1, 32), 'unsigned int': (0, 32),
        'long': (1, 64), 'unsigned long': (0, 64), 'long long': (1, 64), 'unsigned long long': (0, 64)}

ORDERING = re.compile(r'std::operator(==|!=|<=|>=|<|>)\s*\(std::(?:strong|weak)_ordering, std::__cmp_cat::__unspec\)')
ORDPRED = {'==': 'eq', '!=': 'ne', '<': 'slt', '<=': 'sle', '>': 'sgt', '>=': 'sge'}

class Engine(Core):
    # ------------------------------------------------------------------ driver
    def op_call(self, ins, st):
        outs = self.do_call(ins, st)
        if outs is None:
            return None
        r = []
        for kind, s in outs:
            if kind == 'ok':
                r.append(('next', s))
            elif kind == 'throw':
                self.throw_out(ins, s)
        return r
    def throw_out(self, ins, s):
        self.escape(ins, s, 'raised by %s propagates' % self.callname(ins), self.callname(ins))
    def op_invoke(self, ins, st):
        outs = self.do_call(ins, st)
        if outs is None:
            outs = [('ok', st)]
        to = ins.x['to']
        r = []
        for kind, s in outs:
            if kind == 'ok':
                r.append((to[0], s))
            elif kind == 'throw':
                s.x['thrown'] = self.callname(ins)
                r.append((to[1], s))
        return r
    def callname(self, ins):
        n = ins.x.get('f')
        if not n:
            return 'a function pointer'
        c = self.p.callees[n]
        if c.kind in ('api', 'c', 'third'):
            return c.base
        if c.kind in ('vector', 'list'):
            return 'std::%s::%s' % (c.kind, c.meth)
        return c.meth or c.d.split('(')[0][:40]

    def do_call(self, ins, st):
        """None (single normal outcome) or list of ('ok'|'throw'|'dead', state)"""
        self.stat['calls'] += 1
        n = ins.x.get('f')
        if n is None:
            return self.indirect(ins, st)
        ca = self.p.callees[n]
        if ca.kind == 'c' and ca.base.startswith(INTRIN_SKIP):
            return None
        m = LIMITS.match(ca.d) if ca.kind == 'other' else None
        if m and m.group(1) in INTW:
            sg, w = INTW[m.group(1)]
            self.setv(st, ins, (-(1 << (w - 1)) if sg else 0) if m.group(2) != 'max' else (1 << (w - sg)) - 1 if (sg, w) != (0, 64) else -1)
            return None
        args = [self.val(st, o) for o in ins.ops]
        if ca.kind == 'other' and len(args) == 1 and (m := ORDERING.match(ca.d)) and ins.id >= 0:
            self.setv(st, ins, ('cmp', ORDPRED[m.group(1)], args[0], 0))
            return None
        self.on_call(ins, st, ca, args)
        k = ca.kind
        if k == 'api':
            return self.api(ins, st, ca, args)
        if k == 'c':
            return self.cfun(ins, st, ca, args)
        if k in ('vector', 'list'):
            m = getattr(self, 'v_' + MNAME.get(ca.meth, ca.meth).replace('~', 'd_'), None)
            if ca.meth == 'vector' or ca.meth == 'list':
                m = self.v_ctor
            elif ca.meth.startswith('~'):
                m = self.v_dtor
            c = args[0] if args else 0
            if c == 0:
                self.report('nullderef', 'uses a container through a null pointer', ins, key='null-container')
                return []
            if isinstance(c, tuple) and c[0] == 'st':
                c = c[1]
            if self.owning(ca.elem):
                st.x[('kind', c)] = 'objs'
            throws = not (ca.nu or ins.x.get('nu')) and not ca.meth.startswith('~')
            if throws and ca.meth in ('push_back', 'emplace_back') and cannot_throw(self.p, self.fn, ins):
                throws = False
            if m is None:
                self.havoc(st, c, ins)
                r = self.newsym(st, ins) if ins.id >= 0 else None
                if r is not None:
                    self.setv(st, ins, r)
                return self.with_throw(ins, st, throws)
            s2 = None
            if throws:
                s2 = st.copy()
                self.v_throw(ins, s2, ca, c, args)
            r = m(ins, st, ca, c, args)
            outs = [('ok', st)] if r is None else r
            if s2 is not None:
                outs.append(('throw', s2))
            return outs if len(outs) != 1 or outs[0][0] != 'ok' else self.only(outs, st)
        if k in ('vit', 'lit'):
            return self.iterfun(ins, st, ca, args)
        if k == 'iterop':
            return self.iterop(ins, st, ca, args)
        if k == 'third':
            return self.third(ins, st, ca, args)
        return self.other(ins, st, ca, args)
    def only(self, outs, st):
        return None if outs[0][1] is st else outs
    def with_throw(self, ins, st, throws):
        if not throws:
            return None
        return [('ok', st), ('throw', st.copy())]
    def on_call(self, ins, st, ca, args):
        pass
    def on_mutate(self, ins, st, c, how):
        """container c changes its contents"""
        pass
    def on_pos(self, ins, st, c, idx, what, end_ok):
        """position idx of c used for `what`; must be < size (<= size if end_ok)"""
        pass
    def v_throw(self, ins, st, ca, c, args):
        pass

    # ------------------------------------------------------------------ indirect calls
    def indirect(self, ins, st):
        self_f = self.val(st, ins.x.get('ind'))
        args = [self.val(st, o) for o in ins.ops]
        if isinstance(self_f, tuple) and self_f[0] == 'ts':
            name = self.tpmember(self_f[1])
            if name == 'tp_free':
                if args:
                    self.freed_self(ins, st, args[0])
                return None
            if name == 'tp_alloc':
                return self.newobj(ins, st, 'PyType_GenericAlloc', args)
            if name in ('tp_iternext',):
                return self.api_generic(ins, st, API['PyIter_Next'], 'PyIter_Next', args)
            if st.gil:
                self.report('gil', 'calls a type slot without the GIL', ins, key='call:' + str(name))
            self.pyrun(st, ins, 'calling a type slot')
            if ins.ty == 'ptr':
                s2 = st.copy()
                v = self.newsym(st, ins, 'o')
                self.setfact(st, v, lo=1)
                st.own[v] = 1
                self.setv(st, ins, v)
                s2.exc = 1
                self.setv(s2, ins, 0)
                return [('ok', st), ('ok', s2)]
        if isinstance(self_f, tuple) and self_f[0] == 'g' and self_f[1] in self.p.callees:
            pass
        if ins.id >= 0:
            v = self.newsym(st, ins)
            self.setv(st, ins, v)
            if ins.ty == 'ptr':
                self.setfact(st, v, lo=1)
        return self.with_throw(ins, st, not ins.x.get('nu'))
    def tpmember(self, off):
        for m in self.p.structs.get('_typeobject', []):
            if m[1] == off:
                return m[0]
        return '?%s' % off
    def freed_self(self, ins, st, a):
        if is_sym(a):
            st.x['freedself'] = 1

    # ------------------------------------------------------------------ Python C API
    def api(self, ins, st, ca, args):
        n = ca.base
        if st.gil and n not in NOGIL:
            self.report('gil', 'calls %s while the GIL is released' % n, ins, key='call:' + n)
        h = getattr(self, 'py_' + n, None)
        if h is not None:
            return h(ins, st, args)
        spec = API.get(n)
        if spec is None:
            # nothing is known about it: succeeds, or fails with an exception
            self.imprecise('unknown API function ' + n)
            if ins.id < 0:
                return None
            v = self.newsym(st, ins, 'p' if ins.ty == 'ptr' else 's')
            s2 = st.copy()
            if ins.ty == 'ptr':
                self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            s2.exc = 1
            self.setv(s2, ins, 0 if ins.ty == 'ptr' else -1)
            return [('ok', st), ('ok', s2)]
        return self.api_generic(ins, st, spec, n, args)

    def nullargs(self, ins, st, spec, n, args):
        objs = spec.objs
        bad = False
        for k, a in enumerate(args):
            if objs is not None and k not in objs:
                continue
            if k in spec.nul:
                continue
            if objs is None and not self.ptrarg(ins, k):
                continue
            self.stat['obl'] += 1
            if a == 0:
                self.report('nullderef', 'passes a null pointer to %s' % n, ins, key='null-arg:' + n)
                bad = True
        return bad
    def ptrarg(self, ins, k):
        o = ins.ops[k]
        if o == 'null':
            return True
        if isinstance(o, str) and o[0] == '%':
            d = self.fn.defs.get(o)
            if d is not None:
                return d.ty == 'ptr'
            j = int(o[1:])
            return j < len(self.fn.args) and self.fn.args[j] == 'ptr'
        return isinstance(o, str) and o[0] == '@'

    def api_generic(self, ins, st, spec, n, args):
        r = spec.ret
        if self.nullargs(ins, st, spec, n, args):
            return []
        if st.exc and not spec.excok and (spec.py or r in ('N', 'S', 'T', 'L', 'I', 'PA', 'P')):
            self.report('exc', 'calls %s while an exception is already set' % n, ins, key='pending:' + n)
            return []
        fails = r in ('N', 'B', 'S', 'T', 'L', 'I', 'P', 'PA')
        py = spec.py
        a0 = args[0] if args else None
        ty = self.typeof(st, a0)
        if n in INTCONV and ty == 'int':
            py = False
            if n in ('PyNumber_Index',):
                fails = False
        if n in NEEDS and ty == NEEDS[n]:
            fails = False
        if n in INTCONV and 0 < st.x.get(('fits', a0), 99) <= INTBITS.get(n, 0):
            fails = False
        if n in ('PySequence_Fast', 'PyObject_Size', 'PySequence_Size', 'PyObject_Length', 'PySequence_Length', 'PySequence_GetItem', 'PyObject_GetIter', 'PyObject_LengthHint') and ty in ('list', 'tuple', 'str', 'bytes', 'dict'):
            py = False
        if py:
            self.pyrun(st, ins, 'calling ' + n)
        for k in spec.steal:
            if k < len(args):
                self.steal(st, args[k], ins)
        out = []
        for k, kind in spec.outs.items():
            if k < len(args) and args[k] != 0:
                b, off = split(args[k])
                v = self.newsym(st, ins, 'p' if kind == 'p' else 's', 'w%d' % k)
                if kind == 'z':
                    self.setfact(st, v, lo=0, hi=2**63 - 1)
                elif kind == 'p':
                    self.setfact(st, v, lo=1)
                elif kind == 'f':
                    v = 0
                    s3 = st.copy()
                    w = self.newsym(s3, ins, 's', 'w%d' % k)
                    self.setfact(s3, w, ne=0)
                    s3.mem[(b, off)] = w
                    self.setv(s3, ins, -1)
                    out.append(('ok', s3))
                if isinstance(b, tuple) or is_sym(b):
                    st.mem[(b, off)] = v
        s2 = st.copy() if fails else None
        if r in ('N', 'Nx'):
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            st.own[v] = 1
            if n in PLAIN:
                st.x[('plain', v)] = 1
            if n in CREATES:
                st.x[('istype', v)] = CREATES[n]
            self.setv(st, ins, v)
            self.created(ins, st, v, n, args)
        elif r in ('B', 'Bx'):
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
        elif r == 'Bn':
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            s3 = st.copy()
            self.setv(s3, ins, 0)
            out.append(('ok', s3))
        elif r == 'it':
            s2, s3 = st.copy(), st.copy()
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            st.own[v] = 1
            self.setv(st, ins, v)
            self.setv(s2, ins, 0)
            self.setv(s3, ins, 0)
            s3.exc = 1
            return [('ok', st), ('ok', s2), ('ok', s3)]
        elif r == 'S':
            self.setv(st, ins, 0)
        elif r in ('T', 'b'):
            v = self.newsym(st, ins)
            self.setfact(st, v, lo=0, hi=1)
            self.setv(st, ins, v)
        elif r in ('L', 'z'):
            v = self.newsym(st, ins)
            # lists, tuples and dicts hold pointers
            self.setfact(st, v, lo=0, hi=(2**63 - 1) // 8 if re.match(r'Py(List|Tuple|Dict|Sequence_Fast)_', n) else 2**63 - 1)
            self.setv(st, ins, v)
        elif r in ('I', 'i'):
            v = self.newsym(st, ins)
            lo, hi = RANGE.get(n, (None, None))
            if lo is not None:
                self.setfact(st, v, lo=lo, hi=hi)
            self.setv(st, ins, v)
            st.x[('conv', v)] = n
        elif r == 'M':
            s2 = st.copy()
            v = self.newsym(st, ins, 'm')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            if n.endswith('Calloc'):
                st.x[('zeroed', ('blk', v))] = 1
            self.setv(s2, ins, 0)
            return [('ok', st), ('ok', s2)]
        elif r == 'P':
            v = self.newsym(st, ins, 'p')
            if n != 'PyLong_AsVoidPtr':
                self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
        elif r == 'E0':
            st.exc = 1
            if ins.id >= 0:
                self.setv(st, ins, 0)
            return None
        elif r == 'V':
            return None
        elif r == 'PA':
            return self.parse(ins, st, n, args)
        for k in spec.steal_ok:
            if k < len(args):
                self.steal(st, args[k], ins)
        out.insert(0, ('ok', st))
        if fails:
            s2.exc = 1
            self.setv(s2, ins, 0 if r in ('N', 'B', 'P') else -1)
            out.append(('ok', s2))
        return out if len(out) > 1 else None
    def created(self, ins, st, v, n, args):
        if n in ('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t'):
            d = self.fn.defs.get(ins.ops[0]) if isinstance(ins.ops[0], str) else None
            st.x[('fits', v)] = 32 if d is not None and d.op == 'sext' and self.srcbits(d) <= 32 else 64
        elif n in ('_PyObject_New', '_PyObject_GC_New', 'PyType_GenericAlloc'):
            t = args[0]
            st.x[('fresh', v)] = t[1] if isinstance(t, tuple) and t[0] == 'g' else '?'
        elif n in ('PyObject_CallObject', 'PyObject_CallNoArgs', '_PyObject_CallNoArgs', 'PyObject_Call') and args and isinstance(args[0], tuple) and args[0][0] == 'g':
            # an instance of one of the extension's own (exact) types
            if args[0][1] in self.p.globals or args[0][1].endswith('Type'):
                if len(args) < 2 or args[1] == 0 or st.x.get(('istype', args[1])) == 'tuple':
                    st.x[('newobj', v)] = 1
                st.x[('istype', v)] = args[0][1]
    def srcbits(self, d):
        o = d.ops[0]
        s = self.fn.defs.get(o) if isinstance(o, str) else None
        t = s.ty if s is not None else 'i64'
        if s is None and isinstance(o, str) and o[:1] == '%' and int(o[1:]) < len(self.fn.args):
            t = self.fn.args[int(o[1:])]
        return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else 64
    def newobj(self, ins, st, n, args):
        return self.api_generic(ins, st, API[n], n, args)
    def steal(self, st, v, ins):
        if is_sym(v) and v[0] == 'o':
            self.ownadd(st, v, -1)
    def typeof(self, st, a):
        return st.x.get(('istype', a)) if is_sym(a) else None

    # -- reference counting
    def py_Py_INCREF(self, ins, st, args):
        if args[0] == 0:
            self.report('nullderef', 'increments the reference count of a null pointer', ins, key='inc-null')
            return []
        self.inc(st, args[0], ins)
    def py_Py_DECREF(self, ins, st, args):
        if args[0] == 0:
            self.report('nullderef', 'decrements the reference count of a null pointer', ins, key='dec-null')
            return []
        self.dec(st, args[0], ins)
    def py_Py_XINCREF(self, ins, st, args):
        return self.xref(ins, st, args, self.inc)
    def py_Py_XDECREF(self, ins, st, args):
        return self.xref(ins, st, args, self.dec)
    def xref(self, ins, st, args, f):
        a = args[0]
        if a == 0:
            return None
        if self.is_ne(st, a, 0) or not is_sym(a):
            f(st, a, ins)
            return None
        s2 = st.copy()
        out = []
        if self.assume(st, ('cmp', 'ne', a, 0), True):
            f(st, a, ins)
            out.append(('ok', st))
        if self.assume(s2, ('cmp', 'eq', a, 0), True):
            out.append(('ok', s2))
        return out
    def py__Py_NewRef(self, ins, st, args):
        if args[0] == 0:
            self.report('nullderef', 'increments the reference count of a null pointer', ins, key='inc-null')
            return []
        self.inc(st, args[0], ins)
        self.setv(st, ins, args[0])
    py_Py_NewRef = py__Py_NewRef
    def py__Py_IsImmortal(self, ins, st, args):
        if is_sym(args[0]):
            st.x[('mort', args[0])] = 1
        self.setv(st, ins, 0)       # immortal objects need no balance
    def py__Py_Dealloc(self, ins, st, args):
        return None         # counted at the store of the decremented reference count
    def py_PyObject_Free(self, ins, st, args):
        a = args[0]
        if is_sym(a) and a[0] == 'o' and not self.role.get('dying'):
            # frees an object outright instead of releasing it
            self.ownadd(st, a, -1)
        return None
    py_PyObject_Del = py_PyObject_Free

    # -- types
    def py_Py_TYPE(self, ins, st, args):
        a = args[0]
        if a == 0:
            self.report('nullderef', 'takes the type of a null pointer', ins, key='type-null')
            return []
        self.setv(st, ins, ('typ', a) if is_sym(a) else self.newsym(st, ins, 'L'))
    def py_PyType_HasFeature(self, ins, st, args):
        t, f = args
        if isinstance(t, tuple) and t[0] == 'typ' and isinstance(f, int) and f in TPFLAG and is_sym(t[1]):
            want = TPFLAG[f]
            o = t[1]
            have = st.x.get(('istype', o))
            if have is not None:
                self.setv(st, ins, 1 if have == want else 0)
                return None
            no = st.x.get(('isnot', o), ())
            if want in no:
                self.setv(st, ins, 0)
                return None
            s2 = st.copy()
            st.x[('istype', o)] = want
            self.setv(st, ins, 1)
            s2.x[('isnot', o)] = tuple(sorted(set(no) | {want}))
            self.setv(s2, ins, 0)
            return [('ok', st), ('ok', s2)]
        v = self.newsym(st, ins)
        self.setfact(st, v, lo=0, hi=1)
        self.setv(st, ins, v)

    def decide(self, st, pred, a, b):
        if pred == 'eq':
            for p, q in ((a, b), (b, a)):
                if isinstance(p, tuple) and p[0] == 'typ':
                    if isinstance(q, tuple) and q[0] == 'g':
                        h = st.x.get(('istype', p[1]))
                        if h is not None:
                            if h == q[1] or BUILTIN.get(h) == q[1]:
                                return True if h == q[1] else None   # a subclass still has the flag
                            return False
                        if q[1] in st.x.get(('isnot', p[1]), ()):
                            return False
                        return None
                    if q == 0:
                        return False
        return Core.decide(self, st, pred, a, b)
    def assume_cmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            for p, q in ((a, b), (b, a)):
                if isinstance(p, tuple) and p[0] == 'typ' and isinstance(q, tuple) and q[0] == 'g' and is_sym(p[1]):
                    if pred == 'eq':
                        if st.x.get(('istype', p[1])) is None:
                            st.x[('istype', p[1])] = q[1]
                    else:
                        st.x[('isnot', p[1])] = tuple(sorted(set(st.x.get(('isnot', p[1]), ())) | {q[1]}))
                    return True
        return Core.assume_cmp(self, st, pred, a, b)
    def py_PyType_IsSubtype(self, ins, st, args):
        v = self.newsym(st, ins)
        self.setfact(st, v, lo=0, hi=1)
        self.setv(st, ins, v)
    def py_PyIndex_Check(self, ins, st, args):
        if args[0] == 0:
            self.report('nullderef', 'passes a null pointer to PyIndex_Check', ins, key='null-arg:PyIndex_Check')
            return []
        ty = self.typeof(st, args[0])
        if ty == 'int':
            self.setv(st, ins, 1)
            return None
        v = self.newsym(st, ins)
        self.setfact(st, v, lo=0, hi=1)
        self.setv(st, ins, v)

    def py_PyObject_IsTrue(self, ins, st, args):
        v = {'_Py_TrueStruct': 1, '_Py_FalseStruct': 0, '_Py_NoneStruct': 0}.get(args[0][1] if isinstance(args[0], tuple) and args[0][0] == 'g' else None)
        if v is None or st.exc:
            return self.api_generic(ins, st, API['PyObject_IsTrue'], 'PyObject_IsTrue', args)
        self.setv(st, ins, v)
    # -- exception state
    def py_PyErr_Occurred(self, ins, st, args):
        self.setv(st, ins, ('g', '*exception*') if st.exc else 0)
    def py_PyErr_Clear(self, ins, st, args):
        st.exc = 0
    def py_PyErr_Print(self, ins, st, args):
        st.exc = 0
    py_PyErr_WriteUnraisable = py_PyErr_Print
    def py_PyErr_Fetch(self, ins, st, args):
        was = st.exc
        st.exc = 0
        for a in args:
            b, k = split(a)
            v = 0
            st.mem[(b, k)] = v if not was else self.newsym(st, ins, 'o', 'f%d' % k)
    def py_PyErr_Restore(self, ins, st, args):
        st.exc = 1
    def py_PyErr_GetRaisedException(self, ins, st, args):
        if st.exc:
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            st.own[v] = 1
            self.setv(st, ins, v)
            st.exc = 0
        else:
            self.setv(st, ins, 0)
    def py_PyErr_SetRaisedException(self, ins, st, args):
        st.exc = 1
        self.steal(st, args[0], ins)
    def py_PyErr_ExceptionMatches(self, ins, st, args):
        if not st.exc:
            self.setv(st, ins, 0)
            return None
        s2 = st.copy()
        self.setv(st, ins, 1)
        self.setv(s2, ins, 0)
        return [('ok', st), ('ok', s2)]

    # -- GIL
    def py_PyEval_SaveThread(self, ins, st, args):
        if st.gil:
            self.report('gil', 'releases the GIL twice', ins, key='save-twice')
        st.gil = 1
        v = self.newsym(st, ins, 'ts')
        self.setfact(st, v, lo=1)
        self.setv(st, ins, v)
        self.pyrun(st, ins, 'releasing the GIL')
    def py_PyEval_RestoreThread(self, ins, st, args):
        if not st.gil:
            self.report('gil', 'acquires the GIL although it is held', ins, key='restore-twice')
        st.gil = 0

    # -- strings built in place
    def py_PyUnicode_AppendAndDel(self, ins, st, args, dele=True):
        p = args[0]
        b, k = split(p)
        left = st.mem.get((b, k))
        right = args[1]
        if left == 0:
            # documented: nothing happens except that the right operand is released
            if dele and right != 0:
                self.steal(st, right, ins)
            return None
        if is_sym(left):
            self.steal(st, left, ins)
        if dele and is_sym(right):
            self.steal(st, right, ins)
        if right == 0:
            if not st.exc:
                pass
            st.mem[(b, k)] = 0
            return None
        s2 = st.copy()
        v = self.newsym(st, ins, 'o')
        self.setfact(st, v, lo=1)
        st.own[v] = 1
        st.x[('plain', v)] = 1
        st.mem[(b, k)] = v
        s2.mem[(b, k)] = 0
        s2.exc = 1
        return [('ok', st), ('ok', s2)]
    def py_PyUnicode_Append(self, ins, st, args):
        return self.py_PyUnicode_AppendAndDel(ins, st, args, dele=False)

    # -- slices
    def py_PySlice_Unpack(self, ins, st, args):
        if self.nullargs(ins, st, API['PySlice_Unpack'], 'PySlice_Unpack', args):
            return []
        self.pyrun(st, ins, 'calling PySlice_Unpack')
        s2 = st.copy()
        for j, a in enumerate(args[1:4]):
            b, k = split(a)
            v = self.newsym(st, ins, 's', 'u%d' % j)
            st.mem[(b, k)] = v
            if j == 2:
                self.setfact(st, v, lo=-(2**63 - 1), ne=0)
        self.setv(st, ins, 0)
        s2.exc = 1
        self.setv(s2, ins, -1)
        for j, a in enumerate(args[1:4]):
            b, k = split(a)
            s2.mem[(b, k)] = self.newsym(s2, ins, 's', 'u%d' % j)
        return [('ok', st), ('ok', s2)]
    def py_PySlice_AdjustIndices(self, ins, st, args):
        ln, pa, pb, step = args
        ca, cb = split(pa), split(pb)
        n = self.newsym(st, ins, 's', 'n')
        a = self.newsym(st, ins, 's', 'a')
        b = self.newsym(st, ins, 's', 'b')
        st.mem[ca], st.mem[cb] = a, b
        self.setfact(st, n, lo=0)
        self.setfact(st, a, lo=-1)
        self.setfact(st, b, lo=-1)
        self.addrel(st, n, ln, 0)
        self.addrel(st, a, ln, 0)
        self.addrel(st, b, ln, 0)
        lo, hi = self.rng(st, step)
        if lo is not None and lo > 0:
            self.setfact(st, a, lo=0)
            self.setfact(st, b, lo=0)
        st.x[('slice', n)] = (ln, a, b, step)
        self.setv(st, ins, n)

    # -- argument parsing
    def parse(self, ins, st, n, args):
        if n == 'PyArg_ParseTupleAndKeywords':
            fmt, outs = ins.ops[2], args[4:]
        elif n == 'PyArg_ParseTuple':
            fmt, outs = ins.ops[1], args[2:]
        elif n == 'PyArg_UnpackTuple':
            return self.parse_units(ins, st, ['O'] * (len(args) - 4), 0, args[4:])
        else:
            fmt, outs = ins.ops[1], args[2:]
        f = self.p.gstr(fmt)
        if f is None:
            self.imprecise('PyArg format unknown')
            f = ''
        units, opt = parse_format(f)
        return self.parse_units(ins, st, units, opt if opt is not None else len(units), outs)
    def parse_units(self, ins, st, units, opt, outs):
        s2 = st.copy()
        s2.exc = 1
        self.setv(s2, ins, 0)
        res = [('ok', s2)]
        states = [st]
        pos = 0
        for j, u in enumerate(units):
            k = UNIT_ARGS.get(u, 1)
            mine = outs[pos:pos + k]
            pos += k
            if not mine:
                continue
            tgt = mine[-1] if u != 's#' else mine[0]
            b, off = split(tgt)
            nxt = []
            for s in states:
                if j >= opt:
                    nxt.append(s.copy())
                if u in ('O', 'O!', 'U', 'S', 'Y'):
                    v = self.newsym(s, ins, 'o', 'p%d' % j)
                    self.setfact(s, v, lo=1)
                    s.x[('plain', v)] = 1
                    if u == 'O!' and isinstance(mine[0], tuple) and mine[0][0] == 'g':
                        t = mine[0][1]
                        s.x[('istype', v)] = {v2: k2 for k2, v2 in BUILTIN.items()}.get(t, t)
                else:
                    v = self.newsym(s, ins, 's', 'p%d' % j)
                    if u == 'p':
                        self.setfact(s, v, lo=0, hi=1)
                    elif u == 'i':
                        self.setfact(s, v, lo=-2**31, hi=2**31 - 1)
                    elif u in ('s', 'y'):
                        self.setfact(s, v, lo=1)
                s.mem[(b, off)] = v
                nxt.append(s)
            states = nxt[:64]
        for s in states:
            self.pyrun(s, ins, 'parsing arguments')
            self.setv(s, ins, 1)
            res.append(('ok', s))
        return res

    def py_PyDict_Next(self, ins, st, args):
        s2 = st.copy()
        self.setv(s2, ins, 0)
        for j, a in enumerate(args[2:4]):
            if a == 0:
                continue
            b, k = split(a)
            v = self.newsym(st, ins, 'o', 'd%d' % j)
            self.setfact(st, v, lo=1)
            st.mem[(b, k)] = v
        b, k = split(args[1])
        st.mem[(b, k)] = self.newsym(st, ins, 's', 'q')
        self.setv(st, ins, 1)
        return [('ok', st), ('ok', s2)]

    # ------------------------------------------------------------------ C functions
    def cfun(self, ins, st, ca, args):
        n = ca.base
        if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove') or n.startswith('llvm.memmove'):
            self.block_copy(ins, st, args[0], args[1], args[2])
            if ins.id >= 0:
                self.setv(st, ins, args[0])
            return None
        if n.startswith('llvm.memset') or n == 'memset':
            self.block_set(ins, st, args[0], args[1], args[2])
            if ins.id >= 0:
                self.setv(st, ins, args[0])
            return None
        if n in ('malloc', 'calloc', 'aligned_alloc'):
            s2 = st.copy()
            v = self.newsym(st, ins, 'm')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            self.setv(s2, ins, 0)
            return [('ok', st), ('ok', s2)]
        if n == 'realloc':
            s2 = st.copy()
            v = self.newsym(st, ins, 'm')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            self.setv(s2, ins, 0)
            return [('ok', st), ('ok', s2)]
        if n == 'free':
            self.free(ins, st, args[0])
            return None
        if n in ('__cxa_throw', '__cxa_rethrow'):
            st.x['thrown'] = 'throw'
            return [('throw', st)]
        if n in ('abort', 'exit', '_exit', '__assert_fail', '_ZSt9terminatev') or ca.noret:
            return []
        if n == '__cxa_begin_catch':
            v = self.newsym(st, ins, 'x')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            return None
        if n == '__cxa_allocate_exception':
            v = self.newsym(st, ins, 'x')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, v)
            return None
        if n.startswith('llvm.eh.typeid'):
            self.setv(st, ins, ('ti', ins.ops[0]))
            return None
        if n.startswith('llvm.is.constant'):
            self.setv(st, ins, 0)
            return None
        if n in ('fgets', 'fgetc', 'fread', 'read', 'scanf') and ins.id >= 0:
            v = self.newsym(st, ins, 'p')
            self.setv(st, ins, v)
            return None
        if n.startswith(('llvm.smax', 'llvm.umax', 'llvm.smin', 'llvm.umin')):
            return self.minmax(ins, st, n, args)
        if n.startswith('llvm.expect'):
            self.setv(st, ins, args[0])
            return None
        if ins.id >= 0:
            self.setv(st, ins, self.newsym(st, ins))
        return None
    def minmax(self, ins, st, n, args):
        a, b = args[:2]
        pred = 'slt' if 'smin' in n else 'sgt' if 'smax' in n else 'ult' if 'umin' in n else 'ugt'
        s2 = st.copy()
        out = []
        if self.assume(st, ('cmp', pred, a, b), True):
            self.setv(st, ins, a)
            out.append(('ok', st))
        if self.assume(s2, ('cmp', pred, a, b), False):
            self.setv(s2, ins, b)
            out.append(('ok', s2))
        return out
    def free(self, ins, st, a):
        if is_sym(a):
            st.x[('freed', ('blk', a))] = 1
            b = ('blk', a)
            if st.x.get(('lo', b)):
                pass
            self.make_stale_free(st, a)
    def make_stale_free(self, st, a):
        c = ('blk', a)
        def f(v):
            if isinstance(v, tuple):
                if v[0] == 'sl' and v[1] == c:
                    return ('st', v, 'freeing the memory')
                if v[0] == 'st':
                    return v
                return tuple(f(x) if isinstance(x, tuple) else x for x in v)
            return v
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {k: f(v) for k, v in st.mem.items()}
    def py_PyMem_Free(self, ins, st, args):
        self.free(ins, st, args[0])
    py_PyMem_RawFree = py_PyMem_Free

    def block_of(self, a):
        """(container, index) when a points into a block of elements"""
        if isinstance(a, tuple) and a[0] == 'st':
            a = a[1]
        if isinstance(a, tuple) and a[0] == 'sl':
            return a[1], a[2]
        if is_sym(a) and a[0] in 'mpL':
            return ('blk', a), 0
        return None
    def block_copy(self, ins, st, d, s, n):
        for a, w in ((d, 'writes'), (s, 'reads')):
            if self.known_zero(st, n):
                continue
            if self.badptr(st, a, ins, w):
                return
        bd, bs = self.block_of(d), self.block_of(s)
        if bd is None and bs is None and isinstance(n, int) and n <= 256:
            (db, dk), (sb, sk) = split(d), split(s)
            if isinstance(db, (str, tuple)) and isinstance(sb, (str, tuple)):
                src = {k: v for k, v in st.mem.items() if k[0] == sb and isinstance(k[1], int) and sk <= k[1] < sk + n}
                if isinstance(sb, tuple) and sb[0] == 'g':
                    src = {}
                for k in [k for k in st.mem if k[0] == db and isinstance(k[1], int) and dk <= k[1] < dk + n]:
                    del st.mem[k]
                if not src and n == 8 and not (isinstance(sb, tuple) and sb[0] == 'g'):
                    v = self.newsym(st, ins, 'L')
                    src = {(sb, sk): v}
                    st.mem[(sb, sk)] = v
                for k, v in src.items():
                    if is_sym(db):
                        ins_store = v
                    st.mem[(db, dk + k[1] - sk)] = v
                return
        self.on_block(ins, st, bd, bs, n)
        if bd is not None:
            c = bd[0]
            st.x.pop(('zeroed', c), None)
            if ('ef', c) in st.x:
                st.x[('ef', c)] = 0
            self.drop_slots(st, c)
            if st.x.get(('kind', c)) == 'objs' or (bs is not None and st.x.get(('kind', bs[0])) == 'objs'):
                lbs = any(isinstance(k, tuple) and k[0] == 'lbs' and v[0] == c for k, v in st.x.items())
                if lbs or not (isinstance(c, tuple) and c[0] == 'blk' or self.islocal(c) or ('newobj', split(c)[0]) in st.x or ('nulls', c) in st.x or self.known_zero(st, n)):
                    self.bulk_drop(st, c, ins, 'overwrites elements', (bd[1], None))
                cnt = n
                if ('mul', n) in st.x:      # elements * size
                    cnt = next((q for q in st.x[('mul', n)] if is_sym(q)), n)
                self.bulk_copy(st, c, bs[0] if bs else None, cnt if is_sym(cnt) else None, ins)
            self.on_mutate(ins, st, c, 'memcpy')
        elif isinstance(split(d)[0], tuple) and split(d)[0][0] == 'al':
            b = split(d)[0]
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
    def on_block(self, ins, st, d, s, n):
        pass
    def block_set(self, ins, st, d, v, n):
        if self.badptr(st, d, ins, 'writes') and not self.known_zero(st, n):
            return
        b = self.block_of(d)
        if b is not None:
            self.on_block(ins, st, b, None, n)
            self.drop_slots(st, b[0])
            self.on_mutate(ins, st, b[0], 'memset')
            return
        db, dk = split(d)
        if isinstance(db, (tuple, str)) and isinstance(n, int):
            for k in [k for k in st.mem if k[0] == db and isinstance(k[1], int) and dk <= k[1] < dk + n]:
                del st.mem[k]
            if v == 0 and n <= 256:
                for off in range(0, n, 8):
                    st.mem[(db, dk + off)] = 0

    # ------------------------------------------------------------------ iterators
    def ld(self, st, addr, ins, tag=''):
        if isinstance(addr, tuple) and addr[0] == 'st':
            addr = addr[1]
        if isinstance(addr, tuple) and addr[0] == 'sl':
            v = st.mem.get(addr)
            if v is None:
                v = self.newsym(st, ins, 'L', tag)
            return v
        b, k = split(addr)
        v = st.mem.get((b, k))
        if v is None:
            v = self.newsym(st, ins, 'I', tag)
            st.mem[(b, k)] = v
        return v
    def sto(self, st, addr, v):
        b, k = split(addr)
        st.mem[(b, k)] = v
    def usable(self, ins, st, v, what):
        if isinstance(v, tuple) and v[0] == 'st':
            self.report('stale', '%s an iterator obtained before %s' % (what, v[2]), ins, key='%s-iter|%s' % (what, v[2]))
            return v[1]
        return v
    def iterfun(self, ins, st, ca, args):
        m = ca.meth
        a0 = args[0]
        lst = ca.kind == 'lit'
        if m in ('__normal_iterator', '_List_const_iterator', '_List_iterator'):
            if len(args) > 1:
                self.sto(st, a0, self.ld(st, args[1], ins))
            return None
        if m == 'operator*':
            v = self.usable(ins, st, self.ld(st, a0, ins), 'reads')
            self.setv(st, ins, self.deref(ins, st, v, ca))
            return None
        if m in ('operator++', 'operator--'):
            v = self.ld(st, a0, ins)
            d = 1 if m == 'operator++' else -1
            if lst:
                v = self.usable(ins, st, v, 'advances')
            if isinstance(v, tuple) and v[0] == 'it':
                if d > 0:
                    self.on_pos(ins, st, v[1], v[2], 'list advance' if lst else 'advance', False)
                else:
                    self.on_pos(ins, st, v[1], add(v[2], -1), 'list step back' if lst else 'step back', False)
                nv = ('it', v[1], add(v[2], d))
            elif isinstance(v, tuple) and v[0] == 'st':
                nv = v
            else:
                nv = self.newsym(st, ins, 'I', 'n') if is_sym(v) else v
                if is_sym(v):
                    self.iter_step(ins, st, v, nv, d)
            self.sto(st, a0, nv)
            if ins.id >= 0:
                self.setv(st, ins, v if '(int)' in ca.args else a0)
            return None
        if m in ('operator+', 'operator-', 'operator+=', 'operator-='):
            v = self.ld(st, a0, ins)
            k = args[1]
            inner = v[1] if isinstance(v, tuple) and v[0] == 'st' else v
            if isinstance(inner, tuple) and inner[0] == 'it':
                if '+' in m:
                    p = self.sumv(st, ins, inner[2], k, 1, inner[1])
                else:
                    p = self.subv(st, ins, inner[2], k)
                nv = ('it', inner[1], p)
                if v is not inner:
                    nv = ('st', nv, v[2])
            else:
                nv = self.newsym(st, ins, 'I')
            if m.endswith('='):
                self.sto(st, a0, nv)
                self.setv(st, ins, a0)
            else:
                self.setv(st, ins, nv)
            return None
        if m in ('base', 'operator->'):
            v = self.usable(ins, st, self.ld(st, a0, ins), 'reads')
            self.setv(st, ins, self.deref(ins, st, v, ca))
            return None
        if m == 'operator[]':
            v = self.usable(ins, st, self.ld(st, a0, ins), 'reads')
            if isinstance(v, tuple) and v[0] == 'it':
                v = ('it', v[1], self.sumv(st, ins, v[2], args[1], 1, v[1]))
            self.setv(st, ins, self.deref(ins, st, v, ca))
            return None
        if ins.id >= 0:
            self.setv(st, ins, self.newsym(st, ins, 'I'))
        return None
    def subv(self, st, ins, i, j):
        if isinstance(j, int):
            return add(i, -j)
        (x, k), (y, l) = split(i), split(j)
        if x == y:
            return k - l
        s = self.newsym(st, ins)
        self.arith(st, '-', s, i, j)
        return s
    def advanced(self, ins, st, v, k, back, lst=False):
        if isinstance(v, tuple) and v[0] in ('it', 'sl'):
            if back:
                p = self.subv(st, ins, v[2], k)
            else:
                p = self.sumv(st, ins, v[2], k, 1, v[1])
            if lst and isinstance(k, int) and (k if back else -k) == 1:
                self.on_pos(ins, st, v[1], p, 'list step back', False)
            else:
                self.on_pos(ins, st, v[1], p, 'advance', True)
            return (v[0], v[1], p)
        nv = self.newsym(st, ins, 'I', 'n') if is_sym(v) else v
        if is_sym(v):
            self.iter_step(ins, st, v, nv, None)
        return nv
    def iter_step(self, ins, st, old, new, d):
        pass
    def deref(self, ins, st, v, ca):
        if isinstance(v, tuple) and v[0] == 'it':
            if ca.elem and self.owning(ca.elem.rstrip('*') + '*'):
                pass
            return ('sl', v[1], v[2])
        if is_sym(v):
            c = ('cur', v)
            if ca.elem and ca.elem.startswith('_object'):
                st.x[('kind', c)] = 'objs'
            return ('sl', c, 0)
        return self.newsym(st, ins, 'x')
    def iterop(self, ins, st, ca, args):
        m = ca.meth
        a, b = self.ld(st, args[0], ins, 'a'), self.ld(st, args[1], ins, 'b')
        lst = '_List_' in ca.args
        if m in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = self.usable(ins, st, a, 'compares'), self.usable(ins, st, b, 'compares')
            p = {'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'slt', 'operator>': 'sgt', 'operator<=': 'sle', 'operator>=': 'sge'}[m]
            if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it' and a[1] == b[1]:
                r = self.decide(st, p, a[2], b[2])
                self.setv(st, ins, int(r) if r is not None else ('cmp', p, a[2], b[2]))
                return None
            v = self.newsym(st, ins)
            self.setfact(st, v, lo=0, hi=1)
            self.setv(st, ins, v)
            return None
        if m == 'operator-':
            if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it' and a[1] == b[1]:
                self.setv(st, ins, self.subv(st, ins, a[2], b[2]))
                return None
        if ins.id >= 0:
            self.setv(st, ins, self.newsym(st, ins))
        return None

    # ------------------------------------------------------------------ containers
    def isobj(self, st, c):
        return st.x.get(('kind', c)) == 'objs'
    def vec(self, ca):
        return ca.kind == 'vector'
    def havoc(self, st, c, ins):
        self.setsize(st, c, None)
        self.drop_slots(st, c)
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'modifying the container')
        self.on_mutate(ins, st, c, 'unknown')
    def grow_stale(self, st, c, ca, why):
        if ca.kind == 'vector':
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), why)
        else:
            # list iterators stay valid; the end iterator stays the end iterator
            pass
    def refval(self, ins, st, addr):
        """value behind a const reference argument"""
        if isinstance(addr, tuple) and addr[0] == 'st':
            addr = addr[1]
        if isinstance(addr, tuple) and addr[0] == 'sl':
            c, i = addr[1], addr[2]
            v = st.mem.get(addr)
            if v is None and st.x.get(('kind', c)) == 'objs':
                v = self.load_elem(st, ins, c, i, True, True)
            return v
        b, k = split(addr)
        return st.mem.get((b, k))

    def v_ctor(self, ins, st, ca, c, args):
        st.x.pop(('lo', c), None)
        st.x.pop(('lb', c), None)
        st.x.pop(('lbs', c), None)
        self.bulk_clear(st, c)
        self.drop_slots(st, c)
        a = ca.args
        if a.startswith('()') or len(args) < 2:
            self.setsize(st, c, 0)
        elif a.startswith('(unsigned long'):
            self.nonneg_size(ins, st, args[1])
            self.setsize(st, c, args[1])
            if self.isobj(st, c) and not self.known_zero(st, args[1]):
                if 'const&' in a.split(',')[1] and '_object*' in a:
                    v = self.refval(ins, st, args[2])
                    self.fill(ins, st, c, args[1], v)
                else:
                    v = 0
                    st.x[('nulls', c)] = 1
                if v == 0 and self.islocal(c):
                    st.x[('zeroed', c)] = 1
        elif a.startswith('(std::vector') or a.startswith('(std::__cxx11::list'):
            s = args[1]
            if '&&' in a:
                self.move_from(ins, st, c, s)
            else:
                n = self.size(st, s, ins)
                self.setsize(st, c, n)
                if self.isobj(st, c):
                    self.bulk_copy(st, c, s, n, ins)
        elif a.startswith('(__gnu_cxx') or a.startswith('(std::_List'):
            self.fill_range(ins, st, ca, c, args[1], args[2])
        elif a.startswith('(std::allocator') or a.startswith('(AlignedAllocator'):
            self.setsize(st, c, 0)
        else:
            self.setsize(st, c, None)
            if self.isobj(st, c):
                self.bulk_copy(st, c, None, None, ins)
        self.constructed(ins, st, c)
    def constructed(self, ins, st, c):
        st.x[('ctor', c)] = 1
    def nonneg_size(self, ins, st, n):
        pass
    def move_from(self, ins, st, c, s):
        self.settle(st, s)
        n = st.mem.get(('sz', s))
        self.setsize(st, c, n)
        self.setsize(st, s, 0)
        st.x.pop(('lbs', s), None)
        for t in ('lo', 'lb'):
            if ('lo', s) in st.x and t == 'lo':
                st.x.pop(('lo', s))
                if self.islocal(c):
                    st.x[('lo', c)] = 1
            elif (t, s) in st.x:
                st.x.pop((t, s))
                if self.islocal(c):
                    st.x[(t, c)] = 1
                elif t == 'lb' and not (n is not None and self.known_zero(st, n)):
                    self.bulk_note(st, c, ('cp', ins.bb, ins.idx), -1, None, n)
        for k in [k for k in st.bulk if k[0] == s]:
            v = st.bulk.pop(k)
            st.bulk[(c, k[1])] = v
        self.drop_slots(st, s)
    def v_dtor(self, ins, st, ca, c, args):
        if self.isobj(st, c):
            self.bulk_drop(st, c, ins, 'destroys the container')
        self.setsize(st, c, None)
        self.drop_slots(st, c)
        self.destroyed(ins, st, c)
    def destroyed(self, ins, st, c):
        for t in ('lo', 'lb', 'lbs', 'kind', 'ctor', 'zeroed', 'ef'):
            st.x.pop((t, c), None)
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'destroying the container')
    def v_assign_op(self, ins, st, ca, c, args):
        s = args[1]
        if isinstance(s, tuple) and s[0] == 'st':
            s = s[1]
        same = c == s
        if ins.id >= 0:
            self.setv(st, ins, c)
        if same:
            return None
        if self.isobj(st, c):
            self.bulk_drop(st, c, ins, 'overwrites the container')
        self.drop_slots(st, c)
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'assigning to the container')
        if '&&' in ca.args:
            self.move_from(ins, st, c, s)
        else:
            n = self.size(st, s, ins)
            self.setsize(st, c, n)
            if self.isobj(st, c):
                self.bulk_copy(st, c, s, n, ins)
        self.on_mutate(ins, st, c, 'assign')
    def v_begin(self, ins, st, ca, c, args):
        self.setv(st, ins, ('it', c, 0))
    v_cbegin = v_begin
    def v_end(self, ins, st, ca, c, args):
        self.setv(st, ins, ('it', c, self.size(st, c, ins)))
    v_cend = v_end
    def v_size(self, ins, st, ca, c, args):
        self.setv(st, ins, self.size(st, c, ins))
    def v_empty(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        r = self.decide(st, 'eq', n, 0)
        self.setv(st, ins, int(r) if r is not None else ('cmp', 'eq', n, 0))
    def v_data(self, ins, st, ca, c, args):
        self.setv(st, ins, ('sl', c, 0))
    def v_capacity(self, ins, st, ca, c, args):
        v = self.newsym(st, ins)
        self.setfact(st, v, lo=0)
        self.setv(st, ins, v)
    v_max_size = v_capacity
    def v_index(self, ins, st, ca, c, args):
        self.setv(st, ins, ('sl', c, args[1]))
    def v_at(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        self.assume(st, ('cmp', 'ult', args[1], n), True)
        self.setv(st, ins, ('sl', c, args[1]))
    def v_back(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        self.on_pos(ins, st, c, add(n, -1), 'read the last element', False)
        self.setv(st, ins, ('sl', c, add(n, -1)))
    def v_front(self, ins, st, ca, c, args):
        self.on_pos(ins, st, c, 0, 'read the first element', False)
        self.setv(st, ins, ('sl', c, 0))
    def v_push_back(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        v = self.refval(ins, st, args[1]) if len(args) > 1 else 0
        if self.isobj(st, c):
            if v is None:
                v = self.newsym(st, ins, 'u')
            self.consume(st, c, v, ins)
        self.grow_stale(st, c, ca, 'appending to the vector')
        if ca.kind == 'list':
            self.move_end(st, c, n, add(n, 1))
        if v is not None and not (isinstance(v, tuple) and v[0] == 'st'):
            st.mem[('sl', c, n)] = v
        self.setsize(st, c, add(n, 1))
        self.mutated(ins, st, c, 'push_back')
        if ca.meth == 'emplace_back' and ins.id >= 0:
            self.setv(st, ins, ('sl', c, n))
    v_emplace_back = v_push_back
    def mutated(self, ins, st, c, how):
        self.on_mutate(ins, st, c, how)
    def move_end(self, st, c, old, new):
        def f(a):
            if isinstance(a, tuple):
                if a[0] == 'it' and a[1] == c and a[2] == old:
                    return ('it', c, new)
                return tuple(f(x) if isinstance(x, tuple) else x for x in a)
            return a
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {k: f(v) for k, v in st.mem.items()}
    def blur(self, st, c, ins):
        """positions of list iterators are no longer known"""
        t = [0]
        def f(a):
            if isinstance(a, tuple):
                if a[0] in ('it', 'sl') and a[1] == c:
                    t[0] += 1
                    return (a[0], c, self.newsym(st, ins, 'j', 'b%d' % t[0]))
                return tuple(f(x) if isinstance(x, tuple) else x for x in a)
            return a
        st.env = {k: f(v) for k, v in list(st.env.items())}
        st.mem = {(k if k[0] != 'sl' else k): f(v) for k, v in list(st.mem.items())}
    def v_push_front(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        v = self.refval(ins, st, args[1]) if len(args) > 1 else 0
        if self.isobj(st, c):
            self.consume(st, c, v if v is not None else 'u', ins)
        self.drop_slots(st, c)
        self.blur(st, c, ins)
        self.setsize(st, c, add(n, 1))
        self.mutated(ins, st, c, 'push_front')
    v_emplace_front = v_push_front
    def v_pop_back(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        self.on_pos(ins, st, c, add(n, -1), 'remove the last element', False)
        i = add(n, -1)
        if self.isobj(st, c):
            self.adopt(st, c, i, ins, 'removes the last element')
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'removing the element', exact=i)
        st.mem.pop(('sl', c, i), None)
        self.move_end(st, c, n, i)
        self.setsize(st, c, i)
        self.mutated(ins, st, c, 'pop_back')
    def v_pop_front(self, ins, st, ca, c, args):
        n = self.size(st, c, ins)
        self.on_pos(ins, st, c, 0, 'remove the first element', False)
        if self.isobj(st, c):
            self.adopt(st, c, 0, ins, 'removes the first element')
        self.drop_slots(st, c)
        self.blur(st, c, ins)
        self.setsize(st, c, add(n, -1))
        self.mutated(ins, st, c, 'pop_front')
    def v_clear(self, ins, st, ca, c, args):
        if self.isobj(st, c):
            self.bulk_drop(st, c, ins, 'clears the container')
        self.drop_slots(st, c)
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'clearing the container')
        self.setsize(st, c, 0)
        self.mutated(ins, st, c, 'clear')
    def v_reserve(self, ins, st, ca, c, args):
        if ca.kind == 'vector':
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'reserving capacity')
        self.realloced(ins, st, c, 'reserve')
    def v_shrink_to_fit(self, ins, st, ca, c, args):
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'shrinking the capacity')
        self.realloced(ins, st, c, 'shrink_to_fit')
    def realloced(self, ins, st, c, how):
        pass
    def v_resize(self, ins, st, ca, c, args):
        n = args[1]
        old = self.size(st, c, ins)
        self.nonneg_size(ins, st, n)
        if self.isobj(st, c):
            grow = self.decide(st, 'sle', old, n)
            shrink = self.decide(st, 'sle', n, old)
            outs = []
            if grow is not True:
                s2 = st.copy()
                if self.assume(s2, ('cmp', 'slt', n, old), True):
                    self.bulk_drop(s2, c, ins, 'shrinks the container', (n, None))
                    self.resized(ins, s2, ca, c, n)
                    outs.append(('ok', s2))
            if shrink is not True or grow is True:
                if self.assume(st, ('cmp', 'sle', old, n), True):
                    v = self.refval(ins, st, args[2]) if len(args) > 2 else 0
                    if v == 0:
                        st.x[('nulls', c)] = 1
                    self.fill(ins, st, c, n, v)
                    self.resized(ins, st, ca, c, n)
                    outs.append(('ok', st))
            return outs
        self.resized(ins, st, ca, c, n)
    def resized(self, ins, st, ca, c, n):
        if ca.kind == 'vector':
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'resizing the container')
        else:
            self.blur(st, c, ins)
        self.drop_slots(st, c)
        self.setsize(st, c, n)
        self.mutated(ins, st, c, 'resize')
    def fill(self, ins, st, c, n, v):
        """n references to v are stored in c"""
        if v == 0 or (isinstance(v, tuple) and v[0] == 'g'):
            return
        if isinstance(v, str):
            self.bulk_copy(st, c, None, n if isinstance(n, (str, tuple)) else None, ins)
    def fill_range(self, ins, st, ca, c, a, b):
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, tuple) and a[0] in ('it', 'sl') and isinstance(b, tuple) and b[0] == a[0] and a[1] == b[1]:
            n = self.diff(ins, st, b[2], a[2])
            old = st.mem.get(('sz', c))
            src = a[1]
        else:
            n, src = None, None
        if self.isobj(st, c):
            self.bulk_copy(st, c, src, n, ins)
            if ('lbs', c) in st.x and src is not None:
                st.x[('lbs', c)] = (src, a[2], n)
        return n
    def plain(self, a):
        return a[1] if isinstance(a, tuple) and a[0] == 'st' else a
    def diff(self, ins, st, i, j):
        if isinstance(j, int):
            return add(i, -j)
        (x, k), (y, l) = split(i), split(j)
        if x == y:
            return k - l
        s = self.newsym(st, ins, 's', 'd')
        self.arith(st, '-', s, i, j)
        return s
    def v_assign(self, ins, st, ca, c, args):
        if self.isobj(st, c):
            self.bulk_drop(st, c, ins, 'overwrites the container')
        self.drop_slots(st, c)
        self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'assigning to the container')
        if ca.args.startswith('(unsigned long'):
            self.setsize(st, c, args[1])
            if self.isobj(st, c):
                self.fill(ins, st, c, args[1], self.refval(ins, st, args[2]))
        else:
            n = self.fill_range(ins, st, ca, c, args[1], args[2])
            self.setsize(st, c, n)
        self.mutated(ins, st, c, 'assign')
    def itarg(self, ins, st, a, what):
        """iterator passed by value (or by address of a local)"""
        if isinstance(a, tuple) and a[0] in ('al',) or (isinstance(a, tuple) and a[0] == '+'):
            a = self.ld(st, a, ins)
        if isinstance(a, tuple) and a[0] == 'st':
            self.report('stale', '%s with an iterator obtained before %s' % (what, a[2]), ins, key='%s-iter|%s' % (what, a[2]))
            a = a[1]
        return a
    def v_insert(self, ins, st, ca, c, args):
        parts = ca.args[1:]
        pos = self.itarg(ins, st, args[1], 'inserts')
        i = pos[2] if isinstance(pos, tuple) and pos[0] == 'it' else None
        n = self.size(st, c, ins)
        if i is not None:
            self.on_pos(ins, st, c, i, 'insert', True)
        cnt = 1
        newval = None
        if len(args) == 3:
            v = self.refval(ins, st, args[2])
            if v is None:
                v = self.newsym(st, ins, 'u')
            newval = v
            if self.isobj(st, c):
                self.consume(st, c, v, ins)
        elif len(args) == 4 and re.search(r', unsigned long,', ca.args):
            cnt = args[2]
            self.nonneg_size(ins, st, cnt)
            if self.isobj(st, c):
                self.fill(ins, st, c, cnt, self.refval(ins, st, args[3]))
        elif len(args) == 4:
            cnt = self.fill_range(ins, st, ca, c, self.itarg(ins, st, args[2], 'inserts'), self.itarg(ins, st, args[3], 'inserts'))
        else:
            cnt = None
        self.drop_slots(st, c)
        end = i is not None and i == n
        if ca.kind == 'vector':
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'inserting into the vector')
        elif not end:
            self.blur(st, c, ins)
        if cnt is None:
            self.setsize(st, c, None)
        else:
            nn = self.sumv(st, ins, n, cnt, 1, c)
            if end and ca.kind == 'list':
                self.move_end(st, c, n, nn)
            self.setsize(st, c, nn)
            if is_sym(nn):
                self.setfact(st, nn, lo=0)
        if newval is not None and i is not None:
            st.mem[('sl', c, i)] = newval
        self.mutated(ins, st, c, 'insert')
        if ins.id >= 0:
            self.setv(st, ins, ('it', c, i) if i is not None else self.newsym(st, ins, 'I'))
    v_emplace = v_insert
    def v_erase(self, ins, st, ca, c, args):
        pos = self.itarg(ins, st, args[1], 'erases')
        n = self.size(st, c, ins)
        if len(args) == 2:
            if isinstance(pos, tuple) and pos[0] == 'it':
                i = pos[2]
                self.on_pos(ins, st, c, i, 'erase', False)
                if self.isobj(st, c):
                    self.adopt(st, c, i, ins, 'removes an element')
                self.stale_from(st, c, i, ca)
                self.drop_slots(st, c)
                self.setsize(st, c, add(n, -1))
                if ca.kind == 'list':
                    self.move_end(st, c, n, add(n, -1))
                r = ('it', c, i)
            elif is_sym(pos):
                if self.isobj(st, c):
                    self.adopt(st, ('cur', pos), 0, ins, 'removes an element')
                self.erase_sym(ins, st, c, pos)
                self.drop_slots(st, c)
                self.setsize(st, c, add(n, -1))
                r = self.newsym(st, ins, 'I')
            else:
                r = self.newsym(st, ins, 'I')
                self.setsize(st, c, None)
        else:
            e = self.itarg(ins, st, args[2], 'erases')
            ok = isinstance(pos, tuple) and pos[0] == 'it' and isinstance(e, tuple) and e[0] == 'it'
            if self.isobj(st, c):
                if not (ok and pos[2] == e[2]):
                    self.bulk_drop(st, c, ins, 'removes a range', (pos[2], self.diff(ins, st, e[2], pos[2])) if ok else None)
            if ok:
                self.on_pos(ins, st, c, pos[2], 'erase', True)
                self.on_pos(ins, st, c, e[2], 'erase', True)
                d = self.diff(ins, st, e[2], pos[2])
                if isinstance(d, int):
                    self.setsize(st, c, add(n, -d))
                else:
                    s = self.newsym(st, ins, 's', 'z')
                    self.arith(st, '-', s, n, d)
                    self.setfact(st, s, lo=0)
                    self.setsize(st, c, s)
                self.stale_from(st, c, pos[2], ca)
                r = ('it', c, pos[2])
            else:
                self.setsize(st, c, None)
                self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'erasing elements')
                r = self.newsym(st, ins, 'I')
            self.drop_slots(st, c)
        self.mutated(ins, st, c, 'erase')
        if ins.id >= 0:
            self.setv(st, ins, r)
    def erase_sym(self, ins, st, c, pos):
        def f(a):
            if a == pos:
                return ('st', ('sl', ('cur', pos), 0), 'erasing the element')
            if isinstance(a, tuple):
                if a[0] == 'sl' and a[1] == ('cur', pos):
                    return ('st', a, 'erasing the element')
                if a[0] == 'st':
                    return a
                return tuple(f(x) if isinstance(x, tuple) else x for x in a)
            return a
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {k: f(v) for k, v in st.mem.items() if k[0] != 'sl'}
    def stale_from(self, st, c, i, ca):
        if ca.kind == 'vector':
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'erasing from the vector')
        else:
            self.make_stale(st, lambda x: x == c, ('it', 'sl'), 'erasing the element', exact=i)
    def v_swap(self, ins, st, ca, c, args):
        o = args[1]
        self.settle(st, c)
        self.settle(st, o)
        a, b = st.mem.get(('sz', c)), st.mem.get(('sz', o))
        self.setsize(st, c, b)
        self.setsize(st, o, a)
        for x in (c, o):
            st.x.pop(('zeroed', x), None)
            if ('ef', x) in st.x:
                st.x[('ef', x)] = 0
        other = {c: o, o: c}
        st.elem = {e: (other.get(x, x), i) for e, (x, i) in st.elem.items()}
        st.bulk = {(other.get(x, x), site): (n, other.get(src, src), ('szof', other.get(cnt[1], cnt[1])) if isinstance(cnt, tuple) and cnt[:1] == ('szof',) else cnt)
                   for (x, site), (n, src, cnt) in st.bulk.items()}
        if self.isobj(st, c) or self.isobj(st, o):
            for x, y in ((c, o), (o, c)):
                if self.islocal(x) and not self.islocal(y):
                    # the shared container takes the local elements, the local one takes over its references
                    if st.x.pop(('lb', x), None):
                        self.bulk_note(st, y, ('cp', ins.bb, ins.idx), -1)
                    st.x[('lo', x)] = 1
                    st.x[('kind', x)] = 'objs'
        self.drop_slots(st, c)
        self.drop_slots(st, o)
        self.make_stale(st, lambda x: x in (c, o), ('it', 'sl'), 'swapping the containers')
        self.mutated(ins, st, c, 'swap')
        self.mutated(ins, st, o, 'swap')
    def v_sort(self, ins, st, ca, c, args):
        self.drop_slots(st, c)
        self.mutated(ins, st, c, 'relink')
    v_reverse = v_sort
    def v_splice(self, ins, st, ca, c, args):
        """splice(pos, other[, first[, last]]): nodes move, with the references they hold"""
        pos = self.itarg(ins, st, args[1], 'splices')
        if isinstance(pos, tuple) and pos[0] == 'it':
            self.on_pos(ins, st, pos[1], pos[2], 'insert', True)
        o = self.plain(args[2])
        whole = len(args) == 3
        if whole:
            n = self.size(st, o, ins)
        elif len(args) == 4:
            n = 1
        else:
            a, b = self.itarg(ins, st, args[3], 'splices'), self.itarg(ins, st, args[4], 'splices')
            ok = isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it'
            n = self.diff(ins, st, b[2], a[2]) if ok else None
        if n == 0 or n is not None and self.known_zero(st, n):
            return None
        if c != o and (self.isobj(st, c) or self.isobj(st, o)):
            st.x[('kind', c)] = 'objs'
            if self.islocal(o):
                if whole:
                    self.settle(st, o)
                if ('lo', o) in st.x:
                    if self.islocal(c):
                        st.x[('lo', c)] = 1
                elif ('lb', o) in st.x:
                    if self.islocal(c):
                        st.x[('lb', c)] = 1
                    else:
                        self.bulk_note(st, c, ('cp', ins.bb, ins.idx), -1, None, n)
                if whole:
                    for t in ('lo', 'lb', 'lbs'):
                        st.x.pop((t, o), None)
                    self.bulk_move(st, o, c)
                    st.elem = {e: (c if x == o else x, i) for e, (x, i) in st.elem.items()}
            elif self.islocal(c):
                if ('lb', c) not in st.x:
                    st.x[('lo', c)] = 1
        if c != o:
            for d, sign in ((c, 1), (o, -1)):
                m = st.mem.get(('sz', d))
                if d == o and whole:
                    self.setsize(st, d, 0)
                elif m is None or n is None:
                    self.setsize(st, d, None)
                elif isinstance(n, int):
                    self.setsize(st, d, add(m, sign * n))
                elif m == 0 and sign > 0:
                    self.setsize(st, d, n)
                else:
                    s = self.newsym(st, ins, 's', 'z%d' % sign)
                    self.arith(st, '+' if sign > 0 else '-', s, m, n)
                    self.setfact(st, s, lo=0)
                    self.setsize(st, d, s)
            if whole:
                self.make_stale(st, lambda x: x == o, ('it', 'sl'), 'moving the elements away')
            else:
                i = self.plain(args[3])
                if isinstance(i, tuple) and i[0] == 'it':
                    self.make_stale(st, lambda x: x == o, ('it', 'sl'), 'moving the element away', exact=i[2])
        for d in {c, o}:
            self.drop_slots(st, d)
            self.mutated(ins, st, d, 'splice')
    def v_merge(self, ins, st, ca, c, args):
        self.havoc(st, c, ins)
        if len(args) > 1:
            self.havoc(st, args[1], ins)
    def v_remove(self, ins, st, ca, c, args):
        if self.isobj(st, c):
            self.bulk_drop(st, c, ins, 'removes elements')
        self.havoc(st, c, ins)
    v_remove_if = v_unique = v_remove
    def v_get_allocator(self, ins, st, ca, c, args):
        return None

    # ------------------------------------------------------------------ other functions
    def third(self, ins, st, ca, args):
        n = ca.base
        if n == 'CPython_sort':
            if st.gil:
                self.report('gil', 'sorts objects while the GIL is released', ins, key='call:' + n)
            self.pyrun(st, ins, 'sorting')
            for a in args:
                b = self.block_of(a)
                if b:
                    self.drop_slots(st, b[0])
                    self.on_mutate(ins, st, b[0], 'sort')
            s2 = st.copy()
            v = self.newsym(st, ins, 'o')
            self.setfact(st, v, lo=1)
            self.setv(st, ins, ('g', '_Py_NoneStruct'))
            self.setv(s2, ins, 0)
            s2.exc = 1
            return [('ok', st), ('ok', s2)]
        return self.other(ins, st, ca, args)
    def other(self, ins, st, ca, args):
        m = ca.meth
        d = ca.d
        if m == 'fast_memcpy' and len(args) == 3:
            self.block_copy(ins, st, args[0], args[1], args[2])
            return None
        if m in ('simdMemCpy', 'simdMemCpyAligned') and len(args) == 3:
            self.block_copy(ins, st, args[1], args[0], ('els', args[2]))
            return None
        if ca.name in self.p.helpers():
            return self.helper_call(ins, st, ca, args)
        vals = [self.itarg2(st, a) for a in args]
        conts = set()
        for a in vals:
            a = self.plain(a)
            if isinstance(a, tuple) and a[0] in ('it', 'sl'):
                conts.add(a[1])
        for a in vals:
            if isinstance(a, tuple) and a[0] == 'st' and m not in ('operator=',):
                self.report('stale', 'passes to %s an iterator obtained before %s' % (m, a[2]), ins, key='pass-%s|%s' % (m, a[2]))
        if m in ('find', 'find_if', 'lower_bound', 'upper_bound') and ins.id >= 0:
            a, b = self.plain(vals[0]), self.plain(vals[1])
            if isinstance(a, tuple) and a[0] in ('it', 'sl') and isinstance(b, tuple) and b[0] == a[0] and b[1] == a[1]:
                self.on_pos(ins, st, a[1], a[2], 'search from', True)
                self.on_pos(ins, st, b[1], b[2], 'search up to', True)
                s = self.newsym(st, ins, 'i')
                self.addrel(st, a[2], s, 0)
                self.addrel(st, s, b[2], 0)
                if m == 'find' and self.isobj(st, a[1]) and len(args) > 2:
                    v = self.refval(ins, st, args[2])
                    if is_sym(v) and v[0] == 'o':
                        st.mem[('sl', a[1], s)] = v
                self.setv(st, ins, (a[0], a[1], s))
                return None
        if m in ('next', 'prev') and ins.id >= 0 and 'std::' + m + '<' in d:
            a = self.usable(ins, st, vals[0], 'advances')
            k = args[1] if len(args) > 1 else 1
            self.setv(st, ins, self.advanced(ins, st, a, k, m == 'prev', '_List_' in d))
            return None
        if m in ('advance', '__advance') and 'std::' in d:
            v = self.usable(ins, st, self.ld(st, args[0], ins), 'advances')
            self.sto(st, args[0], self.advanced(ins, st, v, args[1], False, '_List_' in d))
            return None
        if m in ('distance', '__distance') and ins.id >= 0 and 'std::' in d:
            a, b = self.plain(vals[0]), self.plain(vals[1])
            if isinstance(a, tuple) and a[0] in ('it', 'sl') and isinstance(b, tuple) and b[0] == a[0] and b[1] == a[1]:
                self.setv(st, ins, self.subv(st, ins, b[2], a[2]))
                return None
        if m in ('count', 'distance', 'accumulate') and ins.id >= 0:
            s = self.newsym(st, ins)
            if m == 'count':
                self.setfact(st, s, lo=0)
            self.setv(st, ins, s)
            return None
        if m in ('sort', 'stable_sort', 'timsort', 'timmerge', 'reverse', 'rotate', 'simdsort', 'qReverse', 'random_shuffle'):
            for c in conts:
                self.drop_slots(st, c)
                self.mutated(ins, st, c, m)
            a, b = (self.plain(vals[0]), self.plain(vals[1])) if len(vals) > 1 else (None, None)
            if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it':
                self.on_pos(ins, st, a[1], a[2], m, True)
                self.on_pos(ins, st, b[1], b[2], m, True)
        elif m in ('swap', 'iter_swap'):
            for c in conts:
                self.drop_slots(st, c)
                self.mutated(ins, st, c, 'swap')
        elif conts and not ca.ro:
            for c in conts:
                self.drop_slots(st, c)
            out = set(conts)
            if m in COPIES and len(vals) >= 3 and 'std::' in d:
                v = self.plain(vals[2])
                out = {v[1]} if isinstance(v, tuple) and v[0] in ('it', 'sl') else set()
            if m not in READERS:
                for c in sorted(out, key=str):
                    self.mutated(ins, st, c, 'modify')
        if ins.id >= 0:
            v = self.newsym(st, ins)
            self.setv(st, ins, v)
            if m in ('operator new', 'operator new[]'):
                self.setfact(st, v, lo=1)
        throws = not (ca.nu or ins.x.get('nu')) and m not in NOTHROW and not m.startswith('_mm') and not (m or '').startswith('~')
        return self.with_throw(ins, st, throws)
    def helper_call(self, ins, st, ca, args):
        """function of another source file: returns a new reference or fails with an exception; analysed on its own"""
        return self.api_generic(ins, st, HELPER, ca.meth, args)
    def itarg2(self, st, a):
        if isinstance(a, tuple) and a[0] == 'al':
            v = st.mem.get((a, 0))
            if isinstance(v, tuple) and v[0] in ('it', 'sl', 'st'):
                return v
        return a

COPIES = {'copy', 'copy_n', 'copy_if', 'copy_backward', 'move', 'move_backward', 'transform', 'uninitialized_copy', 'reverse_copy'}
READERS = {'equal', 'lexicographical_compare', 'any_of', 'all_of', 'none_of', 'max_element', 'min_element', 'minmax_element', 'mismatch', 'search', 'binary_search',
           'is_sorted', 'count_if', 'find_if_not', 'find_first_of', 'adjacent_find', 'lower_bound', 'upper_bound', 'equal_range', 'begin', 'end', 'cbegin', 'cend', 'addressof',
           'forward', 'to_address', 'make_reverse_iterator', '__niter_base', '__miter_base', 'memcmp', 'inner_product', 'operator==', 'operator!=', 'operator<', 'operator-', 'operator+'}
BUILTIN = {'int': 'PyLong_Type', 'list': 'PyList_Type', 'tuple': 'PyTuple_Type', 'dict': 'PyDict_Type', 'str': 'PyUnicode_Type', 'bytes': 'PyBytes_Type', 'float': 'PyFloat_Type'}
MNAME = {'operator=': 'assign_op', 'operator[]': 'index'}
UNIT_ARGS = {'O!': 2, 'O&': 2, 's#': 2, 'y#': 2, 'z#': 2, 'es': 2, 'et': 2, 'es#': 3}

def parse_format(f):
    """units of a PyArg format, number of required ones (None: all)"""
    f = f.split(':')[0].split(';')[0]
    units, opt = [], None
    i = 0
    while i < len(f):
        c = f[i]
        if c == '|':
            opt = len(units)
        elif c in '$() ':
            pass
        else:
            u = c
            if c == 'e' and i + 1 < len(f):
                i += 1
                u += f[i]
            while i + 1 < len(f) and f[i + 1] in '#!&*':
                i += 1
                u += f[i]
            units.append(u)
        i += 1
    return units, opt
