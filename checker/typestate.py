"""C08 C14 C15 C16 C17 C18: typestate rules on containers inside extension objects, over the same
path-sensitive analysis as flow.py."""
import os, time, traceback, re
from multiprocessing import Pool
from ir import *
from engine import Limit, split, is_sym, add
from calls import Engine
from roles import role_of
from common import Result

RULE = {'C08': 'stamp', 'C14': 'iret', 'C15': 'life', 'C16': 'atomic', 'C17': 'readonly', 'C18': 'keep'}
TEXT = {
 'C08': 'every structural change of a stamped list is followed (or directly preceded) by an advance of the stamp before user code can run or the call ends; every use of a remembered list iterator happens while remembered stamp == list stamp; a remembered iterator is stored together with the current stamp',
 'C14': 'every return of every in-place slot: null, or argument 0 itself; a type with concatenation/repetition slots has the in-place ones too',
 'C15': 'native members: constructed exactly once on every path of tp_new before any use and before the object is handed out, destroyed exactly once before tp_free on every path of tp_dealloc, never constructed over a live member or left dead elsewhere; objects allocated without zeroing have every field assigned; tp_basicsize covers the object',
 'C16': 'on every failing return of a single-element mutator: no element store, insertion or removal happened on the path',
 'C17': 'no query entry point stores to, inserts into, removes from or reorders a container it did not create; arithmetic, copy and conversion never return an operand',
 'C18': 'iterator and buffer fields own a reference; every operation that can move the memory of an exporting container has established on the path, after the last point where user code can run, that no export is alive; export counter +1 / -1',
}
RELOC = {'push_back', 'push_front', 'insert', 'resize', 'assign', 'swap', 'reserve', 'shrink_to_fit', 'unknown', 'splice'}
STRUCT = {'push_back', 'push_front', 'pop_back', 'pop_front', 'clear', 'resize', 'assign', 'insert', 'erase', 'swap', 'relink', 'splice', 'unknown'}
READONLY_SLOTS = {'sq_length', 'mp_length', 'sq_item', 'mp_subscript', 'sq_contains', 'sq_concat', 'sq_repeat', 'nb_add', 'nb_multiply', 'nb_subtract',
                  'tp_iter', 'tp_repr', 'tp_str', 'tp_richcompare', 'tp_hash', 'nb_bool', 'tp_iternext', 'bf_getbuffer'}
READONLY_METHODS = {'__reversed__', 'copy', 'to_list', 'tolist', 'index', 'count', '__rmul__', '__mul__', '__add__', '__radd__', '__len__', '__getitem__',
                    '__contains__', 'keys', 'values', 'items', 'get', '__copy__', '__deepcopy__', 'from_range'}
FRESH_RESULT = {'sq_concat', 'sq_repeat', 'nb_add', 'nb_multiply', 'copy', 'to_list', 'tolist', '__rmul__', '__copy__', '__mul__', '__add__', '__radd__'}
SINGLE_METHODS = {'append', 'insert', 'pop', 'remove', 'resize', '__setitem__', '__delitem__', 'push', 'push_front', 'append_left', 'pop_left'}
INPLACE = {'sq_inplace_concat', 'sq_inplace_repeat', 'nb_inplace_add', 'nb_inplace_multiply'}
INPLACE_METHODS = {'__iadd__', '__imul__'}
API_MUT = {'PyList_Append', 'PyList_Insert', 'PyList_SetItem', 'PyList_SET_ITEM', 'PyList_Sort', 'PyList_Reverse', 'PyList_SetSlice', 'PySequence_SetItem',
           'PySequence_DelItem', 'PySequence_SetSlice', 'PySequence_DelSlice', 'PyObject_SetItem', 'PyObject_DelItem', 'PyDict_SetItem', 'PyDict_DelItem',
           'PySequence_InPlaceConcat', 'PySequence_InPlaceRepeat', 'PyNumber_InPlaceAdd', 'PyNumber_InPlaceMultiply', 'PyDict_SetItemString', 'PyDict_Clear', 'PyDict_Update'}
NATIVE = re.compile(r'^(std::)?(__cxx11::)?(vector|list|deque|map|unordered_map|set|unordered_set|basic_string|string|unique_ptr|shared_ptr|HashMap|emhash\w*|forward_list)\b')
FMT = {'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8, 'n': 8, 'N': 8, 'f': 4, 'd': 8}

class Types:
    """facts about the extension's object types, from debug information and the type tables"""
    def __init__(s, prog):
        s.p = prog
        s.native = {}       # struct -> {off: member}
        s.stamps = {}       # struct -> (list offsets, stamp offsets)
        for n, ms in prog.structs.items():
            if not ms or ms[0][0] != 'ob_base':
                continue
            nat = {m[1]: m for m in ms if NATIVE.match(m[3])}
            if nat:
                s.native[n] = nat
            lists = [m[1] for m in ms if re.match(r'(std::)?(__cxx11::)?list\b', m[3])]
            ints = [m[1] for m in ms if m[0] != 'ob_base' and m[1] not in nat and not m[4] and m[2] in (4, 8) and re.match(r'u?int|size_t|unsigned|long|Py_ssize_t|ssize_t', m[3])]
            if lists:
                s.stamps[n] = (lists, ints)
        prog.roots()
        s.slots = {}        # type object -> {slot: function}
        for (f, b), d in prog.type_slots.items():
            if not b.startswith('%'):
                s.slots.setdefault(b, {}).update({k: v for k, v in d.items() if k})
        for b, d in s.slots.items():
            for sub in ('tp_as_sequence', 'tp_as_mapping', 'tp_as_number', 'tp_as_buffer'):
                g = prog.globals.get(str(d.get(sub, '')).lstrip('@'))
                if g and isinstance(g['init'], list):
                    ty = g['ty'].split('.')[-1]
                    for m, e in zip(MEMBERS.get(ty, ()), g['init']):
                        if isinstance(e, str) and e.startswith('@'):
                            d[m] = e
    def struct_of_arg0(s, fname):
        """struct the function treats its first argument as"""
        f = s.p.funcs.get(fname)
        if f is None:
            return None
        for i in f.instrs():
            if i.op == 'getelementptr' and i.ops[0] == '%0':
                t = i.x.get('sty', '').replace('%struct.', '').strip('"')
                if t in s.p.structs and s.p.structs[t] and s.p.structs[t][0][0] == 'ob_base':
                    return t
        return None
    def member_slots(s, slot):
        return {d[slot].lstrip('@'): b for b, d in s.slots.items() if isinstance(d.get(slot), str) and d[slot].startswith('@')}

class TS(Engine):
    def __init__(self, prog, fn, role, rules, shared, types, exp, cap=60000, zone=False):
        super().__init__(prog, fn, role, rules, shared, cap=cap, zone=zone)
        self.t = types
        self.exp = exp                  # struct -> {'cont': offset, 'cnt': set(offsets)}
        self.names = set()
        self.slots = set()
        for r in role['roles']:
            if r['kind'] == 'slot':
                self.slots.add(r['slot'])
            elif r['kind'] == 'method':
                self.names.add(r['pyname'])
        self.readonly = bool(self.slots & READONLY_SLOTS or self.names & READONLY_METHODS)
        self.single = bool('sq_ass_item' in self.slots or 'mp_ass_subscript' in self.slots or self.names & SINGLE_METHODS)
        self.inplace = bool(self.slots & INPLACE or self.names & INPLACE_METHODS)
        self.numslot = bool(self.slots & {'nb_inplace_add', 'nb_inplace_multiply'})
        self.isnew = 'tp_new' in self.slots
        self.sites = dict(mut=0, stamp=0, ret=0, reloc=0, deref=0, ctor=0)

    # ---------------------------------------------------------------- helpers
    def heap(self, st, c):
        """(object symbol, offset) when c lies in an object this call did not create"""
        b, k = split(c)
        if not is_sym(b) or not isinstance(k, int):
            return None
        if ('newobj', b) in st.x or ('made', b) in st.x or ('fresh', b) in st.x:
            return None
        return (b, k) if b[0] in 'oLs' else None
    def structs(self, ins, st, c):
        out = set()
        for o in ins.ops if ins is not None else ():
            if isinstance(o, str) and o in self.fn.defs:
                d = self.fn.defs[o]
                if d.op == 'getelementptr' and self.val(st, o) == c:
                    t = d.x.get('sty', '').replace('%struct.', '').strip('"')
                    if t in self.p.structs:
                        out.add(t)
        return out
    def touched(self, ins, st, c, how):
        h = self.heap(st, c)
        if h is None:
            return
        self.sites['mut'] += 1
        b, k = h
        if self.readonly and not (('dead', c) in st.x):
            self.report('readonly', 'modifies (%s) a container it must leave unchanged' % how, ins, key='write:' + how)
        if self.single and b == 'oa0' and not st.x.get('slicing'):
            q = st.x.get('touched', ())
            if how == 'pop_back' and q and q[-1][0] == 'push_back':
                q = q[:-1]
            elif (how, ) not in [x[:1] for x in q]:
                q = q + ((how, self.where(ins)),)
            if q:
                st.x['touched'] = q
            else:
                st.x.pop('touched', None)
    def exporting(self, ins, st, c):
        h = self.heap(st, c)
        if h is None:
            return None
        ss = self.structs(ins, st, c)
        if not ss:
            ss = {s for s in self.exp if s == self.me()}
        for s in ss:
            if s in self.exp and h[1] == self.exp[s]['cont']:
                return s, h[0]
        return None
    def me(self):
        if not hasattr(self, '_me'):
            self._me = self.t.struct_of_arg0(self.fn.name)
        return self._me
    def relocates(self, ins, st, c, how):
        e = self.exporting(ins, st, c)
        if e is None or self.role.get('dying'):
            return
        self.sites['reloc'] += 1
        s, b = e
        for off in self.exp[s]['cnt']:
            if ('noexp', b, off) in st.x:
                return
            v = st.mem.get((b, off))
            if v is not None and (v == 0 or self.rng(st, v)[1] is not None and self.rng(st, v)[1] <= 0):
                return
        self.report('keep', 'can move the memory of an exported buffer (%s) without having established that no export is alive' % how, ins, key='reloc:' + how)

    # ---------------------------------------------------------------- events
    def on_mutate(self, ins, st, c, how):
        self.touched(ins, st, c, how)
        if how in STRUCT:
            h = self.heap(st, c)
            if h is not None:
                self.structural(ins, st, c, h, how)
        if how in RELOC:
            self.relocates(ins, st, c, how)
    def realloced(self, ins, st, c, how):
        self.relocates(ins, st, c, how)
    def stamp_of(self, ins, st, c, h):
        ss = self.structs(ins, st, c) & set(self.t.stamps)
        if not ss:
            ss = {s for s in self.t.stamps if s == self.me()}
        for s in ss:
            lists, ints = self.t.stamps[s]
            if h[1] in lists:
                return s, ints
        return None
    def structural(self, ins, st, c, h, how):
        if self.role.get('dying') or self.isnew:
            return
        z = self.stamp_of(ins, st, c, h)
        if z is None:
            return
        self.sites['stamp'] += 1
        b = h[0]
        if not z[1]:
            self.report('stamp', 'changes a linked list (%s) that has no modification stamp' % how, ins, key='nostamp')
            return
        if ('stamped', b) in st.x:
            return
        st.x[('mut', b)] = (how, self.where(ins))
    def unstamped(self, st, ins, when):
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'mut']:
            how, w = st.x.pop(k)
            v = 'changes the linked list (%s at %s) and %s before the modification stamp is advanced' % (how, w, when)
            self.report('stamp', v, ins, key='unstamped:%s|%s' % (how, w))
    def pyrun(self, st, ins, what, of=None):
        self.unstamped(st, ins, 'runs user code (%s)' % what)
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] in ('stamped', 'noexp')]:
            del st.x[k]
        # what other threads do between the release of the GIL and its return is not part of this rule
        keep = []
        if what == 'releasing the GIL' and 'keep' in self.rules:
            for s in self.exp.values():
                for off in s['cnt']:
                    for (b, k), v in [(kk, vv) for kk, vv in st.mem.items() if len(kk) == 2]:
                        if k == off and is_sym(b) and (v == 0 or self.rng(st, v)[1] is not None and self.rng(st, v)[1] <= 0):
                            keep.append(('noexp', b, off))
        r = super().pyrun(st, ins, what, of)
        for k in keep:
            st.x[k] = 1
        return r
    def op_store(self, ins, st):
        a = self.val(st, ins.ops[1])
        b, k = split(a) if not (isinstance(a, tuple) and a[0] in ('sl', 'st')) else (None, None)
        old = st.mem.get((b, k)) if b is not None else None
        if b is not None and is_sym(b) and self.all_stamp_offs(k) and old is None and ins.x.get('vty') != 'ptr':
            old = '?'
        eq = b is not None and is_sym(b) and self.stamps_equal(st, b)
        r = super().op_store(ins, st)
        if b is not None and is_sym(b) and not eq and 'stamp' in self.rules and ('made', b) not in st.x and ins.x.get('vty') != 'ptr' and self.stamps_equal(st, b):
            st.x[('restamp', b)] = 1
        if b is not None and is_sym(b) and self.all_stamp_offs(k) and ins.x.get('vty') != 'ptr':
            v = self.val(st, ins.ops[0])
            if v != old and ('made', b) not in st.x and not (old == '?' and isinstance(v, int)):
                d = self.fn.defs.get(ins.ops[1]) if isinstance(ins.ops[1], str) else None
                t = d.x.get('sty', '').replace('%struct.', '').strip('"') if d is not None and d.op == 'getelementptr' else None
                if t is None or t in self.t.stamps:
                    st.x[('stamped', b)] = 1
                    st.x.pop(('mut', b), None)
        return r
    def all_stamp_offs(self, k):
        return any(k in ints for _, ints in self.t.stamps.values())

    def on_access(self, ins, st, c, idx, how):
        if how == 'write':
            self.touched(ins, st, c, 'element store')
    def on_call(self, ins, st, ca, args):
        n = ca.base
        if ca.kind == 'api':
            if n in API_MUT and args and self.readonly:
                b = args[0]
                if is_sym(b) and b.startswith('oa') and st.own.get(b, 0) <= 0:
                    self.report('readonly', 'calls %s on an operand' % n, ins, key='api:' + n)
            if n == 'PySlice_Unpack' or n == 'PySlice_GetIndicesEx':
                st.x['slicing'] = 1
            if n == 'PyEval_SaveThread':
                self.unstamped(st, ins, 'releases the GIL')
                for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'stamped']:
                    del st.x[k]
        elif ca.kind in ('vector', 'list') and args:
            c = args[0]
            if isinstance(c, tuple) and c[0] == 'st':
                c = c[1]
            m = ca.meth
            ctor = m in ('vector', 'list')
            dtor = m.startswith('~')
            b, k = split(c)
            if is_sym(b) and isinstance(k, int) and b[0] in 'oLs':
                made = ('made', b) in st.x
                q = ca.q
                if ctor:
                    self.sites['ctor'] += 1
                    if ('live', c) in st.x or (not made and ('dead', c) not in st.x):
                        self.report('life', 'constructs a native member over a live one', ins, key='reconstruct')
                    st.x.pop(('dead', c), None)
                    st.x[('live', c)] = q
                elif dtor:
                    self.sites['ctor'] += 1
                    if ('dead', c) in st.x:
                        self.report('life', 'destroys a native member twice', ins, key='redestroy')
                    elif made and ('live', c) not in st.x:
                        self.report('life', 'destroys a native member that was never constructed', ins, key='destroy-raw')
                    st.x.pop(('live', c), None)
                    st.x[('dead', c)] = q
                else:
                    if ('dead', c) in st.x:
                        self.report('life', 'uses a native member after its destruction', ins, key='use-dead')
                    elif made and ('live', c) not in st.x:
                        self.report('life', 'uses a native member before its construction', ins, key='use-raw')
    def created(self, ins, st, v, n, args):
        super().created(ins, st, v, n, args)
        if n in ('PyType_GenericNew', '_PyObject_New', '_PyObject_GC_New', 'PyType_GenericAlloc'):
            st.x[('made', v)] = n
    def indirect(self, ins, st):
        f = self.val(st, ins.x.get('ind'))
        r = super().indirect(ins, st)
        return r
    def freed_self(self, ins, st, a):
        if self.role.get('dying'):
            self.at_free(ins, st, a)
        super().freed_self(ins, st, a)
    def at_free(self, ins, st, a):
        st.x['freedself'] = 1
        dead = frozenset((k[1], v) for k, v in st.x.items() if isinstance(k, tuple) and k[0] == 'dead')
        gone = {st.x[('fld', k[1])] for k in st.x if isinstance(k, tuple) and k[0] == 'rel' and ('fld', k[1]) in st.x}
        gone |= {k[1] for k, v in st.mem.items() if len(k) == 2 and k[0] == a and v == 0}
        self.sh.setdefault('freed', set()).add((frozenset(gone), self.where(ins)))
        self.sh.setdefault('destroyed', set()).add((frozenset((split(c)[1], q) for c, q in dead if split(c)[0] == a), self.where(ins)))
    def op_call(self, ins, st):
        n = ins.x.get('f')
        if n in ('PyObject_Free', 'PyObject_GC_Del') and self.role.get('dying') and self.val(st, ins.ops[0]) == 'oa0':
            self.at_free(ins, st, 'oa0')
        return super().op_call(ins, st)

    # ---------------------------------------------------------------- remembered iterators
    def ld(self, st, addr, ins, tag=''):
        v = super().ld(st, addr, ins, tag)
        b, k = split(addr) if not (isinstance(addr, tuple) and addr[0] in ('sl', 'st')) else (None, None)
        if is_sym(b) and is_sym(v):
            st.x[('cached', v)] = b
        return v
    def block_copy(self, ins, st, d, s, n):
        super().block_copy(ins, st, d, s, n)
        if n == 8 and not (isinstance(s, tuple) and s[0] in ('sl', 'st', 'g')):
            b, k = split(s)
            v = st.mem.get((b, k))
            if is_sym(b) and is_sym(v):
                st.x[('cached', v)] = b
    def iterfun(self, ins, st, ca, args):
        if ca.kind == 'lit' and ca.meth in ('operator*', 'operator->', 'operator++', 'operator--') and 'stamp' in self.rules:
            v = self.ld(st, args[0], ins)
            b = st.x.get(('cached', v))
            if b is not None and ('made', b) not in st.x and ('fresh', b) not in st.x:
                self.sites['deref'] += 1
                if not self.stamps_equal(st, b):
                    self.report('stamp', 'uses the remembered position without having established that the list is unmodified', ins, key='cached:' + ca.meth)
                elif ('restamp', b) in st.x:
                    self.report('stamp', 'takes over the stamp of the list without renewing the remembered position', ins, key='restamp:' + ca.meth)
                elif ca.meth in ('operator++', 'operator--'):
                    st.x[('ok', b)] = 1
        return super().iterfun(ins, st, ca, args)
    def iter_step(self, ins, st, old, new, d):
        if ('cached', old) in st.x and is_sym(new):
            st.x[('cached', new)] = st.x[('cached', old)]
    def assume_cmp(self, st, pred, a, b):
        if pred == 'eq' and 'stamp' in self.rules and is_sym(a) and is_sym(b) and a[0] == 'L' and b[0] == 'L':
            st.x[('same', a, b)] = 1
        return super().assume_cmp(st, pred, a, b)
    def same(self, st, v, w):
        return v == w or ('same', v, w) in st.x or ('same', w, v) in st.x
    def stamps_equal(self, st, b):
        """some integer field of b equals the stamp of the list object b refers to"""
        fs = [(kk, vv) for kk, vv in st.mem.items() if len(kk) == 2 and is_sym(kk[0]) and isinstance(kk[1], int)]
        own = [v for (x, k), v in fs if x == b]
        for (x, k), v in fs:
            if x != b and x in own and self.all_stamp_offs(k) and any(self.same(st, v, o) for o in own):
                return True
        return False

    # ---------------------------------------------------------------- return
    def at_return(self, ins, st, v):
        self.stat['returns'] += 1
        self.unstamped(st, ins, 'returns')
        kinds = self.role['ret']
        err = False
        for kind in kinds:
            if kind in ('obj', 'next') and v == 0:
                err = True
            if kind in ('int', 'tri', 'len') and isinstance(v, int) and v < 0:
                err = True
        if kinds <= {'int', 'tri', 'len'} and not isinstance(v, int) and st.exc:
            err = True
        if err and self.single and 'touched' in st.x:
            how, w = st.x['touched'][0]
            self.report('atomic', 'fails after having changed the container (%s at %s)' % (how, w), ins, key='%s|%s' % (how, w))
        if self.inplace and not err and v != 'oa0' and not (self.numslot and v == ('g', '_Py_NotImplementedStruct')):
            if not (st.exc and v is None):
                self.report('iret', 'an in-place operator returns something else than the object it was applied to', ins, str(v)[:60], key='iret')
        if not err and v in ('oa0', 'oa1') and (self.slots & FRESH_RESULT or self.names & FRESH_RESULT):
            self.report('readonly', 'returns an operand instead of a new object', ins, key='alias')
        # native members
        if not self.role.get('dying'):
            for k, q in st.x.items():
                if isinstance(k, tuple) and k[0] == 'dead':
                    self.report('life', 'returns with a native member destroyed', ins, key='left-dead')
        elif 'freedself' not in st.x and self.exits_normally(ins):
            self.report('life', 'an object is destroyed without its memory being released', ins, key='nofree')
        if is_sym(v) and st.x.get(('made', v)):
            if self.isnew:
                live = frozenset((split(k[1])[1], q) for k, q in st.x.items() if isinstance(k, tuple) and k[0] == 'live' and split(k[1])[0] == v)
                self.sh.setdefault('constructed', set()).add((live, self.where(ins)))
            elif st.x[('made', v)] == '_PyObject_New':
                self.initialised(ins, st, v)
        # remembered iterators of lists with a stamp
        for (b, k), x in [(kk, vv) for kk, vv in st.mem.items() if len(kk) == 2]:
            if is_sym(b) and isinstance(k, int) and isinstance(x, tuple) and (x[0] == 'it' or x[0] == 'st' and isinstance(x[1], tuple) and x[1][0] == 'it'):
                if err:
                    continue
                c = (x if x[0] == 'it' else x[1])[1]
                cb, ck = split(c)
                if not is_sym(cb):
                    continue
                for s, (lists, ints) in self.t.stamps.items():
                    if ck in lists and s in self.iter_targets(b, ins):
                        self.sites['deref'] += 1
                        if not any(st.mem.get((b, q)) == st.mem.get((cb, i)) is not None for i in ints for q in [z[1] for z in st.mem if len(z) == 2 and z[0] == b]):
                            self.report('stamp', 'remembers a position without the current modification stamp', ins, key='remember')
        super().at_return(ins, st, v)
    def exits_normally(self, ins):
        return True
    def iter_targets(self, b, ins):
        """stamped structs mentioned by this function"""
        if not hasattr(self, '_it'):
            self._it = set()
            for i in self.fn.instrs():
                if i.op == 'getelementptr':
                    t = i.x.get('sty', '').replace('%struct.', '').strip('"')
                    if t in self.t.stamps:
                        self._it.add(t)
        return self._it
    def initialised(self, ins, st, v):
        """objects from PyObject_New are not zeroed"""
        for t in self.made_structs(v):
            for m in self.p.structs[t]:
                if m[0] == 'ob_base' or m[2] == 0:
                    continue
                if not any(len(k) == 2 and k[0] == v and isinstance(k[1], int) and m[1] <= k[1] < m[1] + max(1, m[2]) for k in st.mem):
                    self.report('life', 'hands out an object whose field %s was never set' % m[0], ins, key='uninit:%s.%s' % (t, m[0]))
    def made_structs(self, v):
        """struct whose fields the function stores into the object allocated at v's site"""
        if not hasattr(self, '_ms'):
            self._ms = {}
        m = re.match(r'o(\d+)', v)
        if not m:
            return ()
        root = '%' + m.group(1)
        al = {root}
        ch = True
        while ch:
            ch = False
            for i in self.fn.instrs():
                if i.op in ('phi', 'bitcast', 'select', 'freeze') and i.id >= 0 and '%%%d' % i.id not in al and any(o in al for o in i.ops if isinstance(o, str)):
                    al.add('%%%d' % i.id)
                    ch = True
        out = set()
        for i in self.fn.instrs():
            if i.op == 'getelementptr' and i.ops[0] in al:
                t = i.x.get('sty', '').replace('%struct.', '').strip('"')
                ms = self.p.structs.get(t)
                if ms and ms[0][0] == 'ob_base':
                    out.add(t)
        # a struct the value is passed on as
        return out

_p = _t = _e = None

def _job(a):
    n, rules, cap = a
    fn = _p.funcs[n]
    t = time.time()
    sh = {}
    e = None
    try:
        e = TS(_p, fn, role_of(_p, n), set(rules), sh, _t, _e, cap=cap)
        e.run()
        st = 'ok'
        if e.viol and not e.zone:       # look again, relating sizes and indices to each other
            z = TS(_p, fn, role_of(_p, n), set(rules), sh, _t, _e, cap=cap, zone=True)
            try:
                z.run()
                e.viol = {k: v for k, v in e.viol.items() if k in z.viol}
            except Limit:
                pass
    except Limit:
        st = 'state limit reached'
    except RecursionError:
        st = 'internal: recursion'
    except Exception:
        st = 'internal: ' + traceback.format_exc()[-500:]
    return n, fn.dname, fn.file, st, time.time() - t, (e.stat if e else {}), list(e.viol.values()) if e else [], (e.sites if e else {}), sh

class BufScan(TS):
    """what a getbuffer / releasebuffer function does to the exporting object"""
    def on_call(self, ins, st, ca, args):
        if ca.kind == 'vector' and args:
            self.sh.setdefault('q', {})[args[0]] = ca.q
        super().on_call(ins, st, ca, args)
    def at_return(self, ins, st, v):
        self.sh.setdefault('ret', []).append((v, dict(st.mem), dict(st.own), self.where(ins), st.exc, dict(st.x)))

def buffers(prog, types, res):
    """struct -> exported container and counter; reports malformed exports into res (C18)"""
    exp = {}
    for b, d in sorted(types.slots.items()):
        g, r = (str(d.get(k, '')).lstrip('@') for k in ('bf_getbuffer', 'bf_releasebuffer'))
        if g not in prog.funcs:
            continue
        fg = prog.funcs[g]
        s = types.struct_of_arg0(g)
        sh = {}
        e = BufScan(prog, fg, role_of(prog, g), set(), sh, types, {})
        e.run()
        site = '%s:%d' % (fg.file.split('/pyfastutil/')[-1], fg.line)
        info = None
        dec = None
        if r in prog.funcs:
            shr = {}
            er = BufScan(prog, prog.funcs[r], role_of(prog, r), set(), shr, types, {})
            er.run()
            for v, mem, own, w, exc, x in shr.get('ret', []):
                q = {k[1] for k, val in mem.items() if k[0] == 'oa0' and isinstance(val, tuple) and val[0] == '+' and val[2] == -1}
                dec = q if dec is None else dec & q
        ok = False
        for v, mem, own, w, exc, x in sh.get('ret', []):
            buf = mem.get(('a1', 0))
            fail = isinstance(v, int) and v < 0
            inc = {k[1] for k, val in mem.items() if k[0] == 'oa0' and isinstance(val, tuple) and val[0] == '+' and val[2] == 1}
            changed = {k[1] for k, val in mem.items() if k[0] == 'oa0' and isinstance(val, tuple) and val[0] == '+'}
            if fail:
                if (dec or set()) & changed:
                    res.add('buffer|%s|fail-count' % fg.dname, w, '%s: a failed request for a buffer is counted as an export' % fg.dname)
                continue
            res.count('buffer_exports')
            if mem.get(('a1', 8)) != 'oa0':
                res.add('buffer|%s|obj' % fg.dname, w, '%s: the buffer does not record the object that owns its memory' % fg.dname)
            if isinstance(buf, tuple) and buf[0] == 'sl' and split(buf[1])[0] == 'oa0':
                if buf[2] != 0:
                    res.add('buffer|%s|start' % fg.dname, w, '%s: the buffer does not start at the first element' % fg.dname)
                cont = split(buf[1])[1]
                size = mem.get(('sz', buf[1]))
                ln, isz = mem.get(('a1', 16)), mem.get(('a1', 24))
                elem = elem_size(sh.get('q', {}).get(buf[1]))
                if elem and isz is not None and isz != elem:
                    res.add('buffer|%s|itemsize' % fg.dname, w, '%s: the item size of the buffer is not the size of an element' % fg.dname, '%s / %s' % (isz, elem))
                if elem and not is_mul(ln, size, elem, x):
                    res.add('buffer|%s|len' % fg.dname, w, '%s: the length of the buffer is not (number of elements) * (element size)' % fg.dname, str(ln))
                shp = mem.get(('a1', 48))
                if shp is not None and shp != 0:
                    sv = mem.get(split(shp))
                    if sv != size:
                        res.add('buffer|%s|shape' % fg.dname, w, '%s: the shape of the buffer is not the number of elements' % fg.dname, str(sv))
                fm = mem.get(('a1', 40))
                if isinstance(fm, tuple) and fm[0] == 'g':
                    f = prog.gstr('@' + fm[1])
                    if f and elem and FMT.get(f.lstrip('@=<>!')) not in (None, elem):
                        res.add('buffer|%s|format' % fg.dname, w, '%s: the format %r of the buffer does not describe an element of %d bytes' % (fg.dname, f, elem))
                cnt = inc & (dec or set())
                if not cnt:
                    res.add('buffer|%s|count' % fg.dname, w, '%s: the export is not recorded and withdrawn symmetrically in the object (the counter must go up by one here and down by one in the release function)' % fg.dname)
                if s:
                    z = exp.setdefault(s, {'cont': cont, 'cnt': set(cnt) or inc or (dec or set())})
                ok = True
        if sh.get('ret') and not ok:
            res.notes.append('%s: exports memory that does not belong to a native container' % fg.dname)
    return exp

def elem_size(q):
    m = re.search(r'vector<([^,>]+)', q or '')
    return {'int': 4, 'unsigned int': 4, 'long long': 8, 'long': 8, 'unsigned long': 8, 'short': 2, 'char': 1, 'float': 4, 'double': 8}.get(m.group(1).strip()) if m else None
def is_mul(v, size, elem, x):
    if elem == 1:
        return v == size
    if size == 0:
        return v == 0
    m = x.get(('mul', v))
    return m is not None and set(m) == {size, elem}

def run(prog, props, tier):
    global _p, _t, _e
    _p, _t = prog, Types(prog)
    out = {p: Result(p) for p in props}
    scratch = Result('C18')
    _e = buffers(prog, _t, out.get('C18', scratch))
    rules = [RULE[p] for p in props] + (['ref'] if 'C18' in props else [])
    cap = 30000 if tier == 'quick' else 200000
    names = sorted(prog.roots(), key=lambda n: -sum(len(b) for b in prog.funcs[n].bbs))
    with Pool(min(8, os.cpu_count() or 4)) as P:
        res = P.map(_job, [(n, rules, cap) for n in names], chunksize=1)
    for p in props:
        r = out[p]
        r.cov['explanation'] = TEXT[p] + '.  Typestate over the abstract interpretation of the LLVM IR of every function CPython can call.'
        for n, d, f, st, t, stat, viol, sites, sh in res:
            r.count('entry_points')
            for k in ('states', 'returns'):
                r.count(k, stat.get(k, 0))
            for k in {'C08': ('stamp', 'deref'), 'C14': (), 'C15': ('ctor',), 'C16': ('mut',), 'C17': ('mut',), 'C18': ('reloc',)}[p]:
                r.count({'stamp': 'structural_changes', 'deref': 'remembered_position_uses', 'ctor': 'constructions_and_destructions', 'mut': 'element_changes', 'reloc': 'reallocating_operations'}[k], sites.get(k, 0))
            if st != 'ok':
                r.notes.append('%s: %s' % (d, st))
            for v in viol:
                if v.rule == RULE[p]:
                    r.add(v.key, v.site, '%s: %s' % (d, v.what), v.detail)
    by = {x[0]: x for x in res}
    if 'C15' in out:
        lifetimes(prog, by, out['C15'])
    if 'C14' in out:
        r = out['C14']
        for b, d in sorted(_t.slots.items()):
            for plain, inp in (('sq_concat', 'sq_inplace_concat'), ('sq_repeat', 'sq_inplace_repeat')):
                mut = 'sq_ass_item' in d or 'mp_ass_subscript' in d
                if mut and plain in d:
                    r.count('slot_pairs')
                    if inp not in d:
                        r.add('slot|%s|%s' % (b, inp), tyname(prog, b, d), '%s: has %s but no %s, so the in-place operator makes a new object' % (tyname(prog, b, d), plain, inp))
    if 'C18' in out:
        holders(prog, by, out['C18'])
    return [out[p] for p in props]

def tyname(prog, b, d):
    return prog.gstr(d.get('tp_name')) or b.lstrip('@')

def lifetimes(prog, by, r):
    for b, d in sorted(_t.slots.items()):
        name = tyname(prog, b, d)
        new, dea = (str(d.get(k, '')).lstrip('@') for k in ('tp_new', 'tp_dealloc'))
        struct = None
        for k in ('tp_dealloc', 'tp_new', 'tp_init', 'tp_iternext', 'sq_length', 'tp_repr', 'bf_getbuffer'):
            f = str(d.get(k, '')).lstrip('@')
            struct = struct or (_t.struct_of_arg0(f) if k != 'tp_new' else None)
        if struct is None:
            continue
        r.count('types')
        need = set(_t.native.get(struct, {}))
        ms = prog.structs[struct]
        size = max(m[1] + m[2] for m in ms)
        bs = d.get('tp_basicsize')
        if isinstance(bs, str) and bs.startswith('c:') and int(bs[2:]) < size:
            r.add('basicsize|' + name, name, '%s: tp_basicsize %s is smaller than the object (%d bytes)' % (name, bs[2:], size))
        if new in by and need:
            con = by[new][8].get('constructed', set())
            r.count('constructing_returns', len(con))
            for live, w in con:
                miss = need - {o for o, q in live}
                for o in sorted(miss):
                    r.add('life|%s|unconstructed:%s' % (name, _t.native[struct][o][0]), w, '%s: tp_new hands out an object whose member %s has not been constructed' % (name, _t.native[struct][o][0]))
            if dea in by:
                des = by[dea][8].get('destroyed', set())
                types = {o: q for live, w in con for o, q in live}
                r.count('destroying_paths', len(des))
                for dead, w in des:
                    got = dict(dead)
                    for o in sorted(need | set(types)):
                        if o not in got:
                            r.add('life|%s|undestroyed:%d' % (name, o), w, '%s: the object is freed without its member at offset %d being destroyed' % (name, o))
                        elif o in types and types[o] != got[o]:
                            r.add('life|%s|type:%d' % (name, o), w, '%s: member constructed as %s but destroyed as %s' % (name, types[o], got[o]))
        elif need and 'tp_new' not in d:
            r.add('life|%s|no-new' % name, name, '%s: has native members but no tp_new that constructs them' % name)

def holders(prog, by, r):
    """every object field that is given a reference is released by the destructor of its type, on every path"""
    held = {}
    for x in by.values():
        for (ty, k), w in x[8].get('fields', {}).items():
            held.setdefault((ty, k), set()).update(w)
    for (ty, k), w in sorted(held.items(), key=str):
        d = _t.slots.get('@%s' % ty)
        if d is None:
            continue
        mine = {f.lstrip('@') for f in d.values() if isinstance(f, str) and f.lstrip('@') in by}
        for n in sorted(by):
            for v in by[n][6]:
                if v.rule == 'ref' and (n in mine or (by[n][1] in {z[0] for z in w} and 'argument 0' in v.key)):
                    r.add(v.key, v.site, '%s: %s' % (by[n][1], v.what), v.detail)
        dea = str(d.get('tp_dealloc', '')).lstrip('@')
        name = tyname(prog, '@%s' % ty, d)
        r.count('reference_fields')
        fr = by[dea][8].get('freed', set()) if dea in by else set()
        for gone, site in fr:
            r.count('destructor_paths')
            if k not in gone:
                r.add('field|%s|%d' % (name, k), site, '%s: frees the object without releasing the reference stored in it by %s' % (prog.funcs[dea].dname, sorted(w)[0][0]))
        if not fr:
            r.add('field|%s|%d|none' % (name, k), sorted(w)[0][1], '%s: holds a reference but no destructor releases it' % name)
