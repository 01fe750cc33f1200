"""Loading of irx output, callee classification, roots (functions CPython can call)."""
import json, re, sys
from functools import lru_cache

class Instr:
    __slots__ = ('op', 'id', 'ty', 'loc', 'ops', 'x', 'bb', 'idx')
    def __init__(s, raw, bb, idx):
        s.op, s.id, s.ty, s.loc, s.ops, s.x = raw
        s.bb, s.idx = bb, idx

class Fn:
    def __init__(s, raw, prog):
        s.prog = prog
        s.name, s.dem, s.dname = raw['name'], raw['dem'], raw['dname']
        s.file, s.line, s.ret, s.args = raw['file'], raw['line'], raw['ret'], raw['args']
        s.bbs = [[Instr(r, b, k) for k, r in enumerate(bb)] for b, bb in enumerate(raw['bbs'])]
        s.defs = {}
        for bb in s.bbs:
            for i in bb:
                if i.id >= 0:
                    s.defs['%%%d' % i.id] = i
        s._succ()
        s._live = None
    def instrs(s):
        for bb in s.bbs:
            for i in bb:
                yield i
    def _succ(s):
        s.succ = []
        for bb in s.bbs:
            t = bb[-1]
            if t.op == 'br':
                s.succ.append([o for o in t.ops if isinstance(o, int)])
            elif t.op == 'switch':
                s.succ.append([o for o in t.ops if isinstance(o, int)])
            elif t.op == 'invoke':
                s.succ.append(list(t.x['to']))
            else:
                s.succ.append([])
        s.pred = [[] for _ in s.bbs]
        for b, ss in enumerate(s.succ):
            for t in ss:
                s.pred[t].append(b)
    # ---- liveness of SSA values at block entry
    def live_in(s):
        if s._live is not None:
            return s._live
        n = len(s.bbs)
        use, deff, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for b, bb in enumerate(s.bbs):
            for i in bb:
                if i.op == 'phi':
                    for k in range(0, len(i.ops), 2):
                        v, p = i.ops[k], i.ops[k + 1]
                        if isinstance(v, str) and v[0] == '%':
                            phiuse[p].add(v)
                else:
                    for v in i.ops:
                        if isinstance(v, str) and v[0] == '%' and v not in deff[b]:
                            use[b].add(v)
                    ind = i.x.get('ind')
                    if ind and ind[0] == '%' and ind not in deff[b]:
                        use[b].add(ind)
                if i.id >= 0:
                    deff[b].add('%%%d' % i.id)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for t in s.succ[b]:
                    out |= live[t]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        # values used by phi instructions of the block itself are consumed on the edge; results are defs.
        s._live = live
        return live
    # ---- dominators (simple iterative)
    def dominators(s):
        if hasattr(s, '_dom'):
            return s._dom
        n = len(s.bbs)
        order = s.rpo()
        pos = {b: k for k, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in s.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        s._dom = idom
        return idom
    def dominates(s, a, b):
        idom = s.dominators()
        while True:
            if a == b:
                return True
            n = idom.get(b)
            if n is None or n == b:
                return False
            b = n
    def rpo(s):
        if hasattr(s, '_rpo'):
            return s._rpo
        seen, out = set(), []
        st = [(0, iter(s.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter(s.succ[t])))
                    break
            else:
                out.append(b)
                st.pop()
        s._rpo = out[::-1]
        return s._rpo
    def loops(s):
        """natural loops: header -> set of blocks"""
        if hasattr(s, '_loops'):
            return s._loops
        L = {}
        for b in range(len(s.bbs)):
            for t in s.succ[b]:
                if s.dominates(t, b):
                    body = L.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(s.pred[x])
        s._loops = L
        return L

SUF = re.compile(r' \(\.\d+\)$')
SUF2 = re.compile(r'\.\d+$')

def strip_suffix(d):
    return SUF.sub('', d)

def split_qual(d):
    """'ret ns::cls<..>::meth<..>(args) const' -> (qualifier, method, args)"""
    depth = 0
    start = 0
    i = 0
    n = len(d)
    lastcol = -1
    par = n
    while i < n:
        c = d[i]
        if d.startswith('operator', i) and depth == 0 and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')):
            # consume operator token
            j = i + 8
            if d.startswith('()', j):
                j += 2
            elif d.startswith('[]', j):
                j += 2
            else:
                while j < n and d[j] not in '(<' or (j < n and d[j] == '<' and d[j-1] in 'r<' and d[j:j+2] in ('<<', '<=', '<(') ):
                    j += 1
                if j < n and d[j] == '<' and d[i+8:j] == '':
                    # operator< or operator<=>
                    while j < n and d[j] in '<=>':
                        j += 1
            i = j
            # template args of operator
            if i < n and d[i] == '<':
                dd = 0
                while i < n:
                    if d[i] == '<': dd += 1
                    elif d[i] == '>':
                        dd -= 1
                        if dd == 0:
                            i += 1
                            break
                    i += 1
            par = i
            break
        if c == '<':
            depth += 1
        elif c == '>' and d[i-1] != '-':
            depth -= 1
        elif depth == 0:
            if c == '(':
                if d.startswith('(anonymous namespace)', i):
                    i += len('(anonymous namespace)')
                    continue
                par = i
                break
            if c == ' ':
                start = i + 1
                lastcol = -1
            elif c == ':' and i + 1 < n and d[i+1] == ':':
                lastcol = i
                i += 1
        i += 1
    head = d[start:par].lstrip('*&')
    args = d[par:]
    if lastcol >= 0:
        off = par - lastcol
        q = d[start:lastcol].lstrip('*&')
        m = d[lastcol+2:par]
    else:
        q, m = '', head
    return q, m, args

class Callee:
    """Classification of one callee."""
    def __init__(s, name, info):
        s.name = name
        s.d = strip_suffix(info['d'])
        s.cat, s.decl, s.nu, s.py = info['cat'], info['decl'], info['nu'], info['py']
        s.noret = info.get('noret', False)
        s.ro = info.get('ro', False)
        s.kind = None       # 'api','vector','list','lit','vit','iteq','string',...
        s.elem = None
        s.meth = None
        s.args = ''
        q, m, a = split_qual(s.d)
        m0 = m.split('<')[0] if not m.startswith('operator') else re.sub(r'^(operator(?:\(\)|\[\]|<=>|<=|>=|<<|>>|[^\w\s<(]+|<)).*', r'\1', m)
        s.meth, s.args, s.q = m0, a, q
        s.base = SUF2.sub('', name) if not name.startswith('_Z') else name
        if q.startswith('std::vector<'):
            s.kind = 'vector'; s.elem = s._targ(q)
        elif q.startswith('std::__cxx11::list<'):
            s.kind = 'list'; s.elem = s._targ(q)
        elif q.startswith('std::_List_iterator<') or q.startswith('std::_List_const_iterator<'):
            s.kind = 'lit'; s.elem = s._targ(q)
        elif q.startswith('__gnu_cxx::__normal_iterator<'):
            s.kind = 'vit'; s.elem = s._targ(q).rstrip('*').replace(' const', '')
        elif m0 in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator<=>', 'operator>') and ('_List_' in a or '__normal_iterator' in a):
            s.kind = 'iterop'
        elif q.startswith('std::__cxx11::basic_string<'):
            s.kind = 'string'
        elif 'cpython' == s.cat:
            s.kind = 'api'; s.base = s.d.split('(')[0]
        elif s.decl and not name.startswith('_Z'):
            s.kind = 'api' if re.match(r'_?Py', name) else 'c'
        elif s.cat == 'third' and not name.startswith('_Z'):
            s.kind = 'third'
        else:
            s.kind = 'other'
    def _targ(s, q):
        i = q.index('<') + 1
        d = 0
        for j in range(i, len(q)):
            if q[j] in '<(':
                d += 1
            elif q[j] in '>)':
                if d == 0:
                    return q[i:j]
                d -= 1
            elif q[j] == ',' and d == 0:
                return q[i:j]
        return q[i:]

class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.locs = d['locs']
        s.globals = d['globals']
        s.structs = d['structs']
        s.callees = {k: Callee(k, v) for k, v in d['callees'].items()}
        s.funcs = {f['name']: Fn(f, s) for f in d['funcs']}
        s.stats = d.get('stats', {})
        s._roots = None
    def where(s, loc):
        """innermost project location, and the chain of project functions"""
        first = None
        while loc >= 0:
            f, l, fn, ia = s.locs[loc]
            if '/pyfastutil/' in f and '/utils/include/' not in f and l > 0:
                first = first or (f, l, fn)
                if '/utils/' not in f:
                    return '%s:%d' % (f.split('/pyfastutil/')[-1], l)
            loc = ia
        return '%s:%d' % (first[0].split('/pyfastutil/')[-1], first[1]) if first else '?'
    def gstr(s, ref):
        """string behind a '@global' operand"""
        if not isinstance(ref, str) or not ref.startswith('@'):
            return None
        g = s.globals.get(ref[1:].split('+')[0])
        if g and isinstance(g['init'], dict):
            return g['init'].get('s')
        if g and g['init'] == 'zero':
            return ''
        return None
    # ------------------------------------------------------------- roots
    def roots(s):
        if s._roots is not None:
            return s._roots
        R = {}
        def add(fname, kind, **kw):
            fname = fname.lstrip('@')
            if fname in s.funcs:
                R.setdefault(fname, []).append(dict(kind=kind, **kw))
        # method tables: any array of PyMethodDef
        for g, v in s.globals.items():
            if 'PyMethodDef' in v['ty'] and isinstance(v['init'], list):
                for e in v['init']:
                    if not isinstance(e, list) or len(e) < 3:
                        continue
                    nm = s.gstr(e[0]) if isinstance(e[0], str) else None
                    if nm is None or not isinstance(e[1], str) or not e[1].startswith('@'):
                        continue
                    fl = int(e[2][2:]) if e[2].startswith('c:') else 0
                    add(e[1], 'method', pyname=nm, flags=fl, table=v.get('src', g))
        # slot tables
        for struct, members in (('PySequenceMethods', None), ('PyMappingMethods', None), ('PyBufferProcs', None), ('PyNumberMethods', None)):
            mem = s.structs.get(struct) or [(m,) for m in MEMBERS[struct]]
            for g, v in s.globals.items():
                if v['ty'] == '%%struct.%s' % struct and isinstance(v['init'], list) and mem:
                    for m, e in zip(mem, v['init']):
                        if isinstance(e, str) and e.startswith('@'):
                            add(e, 'slot', slot=m[0], table=v.get('src', g))
        # type slots: stores of function addresses at PyTypeObject member offsets
        tm = {m[1]: m[0] for m in s.structs.get('_typeobject', [])}
        s.type_slots = {}
        for f in s.funcs.values():
            if not f.dname.startswith(('initialize', 'PyInit')) and 'Type' not in f.dname:
                pass
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[0], str):
                    p = i.ops[1]
                    d = f.defs.get(p)
                    if d is not None and d.op == 'getelementptr' and '_typeobject' in d.x.get('sty', ''):
                        off = d.x.get('off')
                        base = d.ops[0]
                    elif isinstance(p, str) and p.startswith('@'):
                        base, _, off = p[1:].partition('+')
                        if '_typeobject' not in s.globals.get(base, {}).get('ty', ''):
                            continue
                        off = int(off or 0)
                        base = '@' + base
                    else:
                        continue
                    nm = tm.get(off)
                    s.type_slots.setdefault((f.name, base), {})[nm] = i.ops[0]
                    if i.ops[0].startswith('@') and nm:
                        add(i.ops[0], 'slot', slot=nm, table=f.dname)
        # static initialisers of type objects
        for g, v in s.globals.items():
            if v['ty'] == '%struct._typeobject' and isinstance(v['init'], list):
                for m, e in zip(s.structs.get('_typeobject', []), v['init']):
                    if isinstance(e, str) and e.startswith('@') and e[1:] in s.funcs:
                        add(e, 'slot', slot=m[0], table=v.get('src', g))
        for n in s.funcs:
            if n.startswith('PyInit_'):
                add(n, 'init')
        for n in s.helpers():
            add(n, 'helper')
        s._allroots = R
        live = s.reachable(n for n in s.funcs if n == 'PyInit___pyfastutil')
        if live:
            R = {n: r for n, r in R.items() if n in live}
        s._roots = R
        return R

    def reachable(s, start):
        """functions and globals that importing the module can ever lead to (calls and address-taken names)"""
        seen, todo = set(), list(start)
        def names(v, out):
            if isinstance(v, str):
                if v.startswith('@'):
                    out.add(v[1:].partition('+')[0])
            elif isinstance(v, (list, tuple)):
                for e in v:
                    names(e, out)
            elif isinstance(v, dict):
                for e in v.values():
                    names(e, out)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            out = set()
            if n in s.funcs:
                for i in s.funcs[n].instrs():
                    names(i.ops, out)
                    names(i.x, out)
                    f = i.x.get('f')
                    if f:
                        out.add(f)
            elif n in s.globals:
                names(s.globals[n].get('init'), out)
            todo += [m for m in out if m not in seen]
        return seen

    def helpers(s):
        """project functions called from another source file that produce objects"""
        if getattr(s, '_helpers', None) is None:
            s._helpers = set()
            for n, f in s.funcs.items():
                c = s.callees.get(n)
                if c is not None and f.ret == 'ptr' and not n.startswith('PyInit') and '/src/utils/' not in f.file:
                    s._helpers.add(n)
        return s._helpers

    def rettype(s, fname):
        """'obj' (PyObject* or NULL), 'next', 'int' (0/-1), 'tri', 'len', 'void', 'hash'"""
        out = set()
        for r in s.roots().get(fname, []):
            if r['kind'] in ('method', 'init', 'helper'):
                out.add('obj')
            else:
                out.add(SLOT_RET.get(r['slot'], 'other'))
        return out

# member order of the slot tables (CPython ABI)
MEMBERS = {
    'PySequenceMethods': 'sq_length sq_concat sq_repeat sq_item was_sq_slice sq_ass_item was_sq_ass_slice sq_contains sq_inplace_concat sq_inplace_repeat'.split(),
    'PyMappingMethods': 'mp_length mp_subscript mp_ass_subscript'.split(),
    'PyBufferProcs': 'bf_getbuffer bf_releasebuffer'.split(),
    'PyNumberMethods': ('nb_add nb_subtract nb_multiply nb_remainder nb_divmod nb_power nb_negative nb_positive nb_absolute nb_bool nb_invert nb_lshift nb_rshift '
                        'nb_and nb_xor nb_or nb_int nb_reserved nb_float nb_inplace_add nb_inplace_subtract nb_inplace_multiply nb_inplace_remainder nb_inplace_power '
                        'nb_inplace_lshift nb_inplace_rshift nb_inplace_and nb_inplace_xor nb_inplace_or nb_floor_divide nb_true_divide nb_inplace_floor_divide '
                        'nb_inplace_true_divide nb_index nb_matrix_multiply nb_inplace_matrix_multiply').split(),
}

SLOT_RET = {
    'sq_length': 'len', 'sq_concat': 'obj', 'sq_repeat': 'obj', 'sq_item': 'obj', 'sq_ass_item': 'int',
    'sq_contains': 'tri', 'sq_inplace_concat': 'obj', 'sq_inplace_repeat': 'obj',
    'mp_length': 'len', 'mp_subscript': 'obj', 'mp_ass_subscript': 'int',
    'bf_getbuffer': 'int', 'bf_releasebuffer': 'void',
    'tp_dealloc': 'void', 'tp_repr': 'obj', 'tp_str': 'obj', 'tp_iter': 'obj', 'tp_iternext': 'next',
    'tp_init': 'int', 'tp_new': 'obj', 'tp_richcompare': 'obj', 'tp_hash': 'len', 'tp_call': 'obj',
    'tp_getattro': 'obj', 'tp_setattro': 'int', 'tp_finalize': 'void', 'tp_traverse': 'int', 'tp_clear': 'int',
    'tp_free': 'void', 'tp_alloc': 'obj', 'tp_del': 'void',
    'nb_multiply': 'obj', 'nb_add': 'obj', 'nb_inplace_add': 'obj', 'nb_inplace_multiply': 'obj', 'nb_bool': 'tri',
    'nb_index': 'obj', 'nb_int': 'obj', 'nb_subtract': 'obj',
}

if __name__ == '__main__':
    p = Prog(sys.argv[1])
    for k, v in sorted(p.callees.items(), key=lambda kv: kv[1].d):
        print(v.kind, v.elem, v.meth, '|', v.args[:60], '|', v.d[:100])
    r = p.roots()
    print(len(r))
    for k, v in r.items():
        print(p.funcs[k].dname, v)
