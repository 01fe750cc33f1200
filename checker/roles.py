"""What CPython passes to, and expects from, each function it can call."""
from ir import SLOT_RET

SLOT_PARAMS = {
    'sq_length': ['obj'], 'mp_length': ['obj'], 'sq_item': ['obj', 'int'], 'sq_ass_item': ['obj', 'int', 'obj?'],
    'mp_subscript': ['obj', 'obj'], 'mp_ass_subscript': ['obj', 'obj', 'obj?'], 'sq_contains': ['obj', 'obj'],
    'sq_concat': ['obj', 'obj'], 'sq_repeat': ['obj', 'int'], 'sq_inplace_concat': ['obj', 'obj'], 'sq_inplace_repeat': ['obj', 'int'],
    'tp_richcompare': ['obj', 'obj', 'int'], 'tp_init': ['obj', 'obj', 'obj?'], 'tp_new': ['obj', 'obj', 'obj?'],
    'tp_call': ['obj', 'obj', 'obj?'], 'bf_getbuffer': ['obj', 'ptr', 'int'], 'bf_releasebuffer': ['obj', 'ptr'],
    'tp_iternext': ['obj'], 'tp_iter': ['obj'], 'tp_repr': ['obj'], 'tp_str': ['obj'], 'tp_hash': ['obj'], 'tp_dealloc': ['obj'],
    'tp_getattro': ['obj', 'obj'], 'tp_setattro': ['obj', 'obj', 'obj?'], 'tp_traverse': ['obj', 'ptr', 'ptr'], 'tp_clear': ['obj'],
    'tp_free': ['ptr'], 'tp_alloc': ['obj', 'int'], 'tp_finalize': ['obj'],
    'nb_multiply': ['obj', 'obj'], 'nb_add': ['obj', 'obj'], 'nb_inplace_multiply': ['obj', 'obj'], 'nb_inplace_add': ['obj', 'obj'],
    'nb_bool': ['obj'], 'nb_subtract': ['obj', 'obj'], 'nb_index': ['obj'], 'nb_int': ['obj'],
}
VARARGS, KEYWORDS, NOARGS, O, CLASS, STATIC, FASTCALL = 1, 2, 4, 8, 0x10, 0x20, 0x80
RANK = {'obj': 0, 'args': 0, 'int': 0, 'nargs': 0, 'ptr': 0, 'null': 1, 'obj?': 2}

def params_of(r):
    if r['kind'] == 'init':
        return []
    if r['kind'] == 'slot':
        return SLOT_PARAMS.get(r['slot'], [])
    f = r['flags']
    me = 'obj' if not f & STATIC else 'obj?'
    if f & FASTCALL:
        return [me, 'args', 'nargs'] + (['obj?'] if f & KEYWORDS else [])
    if f & VARARGS:
        return [me, 'obj'] + (['obj?'] if f & KEYWORDS else [])
    if f & O:
        return [me, 'obj']
    return [me, 'null']

def role_of(prog, fname):
    rs = prog.roots()[fname]
    ps = None
    if any(r['kind'] == 'helper' for r in rs):
        return dict(params=['obj' if t == 'ptr' else 'int' for t in prog.funcs[fname].args], ret=prog.rettype(fname), roles=rs, dying=False)
    for r in rs:
        p = params_of(r)
        if ps is None:
            ps = list(p)
        else:
            for k, x in enumerate(p):
                if k >= len(ps):
                    ps.append(x)
                elif ps[k] != x and RANK.get(x, 0) > RANK.get(ps[k], 0):
                    ps[k] = x
    return dict(params=ps or [], ret=prog.rettype(fname), roles=rs,
                dying=any(r.get('slot') == 'tp_dealloc' for r in rs))
