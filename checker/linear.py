"""Linear integer facts: forms, entailment by elimination (with integer tightening), small witnesses.

A form is a dict {symbol: coefficient} with the constant under key 1.  A system is a list of forms, each >= 0."""
from math import gcd

def const(c):
    return {1: c} if c else {}

def sym(s, k=1):
    return {s: k}

def add(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        v = r.get(s, 0) + k * c
        if v:
            r[s] = v
        else:
            r.pop(s, None)
    return r

def scale(a, k):
    return {s: c * k for s, c in a.items()} if k else {}

def is_const(a):
    return all(s == 1 for s in a)

def cval(a):
    return a.get(1, 0)

def sub(a, b):
    return add(a, b, -1)

def subst(a, m):
    r = {}
    for s, c in a.items():
        r = add(r, m[s], c) if s in m else add(r, {s: c})
    return r

def key(a):
    return tuple(sorted(a.items(), key=lambda t: str(t[0])))

def show(a):
    if not a:
        return '0'
    out = ''
    for s, c in sorted(a.items(), key=lambda t: (t[0] == 1, str(t[0]))):
        out += ('%+d' % c if s == 1 else ('%+d*%s' % (c, s) if abs(c) != 1 else ('+' if c > 0 else '-') + str(s)))
    return out.lstrip('+')

def norm(a):
    """tighten a >= 0 over the integers; None when trivially true, False when impossible"""
    g = 0
    for s, c in a.items():
        if s != 1:
            g = gcd(g, abs(c))
    if g == 0:
        return None if cval(a) >= 0 else False
    if g > 1:
        r = {s: c // g for s, c in a.items() if s != 1}
        k = cval(a) // g
        if k:
            r[1] = k
        return r
    return a

def tidy(sys_):
    """-> list of tightest normalised constraints or None when infeasible"""
    best = {}
    for a in sys_:
        n = norm(a)
        if n is None:
            continue
        if n is False:
            return None
        k = key({s: c for s, c in n.items() if s != 1})
        c = cval(n)
        if k not in best or c < best[k][0]:
            best[k] = (c, n)
    for k, (c, n) in best.items():
        nk = key({s: -v for s, v in n.items() if s != 1})
        if nk in best and c + best[nk][0] < 0:
            return None
    return [n for _, n in best.values()]

def eliminate(sys_, v):
    pos, neg, rest = [], [], []
    for a in sys_:
        c = a.get(v, 0)
        (pos if c > 0 else neg if c < 0 else rest).append(a)
    for p in pos:
        for n in neg:
            cp, cn = p[v], -n[v]
            g = gcd(cp, cn)
            r = add(scale(p, cn // g), n, cp // g)
            rest.append(r)
    return rest

LIMIT = 1500

def feasible(sys_):
    """False only when there is no integer solution (None: too large, treated as feasible)"""
    s = tidy(sys_)
    if s is None:
        return False
    while True:
        cnt = {}
        for a in s:
            for v, c in a.items():
                if v != 1:
                    p, n = cnt.get(v, (0, 0))
                    cnt[v] = (p + (c > 0), n + (c < 0))
        if not cnt:
            return True
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        s = tidy(eliminate(s, v))
        if s is None:
            return False
        if len(s) > LIMIT:
            return None

def project(sys_, keep):
    """(facts about the kept symbols only, True when no integer solution was added); None when infeasible"""
    s = tidy(sys_)
    exact = True
    while s is not None:
        cnt = {}
        for a in s:
            for v, c in a.items():
                if v != 1 and v not in keep:
                    p, n = cnt.get(v, (0, 0))
                    cnt[v] = (p + (c > 0), n + (c < 0))
        if not cnt:
            return s, exact
        wide = {v for a in s for v, c in a.items() if v != 1 and abs(c) > 1}
        v = min(cnt, key=lambda x: (x in wide, cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        for p in s:
            for n in s:
                cp, cn = p.get(v, 0), -n.get(v, 0)
                if exact and cp > 1 and cn > 1:
                    # between the two bounds there must always be a multiple
                    d = add(add(scale(p, cn), n, cp), const(-(cp - 1) * (cn - 1)))
                    if not entails(s, d):
                        exact = False
        s = tidy(eliminate(s, v))
        if s is not None and len(s) > LIMIT:
            return None, False
    return None, True

def related(sys_, goal):
    """the constraints connected with the symbols of the goal"""
    syms = {s for s in goal if s != 1}
    left = list(sys_)
    out = []
    ch = True
    while ch:
        ch = False
        nl = []
        for a in left:
            if any(s in syms for s in a if s != 1):
                out.append(a)
                n = {s for s in a if s != 1} - syms
                if n:
                    syms |= n
                    ch = True
                else:
                    ch = True
            else:
                nl.append(a)
        left = nl
    return out

def entails(sys_, goal):
    """sys_ => goal >= 0"""
    n = norm(goal)
    if n is None:
        return True
    neg = add(scale(goal, -1), const(-1))
    return feasible(related(sys_, goal) + [neg]) is False

def entails_eq(sys_, a):
    if not a:
        return True
    if is_const(a):
        return False
    return entails(sys_, a) and entails(sys_, scale(a, -1))

def pinned(sys_, v='n', top=700):
    """an integer solution with a small value of v (the other values mostly follow from it)"""
    w = witness(sys_)
    if w is not None or not any(v in c for c in sys_):
        return w
    for k in range(top):
        m = {v: const(k)}
        s = [subst(c, m) for c in sys_]
        if feasible(s) is False:
            continue
        w = witness(s, 400)
        if w is not None:
            w = dict(w)
            w[v] = k
            return w
    return None

def witness(sys_, budget=4000):
    """an integer solution (dict) found by back substitution, or None"""
    s = tidy(sys_)
    if s is None:
        return None
    layers = []
    cur = s
    while True:
        cnt = {}
        for a in cur:
            for v, c in a.items():
                if v != 1:
                    p, n = cnt.get(v, (0, 0))
                    cnt[v] = (p + (c > 0), n + (c < 0))
        if not cnt:
            break
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        layers.append((v, cur))
        cur = tidy(eliminate(cur, v))
        if cur is None or len(cur) > LIMIT:
            return None
    tries = [budget]
    def go(k, env):
        if k < 0:
            return env
        v, cons = layers[k]
        lo = hi = None
        for a in cons:
            c = a.get(v, 0)
            if not c:
                continue
            r = sum(c2 * (env.get(s2, 0) if s2 != 1 else 1) for s2, c2 in a.items() if s2 != v)
            if c > 0:
                b = -(r // c)          # v >= ceil(-r/c)
                lo = b if lo is None or b > lo else lo
            else:
                b = r // -c
                hi = b if hi is None or b < hi else hi
        if lo is None and hi is None:
            cand = range(0, 4)
        elif lo is None:
            cand = range(hi, hi - 70, -1)
        else:
            cand = range(lo, min(lo + 140, hi + 1) if hi is not None else lo + 140)
        for x in cand:
            tries[0] -= 1
            if tries[0] < 0:
                return None
            e = dict(env)
            e[v] = x
            r = go(k - 1, e)
            if r is not None:
                return r
        return None
    return go(len(layers) - 1, {})
