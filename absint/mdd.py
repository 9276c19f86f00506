"""Multi-valued decision diagrams: canonical guards over finite option atoms. No search and no solver: every
Boolean operation is a memoised traversal and equality is identity."""
import bisect, sys
sys.setrecursionlimit(100000)
F, T = 0, 1
_var = [None, None]          # node -> variable level
_kids = [None, None]         # node -> tuple of children
_uniq = {}
_and = {}
_not = {F: T, T: F}
atoms = {}                   # level -> (key, domain)
_level = {}
_order = []                  # levels in use, ascending
_near = {}                   # option or construct named in a key -> last level of an atom about it


def reset():
    del _var[2:], _kids[2:], _order[:]
    for d in (_uniq, _and, _level, _not, atoms, _near): d.clear()
    _not.update({F: T, T: F})


def mk(level, kids):
    k0 = kids[0]
    for k in kids:
        if k != k0:
            break
    else:
        return k0
    key = (level, kids)
    n = _uniq.get(key)
    if n is None:
        n = len(_var)
        _var.append(level); _kids.append(kids)
        _uniq[key] = n
    return n


def var(key, domain=(False, True)):
    l = _level.get(key)
    if l is None:
        ns = []
        _names(key, ns)
        l = _place(ns)
        atoms[l] = (key, tuple(domain))
        _level[key] = l
        bisect.insort(_order, l)
        for n in ns: _near[n] = l
    return l


def _names(k, out):
    if isinstance(k, str): out.append(k)
    elif isinstance(k, tuple):
        for x in k: _names(x, out)


def _place(names):
    """a new atom goes next to the atoms about the same part of the input, so that diagrams stay small; placing it between
    existing levels is sound because no diagram mentions it yet"""
    if not _order: return 0.0
    best = None
    for n in names:
        while n and n not in _near: n = n[:max(n.rfind(c) for c in '.#:@')] if any(c in n for c in '.#:@') else ''
        if '.' in n or ':' in n or '@' in n:
            l = _near[n]
            if best is None or l > best: best = l
    last = _order[-1]
    if best is None or best == last: return last + 1.0
    nxt = _order[bisect.bisect_right(_order, best)]
    l = best + (nxt - best) / 32
    return l if best < l < nxt else last + 1.0


only = None                  # (names of options that stay symbolic) or None for all; the others are absent


def absent(key):
    """an option that this analysis leaves out of its input"""
    if only is None or not isinstance(key, tuple) or key[0] not in ('o', 'g'): return False
    k = key[1]
    return k not in only and (k[k.index('.'):] if '.' in k else k) not in only


def lit(key, value, domain=(False, True)):
    if only is not None and absent(key): return F if value is True else T
    l = var(key, domain)
    return mk(l, tuple(T if v == value else F for v in atoms[l][1]))


def isin(key, values, domain=(False, True)):
    l = var(key, domain)
    return mk(l, tuple(T if v in values else F for v in atoms[l][1]))


def known(key):
    return key in _level


def domain(key):
    return atoms[_level[key]][1]


def NOT(a):
    r = _not.get(a)
    if r is None:
        r = mk(_var[a], tuple(NOT(k) for k in _kids[a]))
        _not[a] = r; _not[r] = a
    return r


def AND(a, b):
    if a == F or b == F: return F
    if a == T: return b
    if b == T or a == b: return a
    if a > b: a, b = b, a
    key = (a, b)
    r = _and.get(key)
    if r is None:
        va, vb = _var[a], _var[b]
        if va == vb:
            r = mk(va, tuple(AND(x, y) for x, y in zip(_kids[a], _kids[b])))
        elif va < vb:
            r = mk(va, tuple(AND(x, b) for x in _kids[a]))
        else:
            r = mk(vb, tuple(AND(a, y) for y in _kids[b]))
        _and[key] = r
    return r


def OR(a, b):
    if a == T or b == T: return T
    if a == F: return b
    if b == F or a == b: return a
    return NOT(AND(NOT(a), NOT(b)))


def DIFF(a, b): return AND(a, NOT(b))
def ITE(c, a, b): return OR(AND(c, a), AND(NOT(c), b))
def IFF(a, b): return ITE(a, b, NOT(b))
def IMP(a, b): return OR(NOT(a), b)


def ANDS(xs):
    r = T
    for x in xs: r = AND(r, x)
    return r


def ORS(xs):
    r = F
    for x in xs: r = OR(r, x)
    return r


def restrict(a, key, value):
    """cofactor"""
    if key not in _level: return a
    l = _level[key]
    i = atoms[l][1].index(value)
    memo = {}

    def go(n):
        if n <= 1 or _var[n] > l: return n
        r = memo.get(n)
        if r is None:
            r = _kids[n][i] if _var[n] == l else mk(_var[n], tuple(go(k) for k in _kids[n]))
            memo[n] = r
        return r
    return go(a)


def quant(a, keys, forall=False):
    """exists (or forall) over the atoms in keys (a set or predicate)"""
    pred = keys if callable(keys) else (lambda k: k in keys)
    memo = {}

    def go(n):
        if n <= 1: return n
        r = memo.get(n)
        if r is None:
            ks = [go(k) for k in _kids[n]]
            if pred(atoms[_var[n]][0]):
                r = ANDS(ks) if forall else ORS(ks)
            else:
                r = mk(_var[n], tuple(ks))
            memo[n] = r
        return r
    return go(a)


def support(a):
    seen, out, st = set(), set(), [a]
    while st:
        n = st.pop()
        if n <= 1 or n in seen: continue
        seen.add(n); out.add(_var[n]); st.extend(_kids[n])
    return {atoms[l][0] for l in out}


def witness(a, prefer=None):
    """one satisfying assignment {key: value} over the support, preferring the values in `prefer`"""
    w = {}
    if a == F: return None
    while a > 1:
        key, dom = atoms[_var[a]]
        cand = [i for i in range(len(dom)) if _kids[a][i] != F]
        if prefer is not None and key in prefer and prefer[key] in dom and dom.index(prefer[key]) in cand:
            i = dom.index(prefer[key])
        else:
            i = cand[0]
        w[key] = dom[i]
        a = _kids[a][i]
    return w


def evaluate(a, val, default=None):
    while a > 1:
        key, dom = atoms[_var[a]]
        v = val[key] if key in val else (default(key, dom) if default else dom[0])
        a = _kids[a][dom.index(v)]
    return a == T


def show(a, limit=6):
    """readable: one witness of a (guards are reported by example)"""
    if a == T: return 'always'
    if a == F: return 'never'
    w = witness(a)
    return ', '.join('%s=%s' % (k if isinstance(k, str) else '/'.join(map(str, k)), v) for k, v in list(w.items())[:limit])
