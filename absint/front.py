"""From the guarded token stream of the whole expansion to guarded items, functions and zones. Nothing here enumerates
option combinations: every step is a single left-to-right or right-to-left pass over the tokens that keeps, for each parser
state, the guard of the configurations in it."""
from . import mdd
from .mdd import T, F, AND, OR, NOT, DIFF
from .toks import word

ROOT = 'ROOT'


class G:
    """a delimited group: guarded children"""
    __slots__ = ('d', 'xs', 'src')

    def __init__(self, d, xs, src): self.d = d; self.xs = xs; self.src = src


def norm_tok(i):
    k = i[0]
    if k == 'i': return ''.join(word(p) for p in i[1])
    if k in ('p', 'lit'): return i[1]
    if k == 'lits': return '"' + ''.join(word(p) for p in i[1]) + '"'
    if k == 'h':
        t = i[1]
        return '<%s:%s>' % (i[2], t if isinstance(t, str) else repr(t))
    if k == 'gen': return ('gen', i[1], i[2])
    raise ValueError(i)


def nest(items, g=T):
    """guarded items -> [(absolute guard, token | G, source item)]"""
    out = []
    for gi, i in items:
        x = AND(g, gi)
        if x == F: continue
        if i[0] == 'g':
            kids = nest(i[2], x)
            if i[1] == '': out.extend(kids)
            else: out.append((x, G(i[1], kids, i), i))
        else: out.append((x, norm_tok(i), i))
    return out


def crate_root(xs, C):
    """replace every spelling of the configured crate root by ROOT; C = guard of an explicit `crate` option"""
    out = []
    n = len(xs)
    i = 0
    while i < n:
        g, t, src = xs[i]
        if isinstance(t, G):
            out.append((g, G(t.d, crate_root(t.xs, C), t.src), src)); i += 1; continue
        if t == '<Path:S.crate>' and DIFF(g, C) == F:
            add_root(out, g, src); i += 1; continue
        if t == '::' and AND(g, C) == F and i + 1 < n and xs[i + 1][1] == 'derive_builder' and xs[i + 1][0] == g:
            add_root(out, g, src); i += 2; continue
        out.append((g, t, src)); i += 1
    return out


def add_root(out, g, src):
    if out and out[-1][1] == ROOT and AND(out[-1][0], g) == F:
        out[-1] = (OR(out[-1][0], g), ROOT, out[-1][2])
    else: out.append((g, ROOT, src))


def flat(xs, g=T):
    """guarded linear tokens of nested ones"""
    out = []
    for gi, t, s in xs:
        x = AND(g, gi)
        if x == F: continue
        if isinstance(t, G):
            out.append((x, t.d[0], s)); out.extend(flat(t.xs, x)); out.append((x, t.d[1], s))
        else: out.append((x, t, s))
    return out


def variants(xs, ctx, limit=4000):
    """{token tuple: guard} of a zone, over the configurations of ctx; None when there are too many"""
    ids = {}
    rev = [(None, None)]
    cur = {0: ctx}
    for g, t, _ in flat(xs):
        nxt = {}
        for s, gs in cur.items():
            a = AND(gs, g)
            if a != F:
                k = (s, t)
                j = ids.get(k)
                if j is None:
                    j = ids[k] = len(rev); rev.append(k)
                nxt[j] = OR(nxt.get(j, F), a)
                b = DIFF(gs, g)
                if b != F: nxt[s] = OR(nxt.get(s, F), b)
            else: nxt[s] = OR(nxt.get(s, F), gs)
        cur = nxt
        if len(cur) > limit: return None
    out = {}
    for s, g in cur.items():
        seq = []
        while s:
            s, t = rev[s]
            seq.append(t)
        out[tuple(reversed(seq))] = g
    return out


def seq_diff(A, B, ctx):
    """guard (within ctx) of the configurations in which two guarded sequences differ"""
    bad = F
    cur = {0: ctx}
    for g, a in A:
        nxt = {}
        for j, gj in cur.items():
            out = DIFF(gj, g)
            if out != F: nxt[j] = OR(nxt.get(j, F), out)
            todo = AND(gj, g)
            k = j
            while todo != F and k < len(B):
                h, b = B[k]
                hit = AND(todo, h)
                if hit != F:
                    if a == b: nxt[k + 1] = OR(nxt.get(k + 1, F), hit)
                    else: bad = OR(bad, hit)
                    todo = DIFF(todo, h)
                k += 1
            bad = OR(bad, todo)
        cur = nxt
    for j, gj in cur.items():
        for h, _ in B[j:]: bad = OR(bad, AND(gj, h))
    return bad


class Item:
    def __init__(self, key): self.key = key; self.g = F; self.head = []; self.body = None

    def __repr__(self): return 'Item(%s)' % (self.key,)


def split_list(xs):
    """elements of a comma separated list, read right to left: Item per element (head = its tokens without the comma)"""
    its, left = split_items(xs, lambda t: t == ',')
    if left:
        g = mdd.ORS([x[0] for x in left])
        it = Item(len(xs)); it.g = g; it.head = left; it.body = None
        its.append(it)
    return its


def split_items(xs, is_end=lambda t: isinstance(t, G) and t.d == '{}'):
    """items ended by a brace group, read right to left; -> (items in order, leftovers)"""
    items = {}
    left = []
    cur = {}                      # item key -> guard of the configurations inside its header
    none = T
    for pos in range(len(xs) - 1, -1, -1):
        g, t, src = xs[pos]
        if is_end(t):
            it = items[pos] = Item(pos)
            it.g = g; it.body = t; it.bodysrc = src
            cur = {k: DIFF(gk, g) for k, gk in cur.items()}
            cur = {k: gk for k, gk in cur.items() if gk != F}
            none = DIFF(none, g)
            cur[pos] = g
            continue
        for k, gk in cur.items():
            x = AND(g, gk)
            if x != F: items[k].head.append((x, t, src))
        x = AND(g, none)
        if x != F: left.append((x, t, src))
    out = [items[k] for k in sorted(items)]
    for it in out: it.head.reverse()
    left.reverse()
    return out, left


def automaton(xs, ctx, start, step):
    """run a deterministic automaton over guarded tokens. step(state, token) -> (new state, zone or None).
    -> zones {zone: guarded tokens}, final {state: guard}"""
    cur = {start: ctx}
    zones = {}
    for g, t, src in xs:
        nxt = {}
        for s, gs in cur.items():
            out = DIFF(gs, g)
            if out != F: nxt[s] = OR(nxt.get(s, F), out)
            x = AND(gs, g)
            if x == F: continue
            s2, z = step(s, t)
            nxt[s2] = OR(nxt.get(s2, F), x)
            if z is not None: zones.setdefault(z, []).append((x, t, src))
        cur = nxt
    return {z: merge_adjacent(v) for z, v in zones.items()}, cur


def merge_adjacent(v):
    """the same token entered from several states"""
    out = []
    for g, t, s in v:
        if out and out[-1][1] is t and out[-1][2] is s: out[-1] = (OR(out[-1][0], g), t, s)
        else: out.append((g, t, s))
    return out


def head_step(s, t):
    """zones of an item header: attrs, vis, kw, then the rest"""
    if s == 'start':
        if t == '#': return 'attr', 'attrs'
        if t in ('struct', 'enum', 'impl', 'fn', 'union', 'trait', 'mod', 'type', 'const', 'static', 'use', 'unsafe', 'async', 'extern'):
            return ('kw', t), 'kw'
        return 'start', 'vis'
    if s == 'attr': return ('attr' if t == '!' else 'start'), 'attrs'
    kw = s[1]
    if s[0] == 'kw' and kw in ('unsafe', 'async', 'extern', 'const') and t in ('fn', 'impl', 'trait'): return ('kw', t), 'kw'
    if kw in ('struct', 'enum', 'fn'):
        if s[0] == 'kw': return ('generics', kw), 'name'
        if s[0] == 'generics':
            if kw == 'fn' and isinstance(t, G) and t.d == '()': return ('ret', kw), 'params'
            if t == 'where' or isinstance(t, str) and t.startswith('<WhereClause:'): return ('where', kw), 'where'
            return s, 'generics'
        if s[0] == 'ret':
            if t == 'where' or isinstance(t, str) and t.startswith('<WhereClause:'): return ('where', kw), 'where'
            return s, 'ret'
        return s, 'where'
    # impl
    if t == 'where' or isinstance(t, str) and t.startswith('<WhereClause:'): return ('where', kw), 'where'
    return s, 'rest' if s[0] != 'where' else 'where'


def attrs(zone):
    """attribute list of an attrs zone: [(guard, G or hole, source)]"""
    out = []
    for g, t, s in zone:
        if isinstance(t, G): out.append((g, t, s))
        elif isinstance(t, str) and t.startswith('<Attribute:'): out.append((g, t, s))
    return out
