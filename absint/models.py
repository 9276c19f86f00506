"""Abstract semantics of the library functions the macro crate calls (std, quote, proc_macro2, syn, darling leaves).
Every handler is matched on the resolved callee, never on the caller."""
import re
from . import mdd
from .mdd import T, F, AND, OR, NOT, DIFF
from .engine import (UNIT, BOT, UNINIT, TRUE, FALSE, St, mkb, merge_vals, merge_states, guarded, Undecided, Call)

M = []
MARK = object()


def model(*rxs):
    def deco(f):
        for r in rxs: M.append((re.compile(r), f))
        return f
    return deco


# ------------------------------------------------------------------ helpers
def alts(E, st, v):
    """live alternatives of a value"""
    for g, x in guarded(v):
        gg = AND(g, st.g)
        if gg != F and x[0] not in 'BU': yield gg, g, x


def under(E, st, parts):
    """parts: [(guard, fn(state)->(state,value))] with disjoint guards -> joined (state, value)"""
    outs = []
    for g, fn in parts:
        gg = AND(st.g, g)
        if gg == F: continue
        s, v = fn(st.fork(gg))
        if s is not None and s.g != F: outs.append((s, v))
    if not outs: return None, None
    if len(outs) == 1: return outs[0]
    return merge_states([s for s, _ in outs]), merge_vals([(s.g, v) for s, v in outs])


def opt(E, st, v):
    """option/result-like value -> [(guard, variant index, payload)]"""
    v = E.deep(st, v)
    out = []
    for gg, g, x in alts(E, st, v):
        if x[0] == 'a': out.append((g, x[2], x[3][0] if x[3] else None))
        elif x[0] == 'y':
            for g2, i in E.disc_alts(x[1], x[2]):
                n = len(E.T[x[2]]['v'][i]['f'])
                out.append((AND(g, g2), i, E.project(('y', x[1], x[2], i), ('f', 0, None)) if n else None))
        else: raise Undecided('option ' + str(x)[:80])
    return [o for o in out if AND(o[0], st.g) != F]


def strv(E, st, v):
    v = E.deep(st, v)
    if v[0] == 's': return v
    if v[0] == 'u': return ('u', tuple((g, strv(E, st, x)) for g, x in v[1]))
    if v[0] == 'y': return ('s', (('disp', v[1]),))
    if v[0] == 'id': return ('s', v[1])
    if v[0] == 'x': return strv(E, st, v[1])
    if v[0] == 'a' and len(v[3]) >= 1: return strv(E, st, v[3][-1])
    return ('s', (('disp', E.term(v)),))


def norm_parts(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else: out.append(p)
    return tuple(out)


def cat(E, st, *vs):
    """concatenation of string values (with alternatives)"""
    acc = [(T, ())]
    for v in vs:
        nxt = []
        for g, p in acc:
            for g2, x in guarded(v):
                gg = AND(g, g2)
                if AND(gg, st.g) != F: nxt.append((gg, p + x[1]))
        acc = nxt
    return merge_vals([(g, ('s', norm_parts(p))) for g, p in acc]) if acc else BOT


def str_eq(E, a, b):
    if a[0] == 'u' or b[0] == 'u':
        return mdd.ORS([AND(AND(g, g2), str_eq(E, x, y)) for g, x in guarded(a) for g2, y in guarded(b)])
    p, q = a[1], b[1]
    if p == q: return T
    ca, cb = all(isinstance(x, str) for x in p), all(isinstance(x, str) for x in q)
    if ca and cb: return F
    if cb: p, q, ca, cb = q, p, cb, ca
    if ca and len(q) == 1:
        s = ''.join(p)
        return E.streq(q[0], s)
    if ca:
        s = ''.join(p)
        if isinstance(q[0], str) and not s.startswith(q[0]): return F
        if isinstance(q[-1], str) and not s.endswith(q[-1]): return F
    # identical prefix can be dropped when the rest decides
    if p and q and isinstance(p[0], str) and isinstance(q[0], str):
        n = min(len(p[0]), len(q[0]))
        if p[0][:n] != q[0][:n]: return F
    x, y = sorted([p, q], key=repr)
    return mdd.lit(('streq', x, y), True)


def lst(E, st, v):
    """the sequence behind a list value or reference to one: tuple of (guard, element)"""
    v = E.deep(st, v)
    if v[0] == 'x': v = v[1]
    if v[0] == 'l': return v[1]
    if v[0] == 'u':
        out = []
        for gg, g, x in alts(E, st, v):
            for g2, e in lst(E, st, x): out.append((AND(g, g2), e))
        return tuple(out)
    if v[0] == 'y':
        t = E.T[v[2]] if v[2] is not None else None
        el = t['a'][0] if t and t['k'] == 'adt' and t['a'] else (t.get('t') if t else None)
        return ((T, ('splat', v[1], el)),)
    if v[0] == 'a' and len(v[3]) == 1: return lst(E, st, v[3][0])
    if v[0] in 'BU': return ()
    raise Undecided('list ' + str(v)[:80])


def refs(E, st, v):
    """the sequence of element references of a list behind reference v"""
    # walk to the innermost reference to a list value
    out = []
    for gg, g, x in alts(E, st, v):
        n = 0
        while True:
            d = E.deref(st, x, None)
            if d is None:
                # list by value: give it a cell
                if x[0] == 'l':
                    x = E.new_cell(st, x); continue
                break
            if len(d) != 1: break
            _, c, p = d[0]
            w = E.load(st, c, p)
            if w[0] in ('r',) or (w[0] == 'y' and w[2] is not None and E.T[w[2]]['k'] == 'ref'):
                x = w; continue
            break
        if d is None: raise Undecided('refs ' + str(x)[:80])
        for g1, c, p in d:
            w = E.load(st, c, p)
            if w[0] == 'a' and len(w[3]) == 1 and w[3][0][0] == 'l': p = p + (('f', 0, None),); w = w[3][0]
            if w[0] == 'x': p = p + (('box',),); w = w[1]
            for i, (g2, e) in enumerate(lst(E, st, w)):
                gx = AND(AND(g, g1), g2)
                if gx == F: continue
                if e[0] == 'splat': out.append((gx, e[:3] + (True,)))
                else: out.append((gx, ('r', c, p + (('e', i),))))
    return tuple(out)


def it(seq, cur=0): return ('it', 'v', tuple(seq), cur)


SPLAT = 2     # elements of a sequence of unknown length which are followed


def unsplat(E, st, seq, byref=False):
    """a sequence with its parts of unknown length replaced by their first elements"""
    if not any(e[0] == 'splat' for _, e in seq): return tuple(seq)
    out = []
    for g, e in seq:
        if e[0] != 'splat': out.append((g, e)); continue
        t, el = e[1], e[2]
        if len(e) > 3: byref = e[3]
        some = T if nonempty(t) else NOT(E.atom(('empty', t)))
        h = AND(g, some)
        for n in range(SPLAT):
            v = E.sym(('idx', t, n), el)
            if byref: v = E.new_cell(st, v)
            out.append((h, v))
            h = AND(h, E.atom(('more', t, n)))
    return tuple(out)


def nonempty(t):
    """the segments of a path: at least one"""
    return (t.endswith('.segments') if isinstance(t, str) else len(t) == 3 and t[0] == '.' and t[2] == 'segments')


def elem_ref_needed(E, ty):
    return ty is not None and E.T[ty]['k'] == 'ref'


ITER_ADT = re.compile(r'(iter::adapters|std::iter|core::iter|::iter)::.*?(Map|Filter|FilterMap|Enumerate|Cloned|Copied|Chain|Zip|Rev|Skip|Take|Peekable|FlatMap|Flatten|Inspect|Once|Empty|TakeWhile|SkipWhile)$')


def iter_kind(E, v):
    if v[0] == 'it': return 'it'
    if v[0] == 'a' and v[1] is not None and E.T[v[1]]['k'] == 'adt':
        n = E.T[v[1]]['name']
        m = re.match(r'^(std|core|alloc)::', n)
        last = n.split('::')[-1]
        if m and last in ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Cloned', 'Copied', 'Chain', 'Zip', 'Rev', 'Once', 'Empty',
                          'Inspect', 'Skip', 'Take', 'Peekable', 'FlatMap', 'Flatten', 'MapWhile', 'TakeWhile', 'SkipWhile', 'Scan', 'StepBy'): return last
        if m and n.startswith('std::option') and last in ('Iter', 'IntoIter', 'IterMut', 'Item'): return 'OptionIter'
        if m and last in ('Option',): return 'Option'
        if m and last in ('Range',): return 'Range'
        if user_next(E, v[1]) is not None: return 'user'
        if last in ('IntoIter', 'Iter') and len(v[3]) == 1: return 'wrap'
    return None


def user_next(E, ty):
    """the body of Iterator::next for a type of the library itself"""
    c = E.__dict__.setdefault('user_next', {})
    if not c:
        c[None] = None
        for i, f in enumerate(E.fns):
            if 'blocks' in f and f['local'] and f['argc'] == 1 and re.match(r'^<.* as std::iter::Iterator>::next$', f['name'].split('::<')[0] if not f['name'].startswith('<') else f['name']) \
                    and not re.match(r'^<(std|core|alloc)::', f['name']):
                t = E.T[f['locals'][1]]
                if t['k'] == 'ref': c[t['t']] = i
    return c.get(ty)


def visitable(E, st, v):
    v = E.deep(st, v)
    for _, _, x in alts(E, st, v):
        k = iter_kind(E, x)
        if k is None: return False
        if k in ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Cloned', 'Copied', 'Chain', 'Zip', 'Rev', 'Inspect', 'Skip', 'Take', 'Peekable'):
            if not all(visitable(E, st, f) for f in x[3] if is_iterish(E, st, f)): return False
            if not is_iterish(E, st, x[3][0]): return False
        if k in ('FlatMap', 'Flatten', 'MapWhile', 'TakeWhile', 'SkipWhile', 'Scan', 'StepBy') and not (x[3] and x[3][0] == OWN): return False
        if k in ('FlatMap', 'Flatten', 'MapWhile', 'TakeWhile', 'SkipWhile', 'Scan', 'StepBy') and not visitable(E, st, x[3][1]): return False
    return True


OWN = ('own',)     # marks iterators which the models build in a layout of their own


def is_iterish(E, st, v):
    v = E.deep(st, v)
    return any(iter_kind(E, x) is not None for _, _, x in alts(E, st, v))


def seq_sink(E, st, g, v, sink, stop):
    gg = DIFF(AND(st.g, g), stop)
    if gg == F: return st, stop
    rest = DIFF(st.g, gg)
    s2, stop2 = sink(st.fork(gg), v)
    s3 = merge_states([x for x in (s2, St(rest, st.mem)) if x is not None and x.g != F])
    if s3 is None: return None, T
    return s3, OR(stop, AND(gg, stop2))


def visit(E, st, v, sink, stop=F):
    """push every element of iterator v through sink(state, elem) -> (state, stop guard); -> (state, stop)"""
    v = E.deep(st, v)
    al = list(alts(E, st, v))
    if len(al) > 1:
        for gg, g, x in al:
            def one(s, _x, x=x):
                return visit(E, s, x, sink, stop)
            if st is None: return None, T
            gg2 = AND(st.g, g)
            if gg2 == F: continue
            rest = DIFF(st.g, gg2)
            s2, sp = visit(E, st.fork(gg2), x, sink, stop)
            st = merge_states([y for y in (s2, St(rest, st.mem)) if y is not None and y.g != F])
            stop = OR(stop, AND(gg2, sp))
        return st, stop
    if not al: return st, stop
    x = al[0][2]
    k = iter_kind(E, x)
    if k == 'it':
        for g, e in unsplat(E, st, x[2][x[3]:]):
            if st is None: return None, T
            st, stop = seq_sink(E, st, g, e, sink, stop)
        return st, stop
    fs = x[3]
    if k in ('Map',):
        def s2(s, e):
            s, r = E.call_value(s, fs[1], [e], None, '')
            if s is None: return None, T
            return sink(s, r)
        return visit(E, st, fs[0], s2, stop)
    if k == 'Inspect':
        def s2(s, e):
            s, r = E.call_value(s, fs[1], [E.new_cell(s, e)], None, '')
            if s is None: return None, T
            return sink(s, e)
        return visit(E, st, fs[0], s2, stop)
    if k == 'Filter':
        def s2(s, e):
            s, r = E.call_value(s, fs[1], [E.new_cell(s, e)], None, '')
            if s is None: return None, T
            return seq_sink(E, s, E.as_bool(r), e, sink, F)
        return visit(E, st, fs[0], s2, stop)
    if k == 'FilterMap':
        def s2(s, e):
            s, r = E.call_value(s, fs[1], [e], None, '')
            if s is None: return None, T
            stp = F
            for g, vi, pl in opt(E, s, r):
                if vi == 1:
                    s, stp = seq_sink(E, s, g, pl, sink, stp)
                    if s is None: return None, T
            return s, stp
        return visit(E, st, fs[0], s2, stop)
    if k in ('Cloned', 'Copied'):
        return visit(E, st, fs[0], lambda s, e: sink(s, E.rload(s, e)), stop)
    if k == 'Enumerate':
        cnt = {0: T}

        def s2(s, e):
            idx = merge_vals([(g, ('i', n)) for n, g in cnt.items() if AND(g, s.g) != F])
            nxt = {}
            for n, g in cnt.items():
                nxt[n + 1] = OR(nxt.get(n + 1, F), AND(g, s.g))
                nxt[n] = OR(nxt.get(n, F), DIFF(g, s.g))
            cnt.clear(); cnt.update({n: g for n, g in nxt.items() if g != F})
            return sink(s, ('a', None, 0, (idx, e)))
        return visit(E, st, fs[0], s2, stop)
    if k == 'Chain':
        for f in fs[:2]:
            for g, vi, pl in opt(E, st, f):
                if vi != 1: continue
                gg = AND(st.g, g)
                rest = DIFF(st.g, gg)
                s2, sp = visit(E, st.fork(gg), pl, sink, stop)
                st = merge_states([y for y in (s2, St(rest, st.mem)) if y is not None and y.g != F])
                if st is None: return None, T
                stop = OR(stop, sp)
        return st, stop
    if k in ('OptionIter', 'Option', 'Once', 'wrap', 'Empty'):
        if k == 'Empty': return st, stop
        y = x
        while y[0] == 'a' and y[1] is not None and not E.T[y[1]]['name'].endswith('option::Option') and len(y[3]) == 1: y = y[3][0]
        if y[0] == 'it': return visit(E, st, y, sink, stop)
        for g, vi, pl in opt(E, st, y):
            if vi == 1:
                st, stop = seq_sink(E, st, g, pl, sink, stop)
                if st is None: return None, T
        return st, stop
    if k == 'Peekable':
        for g, vi, pl in opt(E, st, fs[1]):
            gg = AND(st.g, g)
            if gg == F: continue
            rest = DIFF(st.g, gg)
            s2, sp = st.fork(gg), stop
            if vi == 1:
                ended = F
                for g2, vj, p2 in opt(E, s2, pl):
                    if vj == 1: s2, sp = seq_sink(E, s2, g2, p2, sink, sp)
                    else: ended = OR(ended, AND(gg, g2))
                    if s2 is None: return None, T
                sp = OR(sp, ended)
            s2, sp = visit(E, s2, fs[0], sink, sp)
            st = merge_states([y for y in (s2, St(rest, st.mem)) if y is not None and y.g != F])
            if st is None: return None, T
            stop = OR(stop, AND(gg, sp))
        return st, stop
    if k in ('FlatMap', 'Flatten'):
        def s2(s, e):
            if k == 'FlatMap':
                s, e = E.call_value(s, fs[2], [e], None, '')
                if s is None: return None, T
            return visit(E, s, as_iter(E, s, e), sink, F)
        return visit(E, st, fs[1], s2, stop)
    if k in ('TakeWhile', 'MapWhile'):
        def s2(s, e):
            s, r = E.call_value(s, fs[2], [E.new_cell(s, e) if k == 'TakeWhile' else e], None, '')
            if s is None: return None, T
            parts = [(E.as_bool(r), e)] if k == 'TakeWhile' else [(g, pl) for g, vi, pl in opt(E, s, r) if vi == 1]
            go, stp = mdd.ORS([g for g, _ in parts]), F
            for g, pl in parts:
                s, stp = seq_sink(E, s, g, pl, sink, stp)
                if s is None: return None, T
            return s, OR(stp, AND(s.g, NOT(go)))
        return visit(E, st, fs[1], s2, stop)
    if k == 'SkipWhile':
        skipping = [T]

        def s2(s, e):
            h = AND(s.g, skipping[0])
            if h == F: return sink(s, e)
            s1, r = E.call_value(s.fork(h), fs[2], [E.new_cell(s, e)], None, '')
            s = merge_states([y for y in (s1, St(DIFF(s.g, h), s.mem)) if y is not None and y.g != F])
            if s is None: return None, T
            skipping[0] = AND(skipping[0], OR(E.as_bool(r), NOT(h)))
            return seq_sink(E, s, OR(NOT(h), NOT(E.as_bool(r))), e, sink, F)
        return visit(E, st, fs[1], s2, stop)
    if k == 'Scan':
        cell = E.new_cell(st, fs[2])

        def s2(s, e):
            s, r = E.call_value(s, fs[3], [cell, e], None, '')
            if s is None: return None, T
            go = stp = F
            for g, vi, pl in opt(E, s, r):
                if vi != 1: continue
                go = OR(go, g)
                s, stp = seq_sink(E, s, g, pl, sink, stp)
                if s is None: return None, T
            return s, OR(stp, AND(s.g, NOT(go)))
        return visit(E, st, fs[1], s2, stop)
    if k == 'StepBy':
        st, xs = drain(E, st, fs[1])
        if st is None: return None, T
        if fs[2][0] != 'i' or fs[2][1] == 0: raise Undecided(k)
        out, cnt = [], {0: T}
        for g, e in xs:
            out.append((AND(g, cnt.get(0, F)), e))
            nx = {}
            for j, gj in cnt.items():
                nx[(j + 1) % fs[2][1]] = OR(nx.get((j + 1) % fs[2][1], F), AND(gj, g)); nx[j] = OR(nx.get(j, F), DIFF(gj, g))
            cnt = nx
        return visit(E, st, it([x for x in out if AND(x[0], st.g) != F]), sink, stop)
    if k == 'user':
        ref = E.new_cell(st, x)
        for n in range(200):
            st, r = E.run(st, user_next(E, x[1]), [ref])
            if st is None: return None, T
            more = F; ends = []
            for g, vi, pl in opt(E, st, r):
                gg = AND(g, st.g)
                if gg == F: continue
                if vi != 1:
                    ends.append(St(gg, dict(st.mem))); continue
                s2, stop = seq_sink(E, st.fork(gg), T, pl, sink, stop)
                if s2 is not None: ends.append(s2)
                more = OR(more, gg)
            st = merge_states(ends)
            if st is None: return None, T
            if more == F: return st, stop
            if AND(st.g, NOT(more)) != F: raise Undecided('iteration of unknown length over a type of the library')
        raise Undecided('iteration over a type of the library without end')
    if k in ('Rev', 'Skip', 'Take', 'Zip'):
        st, xs = drain(E, st, fs[0])
        if st is None: return None, T
        if k == 'Rev': seq = xs[::-1]
        elif k in ('Skip', 'Take'):
            ns = [(g, y) for _, g, y in alts(E, st, fs[1])]
            if any(y[0] != 'i' for _, y in ns): raise Undecided(k)
            seq, before = [], {0: T}
            for g, e in xs:
                past = mdd.ORS([AND(gn, h) for gn, y in ns for j, h in before.items() if (j >= y[1]) == (k == 'Skip')])
                h = AND(g, past)
                if AND(h, st.g) != F: seq.append((simplify(h, st.g), e))
                nx = {}
                for j, hj in before.items():
                    nx[j + 1] = OR(nx.get(j + 1, F), AND(hj, g)); nx[j] = OR(nx.get(j, F), DIFF(hj, g))
                before = {j: hj for j, hj in nx.items() if AND(hj, st.g) != F}
        else:
            st, ys = drain(E, st, fs[1])
            if [g for g, _ in xs] != [g for g, _ in ys]: raise Undecided('zip')
            seq = [(g, ('a', None, 0, (a, b))) for (g, a), (_, b) in zip(xs, ys)]
        return visit(E, st, it(seq), sink, stop)
    if k == 'Range':
        ga, gb = list(guarded(fs[0])), list(guarded(fs[1]))
        if all(v[0] == 'i' for _, v in ga + gb):
            at = {}
            for g1, v in ga:
                for g2, w in gb:
                    g = AND(g1, g2)
                    if AND(st.g, g) == F: continue
                    if w[1] - v[1] > 64: raise Undecided('long range')
                    for n in range(v[1], w[1]): at[n] = OR(at.get(n, F), g)
            return visit(E, st, it([(simplify(g, st.g), ('i', n)) for n, g in sorted(at.items())]), sink, stop)
    raise Undecided('iterator ' + str(k) + ' ' + str(x)[:60])


def as_iter(E, st, v):
    """what IntoIterator makes of a value"""
    outs = []
    for gg, g, x in alts(E, st, v):
        y = E.deep(st, x)
        if iter_kind(E, y) is not None: outs.append((g, y)); continue
        s, w = into_iter(E, st, x)
        if w[0] == 'u' or iter_kind(E, w) is None: raise Undecided('into_iter ' + str(w)[:60])
        outs.append((g, w))
    return merge_vals(outs)


def count_guards(E, st, xs):
    """{n: guard} of how many elements are present"""
    cnt = {0: T}
    for g, _ in xs:
        nx = {}
        for k, h in cnt.items():
            nx[k + 1] = OR(nx.get(k + 1, F), AND(h, g)); nx[k] = OR(nx.get(k, F), DIFF(h, g))
        cnt = {k: h for k, h in nx.items() if AND(h, st.g) != F}
    return cnt


def drain(E, st, v):
    out = []

    def sink(s, e):
        out.append((s.g, e)); return s, F
    st, _ = visit(E, st, v, sink)
    # guards are under the entry guard; drop what it implies
    if st is None: return None, []
    return st, [(simplify(g, st.g), e) for g, e in out]


def simplify(g, ctx):
    return T if DIFF(ctx, g) == F else g


# ------------------------------------------------------------------ panics
@model(r'^(core|std)::panicking::|^(std|core)::(option|result)::(expect_failed|unwrap_failed)|^std::rt::(begin_panic|panic_fmt)|^std::result::unwrap_failed|panicking::panic|core::slice::index::.*fail|core::str::slice_error_fail|::assert_failed|handle_alloc_error|raw_vec::handle_error|RangeError::report|precondition_check$')
def m_panic(E, st, args, rt, c):
    if 'precondition_check' in c.dname: return UNIT
    m = ''
    if args:
        a = E.deep(st, args[0])
        if a[0] == 's' and all(isinstance(p, str) for p in a[1]): m = ''.join(a[1])
        elif a[0] == 's': m = str(a[1])
    E.panic(st.g, c.dname.split('::')[-1] + (': ' + m if m else ''), c.where)
    return None


# ------------------------------------------------------------------ Option/Result fast paths are stepped into; mem
@model(r'^std::mem::(replace|take|swap)$|^core::mem::(replace|take|swap)$')
def m_mem(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n == 'replace':
        old = E.rload(st, args[0]); E.rstore(st, args[0], args[1]); return old
    if n == 'swap':
        a, b = E.rload(st, args[0]), E.rload(st, args[1])
        E.rstore(st, args[0], b); E.rstore(st, args[1], a); return UNIT
    old = E.rload(st, args[0])
    s2, v = default_of(E, st, rt)
    E.rstore(s2, args[0], v)
    return s2, old


def default_of(E, st, ty):
    t = E.T[ty]
    n = t.get('name', '')
    if t['k'] == 'adt' and n.endswith('option::Option'): return st, ('a', ty, 0, ())
    if t['k'] == 'adt' and n.endswith('vec::Vec') or n.endswith('Punctuated'): return st, ('l', ())
    if t['k'] == 'adt' and n.endswith('String'): return st, ('s', ())
    if t['k'] == 'bool': return st, FALSE
    if t['k'] == 'adt' and n.endswith('TokenStream'): return st, ('k', ())
    for i, f in enumerate(E.fns):
        if f['name'].endswith('as std::default::Default>::default') and 'blocks' in f and f['locals'][0] == ty:
            return E.run(st, i, [])
    return st, E.sym(('default', E.ts(ty)), ty)


@model(r'^std::mem::(drop|forget)$|^std::ptr::drop_in_place|^std::hint::(must_use|black_box)|^std::convert::identity$|^core::hint::must_use')
def m_ident(E, st, args, rt, c):
    if c.dname.endswith(('drop', 'forget', 'drop_in_place')):
        return UNIT
    return args[0] if args else UNIT


@model(r'^std::intrinsics::(cold_path|assert_inhabited|assume)|caller_location|assert_unsafe_precondition')
def m_intr(E, st, args, rt, c): return UNIT if 'caller_location' not in c.dname else ('y', ('loc',), rt)


# ------------------------------------------------------------------ Box / vec! / Vec
@model(r'^std::boxed::(Box::<T>::new_uninit|box_new_uninit)$')
def m_newuninit(E, st, args, rt, c):
    E.frame += 1
    cell = ('H', E.frame)
    st.mem[cell] = UNINIT
    return ('r', cell, ())


@model(r'box_assume_init_into_vec_unsafe$')
def m_boxvec(E, st, args, rt, c):
    v = E.rload(st, args[0])
    while v[0] == 'a':
        nx = [x for x in v[3] if x[0] not in 'U']
        if not nx: return ('l', ())
        v = nx[-1]
    if v[0] == 'l': return v
    raise Undecided('vec! of ' + str(v)[:60])


@model(r'^std::boxed::Box::<T>::new$', r'^std::boxed::Box::<T, A>::leak$')
def m_boxnew(E, st, args, rt, c):
    if c.dname.endswith('leak'):
        return E.new_cell(st, args[0][1] if args[0][0] == 'x' else args[0])
    return ('x', args[0])


@model(r'<impl \[T\]>::into_vec$|^<std::vec::Vec<T.*> as std::convert::From<.*>>::from$|^<T as std::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec|<impl \[T\]>::to_vec$|<impl std::borrow::ToOwned for \[T\]>::to_owned$')
def m_intovec(E, st, args, rt, c):
    return ('l', lst(E, st, args[0]))


@model(r'^std::vec::Vec::<T>::(new|with_capacity)$', r'^<std::vec::Vec<T> as std::default::Default>::default$',
       r'^<.*Punctuated<T, P> as std::default::Default>::default$', r'Punctuated::<T, P>::new$')
def m_vecnew(E, st, args, rt, c): return ('l', ())


@model(r'^std::vec::from_elem$')
def m_fromelem(E, st, args, rt, c):
    if args[1][0] == 'i': return ('l', tuple((T, args[0]) for _ in range(args[1][1])))
    raise Undecided('vec![x; n]')


def with_list(E, st, ref, f, under=T):
    """apply f(items)->items to the list behind a &mut reference"""
    d = E.deref(st, ref, None)
    if d is None: raise Undecided('list place')
    for g, c, p in d:
        if under != T:
            g = AND(g, under)
            if AND(g, st.g) == F: continue
        v = E.load(st, c, p)
        if v[0] == 'r' or (v[0] == 'y' and v[2] is not None and E.T[v[2]]['k'] == 'ref'):
            with_list(E, st, v, f, g); continue
        if v[0] == 'a' and len(v[3]) == 1 and v[3][0][0] == 'l': p = p + (('f', 0, None),); v = v[3][0]
        new = ('l', tuple(f(lst(E, st, v))))
        E.write_addrs(st, [(g, c, p)] if g != T and (len(d) > 1 or under != T) else [(T, c, p)], new)


@model(r'^std::vec::Vec::<T, A>::(push|push_mut)$', r'Punctuated::<T, P>::(push|push_value)$')
def m_push(E, st, args, rt, c):
    with_list(E, st, args[0], lambda xs: xs + ((T, args[1]),))
    return UNIT


@model(r'^std::vec::Vec::<T, A>::(len|is_empty)$', r'Punctuated::<T, P>::(len|is_empty)$', r'^(std|core)::slice::<impl \[T\]>::(len|is_empty)$')
def m_len(E, st, args, rt, c):
    xs = lst(E, st, args[0])
    if c.dname.endswith('is_empty'):
        if any(e[0] == 'splat' for _, e in xs):
            real = mdd.ORS([g for g, e in xs if e[0] != 'splat'])
            emp = mdd.ANDS([NOT(AND(g, T if nonempty(e[1]) else NOT(E.atom(('empty', e[1]))))) for g, e in xs if e[0] == 'splat'])
            return mkb(AND(NOT(real), emp))
        return mkb(NOT(mdd.ORS([g for g, _ in xs])))
    return E.length(st, ('l', xs))


@model(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$', r'^std::string::String::(reserve|shrink_to_fit)$')
def m_nop(E, st, args, rt, c): return UNIT


@model(r'^std::vec::Vec::<T, A>::(clear)$')
def m_clear(E, st, args, rt, c):
    with_list(E, st, args[0], lambda xs: ()); return UNIT


@model(r'^std::vec::Vec::<T, A>::(truncate|split_off)$')
def m_truncate(E, st, args, rt, c):
    xs = lst(E, st, args[0])
    if any(e[0] == 'splat' for _, e in xs): raise Undecided('truncate')
    keep, off, before = [], [], {0: T}
    ns = [(g, y) for _, g, y in alts(E, st, args[1])]
    if any(y[0] != 'i' for _, y in ns): raise Undecided('truncate')
    for g, e in xs:
        inside = mdd.ORS([AND(gn, h) for gn, y in ns for j, h in before.items() if j < y[1]])
        keep.append((AND(g, inside), e)); off.append((DIFF(g, inside), e))
        nx = {}
        for j, hj in before.items():
            nx[j + 1] = OR(nx.get(j + 1, F), AND(hj, g)); nx[j] = OR(nx.get(j, F), DIFF(hj, g))
        before = {j: hj for j, hj in nx.items() if AND(hj, st.g) != F}
    if c.dname.endswith('split_off'):
        short = mdd.ORS([AND(gn, h) for gn, y in ns for j, h in before.items() if j < y[1]])
        if AND(short, st.g) != F:
            E.panic(AND(short, st.g), 'Vec::split_off out of range', c.where)
            st = St(DIFF(st.g, short), st.mem)
            if st.g == F: return None
    with_list(E, st, args[0], lambda _: tuple((g, e) for g, e in keep if AND(g, st.g) != F))
    return st, (UNIT if c.dname.endswith('truncate') else ('l', tuple((simplify(g, st.g), e) for g, e in off if AND(g, st.g) != F)))


@model(r'^std::vec::Vec::<T, A>::(retain|retain_mut)$')
def m_retain(E, st, args, rt, c):
    rs, xs = refs(E, st, args[0]), lst(E, st, args[0])
    if len(rs) != len(xs) or any(e[0] == 'splat' for _, e in xs): raise Undecided('retain')
    keep = []
    for k, (g, r) in enumerate(rs):
        gg = AND(st.g, g)
        if gg == F: keep.append(F); continue
        s2, b = E.call_value(st.fork(gg), args[1], [r], None, c.where)
        keep.append(AND(gg, E.as_bool(b)) if s2 is not None else F)
        st = merge_states([y for y in (s2, St(DIFF(st.g, gg), st.mem)) if y is not None and y.g != F])
        if st is None: return None
    with_list(E, st, args[0], lambda ys: tuple((simplify(AND(g, k), st.g), e) for (g, e), k in zip(ys, keep) if AND(AND(g, k), st.g) != F))
    return st, UNIT


@model(r'^(std|core)::slice::<impl \[T\]>::(reverse|swap)$')
def m_reorder(E, st, args, rt, c):
    if c.dname.endswith('reverse'):
        with_list(E, st, args[0], lambda xs: xs[::-1]); return UNIT
    xs = lst(E, st, args[0])
    if args[1][0] != 'i' or args[2][0] != 'i' or any(DIFF(st.g, g) != F for g, _ in xs) or max(args[1][1], args[2][1]) >= len(xs): raise Undecided('swap')

    def f(ys):
        ys = list(ys); a, b = args[1][1], args[2][1]
        ys[a], ys[b] = ys[b], ys[a]
        return tuple(ys)
    with_list(E, st, args[0], f)
    return UNIT


@model(r'^(std|core)::slice::<impl \[T\]>::(split_first|split_last)$')
def m_splitfirst(E, st, args, rt, c):
    rs = refs(E, st, args[0]); xs = lst(E, st, args[0])
    if len(rs) != len(xs) or any(e[0] == 'splat' for _, e in xs): raise Undecided('split_first')
    order = list(range(len(xs))) if c.dname.endswith('first') else list(range(len(xs)))[::-1]
    out, rem = [], st.g
    for i in order:
        a = AND(rem, xs[i][0])
        if a != F:
            rest = ('l', tuple(x for j, x in enumerate(xs) if (j > i if c.dname.endswith('first') else j < i)))
            out.append((a, E.some(rt, ('a', None, 0, (rs[i][1], E.new_cell(st, rest))))))
        rem = DIFF(rem, xs[i][0])
    if rem != F: out.append((rem, E.none(rt)))
    return merge_vals(out)


@model(r'^std::vec::Vec::<T, A>::append$')
def m_append(E, st, args, rt, c):
    other = lst(E, st, args[1])
    with_list(E, st, args[0], lambda xs: xs + other)
    with_list(E, st, args[1], lambda xs: ())
    return UNIT


@model(r'^std::vec::Vec::<T, A>::(drain)$')
def m_drain(E, st, args, rt, c):
    rg = args[1]
    if not (rg[0] in ('a', 'b') and 'RangeFull' in c.fname): raise Undecided('drain range')
    xs = lst(E, st, args[0])
    with_list(E, st, args[0], lambda _: ())
    return it(xs)


@model(r'^std::vec::Vec::<T, A>::(remove|swap_remove|pop|insert|insert_mut|extend_from_slice)$')
def m_vecops(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    xs = lst(E, st, args[0])
    if n == 'extend_from_slice':
        ys = lst(E, st, args[1]); with_list(E, st, args[0], lambda x: x + ys); return UNIT
    if n in ('insert', 'insert_mut'):
        i = args[1]
        if i != ('i', 0) and not all(g == T for g, _ in xs): raise Undecided('insert')
        if i[0] != 'i': raise Undecided('insert')
        with_list(E, st, args[0], lambda x: x[:i[1]] + ((T, args[2]),) + x[i[1]:]); return UNIT
    if n == 'pop':
        out = []; rem = T; new = []
        for g, e in reversed(xs):
            take = AND(rem, g)
            if take != F: out.append((take, E.some(rt, e)))
            new.append((DIFF(g, take), e)); rem = DIFF(rem, g)
        if AND(rem, st.g) != F: out.append((rem, E.none(rt)))
        with_list(E, st, args[0], lambda x: tuple(y for y in reversed(new) if y[0] != F))
        return merge_vals(out)
    # remove(i)
    if n == 'swap_remove': raise Undecided('swap_remove')
    if args[1] != ('i', 0):
        out, bad = nth(E, st, xs, args[1])
        idx = {}
        for gi, x in guarded(args[1]):
            for g, k in E.positions(xs, x[1], False, AND(gi, st.g))[0]: idx[k] = OR(idx.get(k, F), g)
        new = [(DIFF(g, idx.get(k, F)), e) for k, (g, e) in enumerate(xs)]
        if AND(bad, st.g) != F:
            E.panic(AND(bad, st.g), 'Vec::remove out of range', c.where)
            st = St(DIFF(st.g, bad), st.mem)
            if st.g == F: return None
        with_list(E, st, args[0], lambda x: tuple(y for y in new if y[0] != F))
        return st, merge_vals(out)
    out = []; rem = T; new = []
    for g, e in xs:
        if e[0] == 'splat':
            take = AND(rem, AND(g, T if nonempty(e[1]) else NOT(E.atom(('empty', e[1])))))
            out.append((take, E.sym(('idx', e[1], 0), e[2]))); rem = DIFF(rem, take); new.append((g, e)); continue
        take = AND(rem, g)
        if take != F: out.append((take, e))
        new.append((DIFF(g, take), e)); rem = DIFF(rem, g)
    bad = AND(rem, st.g)
    if bad != F:
        E.panic(bad, 'Vec::remove on an empty vector', c.where)
        st = St(DIFF(st.g, bad), st.mem)
        if st.g == F: return None
    with_list(E, st, args[0], lambda x: tuple(y for y in new if y[0] != F))
    return st, merge_vals(out)


@model(r'^<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::(deref|deref_mut)$', r'^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$',
       r'^<std::string::String as std::ops::(Deref|DerefMut)>::', r'^std::string::String::as_str$', r'^<std::string::String as std::convert::AsRef<str>>::as_ref$',
       r'^<std::vec::Vec<T, A> as std::(convert::AsRef|borrow::Borrow)<.*>::(as_ref|borrow)$',
       r'<impl std::borrow::Borrow<str> for std::string::String>::borrow$')
def m_deref(E, st, args, rt, c):
    if 'string' in c.dname:
        v = E.deep(st, args[0])
        if v[0] == 's': return v
    return args[0]


@model(r'^std::option::Option::<.*>::(as_deref|as_deref_mut)$')
def m_asderef(E, st, args, rt, c):
    out = []
    for g, vi, pl in opt(E, st, args[0]):
        if vi == 0: out.append((g, E.none(rt)))
        else:
            out.append((g, E.some(rt, E.new_cell(st, pl) if pl[0] not in ('s', 'r') else pl)))
    return merge_vals(out)


def nth(E, st, seq, i):
    """([(guard, element)], guard of the index being out of range) for an element given by its position"""
    out = []; bad = F
    for gi, x in guarded(i):
        gi = AND(gi, st.g)
        if gi == F or x[0] in 'BU': continue
        if x[0] != 'i':
            if x[0] == 'y' and all(e[0] == 'splat' for _, e in seq) and len(seq) == 1:
                raise Undecided('index by an unknown number')
            raise Undecided('index by an unknown number')
        if x[1] == 0 and len(seq) == 1 and seq[0][1][0] == 'splat' and nonempty(seq[0][1][1]):
            g0 = AND(gi, seq[0][0]); bad = OR(bad, DIFF(gi, seq[0][0]))
            if g0 != F: out.append((g0, E.detached_cell(st, E.sym(('first', seq[0][1][1]), seq[0][1][2]))))
            continue
        r = E.positions(seq, x[1], False, gi)
        if r is None: raise Undecided('index into a list of unknown length')
        out.extend((g, seq[k][1]) for g, k in r[0]); bad = OR(bad, r[1])
    return out, bad


@model(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<.*>::index', r'Punctuated<T, P> as std::ops::Index(Mut)?<.*>::index', r'<impl std::ops::IndexMut<I> for \[T\]>::index_mut$', r'<impl std::ops::Index<I> for \[T\]>::index$')
def m_index(E, st, args, rt, c):
    if 'RangeFull' in c.fname: return args[0]
    rs = refs(E, st, args[0])
    out, bad = nth(E, st, rs, args[1])
    if AND(bad, st.g) != F:
        E.panic(AND(bad, st.g), 'index out of bounds', c.where)
        st = St(DIFF(st.g, bad), st.mem)
        if st.g == F: return None
        return st, merge_vals(out)
    return merge_vals(out)


# ------------------------------------------------------------------ iterators
@model(r'^(std|core)::slice::<impl \[T\]>::(iter|iter_mut)$', r'Punctuated::<T, P>::(iter|iter_mut)$',
       r"^<&'a (mut )?.*Punctuated<T, P> as std::iter::IntoIterator>::into_iter$",
       r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"impl std::iter::IntoIterator for &'a (mut )?\[T(; N)?\]>::into_iter$",
       r"^std::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$",
       r"core::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter", r"<impl .*IntoIterator for &.*\[T(; N)?\]>::into_iter$")
def m_iter(E, st, args, rt, c): return it(refs(E, st, args[0]))


@model(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$', r'^<.*Punctuated<T, P> as std::iter::IntoIterator>::into_iter$',
       r'IntoIterator for \[T; N\]>::into_iter$')
def m_intoiter(E, st, args, rt, c): return it(lst(E, st, args[0]))


@model(r'token_stream::<impl std::iter::IntoIterator for .*TokenStream>::into_iter$')
def m_tsiter(E, st, args, rt, c):
    v = args[0]
    return it(toks(E, st, v))


@model(r'^<I as std::iter::IntoIterator>::into_iter$')
def m_iid(E, st, args, rt, c): return args[0]


@model(r'Generics::(type_params|type_params_mut|lifetimes|lifetimes_mut|const_params|const_params_mut)$')
def m_gparams(E, st, args, rt, c):
    n = c.dname.split('::')[-1].replace('_mut', '')
    want = {'type_params': 'Type', 'lifetimes': 'Lifetime', 'const_params': 'Const'}[n]
    out = []
    d = E.deref(st, args[0], None)
    for g, cell, p in d:
        gv = E.load(st, cell, p)
        for gg, g2, x in alts(E, st, gv):
            fi = E.field_index(x[1] if x[0] == 'a' else x[2], 'params')
            ps = E.project(x, ('f', fi, None))
            for i, (g3, e) in enumerate(lst(E, st, ps)):
                if e[0] == 'splat': raise Undecided('unknown generics')
                names = E.T[e[1]]['v']
                if names[e[2]]['n'] != want: continue
                out.append((AND(AND(g, g2), g3), ('r', cell, p + (('f', fi, None), ('e', i), ('d', e[2]), ('f', 0, None)))))
    return it(out)


def next_it(E, st, ref, rt, loop):
    """abstract next() on the iterator behind ref -> list of (held, state, value)"""
    itv = E.rload(st, ref)
    outs = []
    for gg, g, x in list(alts(E, st, itv)):
        s = st.fork(gg)
        if x[0] != 'it':
            if not visitable(E, s, x): return None
            s, seq = drain(E, s, x)
            if s is None: continue
            x = it(seq)
            gg = s.g
        seq, cur = x[2], x[3]
        if cur >= len(seq):
            E.rstore(s, ref, x)
            outs.append((False, s, E.none(rt)))
            continue
        if any(e[0] == 'splat' for _, e in seq[cur:]):
            seq = seq[:cur] + unsplat(E, s, seq[cur:])
            x = ('it', x[1], seq, cur)
        if loop:
            ge, e = seq[cur]
            a = AND(gg, ge)
            adv = ('it', x[1], seq, cur + 1)
            if a != F:
                s1 = s.fork(a); E.rstore(s1, ref, adv)
                outs.append((False, s1, E.some(rt, e)))
            b = DIFF(gg, ge)
            if b != F:
                s2 = s.fork(b); E.rstore(s2, ref, adv)
                outs.append((True, s2, None))
        else:
            rem = gg
            for i in range(cur, len(seq)):
                ge, e = seq[i]
                a = AND(rem, ge)
                if a != F:
                    s1 = s.fork(a); E.rstore(s1, ref, ('it', x[1], seq, i + 1))
                    outs.append((False, s1, E.some(rt, e)))
                rem = DIFF(rem, ge)
            if rem != F:
                s1 = s.fork(rem); E.rstore(s1, ref, ('it', x[1], seq, len(seq)))
                outs.append((False, s1, E.none(rt)))
    return outs


def hook_next(E, st, ref, rt, f):
    fn = E.fns[f['i']] if f['i'] is not None else None
    if fn is not None and fn['local'] and 'blocks' in fn and not re.match(r'^<(std|core|alloc)::', fn['name']): return None
    if ref[0] not in ('r', 'u'): return None
    return next_it(E, st, ref, rt, True)


@model(r'^<.* as std::iter::Iterator>::next$', r'^std::iter::Iterator::next$')
def m_next(E, st, args, rt, c):
    if c.fn is not None and c.fn['local'] and 'blocks' in c.fn and not re.match(r'^<(std|core|alloc)::', c.fn['name']): return NotImplemented
    r = next_it(E, st, args[0], rt, False)
    if r is None: return NotImplemented
    if not r: return None
    return merge_states([s for _, s, _ in r]), merge_vals([(s.g, v) for _, s, v in r])


@model(r'^<.* as std::iter::DoubleEndedIterator>::next_back$', r'^std::iter::DoubleEndedIterator::next_back$')
def m_next_back(E, st, args, rt, c):
    if c.fn is not None and c.fn['local'] and 'blocks' in c.fn and not re.match(r'^<(std|core|alloc)::', c.fn['name']): return NotImplemented
    itv = E.rload(st, args[0])
    if not visitable(E, st, itv): return NotImplemented
    st, xs = drain(E, st, itv)
    if st is None: return None
    out, new, rem = [], [], st.g
    for g, e in reversed(xs):
        take = AND(rem, g)
        if take != F: out.append((take, E.some(rt, e)))
        new.append((DIFF(g, take), e)); rem = DIFF(rem, g)
    if rem != F: out.append((rem, E.none(rt)))
    E.rstore(st, args[0], it([x for x in reversed(new) if AND(x[0], st.g) != F]))
    return st, merge_vals(out)


@model(r'^std::iter::Iterator::(map|filter|filter_map|enumerate|cloned|copied|chain|zip|rev|inspect|skip|take|peekable|by_ref|fuse|flat_map|flatten|take_while|skip_while|map_while|scan|step_by)$')
def m_adapt(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n in ('by_ref', 'fuse'): return args[0]
    if n in ('cloned', 'copied', 'enumerate', 'rev'): return ('a', rt, 0, (args[0],))
    if n == 'chain':
        # the argument is IntoIterator
        s, b = into_iter(E, st, args[1])
        ot = None
        return s, ('a', rt, 0, (('a', opt_ty(E, rt, 0), 1, (args[0],)), ('a', opt_ty(E, rt, 1), 1, (b,))))
    if n == 'zip':
        s, b = into_iter(E, st, args[1])
        return s, ('a', rt, 0, (args[0], b))
    if n == 'peekable': return NotImplemented
    if n in ('flat_map', 'flatten', 'take_while', 'skip_while', 'map_while', 'scan', 'step_by'): return ('a', rt, 0, (OWN,) + tuple(args))
    return ('a', rt, 0, (args[0], args[1]))


def opt_ty(E, rt, i):
    return E.T[rt]['v'][0]['f'][i][1]


def into_iter(E, st, v):
    x = E.deep(st, v)
    if is_iterish(E, st, v) and not (x[0] == 'a' and x[1] is not None and E.T[x[1]].get('name', '').endswith('option::Option')): return st, v
    if x[0] == 'l':
        return st, it(refs(E, st, v) if v[0] in ('r',) else x[1])
    if x[0] == 'k' or x[0] == 'u' and all(y[0] == 'k' for _, y in x[1]): return st, it(toks(E, st, x))
    if x[0] in ('a', 'y', 'u') : return st, v
    raise Undecided('into_iter')


@model(r'^(<.* as )?std::iter::Iterator>?::(fold|for_each|any|all|find|find_map|position|count|last|collect|nth|try_for_each|try_fold|min|max|sum|product|partition|unzip|is_empty|max_by_key|min_by_key|reduce)$',
       r'^<.* as std::iter::(DoubleEnded)?Iterator>::(rposition|rfind)$', r'^std::iter::DoubleEndedIterator::(rfind)$')
def m_consume(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if not visitable(E, st, args[0]): return NotImplemented
    if n == 'fold':
        acc = [args[1]]

        def sink(s, e):
            # acc under this state's guard
            s2, v = E.call_value(s, args[2], [E.prune(acc[0], s.g) if acc[0][0] == 'u' else acc[0], e], None, c.where)
            if s2 is None: return None, T
            acc[0] = merge_vals([(s2.g, v), (NOT(s2.g), acc[0])]) if s2.g != T else v
            return s2, F
        st, _ = visit(E, st, args[0], sink)
        if st is None: return None
        return st, (E.prune(acc[0], st.g) if acc[0][0] == 'u' else acc[0])
    if n == 'for_each':
        def sink(s, e):
            s2, _ = E.call_value(s, args[1], [e], None, c.where)
            return s2, F
        st, _ = visit(E, st, args[0], sink)
        return (st, UNIT) if st is not None else None
    if n in ('reduce', 'sum', 'product', 'max', 'min'):
        st, xs = drain(E, st, args[0])
        if st is None: return None
        acc, have = (('i', 0 if n == 'sum' else 1), T) if n in ('sum', 'product') else (BOT, F)
        for g, e in xs:
            both, h = AND(st.g, AND(g, have)), AND(st.g, g)
            if h == F: continue
            parts = [(NOT(h), acc)] if DIFF(st.g, h) != F else []
            if DIFF(h, have) != F: parts.append((DIFF(h, have), e))
            if both != F:
                if n == 'reduce':
                    s2, v = E.call_value(st.fork(both), args[1], [E.prune(acc, both) if acc[0] == 'u' else acc, e], None, c.where)
                    st = merge_states([y for y in (s2, St(DIFF(st.g, both), st.mem)) if y is not None and y.g != F])
                    if st is None: return None
                    if s2 is not None: parts.append((both, v))
                else:
                    op = {'sum': lambda a, b: a + b, 'product': lambda a, b: a * b, 'max': max, 'min': min}[n]
                    for ga, a in guarded(acc):
                        for gb, b in guarded(E.deep(st, e)):
                            gx = AND(both, AND(ga, gb))
                            if gx == F: continue
                            if a[0] != 'i' or b[0] != 'i': raise Undecided('iterator consumer ' + n)
                            parts.append((gx, ('i', op(a[1], b[1]))))
            acc = merge_vals([p for p in parts if AND(p[0], st.g) != F]); have = OR(have, h)
        if n in ('sum', 'product'): return st, acc
        out = []
        if AND(st.g, have) != F: out.append((have, E.some(rt, acc)))
        if DIFF(st.g, have) != F: out.append((NOT(have), E.none(rt)))
        return st, merge_vals(out)
    if n == 'partition':
        yes, no = [], []

        def sink(s, e):
            s2, b = E.call_value(s, args[1], [E.new_cell(s, e)], None, c.where)
            if s2 is None: return None, T
            nb = E.as_bool(b)
            yes.append((AND(s2.g, nb), e)); no.append((DIFF(s2.g, nb), e))
            return s2, F
        st, _ = visit(E, st, args[0], sink)
        if st is None: return None
        outs = []
        for part, t in zip((yes, no), E.T[rt]['ts']):
            st, v = collect(E, st, it([(simplify(g, st.g), e) for g, e in part if AND(g, st.g) != F]), t, c)
            outs.append(v)
        return st, ('a', None, 0, tuple(outs))
    if n == 'unzip':
        st, xs = drain(E, st, args[0])
        if st is None: return None
        outs = []
        for i, t in enumerate(E.T[rt]['ts']):
            st, v = collect(E, st, it([(g, E.project(e, ('f', i, None))) for g, e in xs]), t, c)
            outs.append(v)
        return st, ('a', None, 0, tuple(outs))
    if n in ('try_fold', 'try_for_each'):
        # Option: Some continues; Result: Ok; ControlFlow: Continue
        tn = E.T[rt].get('name', '').split('::')[-1]
        go = {'Option': 1, 'Result': 0, 'ControlFlow': 0}.get(tn)
        if go is None: raise Undecided('iterator consumer ' + n)
        acc, bads = [args[1] if n == 'try_fold' else UNIT], []

        def sink(s, e):
            a = [E.prune(acc[0], s.g) if acc[0][0] == 'u' else acc[0], e] if n == 'try_fold' else [e]
            s2, r = E.call_value(s, args[-1], a, None, c.where)
            if s2 is None: return None, T
            hit, oks = F, []
            for g, vi, pl in opt(E, s2, r):
                gg = AND(s2.g, g)
                if vi == go: oks.append((gg, pl if pl is not None else UNIT))
                else:
                    hit = OR(hit, gg)
                    bads.append((gg, ('a', rt, vi, (pl,) if pl is not None else ())))
            acc[0] = merge_vals(oks + [(NOT(mdd.ORS([g for g, _ in oks])), acc[0])]) if oks else acc[0]
            return s2, hit
        st, stop = visit(E, st, args[0], sink)
        if st is None: return None
        done = DIFF(st.g, mdd.ORS([g for g, _ in bads]))
        out = [(g, v) for g, v in bads if AND(g, st.g) != F]
        if done != F: out.append((done, ('a', rt, go, (E.prune(acc[0], done) if acc[0][0] == 'u' else acc[0],))))
        return st, merge_vals(out)
    if n in ('rfind', 'rposition'):
        st, xs = drain(E, st, args[0])
        if st is None: return None
        if n == 'rposition': raise Undecided('iterator consumer ' + n)
        args = [it(xs[::-1])] + list(args[1:]); n = 'find'
    if n in ('any', 'all', 'find', 'find_map', 'position'):
        res = []
        acc = [F]
        count = {0: T}

        def sink(s, e):
            a = E.new_cell(s, e) if n == 'find' else e
            s2, b = E.call_value(s, args[1], [a], None, c.where)
            if s2 is None: return None, T
            if n == 'find_map':
                hit = F
                for g, vi, pl in opt(E, s2, b):
                    if vi == 1: hit = OR(hit, g); res.append((AND(s2.g, g), E.some(rt, pl)))
                hit = AND(s2.g, hit)
            else:
                nb = E.as_bool(b)
                hit = AND(s2.g, nb if n != 'all' else NOT(nb))
                if n == 'find' and hit != F: res.append((hit, E.some(rt, e)))
                if n == 'position' and hit != F:
                    for k, g in count.items():
                        if AND(g, hit) != F: res.append((AND(g, hit), E.some(rt, ('i', k))))
                if n == 'position':
                    nx = {}
                    for k, g in count.items():
                        nx[k + 1] = OR(nx.get(k + 1, F), AND(g, s2.g)); nx[k] = OR(nx.get(k, F), DIFF(g, s2.g))
                    count.clear(); count.update(nx)
            acc[0] = OR(acc[0], hit)
            return s2, hit
        st, _ = visit(E, st, args[0], sink)
        if st is None: return None
        if n == 'any': return st, mkb(simplify(acc[0], st.g) if acc[0] != F else F)
        if n == 'all': return st, mkb(NOT(acc[0]))
        rest = DIFF(st.g, acc[0])
        if rest != F: res.append((rest, E.none(rt)))
        return st, merge_vals(res)
    if n == 'count':
        st, xs = drain(E, st, args[0])
        if st is None: return None
        return st, E.length(st, ('l', tuple(xs)))
    if n == 'collect':
        return collect(E, st, args[0], rt, c)
    if n in ('last', 'nth'):
        st, xs = drain(E, st, args[0])
        if st is None: return None
        if n == 'nth' and args[1][0] != 'i': raise Undecided('nth')
        out = []; rem = st.g
        if n == 'last':
            for g, e in reversed(xs):
                a = AND(rem, g)
                if a != F: out.append((a, E.some(rt, e)))
                rem = DIFF(rem, g)
        else:
            cnt = {0: T}
            for g, e in xs:
                a = AND(AND(rem, g), cnt.get(args[1][1], F))
                if a != F: out.append((a, E.some(rt, e))); rem = DIFF(rem, a)
                nx = {}
                for k, gk in cnt.items():
                    nx[k + 1] = OR(nx.get(k + 1, F), AND(gk, g)); nx[k] = OR(nx.get(k, F), DIFF(gk, g))
                cnt = nx
        if rem != F: out.append((rem, E.none(rt)))
        return st, merge_vals(out)
    raise Undecided('iterator consumer ' + n)


def collect(E, st, itv, rt, c):
    t = E.T[rt]
    n = t.get('name', '')
    if t['k'] == 'adt' and n.endswith('vec::Vec') or n.endswith('Punctuated'):
        st, xs = drain(E, st, itv)
        if st is None: return None
        return st, ('l', tuple(xs))
    if n.endswith('TokenStream'):
        st, xs = drain(E, st, itv)
        if st is None: return None
        out = []
        for g, e in xs:
            for g2, i in items_of(E, st, e): out.append((AND(g, g2), i))
        return st, ('k', tuple(out))
    if n.endswith('String'):
        st, xs = drain(E, st, itv)
        if st is None: return None
        v = ('s', ())
        for g, e in xs:
            w = cat(E, st, v, strv(E, st, e))
            v = merge_vals([(g, w), (NOT(g), v)])
        return st, v
    if n.endswith('result::Result') or n.endswith('option::Option'):
        isres = n.endswith('Result')
        okvi, badvi = (0, 1) if isres else (1, 0)
        inner = t['v'][okvi]['f'][0][1]
        oks, bads = [], []

        def sink(s, e):
            hit = F
            for g, vi, pl in opt(E, s, e):
                gg = AND(s.g, g)
                if vi == okvi: oks.append((gg, pl))
                else:
                    hit = OR(hit, gg)
                    bads.append((gg, ('a', rt, badvi, (pl,) if isres else ())))
            return s, hit
        st, stop = visit(E, st, itv, sink)
        if st is None: return None
        s2, v = collect(E, st, it([(simplify(g, st.g), e) for g, e in oks]), inner, c)
        out = bads + [(DIFF(s2.g, mdd.ORS([g for g, _ in bads])), ('a', rt, okvi, (v,)))]
        return s2, merge_vals([(g, x) for g, x in out if g != F])
    # any other FromIterator: look for its body
    for i, f in enumerate(E.fns):
        if 'blocks' in f and f['locals'] and f['locals'][0] == rt and re.search(r'FromIterator<.*>>::from_iter', f['name']):
            return E.run(st, i, [itv])
    raise Undecided('collect into ' + n)


@model(r'^<std::vec::Vec<T(, A)?> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)$',
       r'^<.*Punctuated<T, P> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)$')
def m_fromiter(E, st, args, rt, c):
    ext = c.dname.endswith('extend')
    src = args[1] if ext else args[0]
    st, itv = into_iter(E, st, src)
    if not visitable(E, st, itv): raise Undecided('from_iter of ' + str(itv)[:60])
    st, xs = drain(E, st, itv)
    if st is None: return None
    if ext:
        if re.search(r"Extend<&'a T", c.dname): xs = [(g, E.rload(st, e)) for g, e in xs]
        with_list(E, st, args[0], lambda old: old + tuple(xs))
        return st, UNIT
    return st, ('l', tuple(xs))


@model(r'^std::slice::<impl \[T\]>::(join|concat)$', r'Join<&str> for \[S\]>::join$')
def m_join(E, st, args, rt, c):
    xs = lst(E, st, args[0])
    sep = strv(E, st, args[1]) if len(args) > 1 else ('s', ())
    v = ('s', ()); any_ = F
    for g, e in xs:
        if e[0] == 'splat': return ('s', (('disp', ('join', e[1])),))
        w1 = cat(E, st, v, sep, strv(E, st, e)); w0 = cat(E, st, v, strv(E, st, e))
        w = merge_vals([(any_, w1), (NOT(any_), w0)]) if any_ not in (T, F) else (w1 if any_ == T else w0)
        v = merge_vals([(g, w), (NOT(g), v)]) if g != T else w
        any_ = OR(any_, g)
    return v


@model(r'^(std|core)::slice::<impl \[T\]>::(first|last|get|contains|first_mut|last_mut)$', r'Punctuated::<T, P>::(first|last|get|first_mut|last_mut)$')
def m_slice(E, st, args, rt, c):
    n = c.dname.split('::')[-1].replace('_mut', '')
    if n == 'contains':
        w = E.deep(st, args[1])
        acc = F
        for g, e in lst(E, st, args[0]):
            r = value_eq(E, st, e, w)
            if r is None: r = mdd.lit(('eq', E.deep_term(st, e), E.deep_term(st, w)), True)
            acc = OR(acc, AND(g, r))
        return mkb(acc)
    rs = refs(E, st, args[0])
    out = []; rem = T
    seq = rs if n == 'first' else rs[::-1] if n == 'last' else None
    if seq is None:
        hit, bad = nth(E, st, rs, args[1])
        out = [(g, E.some(rt, e)) for g, e in hit]
        if AND(bad, st.g) != F: out.append((bad, E.none(rt)))
        return merge_vals(out)
    for g, e in seq:
        if e[0] == 'splat':
            have = AND(g, T if nonempty(e[1]) else NOT(E.atom(('empty', e[1]))))
            out.append((AND(rem, have), E.some(rt, E.detached_cell(st, E.sym((n, e[1]), e[2]))))); rem = DIFF(rem, have); continue
        a = AND(rem, g)
        if a != F: out.append((a, E.some(rt, e)))
        rem = DIFF(rem, g)
    if AND(rem, st.g) != F: out.append((rem, E.none(rt)))
    return merge_vals([(g, v) for g, v in out if AND(g, st.g) != F])


# ------------------------------------------------------------------ strings
@model(r'^std::string::String::(new|with_capacity)$', r'^<std::string::String as std::default::Default>::default$')
def m_snew(E, st, args, rt, c): return ('s', ())


@model(r'^std::string::String::(push|push_str|insert|insert_str|clear|pop|truncate)$', r'<std::string::String as std::ops::AddAssign<&str>>::add_assign$', r'<std::string::String as std::iter::Extend<.*>>::extend', r'<std::string::String as std::fmt::Write>::write_(str|char)$')
def m_spush(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    old = strv(E, st, args[0])
    if n in ('push', 'write_char'):
        ch = E.deep(st, args[1])
        new = cat(E, st, old, ('s', (chr(ch[1]),)) if ch[0] == 'i' else strv(E, st, ch))
    elif n in ('push_str', 'add_assign', 'write_str'): new = cat(E, st, old, strv(E, st, args[1]))
    elif n in ('insert', 'insert_str'):
        if args[1] != ('i', 0): raise Undecided('String::insert')
        ch = E.deep(st, args[2])
        new = cat(E, st, ('s', (chr(ch[1]),)) if ch[0] == 'i' else strv(E, st, ch), old)
    elif n == 'clear': new = ('s', ())
    elif n == 'extend':
        st, itv = into_iter(E, st, args[1])
        st, v = collect(E, st, itv, [i for i, t in enumerate(E.T) if t['s'].endswith('string::String')][0], c)
        new = cat(E, st, old, v)
    else: new = ('y', ('str', n, E.term(old)), None)
    E.rstore(st, args[0], new)
    if n.startswith('write_'): return st, ('a', rt, 0, (UNIT,))
    return st, UNIT


@model(r'<std::string::String as std::ops::Add<&str>>::add$')
def m_sadd(E, st, args, rt, c): return cat(E, st, strv(E, st, args[0]), strv(E, st, args[1]))


@model(r'^<T as std::string::ToString>::to_string$', r'<impl std::borrow::ToOwned for str>::to_owned$', r'^<std::string::String as std::convert::From<.*>>::from$',
       r'SpecToString>::spec_to_string$', r'^<std::string::String as std::clone::Clone>::clone$', r'^std::str::<impl str>::to_(string|owned)$', r'<impl str>::into_string$',
       r'^<std::boxed::Box<str> as std::convert::From<.*>>::from')
def m_tostring(E, st, args, rt, c):
    return to_string(E, st, args[0], c)


def to_string(E, st, v, c=None):
    x = E.deep(st, v)
    if x[0] == 'u': return merge_vals([(g, to_string(E, st, y)) for gg, g, y in alts(E, st, x)])
    if x[0] in ('s', 'id'): return strv(E, st, x)
    if x[0] == 'k':
        return ('s', norm_parts(tok_str(E, x[1])))
    if x[0] == 'b': return merge_vals([(x[1], ('s', ('true',))), (NOT(x[1]), ('s', ('false',)))])
    if x[0] == 'i': return ('s', (str(x[1]),))
    return strv(E, st, x)


def tok_str(E, items):
    if all(g == T for g, _ in items) and len(items) == 1 and items[0][1][0] == 'i': return items[0][1][1]
    if all(g == T for g, _ in items) and all(i[0] in 'ip' for _, i in items):
        out = []
        for n, (_, i) in enumerate(items):
            if n: out.append(' ')
            out.extend(i[1] if i[0] == 'i' else (i[1],))
        return tuple(out)
    return (('disp', ('tokens', tuple(items))),)


@model(r'^<.* as std::cmp::PartialEq(<.*>)?>::(eq|ne)$', r'<impl std::cmp::PartialEq.*>::(eq|ne)$', r'^std::cmp::impls::<impl .*>::(eq|ne)$',
       r'^<(str|std::string::String|.*Ident).* as std::cmp::PartialEq.*>::(eq|ne)$', r'std::str::traits::<impl .*>::(eq|ne)$', r'^std::cmp::PartialEq::ne$', r'^core::(str|slice).*::(eq|ne)$')
def m_eq(E, st, args, rt, c):
    if c.fn is not None and c.fn['local'] and 'blocks' in c.fn: return NotImplemented
    ne = c.dname.endswith('ne')
    a, b = E.deep(st, args[0]), E.deep(st, args[1])
    n = value_eq(E, st, a, b)
    if n is None:
        if c.fn is not None and 'blocks' in c.fn: return NotImplemented
        n = mdd.lit(('eq', E.deep_term(st, a), E.deep_term(st, b)), True)
    return mkb(NOT(n) if ne else n)


def value_eq(E, st, a, b):
    a, b = E.deep(st, a), E.deep(st, b)
    if a[0] in 'BU' or b[0] in 'BU': return F
    if a[0] == 'u' or b[0] == 'u':
        out = F
        for g, x in guarded(a):
            for g2, y in guarded(b):
                r = value_eq(E, st, x, y)
                if r is None: return None
                out = OR(out, AND(AND(g, g2), r))
        return out
    if a[0] in ('s', 'id') or b[0] in ('s', 'id'):
        return str_eq(E, strv(E, st, a), strv(E, st, b))
    if a[0] == 'b' and b[0] == 'b': return mdd.IFF(a[1], b[1])
    if a[0] == 'i' and b[0] == 'i': return T if a[1] == b[1] else F
    if a[0] == 'a' and b[0] == 'a' and a[1] == b[1]:
        if a[2] != b[2]: return F
        r = T
        for x, y in zip(a[3], b[3]):
            z = value_eq(E, st, x, y)
            if z is None: return None
            r = AND(r, z)
        return r
    if a[0] == 'y' and b[0] == 'a': a, b = b, a
    if a[0] == 'a' and b[0] == 'y' and b[2] is not None and E.T[b[2]]['k'] == 'adt':
        r = F
        for g, i in E.disc_alts(b[1], b[2]):
            if i != a[2]: continue
            x = g
            for j in range(len(a[3])):
                z = value_eq(E, st, a[3][j], E.project(('y', b[1], b[2], i), ('f', j, None)))
                if z is None: return None
                x = AND(x, z)
            r = OR(r, x)
        return r
    if a[0] == 'y' and b[0] == 'y':
        if a[1] == b[1]: return T
        if a[2] is not None and a[2] == b[2] and E.T[a[2]]['k'] == 'adt' and all(not v['f'] for v in E.T[a[2]]['v']):
            return mdd.ORS([AND(g, g2) for g, i in E.disc_alts(a[1], a[2]) for g2, j in E.disc_alts(b[1], b[2]) if i == j])
        for x in (a, b):
            if x[2] is not None and E.T[x[2]]['k'] == 'adt' and '::token::' in E.T[x[2]]['name']: return T      # punctuation compares equal
        return free_eq(E, a, b)
    if a[0] == 'k' and b[0] == 'k':
        if a == b: return T
        if len(a[1]) == 1 == len(b[1]) and a[1][0][0] == T == b[1][0][0] and a[1][0][1][0] == 'h' == b[1][0][1][0]: return free_eq(E, a, b)
        return None
    if a[0] == 'l' and b[0] == 'l' and all(g == T for g, _ in a[1] + b[1]):
        if len(a[1]) != len(b[1]): return F
        r = T
        for (_, x), (_, y) in zip(a[1], b[1]):
            z = value_eq(E, st, x, y)
            if z is None: return None
            r = AND(r, z)
        return r
    return None


def free_eq(E, a, b):
    """two different parts of the input may be equal or not"""
    x, y = E.term(a), E.term(b)
    k = ('eq',) + tuple(sorted((x, y), key=repr))
    return mdd.lit(k, True)


@model(r'^(std|core)::str::<impl str>::(is_empty|starts_with|ends_with|contains|trim\w*|len|strip_prefix|strip_suffix|trim_start_matches|to_lowercase|to_uppercase|replace|as_bytes|chars|split|parse|as_ptr|eq_ignore_ascii_case)$', r'^std::string::String::(is_empty|len|as_bytes)$', r'^std::str::<impl str>::(replace|to_lowercase|to_uppercase|repeat)$')
def m_strops(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if len(args) > 1:
        a1 = E.deep(st, args[1])
        if a1[0] == 'u':
            a1 = strv(E, st, args[1])
            if all(x[0] == 's' for _, x in a1[1]):
                outs = [(g, m_strops(E, st, [args[0], x] + list(args[2:]), rt, c)) for _, g, x in alts(E, st, a1)]
                return merge_vals(outs) if outs and all(x is not None for _, x in outs) else None
    v = strv(E, st, args[0])
    outs = []
    for gg, g, x in alts(E, st, v):
        ps = x[1]
        conc = all(isinstance(p, str) for p in ps)
        s = ''.join(ps) if conc else None
        a1 = strv(E, st, args[1]) if len(args) > 1 and E.deep(st, args[1])[0] == 's' else None
        pat = None
        if a1 is not None and a1[0] == 's' and all(isinstance(p, str) for p in a1[1]): pat = ''.join(a1[1])
        if len(args) > 1 and pat is None and E.deep(st, args[1])[0] == 'i': pat = chr(E.deep(st, args[1])[1])
        if n == 'is_empty':
            if any(isinstance(p, str) and p for p in ps): r = FALSE
            elif conc: r = mkb(T if not s else F)
            else: r = mkb(mdd.ANDS([E.streq(p, '') for p in ps]))
        elif n == 'len': r = E.length(st, x)
        elif n in ('starts_with', 'ends_with', 'contains') and pat is not None:
            if conc: r = mkb(T if {'starts_with': s.startswith, 'ends_with': s.endswith, 'contains': s.__contains__}[n](pat) else F)
            else:
                end = ps[0] if n == 'starts_with' else ps[-1]
                if n != 'contains' and isinstance(end, str) and len(end) >= len(pat):
                    r = mkb(T if (end.startswith(pat) if n == 'starts_with' else end.endswith(pat)) else F)
                elif n == 'starts_with' and pat == 'r#' and isinstance(ps[0], tuple) and ps[0][0] == 'disp': r = mkb(E.atom(('raw', ps[0][1])))
                elif n == 'starts_with' and pat == 'r#' and isinstance(ps[0], tuple) and ps[0][0] == 'frag': r = FALSE
                else: r = mkb(mdd.lit((n, ps, pat), True))
        elif n in ('starts_with', 'ends_with', 'contains') and a1 is not None and a1[0] == 's' and free_texts(ps) and free_texts(a1[1]) and not free_texts(ps) & free_texts(a1[1]):
            r = mkb(mdd.lit((n, ps, a1[1]), True))       # two unrelated names: both answers are possible
        elif n in ('strip_prefix',) and pat is not None:
            if conc:
                r = E.some(rt, ('s', norm_parts((s[len(pat):],)))) if s.startswith(pat) else E.none(rt)
            elif isinstance(ps[0], str) and len(ps[0]) >= len(pat):
                r = E.some(rt, ('s', norm_parts((ps[0][len(pat):],) + ps[1:]))) if ps[0].startswith(pat) else E.none(rt)
            elif pat == 'r#' and ps[0][0] == 'disp':
                a = E.atom(('raw', ps[0][1]))
                r = merge_vals([(a, E.some(rt, ('s', norm_parts((('frag', ps[0][1]),) + ps[1:])))), (NOT(a), E.none(rt))])
            elif pat == 'r#' and ps[0][0] == 'frag': r = E.none(rt)
            else: r = E.sym(('app', n, ps, pat), rt)
        elif n in ('trim_start_matches',) and pat == 'r#' and isinstance(ps[0], tuple):
            r = ('s', norm_parts((('frag', ps[0][1]),) + ps[1:]))
        elif n == 'trim_start_matches' and pat is not None and isinstance(ps[0], str) and len(ps[0]) >= len(pat) and not ps[0].startswith(pat): r = x
        elif n in ('trim', 'trim_start', 'trim_end') and conc: r = ('s', norm_parts(({'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip}[n](),)))
        elif n in ('trim_start_matches', 'trim_end_matches', 'strip_suffix') and conc and pat:
            q = s
            if n == 'strip_suffix': r = E.some(rt, ('s', norm_parts((s[:-len(pat)],)))) if s.endswith(pat) else E.none(rt)
            else:
                while n == 'trim_start_matches' and q.startswith(pat): q = q[len(pat):]
                while n == 'trim_end_matches' and q.endswith(pat): q = q[:-len(pat)]
                r = ('s', norm_parts((q,)))
        elif n == 'to_lowercase' and conc: r = ('s', norm_parts((s.lower(),)))
        elif n == 'to_uppercase' and conc: r = ('s', norm_parts((s.upper(),)))
        elif n == 'replace' and conc and pat is not None:
            b = strv(E, st, args[2]); r = ('s', norm_parts((s.replace(pat, ''.join(b[1])),)))
        elif n == 'replace' and pat == 'r#' and strv(E, st, args[2]) == ('s', ()) and all(isinstance(p, str) or p[0] in ('disp', 'frag') for p in ps):
            r = ('s', norm_parts(tuple(p if isinstance(p, str) else ('frag', p[1]) for p in ps)))
        else:
            kind = changed_text(E, st, n, ps, pat, args)
            if kind == 'text': ps = tuple(p if isinstance(p, str) else untrimmed(p) for p in ps)
            r = E.sym((kind, 'str::' + n, ps, tuple(E.deep_term(st, a) for a in args[1:])), rt)
        outs.append((g, r))
    return merge_vals(outs) if outs else None


@model(r'^(std|core)::str::<impl str>::(r?split|r?splitn|split_terminator|split_inclusive|split_whitespace|lines|r?split_once)(::<.*>)?$')
def m_split(E, st, args, rt, c):
    """the pieces of a text: known for a constant; for free text only that there is a first piece, which may differ from the whole"""
    n = re.sub(r'::<.*', '', c.dname.split('<impl str>::')[-1])
    pa = args[2 if n.endswith('splitn') else 1:][:1]
    pat = None
    if pa:
        a1 = E.deep(st, pa[0])
        if a1[0] == 'i': pat = chr(a1[1])
        elif a1[0] == 's' and all(isinstance(p, str) for p in a1[1]): pat = ''.join(a1[1])
        if not pat: return None
    lim = None
    if n.endswith('splitn'):
        b = E.deep(st, args[1])
        if b[0] != 'i' or b[1] < 1: return None
        lim = b[1]
    outs = []
    for gg, g, x in alts(E, st, strv(E, st, args[0])):
        ps = x[1]
        if all(isinstance(p, str) for p in ps):
            s = ''.join(ps)
            if n == 'lines': q = s.splitlines()
            elif n == 'split_whitespace': q = s.split()
            elif n.endswith('split_once'):
                if pat not in s: r = E.none(rt)
                else:
                    i = s.rindex(pat) if n[0] == 'r' else s.index(pat)
                    r = E.some(rt, ('a', None, 0, (('s', norm_parts((s[:i],))), ('s', norm_parts((s[i + len(pat):],))))))
                outs.append((g, r)); continue
            elif n == 'split_inclusive': return None
            else:
                q = s.split(pat, lim - 1 if lim else -1) if n[0] != 'r' or not lim else s.rsplit(pat, lim - 1)
                if n[0] == 'r': q = q[::-1]
                if n == 'split_terminator' and q and q[-1] == '': q.pop()
            outs.append((g, it([(T, ('s', norm_parts((y,)))) for y in q])))
            continue
        free = [untrimmed(p) for p in ps if not isinstance(p, str)]
        kind = 'app'
        if all(p[0] in ('disp', 'frag') and isinstance(p[1], str) for p in free):
            any_ = any(CODE.search(p[1]) or p[1] == 'NAME' for p in free)
            if any_ or pat and pat.replace('_', 'a').isalnum(): kind = 'text'

        def piece(k, i): return ('s', (('disp', (k, 'str::' + n, ps, (pat, lim, i))),))
        if n.endswith('split_once'):
            a = mdd.lit(('contains', ps, pat), True)
            r = merge_vals([(a, E.some(rt, ('a', None, 0, (piece(kind, 0), piece(kind, 1))))), (NOT(a), E.none(rt))])
        elif lim == 1: r = it([(T, x)])
        else:
            more = mdd.lit(('app', 'str::' + n, ps, (pat, lim)), True)
            r = it([(T, piece(kind, 0)), (more, piece('app', 1))])
        outs.append((g, r))
    return merge_vals(outs) if outs else None


def code_text(x):
    """text that is about to be parsed, without white space around the braces and the inserted text"""
    out = []
    for p in x[1]:
        if isinstance(p, str) and not p.strip('{} \n\t'): p = p.replace(' ', '').replace('\n', '').replace('\t', '')
        if not isinstance(p, str): p = untrimmed(p)
        out.append(p)
    return ('s', norm_parts(tuple(out)))


CODE = re.compile(r'\.(default|build)\.=#Lit\.lit#Str$')


def untrimmed(p):
    while p[0] == 'disp' and isinstance(p[1], tuple) and p[1][0] == 'app' and p[1][1] in ('str::trim', 'str::trim_start', 'str::trim_end') and len(p[1][2]) == 1 and not isinstance(p[1][2][0], str): p = p[1][2][0]
    return p


def free_texts(ps):
    free = [p for p in ps if not isinstance(p, str)]
    return {p[1] for p in free} if free and all(p[0] in ('disp', 'frag') and isinstance(p[1], str) for p in free) else set()


def changed_text(E, st, n, ps, pat, args):
    """the operation is known to give another text for some value of a free input string: 'text', otherwise the uninterpreted 'app'"""
    free = [untrimmed(p) for p in ps if not isinstance(p, str)]
    if not free or not all(p[0] in ('disp', 'frag') and (isinstance(p[1], str) or isinstance(p[1], tuple) and p[1][0] == 'text') for p in free): return 'app'
    code = any(isinstance(p[1], str) and CODE.search(p[1]) for p in free)      # text of a user expression: any character; otherwise part of an identifier
    if n in ('to_lowercase', 'to_uppercase'): return 'text'
    if n == 'replace' and pat and (code or pat.replace('_', 'a').isalnum()):
        b = E.deep(st, args[2]) if len(args) > 2 else None
        b = strv(E, st, args[2]) if b is not None and b[0] == 's' else None
        if b is not None and b != ('s', norm_parts((pat,))): return 'text'
    if n in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and pat and (code or pat.replace('_', 'a').isalnum()) and not pat.isspace(): return 'text'
    return 'app'


# ------------------------------------------------------------------ fmt
@model(r'^core::fmt::rt::Argument::<\'_>::new_\w+$', r'fmt::rt::Argument(::<.*>)?::new_\w+$', r'^core::fmt::rt::<impl .*>::new_')
def m_fmtarg(E, st, args, rt, c):
    return ('fa', c.dname.split('new_')[-1], args[0])


@model(r'^std::fmt::Arguments::<\'a>::(new|new_const|from_str|new_v1)\w*$', r'fmt::rt::<impl std::fmt::Arguments.*>::(new|new_const|from_str)', r'fmt::Arguments(::<.*>)?::(new|new_const|from_str|from_str_nonconst)$')
def m_fmtargs(E, st, args, rt, c):
    if 'from_str' in c.dname: return strv(E, st, args[0])
    tmpl = E.deep(st, args[0])
    if tmpl[0] == 's': raw = ''.join(tmpl[1]).encode('latin1')
    else: raw = bytes(e[1] for _, e in tmpl[1])
    al = [e for _, e in lst(E, st, args[1])] if len(args) > 1 else []
    i = 0; nxt = 0
    st2 = st
    val = ('s', ())
    while i < len(raw):
        b = raw[i]; i += 1
        if b == 0: break
        if b < 0x80:
            val = cat(E, st2, val, ('s', (raw[i:i + b].decode('utf8', 'replace'),))); i += b
        elif b == 0x80:
            n = raw[i] | raw[i + 1] << 8; i += 2
            val = cat(E, st2, val, ('s', (raw[i:i + n].decode('utf8', 'replace'),))); i += n
        else:
            idx = nxt
            if b > 0xC0:
                if b & 1: i += 4
                if b & 2: i += 2
                if b & 4: i += 2
                if b & 8: idx = raw[i] | raw[i + 1] << 8; i += 2
            nxt = idx + 1
            a = E.deep(st2, al[idx]) if al[idx][0] != 'fa' else al[idx]
            st2, s = fmt_one(E, st2, a)
            if st2 is None: return None
            val = cat(E, st2, val, s)
    return st2, val


def fmt_one(E, st, a):
    if a[0] == 'u':
        return under(E, st, [(g, lambda s, x=x: fmt_one(E, s, x)) for g, x in a[1]])
    kind, ref = a[1], a[2]
    v = E.deep(st, ref)
    return fmt_value(E, st, v, kind)


def fmt_value(E, st, v, kind):
    if v[0] == 'u':
        return under(E, st, [(g, lambda s, x=x: fmt_value(E, s, x, kind)) for g, x in v[1]])
    if v[0] == 'a' and v[1] is not None and E.T[v[1]].get('name', '').endswith('IdentFragmentAdapter'):
        return st, frag(E, st, v[3][0])
    if v[0] == 'a' and v[1] is not None and E.T[v[1]].get('name', '').endswith('borrow::Cow'):
        return fmt_value(E, st, E.deep(st, v[3][0]), kind)
    if v[0] == 'y' and v[2] is not None and E.T[v[2]].get('name', '').endswith('IdentFragmentAdapter'):
        return st, ('s', (('frag', v[1] if isinstance(v[1], str) else v[1]),))
    if kind == 'display':
        if v[0] == 'a' and v[1] is not None:
            # a local Display impl: run it against a string-collecting formatter
            for i, f in enumerate(E.fns):
                if 'blocks' in f and f['local'] and f['name'].startswith('<') and f['name'].endswith('as std::fmt::Display>::fmt'):
                    t0 = E.T[f['locals'][1]]
                    if t0['k'] == 'ref' and t0['t'] == v[1]:
                        buf = E.new_cell(st, ('s', ()))
                        s2, _ = E.run(st, i, [E.new_cell(st, v), buf])
                        return s2, E.rload(s2, buf)
        return st, to_string(E, st, v)
    return st, ('s', (('dbg', E.deep_term(st, v)),)) if v[0] != 's' else ('s', (('dbg', v[1]),))


def frag(E, st, v):
    """IdentFragment: an identifier without its r# prefix, anything else displayed"""
    x = E.deep(st, v)
    if x[0] == 'u': return merge_vals([(g, frag(E, st, y)) for gg, g, y in alts(E, st, x)])
    if x[0] == 'id':
        return ('s', norm_parts(tuple(('frag', p[1]) if i == 0 and not isinstance(p, str) and p[0] == 'disp' else
                                      (p[2:] if i == 0 and isinstance(p, str) and p.startswith('r#') else p) for i, p in enumerate(x[1]))))
    if x[0] == 'y' and x[2] is not None and E.T[x[2]].get('name', '').endswith('Ident'): return ('s', (('frag', x[1]),))
    if x[0] == 'a' and x[1] is not None and (E.T[x[1]].get('name', '').endswith('Cow')): return frag(E, st, x[3][0])
    return to_string(E, st, x)


@model(r'^std::fmt::Formatter::<\'.*>::(write_str|write_fmt|pad|write_char)$', r'^<std::fmt::Formatter<.*> as std::fmt::Write>::')
def m_fmtwrite(E, st, args, rt, c):
    v = E.deep(st, args[1])
    old = strv(E, st, args[0])
    E.rstore(st, args[0], cat(E, st, old, ('s', (chr(v[1]),)) if v[0] == 'i' else strv(E, st, v)))
    return st, ('a', rt, 0, (UNIT,))


@model(r'^<(str|std::string::String|.*proc_macro2::Ident) as std::fmt::Display>::fmt$')
def m_strfmt(E, st, args, rt, c):
    old = strv(E, st, args[1])
    E.rstore(st, args[1], cat(E, st, old, to_string(E, st, args[0])))
    return st, ('a', rt, 0, (UNIT,))


@model(r'^std::fmt::format$', r'^std::fmt::format::format_inner$', r'^std::fmt::Arguments::<.*>::(as_str|as_statically_known_str)')
def m_format(E, st, args, rt, c):
    if 'as_st' in c.dname: return E.none(rt)
    return strv(E, st, args[0])


@model(r'^<.* as std::fmt::Debug>::fmt$|^std::fmt::Formatter::<.*>::debug_')
def m_debug(E, st, args, rt, c): return ('a', rt, 0, (UNIT,)) if E.T[rt]['k'] == 'adt' and len(E.T[rt]['v']) == 2 else ('y', ('fmt',), rt)


# ------------------------------------------------------------------ Clone of foreign types, Default
@model(r'^<.* as std::clone::Clone>::clone$', r'<impl std::clone::Clone for .*>::clone$', r'^std::clone::impls::<impl .*>::clone$', r'^std::clone::Clone::clone$')
def m_clone(E, st, args, rt, c):
    if c.fn is not None and c.fn['local'] and 'blocks' in c.fn and not c.fn['def'].startswith(('<std::', 'std::')):
        return NotImplemented
    v = E.rload(st, args[0])
    return v


@model(r'^<.* as std::borrow::ToOwned>::to_owned$|^<T as std::borrow::ToOwned>::to_owned$')
def m_toowned(E, st, args, rt, c): return E.rload(st, args[0])


@model(r'^<std::(option::Option<T>|boxed::Box<T>) as std::default::Default>::default$', r'^<.*(bool|usize|u32) as std::default::Default>::default$|^<bool as std::default')
def m_default(E, st, args, rt, c):
    return default_of(E, st, rt)


@model(r'Generics as std::default::Default>::default$')
def m_gdefault(E, st, args, rt, c):
    t = E.T[rt]['v'][0]['f']
    vals = []
    for n, ty in t:
        vals.append(('l', ()) if n == 'params' else ('a', ty, 0, ()))
    return ('a', rt, 0, tuple(vals))


# ------------------------------------------------------------------ tokens
OPS = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=', 'colon': ':',
       'colon2': '::', 'comma': ',', 'div': '/', 'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==',
       'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=', 'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'pound': '#', 'question': '?',
       'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';', 'shl': '<<', 'shl_eq': '<<=', 'shr': '>>', 'shr_eq': '>>=',
       'star': '*', 'sub': '-', 'sub_eq': '-=', 'underscore': '_'}
DELIMS = ['()', '{}', '[]', '']


def delim(E, st, v):
    v = E.deep(st, v)
    if v[0] == 'a': return DELIMS[v[2]]
    if v[0] == 's': return ''.join(v[1])
    if v[0] == 'dl': return v[1]
    raise Undecided('delimiter ' + str(v)[:50])


def toks(E, st, v):
    """items of a token stream value"""
    v = E.deep(st, v)
    if v[0] == 'k': return v[1]
    if v[0] == 'u':
        out = []
        for gg, g, x in alts(E, st, v):
            for g2, i in toks(E, st, x): out.append((AND(g, g2), i))
        return tuple(out)
    if v[0] == 'y': return ((T, ('h', v[1], 'tokens', None)),)
    if v[0] in 'BU': return ()
    raise Undecided('tokens ' + str(v)[:80])


def push(E, st, ref, items):
    items = tuple(items)
    if not items: return
    E.emitted(items)
    d = E.deref(st, ref, None)
    if d is None: raise Undecided('token sink')
    for g, c, p in d:
        v = E.load(st, c, p)
        if v[0] == 'r': push(E, st, v, items); continue
        new = ('k', toks(E, st, v) + (items if len(d) == 1 or g == T else tuple((AND(g, gi), i) for gi, i in items)))
        if len(d) == 1: E.store(st, c, p, new)
        else: E.store(st, c, p, new)


def span_of(E, st, v):
    v = E.deep(st, v)
    if v[0] == 'y' and isinstance(v[1], tuple) and v[1][0] == 'span': return v[1][1]
    if v[0] == 'u':
        return ('alts', tuple((g, span_of(E, st, x)) for g, x in v[1]))
    return E.term(v)


@model(r'quote::__private::push_(\w+)$')
def m_qpush(E, st, args, rt, c):
    n = c.dname.split('push_')[-1]
    sp = None
    rest = list(args[1:])
    if n.endswith('_spanned'):
        n = n[:-8]; sp = span_of(E, st, rest.pop(0))
    if n == 'ident':
        s = strv(E, st, rest[0]); push(E, st, args[0], [(T, ('i', s[1], sp))])
    elif n == 'group':
        push(E, st, args[0], [(T, ('g', delim(E, st, rest[0]), toks(E, st, rest[1]), sp))])
    elif n == 'lifetime':
        push(E, st, args[0], [(T, ('p', ''.join(strv(E, st, rest[0])[1]), sp))])
    elif n == 'literal':
        push(E, st, args[0], [(T, ('lit', ''.join(strv(E, st, rest[0])[1]), sp))])
    elif n in OPS:
        push(E, st, args[0], [(T, ('p', OPS[n], sp))])
    else: raise Undecided('quote push_' + n)
    return UNIT


@model(r'quote::__private::parse(_spanned)?$')
def m_qparse(E, st, args, rt, c):
    a = list(args)
    sp = None
    if c.dname.endswith('spanned'): sp = span_of(E, st, a.pop(1))
    s = ''.join(strv(E, st, a[1])[1])
    push(E, st, a[0], [(T, x) for x in lex(s, sp)])
    return UNIT


LEX = re.compile(r'''\s+|//[^\n]*|(r"[^"]*"|r#"(?:[^"]|"(?!#))*"#|"(?:\\.|[^"\\])*")|('\w+(?!'))|('(?:\\.|[^'\\])')|([A-Za-z_]\w*)|(\d[\w.]*)|(::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|[-+*/%^&|]=|<<|>>|[^\s\w])''')


def lex(s, sp=None):
    """tokens of Rust source text (no delimiters nesting beyond (), [], {})"""
    stack = [[]]; opens = []
    for m in LEX.finditer(s):
        if m.group(1): stack[-1].append(('lits', (rust_unescape(m.group(1)),), sp))
        elif m.group(2): stack[-1].append(('p', m.group(2), sp))
        elif m.group(3): stack[-1].append(('lit', m.group(3), sp))
        elif m.group(4): stack[-1].append(('i', (m.group(4),), sp))
        elif m.group(5): stack[-1].append(('lit', m.group(5), sp))
        elif m.group(6):
            o = m.group(6)
            if o in '([{': stack.append([]); opens.append(o)
            elif o in ')]}':
                inner = stack.pop(); oo = opens.pop()
                stack[-1].append(('g', oo + o, tuple((T, x) for x in inner), sp))
            else: stack[-1].append(('p', o, sp))
    return stack[0]


def rust_unescape(s):
    if s[0] == 'r': return s.strip('r#')[1:-1]
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s[1:-1], flags=re.S)


@model(r'quote::__private::(mk_ident|ident_maybe_raw)$', r'proc_macro2::Ident::new$', r'proc_macro2::Ident::new_raw$')
def m_ident_new(E, st, args, rt, c):
    s = strv(E, st, args[0])
    sp = None
    if c.dname.endswith('mk_ident'):
        spv = args[1]
        o = opt(E, st, spv)
        sps = [(g, span_of(E, st, pl) if vi == 1 else None) for g, vi, pl in o]
        sp = sps[0][1] if len(sps) == 1 else (None if all(x is None for _, x in sps) else ('alts', tuple(sps)))
    else: sp = span_of(E, st, args[1])
    out = []
    for gg, g, x in alts(E, st, s):
        ps = norm_parts(x[1])
        # a raw identifier may not carry its r# in the middle; Ident::new (unlike mk_ident) rejects it anywhere
        for i, p in enumerate(ps):
            if not isinstance(p, str) and p[0] == 'disp' and (i > 0 or c.dname.endswith('Ident::new')):
                bad = AND(gg, E.atom(('raw', p[1])))
                if bad != F:
                    E.panic(bad, 'Ident::new on a string containing r#', c.where)
        if not ps or (isinstance(ps[0], str) and ps[0][:1].isdigit()) or any(isinstance(p, str) and not re.match(r'^(r#)?\w*$', p) for p in ps):
            E.panic(gg, 'Ident::new on a string that is not an identifier: ' + repr(ps), c.where)
        if c.dname.endswith('new_raw'): ps = norm_parts(('r#',) + ps)
        out.append((g, ('id', ps, sp)))
    if not out: return None
    return merge_vals(out)


@model(r'^<.*proc_macro2::Ident as .*quote::IdentFragment>::(fmt|span)$', r'^<&.* as .*quote::IdentFragment>::(fmt|span)$', r'quote::ident_fragment.*::(fmt|span)$')
def m_identfrag(E, st, args, rt, c):
    if c.dname.endswith('span'):
        v = E.deep(st, args[0])
        return ident_span_opt(E, st, v, rt)
    old = strv(E, st, args[1])
    E.rstore(st, args[1], cat(E, st, old, frag(E, st, args[0])))
    return st, ('a', rt, 0, (UNIT,))


def ident_span_opt(E, st, v, rt):
    if v[0] == 'u': return merge_vals([(g, ident_span_opt(E, st, x, rt)) for gg, g, x in alts(E, st, v)])
    sty = E.T[rt]['v'][1]['f'][0][1]
    if v[0] in ('id', 'y') and not (v[0] == 'y' and v[2] is not None and not E.T[v[2]].get('name', '').endswith('Ident')):
        return E.some(rt, ('y', ('span', E.term(v) if v[0] == 'y' else (v[2] if v[2] is not None else ('call_site',))), sty))
    return E.none(rt)


@model(r'IdentFragmentAdapter::<T>::span$')
def m_ifaspan(E, st, args, rt, c):
    v = E.deep(st, args[0])
    x = v[3][0] if v[0] == 'a' else v
    return ident_span_opt(E, st, E.deep(st, x), rt)


@model(r'proc_macro2::Ident::span$')
def m_identspan(E, st, args, rt, c):
    v = E.deep(st, args[0])
    if v[0] == 'u':
        return merge_vals([(g, ('y', ('span', x[2] if x[0] == 'id' else E.term(x)), rt)) for gg, g, x in alts(E, st, v)])
    return ('y', ('span', v[2] if v[0] == 'id' else E.term(v)), rt)


@model(r'proc_macro2::Ident::set_span$', r'proc_macro2::(Punct|Literal)::set_span$')
def m_setspan(E, st, args, rt, c):
    v = E.deep(st, args[0])
    sp = span_of(E, st, args[1])

    def f(x):
        if x[0] == 'u': return merge_vals([(g, f(y)) for g, y in x[1]])
        if x[0] == 'id': return ('id', x[1], sp)
        if x[0] == 'y': return ('id', (('disp', x[1]),), sp)
        return respan_item(x, sp)
    E.rstore(st, args[0], f(v))
    return UNIT


def respan_item(i, sp):
    if i[0] == 'h': return ('h', i[1], i[2], ('respan', sp))
    return i[:-1] + (sp,)


@model(r'proc_macro2::Span::(call_site|mixed_site|def_site)$')
def m_callsite(E, st, args, rt, c): return ('y', ('span', ('call_site',)), rt)


@model(r'proc_macro2::Span::(resolved_at|located_at|join|unwrap)$')
def m_spanops(E, st, args, rt, c): return args[0]


@model(r'^<T as .*syn::spanned::Spanned>::span$', r'syn::(Error|LitStr|LitBool|LitInt|Lit)::span$', r'quote::__private::get_span$', r'GetSpan(Inner|Base)?::<.*>::__into_span$')
def m_span(E, st, args, rt, c):
    if 'get_span' in c.dname or '__into_span' in c.dname:
        v = E.deep(st, args[0])
        while v[0] == 'a': v = E.deep(st, v[3][-1])
        if 'get_span' in c.dname: return ('a', rt, 0, (v,)) if E.T[rt]['k'] == 'adt' and 'Span' not in E.T[rt]['name'].split('::')[-1][:4] else v
        return v
    v = E.deep(st, args[0])
    out = []
    for gg, g, x in alts(E, st, v):
        if x[0] == 'id': out.append((g, ('y', ('span', x[2]), rt)))
        elif x[0] == 'y' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'span': out.append((g, x))
        else: out.append((g, ('y', ('span', canon(E.deep_term(st, x))), rt)))
    return merge_vals(out)


def canon(t):
    return t


@model(r'proc_macro2?::TokenStream::new$', r'^<.*proc_macro2?::TokenStream as std::default::Default>::default$')
def m_tsnew(E, st, args, rt, c): return ('k', ())


@model(r'proc_macro2?::TokenStream::is_empty$')
def m_tsempty(E, st, args, rt, c):
    xs = toks(E, st, args[0])
    n = F
    for g, i in xs:
        if i[0] == 'h': n = OR(n, AND(g, NOT(E.atom(('empty', i[1])))))
        else: n = OR(n, g)
    return mkb(NOT(n))


@model(r'^<.*proc_macro2?::TokenStream as std::str::FromStr>::from_str$')
def m_fromstr(E, st, args, rt, c):
    s = strv(E, st, args[0])
    if s[0] == 's' and all(isinstance(p, str) for p in s[1]):
        return E.ok(rt, ('k', tuple((T, x) for x in lex(''.join(s[1])))))
    v = ('k', ((T, ('h', ('lexed', s), 'tokens', None)),))
    return E.ok(rt, v) if E.valid else E.result(rt, v, ('lexfail', s))


@model(r'^<.*proc_macro2?::TokenStream as std::iter::Extend<.*>>::extend$', r'^<.*proc_macro2?::TokenStream as std::iter::FromIterator<.*>>::from_iter$')
def m_tsextend(E, st, args, rt, c):
    ext = c.dname.endswith('extend')
    src = args[1] if ext else args[0]
    x = E.deep(st, src)
    if x[0] == 'k': items = x[1]
    else:
        st, itv = into_iter(E, st, src)
        st, xs = drain(E, st, itv)
        if st is None: return None
        items = []
        for g, e in xs:
            for g2, i in items_of(E, st, e): items.append((AND(g, g2), i))
    if ext:
        push(E, st, args[0], items); return st, UNIT
    return st, ('k', tuple(items))


def items_of(E, st, e):
    """token items of a value that is a TokenTree, TokenStream, Ident, ..."""
    e = E.deep(st, e)
    if e[0] == 'u':
        return [(AND(g, g2), i) for gg, g, x in alts(E, st, e) for g2, i in items_of(E, st, x)]
    if e[0] == 'k': return list(e[1])
    if e[0] == 'id': return [(T, ('i', e[1], e[2]))]
    if e[0] in ('i', 'p', 'lit', 'lits', 'g', 'h') and isinstance(e, tuple) and len(e) >= 3: return [(T, e)]
    if e[0] == 'a' and e[1] is not None and E.T[e[1]].get('name', '').endswith('TokenTree'): return items_of(E, st, e[3][0])
    if e[0] == 'y': return [(T, ('h', e[1], E.ts(e[2]), None))]
    raise Undecided('token ' + str(e)[:60])


@model(r'quote::TokenStreamExt>::(append|append_all|append_separated|append_terminated)$', r'quote::TokenStreamExt::(append\w*)$')
def m_tsappend(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n == 'append':
        push(E, st, args[0], items_of(E, st, args[1])); return UNIT
    x = E.deep(st, args[1])
    if x[0] == 'k':
        push(E, st, args[0], x[1]); return UNIT
    st, itv = into_iter(E, st, args[1])
    first = [F]
    sep = args[2] if len(args) > 2 else None

    def sink(s, e):
        if n == 'append_separated':
            s, items = tokens_of(E, s, sep)
            push(E, s, args[0], [(AND(first[0], g), i) for g, i in items if AND(AND(first[0], g), s.g) != F])
            first[0] = OR(first[0], s.g)
        s, items = tokens_of(E, s, e)
        push(E, s, args[0], items)
        if n == 'append_terminated':
            s, items = tokens_of(E, s, sep)
            push(E, s, args[0], items)
        return s, F
    if x[0] == 'a' and x[1] is not None and E.T[x[1]].get('name', '').endswith('option::Option') or x[0] == 'u':
        for g, vi, pl in opt(E, st, x):
            if vi == 1:
                st, items = tokens_of(E, st, pl)
                push(E, st, args[0], [(AND(g, g2), i) for g2, i in items])
        return st, UNIT
    st, _ = visit(E, st, itv, sink)
    return (st, UNIT) if st is not None else None


def tokens_of(E, st, v):
    """ToTokens of a value: run its implementation into a fresh stream"""
    x = E.deep(st, v)
    cell = E.new_cell(st, ('k', ()))
    if x[0] == 'a' and x[1] is not None and E.T[x[1]]['k'] == 'adt':
        i = E.totokens(x[1])
        if i is not None:
            s2, _ = E.run(st, i, [E.new_cell(st, x), cell])
            return s2, E.rload(s2, cell)[1]
    s2 = render(E, st, x, cell)
    return s2, E.rload(s2, cell)[1]


HOLE_TYPES = ('Ident', 'Path', 'Type', 'Visibility', 'Generics', 'WhereClause', 'Attribute', 'Block', 'Expr', 'Meta', 'Lit', 'LitStr', 'ImplGenerics',
              'TypeGenerics', 'Turbofish', 'TypeParamBound', 'Lifetime', 'Field', 'TypeParam', 'GenericParam', 'TokenStream', 'Stmt', 'TypePath')


@model(r'^(<.* as )?(\w+::)*quote::ToTokens>?::(to_tokens|to_token_stream|into_token_stream)$', r'<impl (\w+::)*quote::ToTokens for .*>::(to_tokens|to_token_stream)$')
def m_totokens(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n != 'to_tokens':
        # default method bodies: to_tokens into a fresh stream
        if c.fn is not None and 'blocks' in c.fn: return NotImplemented
        s, items = tokens_of(E, st, args[0])
        return s, ('k', items)
    f = c.fn
    if f is not None and 'blocks' in f:
        if f['local']: return NotImplemented
        if re.search(r'^<(&|std::option::Option|std::borrow::Cow|std::boxed::Box|.*RepInterp)', f['name']): return NotImplemented
        if re.search(r'quote::to_tokens::<impl .*ToTokens for (&|std::option|std::borrow::Cow|std::boxed|std::rc)', f['def']): return NotImplemented
    s = render(E, st, E.deep(st, args[0]), args[1])
    return (s, UNIT) if s is not None else None


def tname(E, t):
    return E.T[t].get('name', E.T[t]['s']).split('::')[-1] if t is not None else ''


def render(E, st, x, sink):
    """push the tokens of a foreign (syn/proc_macro2/std) value"""
    al = list(alts(E, st, x))
    if len(al) > 1:
        # collect the alternatives' items, then push them with their guards
        outs = []
        for gg, g, y in al:
            cell = E.new_cell(st, ('k', ()))
            st = render(E, st, y, cell)
            for g2, i in toks(E, st, E.rload(st, cell)): outs.append((simplify(AND(g, g2), st.g), i))
        push(E, st, sink, outs)
        return st
    if not al: return st
    x = al[0][2]
    k = x[0]
    if k == 'k': push(E, st, sink, x[1])
    elif k == 'id': push(E, st, sink, [(T, ('i', x[1], x[2]))])
    elif k == 's': push(E, st, sink, [(T, ('lits', x[1], None))])
    elif k == 'p': push(E, st, sink, x[2])
    elif k in ('p', 'i', 'lit', 'lits', 'g', 'h') and len(x) >= 3: push(E, st, sink, [(T, x)])
    elif k == 'x': return render(E, st, E.deep(st, x[1]), sink)
    elif k == 'b':
        push(E, st, sink, [(x[1], ('i', ('true',), None)), (NOT(x[1]), ('i', ('false',), None))])
    elif k == 'i': push(E, st, sink, [(T, ('lit', str(x[1]), None))])
    elif k == 'y':
        n = tname(E, x[2])
        t = E.T[x[2]] if x[2] is not None else None
        tok = token_of(t)
        if n == 'Ident': push(E, st, sink, [(T, ('i', (('disp', x[1]),), ('span', x[1])))])
        elif n == 'String' or t is not None and t['k'] == 'str': push(E, st, sink, [(T, ('lits', (('disp', x[1]),), None))])
        elif tok is not None: push(E, st, sink, [(T, ('p' if not tok[0].isalpha() else 'i', tok if not tok[0].isalpha() else (tok,), None))])
        elif n == 'Option':
            for g, vi, pl in opt(E, st, x):
                if vi == 1:
                    cell = E.new_cell(st, ('k', ()))
                    st = render(E, st, E.deep(st, pl), cell)
                    push(E, st, sink, [(AND(g, g2), i) for g2, i in toks(E, st, E.rload(st, cell))])
        else: push(E, st, sink, [(T, ('h', x[1], n, None))])
    elif k == 'l':
        # Punctuated: separate by commas
        prev = F
        out = []
        for g, e in x[1]:
            if e[0] == 'splat':
                if prev != F: out.append((AND(prev, g), ('p', ',', None)))
                out.append((g, ('h', e[1], 'Punctuated', None))); prev = OR(prev, g); continue
            if prev != F: out.append((AND(prev, g), ('p', ',', None)))
            cell = E.new_cell(st, ('k', ()))
            st = render(E, st, E.deep(st, e), cell)
            out += [(AND(g, g2), i) for g2, i in toks(E, st, E.rload(st, cell))]
            prev = OR(prev, g)
        push(E, st, sink, [(g, i) for g, i in out if AND(g, st.g) != F])
    elif k == 'a':
        n = tname(E, x[1])
        t = E.T[x[1]] if x[1] is not None else None
        fl = (lambda name: x[3][[f[0] for f in t['v'][x[2]]['f']].index(name)]) if t else None
        vn = t['v'][x[2]]['n'] if t and t['k'] == 'adt' else ''
        if n == 'Visibility':
            if vn == 'Inherited': pass
            elif vn == 'Public':
                y = E.deep(st, x[3][0])
                sp = None
                if y[0] == 'p': push(E, st, sink, y[2])
                else: push(E, st, sink, [(T, ('i', ('pub',), None))])
            else: push(E, st, sink, [(T, ('h', E.deep_term(st, x), n, None))])
        elif n == 'Generics':
            push(E, st, sink, [(T, ('gen', 'decl', x, None))])
        elif n == 'Option':
            if x[2] == 1: return render(E, st, E.deep(st, x[3][0]), sink)
        elif n in ('Cow', 'Box', 'RepInterp'):
            return render(E, st, E.deep(st, x[3][0]), sink)
        elif n == 'Path' and t['name'].endswith('syn::Path'):
            out = []
            lc = fl('leading_colon')
            for g, vi, pl in opt(E, st, lc):
                if vi == 1: out.append((g, ('p', '::', None)))
            prev = F
            for g, e in lst(E, st, fl('segments')):
                if e[0] == 'splat': out.append((g, ('h', e[1], 'segments', None))); prev = OR(prev, g); continue
                if prev != F: out.append((AND(prev, g), ('p', '::', None)))
                idv = E.deep(st, E.project(e, ('f', 0, None)))
                for g2, i in items_of_ident(E, st, idv): out.append((AND(g, g2), i))
                prev = OR(prev, g)
            push(E, st, sink, out)
        elif n == 'Attribute':
            mcell = E.new_cell(st, ('k', ()))
            st = render(E, st, E.deep(st, fl('meta')), mcell)
            push(E, st, sink, [(T, ('p', '#', None))])
            style = E.deep(st, fl('style'))
            if style[0] == 'a' and t and E.T[style[1]]['v'][style[2]]['n'] == 'Inner': push(E, st, sink, [(T, ('p', '!', None))])
            push(E, st, sink, [(T, ('g', '[]', toks(E, st, E.rload(st, mcell)), None))])
        elif n == 'Meta':
            return render(E, st, E.deep(st, x[3][0]), sink)
        elif n == 'MetaList':
            st = render(E, st, E.deep(st, fl('path')), sink)
            push(E, st, sink, [(T, ('g', '()', toks(E, st, fl('tokens')), None))])
        elif n == 'MetaNameValue':
            st = render(E, st, E.deep(st, fl('path')), sink)
            push(E, st, sink, [(T, ('p', '=', None))])
            return render(E, st, E.deep(st, fl('value')), sink)
        elif n == 'Block':
            cell = E.new_cell(st, ('k', ()))
            for g, e in lst(E, st, fl('stmts')):
                c2 = E.new_cell(st, ('k', ()))
                if e[0] == 'splat': E.rstore(st, c2, ('k', ((T, ('h', e[1], 'stmts', None)),)))
                else: st = render(E, st, E.deep(st, e), c2)
                push(E, st, cell, [(AND(g, g2), i) for g2, i in toks(E, st, E.rload(st, c2))])
            push(E, st, sink, [(T, ('g', '{}', toks(E, st, E.rload(st, cell)), None))])
        elif n == 'Stmt' and vn == 'Expr':
            st = render(E, st, E.deep(st, x[3][0]), sink)
            for g, vi, pl in opt(E, st, x[3][1]):
                if vi == 1: push(E, st, sink, [(g, ('p', ';', None))])
        elif n == 'TypeParamBound' and vn == 'Trait':
            tb = E.deep(st, x[3][0])
            tt = E.T[tb[1]]['v'][0]['f'] if tb[0] == 'a' else None
            if tb[0] == 'a': return render(E, st, E.deep(st, tb[3][[f[0] for f in tt].index('path')]), sink)
            push(E, st, sink, [(T, ('h', E.term(tb), n, None))])
        elif n in ('TraitBound',):
            tt = t['v'][0]['f']
            return render(E, st, E.deep(st, x[3][[f[0] for f in tt].index('path')]), sink)
        elif n in ('TypeParam', 'Lifetime', 'ConstParam', 'LifetimeParam', 'WhereClause'):
            push(E, st, sink, [(T, ('h', E.deep_term(st, x), n, None))])
        elif token_of(t) is not None:
            tok = token_of(t)
            sp = None
            if x[3]:
                sv = E.deep(st, x[3][0])
                if sv[0] == 'y': sp = span_of(E, st, sv)
            push(E, st, sink, [(T, ('p', tok, sp) if not tok[0].isalpha() else ('i', (tok,), sp))])
        elif t is None and not x[3]: pass
        else:
            E.unmodelled['render ' + n] = E.unmodelled.get('render ' + n, 0) + 1
            push(E, st, sink, [(T, ('h', E.deep_term(st, x), n, None))])
    elif k in 'BU': pass
    else:
        raise Undecided('render ' + str(x)[:80])
    return st


def items_of_ident(E, st, v):
    out = []
    for g, x in guarded(v):
        if x[0] == 'id': out.append((g, ('i', x[1], x[2])))
        elif x[0] == 'y': out.append((g, ('i', (('disp', x[1]),), ('span', x[1]))))
    return out


TOKENS = {'Pub': 'pub', 'Pound': '#', 'Comma': ',', 'Eq': '=', 'Colon': ':', 'PathSep': '::', 'Semi': ';', 'Not': '!', 'Plus': '+', 'Lt': '<', 'Gt': '>',
          'Where': 'where', 'Struct': 'struct', 'Mut': 'mut', 'And': '&', 'Star': '*', 'Question': '?', 'Dot': '.', 'Self_': 'self', 'SelfValue': 'self', 'SelfType': 'Self', 'FatArrow': '=>', 'RArrow': '->'}


def token_of(t):
    if t is None or t['k'] != 'adt' or '::token::' not in t['name']: return None
    return TOKENS.get(t['name'].split('::')[-1])


# proc_macro2 trees
@model(r'proc_macro2::Group::(new|delimiter|stream|set_span|span|delim_span|span_open|span_close)$')
def m_group(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n == 'new': return ('g', delim(E, st, args[0]), toks(E, st, args[1]), None)
    v = E.deep(st, args[0])
    if n == 'set_span':
        sp = span_of(E, st, args[1])

        def f(x):
            if x[0] == 'u': return merge_vals([(g, f(y)) for g, y in x[1]])
            return respan_item(x, sp)
        E.rstore(st, args[0], f(v)); return UNIT
    out = []
    for gg, g, x in alts(E, st, v):
        if x[0] == 'a': x = x[3][0]
        if x[0] == 'g':
            if n == 'delimiter': out.append((g, ('a', rt, DELIMS.index(x[1]), ())))
            elif n == 'stream': out.append((g, ('k', x[2])))
            else: out.append((g, ('y', ('span', x[3]), rt)))
        else:
            out.append((g, E.sym(('app', 'Group::' + n, E.term(x)), rt)))
    return merge_vals(out)


@model(r'proc_macro2::TokenTree::set_span$')
def m_ttsetspan(E, st, args, rt, c):
    sp = span_of(E, st, args[1])
    v = E.rload(st, args[0])

    def f(x):
        if x[0] == 'u': return merge_vals([(g, f(y)) for g, y in x[1]])
        if x[0] == 'a': return ('a', x[1], x[2], (f(x[3][0]),))
        if x[0] == 'id': return ('id', x[1], sp)
        return respan_item(x, sp)
    E.rstore(st, args[0], f(v)); return UNIT


@model(r'proc_macro2::Punct::new$')
def m_punct(E, st, args, rt, c):
    ch = E.deep(st, args[0])
    return ('p', chr(ch[1]), None)


@model(r'proc_macro2::Punct::(as_char|spacing)$')
def m_punct_get(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    outs = []
    for gg, g, x in alts(E, st, E.deep(st, args[0])):
        if n == 'as_char' and x[0] == 'p' and isinstance(x[1], str): outs.append((g, ('i', ord(x[1][0]))))
        else: outs.append((g, E.sym(('app', 'Punct::' + n, E.term(x)), rt)))
    return merge_vals(outs) if outs else None


@model(r'proc_macro2::Literal::string$')
def m_lit(E, st, args, rt, c): return ('lits', strv(E, st, args[0])[1], None)


@model(r'^<.*proc_macro2::TokenTree as std::convert::From<.*>>::from$', r'^<.*proc_macro2::TokenTree as std::clone::Clone>')
def m_ttfrom(E, st, args, rt, c):
    v = args[0]
    m = re.search(r'From<.*?(\w+)>>', c.fname)
    vi = {'Group': 0, 'Ident': 1, 'Punct': 2, 'Literal': 3}[m.group(1)]
    return ('a', rt, vi, (v,))


TT = {'g': 0, 'i': 1, 'id': 1, 'p': 2, 'lit': 3, 'lits': 3, 'h': 2}


def hook_disc(E, v, ty):
    if ty is not None and E.T[ty].get('name', '').endswith('TokenTree') or v[0] in ('g', 'p', 'lit', 'lits', 'h', 'id') and (ty is None or E.T[ty]['k'] != 'adt' or len(E.T[ty]['v']) == 4):
        if v[0] in TT: return ('i', TT[v[0]])
    return None


def hook_drop(E, st, fid, t):
    """darling's error accumulator panics when it is dropped with its errors still inside"""
    ty = t.get('ty')
    if ty is None or E.T[ty].get('name', '') != 'darling::error::Accumulator' and not E.T[ty].get('s', '').endswith('error::Accumulator'): return st
    v = E.read(st, fid, t['p'])
    bad = F
    for gg, g, x in alts(E, st, v):
        if x[0] != 'a': continue
        for g2, vi, pl in opt(E, st.fork(AND(st.g, g)), x[3][0]):
            if vi == 1: bad = OR(bad, AND(gg, g2))
    if bad != F:
        E.panic(bad, 'error accumulator dropped without finish', t['l'])
        g = DIFF(st.g, bad)
        if g == F: return None
        st = St(g, st.mem)
    return st


def hook_downcast(E, v, vi):
    if v[0] in TT: return ('a', None, vi, (v if v[0] != 'i' else ('id', v[1], v[2]),))
    return None


# ------------------------------------------------------------------ syn
@model(r'syn::__private::parse(_quote)?(::<.*>)?$', r'syn::parse_quote::parse$', r'syn::parse2$')
def m_synparse(E, st, args, rt, c):
    ts = toks(E, st, args[0])
    ty = rt
    if c.dname.endswith('parse2'):
        inner = E.T[rt]['v'][0]['f'][0][1]
        return E.ok(rt, parsed(E, st, inner, ts))
    return parsed(E, st, ty, ts)


def parsed(E, st, ty, ts):
    n = tname(E, ty)
    if n == 'Visibility' and len(ts) == 1 and ts[0][0] == T and ts[0][1][0] == 'i' and ts[0][1][1] == ('pub',):
        return E.adt(ty, 'Public', [('p', E.field_ty(ty, E.variant(ty, 'Public'), 0), ts)])
    if n == 'Visibility' and not ts: return E.adt(ty, 'Inherited')
    return ('p', ty, ts)


@model(r'syn::Attribute::parse_outer$')
def m_pouter(E, st, args, rt, c): return ('y', ('parse_outer',), rt)


@model(r'syn::parse::Parser>::parse2$', r'syn::parse::Parser::parse2$')
def m_parse2(E, st, args, rt, c):
    ts = toks(E, st, args[1])
    f = args[0]
    if f[0] == 'f' and f[2].endswith('Attribute::parse_outer'):
        inner = E.T[rt]['v'][0]['f'][0][1]
        aty = E.T[inner]['a'][0]
        ok = ('l', ((T, ('p', aty, ts)),))
        # the wrapped tokens of one `#[...]` parse to exactly one attribute unless they are malformed; an unknown
        # nested token stream may close nothing, so the result holds one attribute
        if E.valid: return E.ok(rt, ok)
        hs = [x[1] for _, x in ts[-1][1][2] if x[0] == 'h'] if ts and ts[-1][1][0] == 'g' else []
        return E.result(rt, ok, ('badouter', hs[0] if len(hs) == 1 else tuple(ts)))
    raise Undecided('parse2 of ' + str(f)[:60])


@model(r'syn::LitStr::(value|new|parse|token|parse_with)$')
def m_litstr(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n == 'new':
        return ('y', ('litstr', strv(E, st, args[0]), span_of(E, st, args[1])), rt)
    v = E.deep(st, args[0])
    out = []
    for gg, g, x in alts(E, st, v):
        t = E.term(x)
        if n == 'value':
            out.append((g, t[1] if isinstance(t, tuple) and t[0] == 'litstr' else ('s', (('disp', t),))))
        elif n == 'parse':
            inner = E.T[rt]['v'][0]['f'][0][1]
            src = t[1] if isinstance(t, tuple) and t[0] == 'litstr' else ('s', (('disp', t),))
            if src[0] == 's' and tname(E, inner).endswith('Block'):
                src = code_text(src)
                if isinstance(t, tuple) and t[0] == 'litstr': t = ('litstr', src) + t[2:]
            val = E.sym(('parse', tname(E, inner), src), inner)
            if not (isinstance(t, tuple) and t[0] == 'litstr'): val = E.sym(('parsed', t), inner)
            out.append((g, E.result(rt, val, ('badparse', tname(E, inner), t))))
        else: out.append((g, E.sym(('app', 'LitStr::' + n, t), rt)))
    return merge_vals(out)


@model(r'syn::LitChar::value$|syn::LitBool::value$')
def m_litval(E, st, args, rt, c): return E.sym(('val', E.deep_term(st, args[0])), rt)


@model(r'^(\w+::)?syn::token::\w+$')
def m_token(E, st, args, rt, c):
    return ('a', rt, 0, (args[0],) if args else ())


@model(r'syn::Meta::path$', r'syn::Attribute::path$')
def m_path(E, st, args, rt, c):
    outs = []
    meta = args[0]
    d = E.deref(st, meta, None)
    for g, cell, p in d:
        if c.dname.endswith('Attribute::path'):
            v = E.load(st, cell, p)
            if any(x[0] == 'p' for _, x in guarded(v)):
                for gg, g2, x in alts(E, st, v):
                    if x[0] == 'p': outs.append((AND(g, g2), E.new_cell(st, E.sym(('path_of', x[2]), pointee(E, rt)))))
                    else: outs += meta_path(E, st, AND(g, g2), cell, p + (('f', E.field_index(x[1] if x[0] == 'a' else x[2], 'meta'), None),))
                continue
            x = next(iter(guarded(v)))[1]
            p = p + (('f', E.field_index(x[1] if x[0] == 'a' else x[2], 'meta'), None),)
        m = E.load(st, cell, p)
        if m[0] == 'r':
            for g2, cell2, p2 in E.deref(st, m, None): outs += meta_path(E, st, AND(g, g2), cell2, p2)
            continue
        outs += meta_path(E, st, g, cell, p)
    return merge_vals(outs)


def pointee(E, t): return E.T[t]['t'] if E.T[t]['k'] in ('ref', 'ptr') else t


def meta_path(E, st, g, cell, p):
    m = E.load(st, cell, p)
    outs = []
    for gg, g2, x in alts(E, st, m):
        if x[0] == 'a':
            vn = E.T[x[1]]['v'][x[2]]['n']
            q = p + (('d', x[2]), ('f', 0, None))
            if vn != 'Path': q = q + (('f', E.field_index(E.field_ty(x[1], x[2], 0), 'path'), None),)
            outs.append((AND(g, g2), ('r', cell, q)))
        else:
            for g3, i in E.disc_alts(x[1], x[2]):
                q = p + (('d', i), ('f', 0, None))
                if i != 0: q = q + (('f', E.field_index(E.field_ty(x[2], i, 0), 'path'), None),)
                outs.append((AND(AND(g, g2), g3), ('r', cell, q)))
    return outs


def path_ident(E, st, v):
    """[(guard, single ident value or None)]"""
    v = E.deep(st, v)
    out = []
    for gg, g, x in alts(E, st, v):
        if x[0] == 'a':
            segs = x[3][E.field_index(x[1], 'segments')]
            lc = x[3][E.field_index(x[1], 'leading_colon')]
            xs = lst(E, st, segs)
            if len(xs) == 1 and xs[0][1][0] != 'splat': out.append((g, E.project(xs[0][1], ('f', 0, None))))
            else: out.append((g, None))
        else:
            t = E.term(x)
            one = E.atom(('single', t))
            out.append((AND(g, one), ('id', (('disp', ('ident', t)),), None)))
            out.append((AND(g, NOT(one)), None))
    return out


@model(r'syn::Path::(is_ident|get_ident|require_ident)$')
def m_isident(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    ids = path_ident(E, st, args[0])
    if n == 'is_ident':
        w = strv(E, st, args[1])
        return mkb(mdd.ORS([AND(g, str_eq(E, strv(E, st, i), w)) for g, i in ids if i is not None]))
    out = []
    for g, i in ids:
        if n == 'get_ident': out.append((g, E.none(rt) if i is None else E.some(rt, E.new_cell(st, i))))
        else: out.append((g, E.err(rt, ('y', ('err', 'require_ident'), E.T[rt]['v'][1]['f'][0][1])) if i is None else E.ok(rt, E.new_cell(st, i))))
    return merge_vals(out)


@model(r'^<.*syn::Path as std::convert::From<T>>::from$')
def m_pathfrom(E, st, args, rt, c):
    v = E.deep(st, args[0])
    return merge_vals([(g, ('p', rt, ((T, ('i', x[1], x[2]) if x[0] == 'id' else ('i', (('disp', E.term(x)),), ('span', E.term(x)))),))) for gg, g, x in alts(E, st, v)])


@model(r'syn::ext::IdentExt>::unraw$')
def m_unraw(E, st, args, rt, c):
    v = E.deep(st, args[0])
    return merge_vals([(g, ('id', frag(E, st, x)[1], x[2] if x[0] == 'id' else ('span', E.term(x)))) for gg, g, x in alts(E, st, v)])


@model(r'syn::Generics::split_for_impl$')
def m_split(E, st, args, rt, c):
    g = E.deep(st, args[0])
    ts = E.T[rt]['ts']
    wi = E.field_index(g[1] if g[0] == 'a' else g[2], 'where_clause') if g[0] in 'ay' else None
    if wi is None: raise Undecided('split_for_impl')
    d = E.deref(st, args[0], None)
    # a reference to the Option<WhereClause> payload
    w = E.project(g, ('f', wi, None))
    outs = []
    for g2, vi, pl in opt(E, st, w):
        outs.append((g2, E.some(ts[2], E.new_cell(st, pl)) if vi == 1 else E.none(ts[2])))
    return ('a', rt, 0, (('gv', 'impl', g), ('gv', 'ty', g), merge_vals(outs)))


@model(r'syn::generics::printing::<impl .*ToTokens for .*(ImplGenerics|TypeGenerics|Turbofish).*>::to_tokens$')
def m_gprint(E, st, args, rt, c):
    v = E.deep(st, args[0])
    push(E, st, args[1], [(g, ('gen', x[1], x[2], None)) for gg, g, x in alts(E, st, v)])
    return UNIT


M.insert(0, M.pop())      # before the generic ToTokens model


@model(r'syn::Error::(new|new_spanned|combine|to_compile_error|into_compile_error|span)$')
def m_synerr(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    if n in ('new', 'new_spanned'):
        m = E.deep(st, args[1])
        msg = strv(E, st, m) if m[0] in ('s', 'u') else ('s', (('disp', E.deep_term(st, m)),))
        return ('y', ('err', 'syn', msg), rt)
    if n == 'combine': return UNIT
    if n == 'span': return ('y', ('span', E.deep_term(st, args[0])), rt)
    v = E.deep(st, args[0])
    return ('k', tuple((g, ('h', E.term(x), 'compile_error', None)) for gg, g, x in alts(E, st, v)))


M.insert(0, M.pop())


# ------------------------------------------------------------------ darling leaves
@model(r'darling::Error::(custom|unsupported_format|unsupported_shape\w*|unknown_value|unknown_field\w*|missing_field|duplicate_field\w*|unexpected_type|unexpected_lit_type|unexpected_expr_type|too_few_items|too_many_items|unknown_lit_str_value|unknown_field_path\w*)$')
def m_derr(E, st, args, rt, c):
    n = c.dname.split('::')[-1]
    a = E.deep(st, args[0]) if args else None
    msg = strv(E, st, a)[1] if a is not None and a[0] == 's' else E.deep_term(st, a) if a is not None else ''
    return ('y', ('err', n, msg), rt)


@model(r'darling::Error::(with_span|at|at_path|add_sibling_alts_for_unknown_field|flatten)$')
def m_dspan(E, st, args, rt, c):
    return args[0]


@model(r'darling::Error::multiple$')
def m_dmult(E, st, args, rt, c):
    xs = lst(E, st, args[0])
    if not xs:
        return None
    return ('y', ('err', 'multiple', tuple((g, E.term(e)) for g, e in xs)), rt)


@model(r'darling::Error::(len)$')
def m_dlen(E, st, args, rt, c): return ('i', 1)


@model(r'darling::Error::write_errors$')
def m_dwrite(E, st, args, rt, c):
    v = E.deep(st, args[0])
    return ('k', tuple((g, ('h', E.term(x), 'compile_error', None)) for gg, g, x in alts(E, st, v)))


@model(r'^<.*darling::Error as std::convert::From<.*>>::from$', r'^<.*syn::Error as std::convert::From<.*>>::from$', r'<impl std::convert::From<.*darling::Error> for .*syn::Error>::from')
def m_dfrom(E, st, args, rt, c):
    v = E.deep(st, args[0])
    return merge_vals([(g, ('y', E.term(x), rt)) for gg, g, x in alts(E, st, v)])


@model(r'darling::ast::NestedMeta::parse_meta_list$')
def m_pml(E, st, args, rt, c):
    xs = toks(E, st, args[0])
    if len(xs) == 0: return E.ok(rt, ('l', ()))
    if len(xs) == 1 and xs[0][1][0] == 'h':
        r = E.meta_list(xs[0][1][1])
        if r is not None: return E.result(rt, r, ('badlist', xs[0][1][1]))
    raise Undecided('parse_meta_list of ' + str(xs)[:80])


LEAF = re.compile(r'^<(bool|(\w+::)*proc_macro2::Ident|(\w+::)*syn::(Path|Type|Visibility|Ident|Expr|LitStr|Block|Lifetime|WherePredicate)|std::string::String|(\w+::)*darling::util::PathList) as (\w+::)*darling::FromMeta>::(from_meta|from_expr|from_value|from_string)$')


@model(r'darling::FromMeta>?::(from_meta|from_expr|from_value)(::<.*>)?$')
def m_leaf(E, st, args, rt, c):
    m = LEAF.match(c.fname)
    if not m: return NotImplemented
    meth = c.fname.split('::')[-1]
    inner = E.T[rt]['v'][0]['f'][0][1]
    v = E.deep(st, args[0])
    out = []
    for gg, g, x in alts(E, st, v):
        out.append((g, leaf_value(E, st, x, meth, inner, rt)))
    return merge_vals(out)


def leaf_value(E, st, x, meth, inner, rt):
    n = tname(E, inner)
    vt = None
    form = None
    if meth == 'from_meta':
        if x[0] == 'a':
            form = E.T[x[1]]['v'][x[2]]['n']
            mt = E.meta_term(x)
        else:
            mt = E.term(x)
            outs = []
            for g, i in E.disc_alts(x[1], x[2]):
                outs.append((g, leaf_form(E, E.T[x[2]]['v'][i]['n'], mt, inner, rt)))
            return merge_vals(outs)
        return leaf_form(E, form, mt, inner, rt)
    t = E.deep_term(st, x)
    return E.result(rt, E.leafval(t, inner), ('bad', t))


def leaf_form(E, form, mt, inner, rt):
    n = tname(E, inner) if E.T[inner]['k'] == 'adt' else E.T[inner]['k']
    bad = E.err(rt, ('y', ('err', 'form', mt), E.T[rt]['v'][1]['f'][0][1]))
    if n == 'bool':
        if form == 'Path': return E.ok(rt, TRUE)
        if form == 'List': return bad
        return E.result(rt, E.leafval(mt + '.=', inner), ('bad', mt))
    if n == 'PathList':
        if form != 'List': return bad
        v = E.pathlist(mt, inner)
        return E.result(rt, v, ('bad', mt))
    if form != 'NameValue': return bad
    return E.result(rt, E.leafval(mt + '.=', inner), ('bad', mt))


@model(r'^std::thread::panicking$|^std::panicking::panic_count')
def m_panicking(E, st, args, rt, c): return FALSE


@model(r'darling::util::path_to_string$')
def m_p2s(E, st, args, rt, c):
    p = E.deep(st, args[0])
    out = []
    for gg, g, x in alts(E, st, p):
        if x[0] == 'a': return NotImplemented
        out.append((g, ('s', (('disp', ('pathstr', E.term(x))),))))
    return merge_vals(out)


M.insert(0, M.pop())


@model(r'syn::punctuated::Pair::<.*>::(into_value|value|value_mut)$')
def m_pair(E, st, args, rt, c):
    v = E.deep(st, args[0])
    return merge_vals([(g, x[3][0]) for gg, g, x in alts(E, st, v)])


# ------------------------------------------------------------------ the entry point of the proc-macro
@model(r'^syn::parse2?$', r'^syn::parse_macro_input::parse$')
def m_parse_input(E, st, args, rt, c):
    """parsing the derive's input gives the symbolic input"""
    v = E.deep(st, args[0])
    if v[:2] != ('y', 'INPUT') or getattr(E, 'parsed', None) is None: return NotImplemented
    for vi, x in enumerate(E.T[rt]['v']):
        if x['n'] == 'Ok' and E.field_ty(rt, vi, 0) == E.parsed[1]: return E.adt(rt, 'Ok', [E.parsed])
    return NotImplemented


@model(r'^proc_macro2::<impl std::convert::From<proc_macro2::TokenStream> for (\w+::)*proc_macro::TokenStream>::from$',
       r'^<(proc_macro2::TokenStream as std::convert::(From|Into)<(\w+::)*proc_macro::TokenStream>|(\w+::)*proc_macro::TokenStream as std::convert::(From|Into)<proc_macro2::TokenStream>)>::(from|into)$')
def m_ts_conv(E, st, args, rt, c): return args[0]


M.insert(0, M.pop())
M.insert(0, M.pop())
