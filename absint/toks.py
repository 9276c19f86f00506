"""Flattening and printing of guarded token streams."""
from . import mdd
from .mdd import T, F, AND


def flat(items, g=T, out=None):
    """guarded nested items -> guarded linear tokens [(guard, token)]; delimiters become ('o',d)/('c',d)"""
    if out is None: out = []
    for gi, i in items:
        x = AND(g, gi)
        if x == F: continue
        if i[0] == 'g':
            d = i[1]
            if d: out.append((x, ('o', d[0], i[3])))
            flat(i[2], x, out)
            if d: out.append((x, ('c', d[1], i[3])))
        else: out.append((x, i))
    return out


def word(p):
    if isinstance(p, str): return p
    if p[0] == 'frag': return '{%s}' % (p[1],)
    if p[0] == 'disp': return '{%s!}' % (p[1],)
    return '{?%s}' % (p,)


def show_tok(i):
    k = i[0]
    if k == 'i': return ''.join(word(p) for p in i[1])
    if k == 'p' or k == 'lit' or k in 'oc': return i[1]
    if k == 'lits': return '"%s"' % ''.join(word(p) for p in i[1])
    if k == 'h': return '<%s:%s>' % (i[2], i[1])
    if k == 'gen': return '<generics %s>' % i[1]
    return '??' + str(i)


def specialise(items, val):
    return [t for g, t in flat(items) if mdd.evaluate(g, val, lambda k, d: False if d == (False, True) else d[0])]


def show(items, val):
    return ' '.join(show_tok(t) for t in specialise(items, val))
