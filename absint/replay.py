"""An option assignment (a guard's witness) written out as the derive input it stands for."""
from . import mdd
from .mdd import T, F, AND
from .inputs import STRUCT, FIELD, Inputs

PREF = {'has': True, 'form': 'NameValue', 'd': 'Lit', 'shape': 'plain', 'data': 'struct'}


def cheapest(g):
    """satisfying assignment with as few present options as the diagram allows"""
    memo = {}

    def cost(n):
        if n == F: return None
        if n == T: return 0
        r = memo.get(n)
        if r is None:
            key, dom = mdd.atoms[mdd._var[n]]
            best = None
            for i, v in enumerate(dom):
                c = cost(mdd._kids[n][i])
                if c is None: continue
                c += weight(key, v)
                if best is None or c < best[0]: best = (c, i)
            memo[n] = r = best
        return r if r is None else r[0]
    if cost(g) is None: return None
    w = {}
    while g > 1:
        key, dom = mdd.atoms[mdd._var[g]]
        i = memo[g][1]
        w[key] = dom[i]
        g = mdd._kids[g][i]
    return w


def weight(key, v):
    k = key[0] if isinstance(key, tuple) else key
    if k in ('app', 'havoc'): return 50 if v else 0
    if k == 'o': return (6 if '@' in str(key[1]) else 4) if v else 0
    if k == 'has': return 0 if v else 3
    if k in ('bad', 'badlist', 'badparse'): return 20 if v else 0
    if k == 'g': return 2 if v else 0
    return 0 if v in (PREF.get(k), False, 'plain', 'Path') else 1


def value(w, t, kind):
    d = w.get(('d', t + '.='), 'Lit')
    leaf = t.split('.')[-1]
    if kind == 'pattern': return '"%s"' % w.get(('str', t), 'owned')
    if kind == 'bool': return 'true' if w.get(('val', t), True) else 'false'
    if kind == 'expr': return '"<expr %s>"' % t if d == 'Lit' else '<expr %s>' % t
    if kind == 'ident': return '"<name %s>"' % t
    return '"<%s %s>"' % (kind, t)


def options(w, base, voc):
    out = []
    for name, spec in voc:
        t = base + '.' + name
        if not w.get(('o', t)): continue
        forms = spec[1]
        f = w.get(('form', t)) or forms[0]
        if f == 'NameValue': out.append('%s = %s' % (name, value(w, t, spec[0])))
        elif f == 'List':
            inner = options(w, t, spec[2]) if len(spec) > 2 else ['<Path>']
            out.append('%s(%s)' % (name, ', '.join(inner)))
        else: out.append(name + ('' if spec[0] != 'bool' or w.get(('val', t), True) else ' = false'))
    for kind in ('unknown', 'lit', 'dup', 'name'):
        if w.get(('o', base + '!' + kind)): out.append({'unknown': 'no_such_option', 'lit': '"literal"', 'dup': '<all of these again>', 'name': '<some other name>'}[kind])
    return out


def attrs(w, base, names):
    out = ['#[<some name>(..)]'] if w.get(('o', base + '@any')) else []
    for n in names:
        if n == 'builder' or not w.get(('o', base + '@' + n)): continue
        real = n.rstrip('0123456789')
        f = w.get(('form', base + '@' + n))
        out.append('#[%s]' % {'doc': 'doc = "..."', 'Path': real, 'NameValue': real + ' = ..'}.get(f if f in ('Path', 'NameValue') else real if real == 'doc' else '', real + '(..)'))
    return out


def show(I, g):
    """-> (lines of the derive input, leftover conditions)"""
    w = cheapest(g)
    if w is None: return ['(no input)'], {}
    L = ['#[derive(Builder)]']
    o = options(w, 'S', STRUCT)
    if o: L.append('#[builder(%s)]' % ', '.join(o))
    L += attrs(w, 'S', Inputs.STRUCT_ATTRS)
    gs = [x for x, k in (("'a", 'lt'), ('T: ..', 'T'), ('U: ..', 'U'), ('const N: ..', 'const')) if w.get(('g', k))]
    kind = w.get(('data', 'kind'), 'struct'); shape = w.get(('data', 'fields'), 'named')
    head = 'vis %s Target%s%s' % (kind, '<%s>' % ', '.join(gs) if gs else '', ' where ..' if w.get(('g', 'where')) else '')
    if kind != 'struct': return L + [head + ' { .. }'], rest(w)
    if shape == 'tuple': return L + [head + '(..);'], rest(w)
    if shape == 'unit': return L + [head + ';'], rest(w)
    L.append(head + ' {')
    for f in I.fields:
        if w.get(('has', f)) is False: continue
        o = options(w, f, FIELD)
        a = attrs(w, f, Inputs.FIELD_ATTRS)
        ty = w.get(('shape', f), 'plain')
        if ty == 'ref': ty = {'Reference': '&Ty', 'Tuple': '(..)', 'Array': '[..; ..]', 'Slice': '[..]', 'Paren': '(Ty)'}.get(w.get(('typekind', f)), 'a type that is not a path')
        L.append('    %s%svis %s: %s,' % (''.join(x + ' ' for x in a), '#[builder(%s)] ' % ', '.join(o) if o else '', f, 'Ty' if ty == 'plain' else ty))
    return L + ['}'], rest(w)


def rest(w):
    out = {}
    for k, v in w.items():
        if isinstance(k, tuple) and k[0] in ('o', 'form', 'val', 'str', 'g', 'has', 'data', 'typekind', 'exprkind', 'litkind'): continue
        if v is False or v == 'plain': continue
        out[str(k)[:200]] = str(v)
    return out
