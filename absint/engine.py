"""Abstract interpretation of dumped MIR.

Abstract domain: every value is a set of alternatives, each under a guard (an MDD over the finite option atoms of the
input). States are merged at every join point of the control-flow graph, so one pass over the program covers every
combination of options at once. Input data that is not an option is a symbol (a term); operations on it that the models
do not describe become uninterpreted terms."""
import json, re
from . import mdd
from .mdd import T, F, AND, OR, NOT, DIFF

UNIT = ('a', None, 0, ())
BOT = ('B',)
UNINIT = ('U',)


class Undecided(Exception):
    pass


class St:
    __slots__ = ('g', 'mem')

    def __init__(self, g, mem):
        self.g = g; self.mem = mem

    def fork(self, g):
        return St(g, dict(self.mem))


def mkb(n): return ('b', n)


TRUE, FALSE = mkb(T), mkb(F)


def guarded(v):
    return v[1] if v[0] == 'u' else ((T, v),)


def merge_vals(alts):
    """join of guarded alternatives with pairwise disjoint guards"""
    if len(alts) == 1:
        return alts[0][1]
    v0 = alts[0][1]
    for _, v in alts:
        if v is not v0:
            break
    else:
        return v0
    flat = []
    for g, v in alts:
        if g == F: continue
        if v[0] == 'u':
            for g2, v2 in v[1]:
                x = AND(g, g2)
                if x != F: flat.append((x, v2))
        else:
            flat.append((g, v))
    if not flat: return BOT
    live = [(g, v) for g, v in flat if v[0] not in 'BU' or len(v) > 1]
    if not live: return flat[0][1]
    if len(live) == 1: return live[0][1]
    groups = {}
    for g, v in live:
        k = v[0]
        if k in ('b', 'k', 'l'): key = k
        elif k == 'a': key = ('a', v[1], v[2], len(v[3]))
        elif k == 'x': key = 'x'
        elif k == 'it': key = ('it', v[1], v[3])
        else: key = v
        groups.setdefault(key, []).append((g, v))
    out = []
    for key, vs in groups.items():
        g = mdd.ORS([x[0] for x in vs])
        out.append((g, merge_group(vs)))
    if len(out) == 1: return out[0][1]
    return ('u', tuple(out))


def merge_group(vs):
    v0 = vs[0][1]
    if len(vs) == 1 or all(v is v0 or v == v0 for _, v in vs[1:]): return v0
    k = v0[0]
    if k == 'b':
        return mkb(mdd.ORS([AND(g, v[1]) for g, v in vs]))
    if k == 'a':
        return ('a', v0[1], v0[2], tuple(merge_vals([(g, v[3][i]) for g, v in vs]) for i in range(len(v0[3]))))
    if k == 'x':
        return ('x', merge_vals([(g, v[1]) for g, v in vs]))
    if k == 'it':
        if all(v[2] == v0[2] for _, v in vs): return v0
        return ('it', v0[1], merge_seq([(g, v[2]) for g, v in vs]), v0[3])
    if k in 'kl':
        return (k, merge_seq([(g, v[1]) for g, v in vs]))
    raise AssertionError(k)


def merge_seq(vs):
    n = min(len(s) for _, s in vs)
    s0 = vs[0][1]
    p = 0
    while p < n:
        e = s0[p]
        if all(s[p] is e or s[p] == e for _, s in vs[1:]): p += 1
        else: break
    ln = len(s0)
    if all(len(s) == ln for _, s in vs):
        # same positions: join element by element when each position has one guard
        ok = True
        res = list(s0[:p])
        for i in range(p, ln):
            gs = {s[i][0] for _, s in vs}
            if len(gs) != 1 or s0[i][1][0] not in ('a', 'b', 'y', 'u', 'id', 'l', 'x'): ok = False; break
            res.append((s0[i][0], merge_vals([(g, s[i][1]) for g, s in vs])))
        if ok: return tuple(res)
    out = list(s0[:p])
    # common suffix keeps its guard
    q = 0
    while q < n - p:
        e = s0[len(s0) - 1 - q]
        if all(s[len(s) - 1 - q] is e or s[len(s) - 1 - q] == e for _, s in vs[1:]): q += 1
        else: break
    for g, s in vs:
        for gi, e in s[p:len(s) - q]:
            x = AND(g, gi)
            if x != F: out.append((x, e))
    out.extend(s0[len(s0) - q:] if q else ())
    return tuple(out)


def merge_states(sts):
    sts = [s for s in sts if s is not None and s.g != F]
    if not sts: return None
    if len(sts) == 1: return sts[0]
    g = mdd.ORS([s.g for s in sts])
    m0 = sts[0].mem
    keys = set(m0)
    for s in sts[1:]: keys |= s.mem.keys()
    mem = {}
    for k in keys:
        v0 = m0.get(k, UNINIT)
        for s in sts[1:]:
            if s.mem.get(k, UNINIT) is not v0: break
        else:
            mem[k] = v0; continue
        mem[k] = merge_vals([(s.g, s.mem.get(k, UNINIT)) for s in sts])
    return St(g, mem)


class Fn:
    """control-flow facts of one body: a weak topological order and the loop of every block"""

    def __init__(self, j):
        self.j = j
        self.blocks = j['blocks']
        n = len(self.blocks)
        self.succ = [self._succ(b['t']) for b in self.blocks]
        self.pos = {}
        self.loop_end = {}
        self.header_of = {}
        order = []
        self._wto(0, set(range(n)), order, None)

    @staticmethod
    def _succ(t):
        k = t['t']
        if k in ('goto', 'drop', 'assert'): return [t['b']]
        if k == 'sw': return list(dict.fromkeys([b for _, b in t['br']] + [t['else']]))
        if k == 'call': return [t['b']] if t['b'] is not None else []
        return []

    def _wto(self, root, allowed, order, _):
        # iterative Tarjan on `allowed`, components in topological order
        comps = self._sccs([root] if root in allowed else [], allowed)
        for c in comps:
            start = len(order)
            if len(c) == 1 and c[0] not in self.succ[c[0]]:
                self.pos[c[0]] = len(order); order.append(c[0])
                continue
            cs = set(c)
            # header: entry block reached first (c[-1] is the DFS root of the component)
            h = c[-1]
            self.pos[h] = len(order); order.append(h)
            inner = cs - {h}
            self._wto_multi([s for s in self.succ[h] if s in inner], inner, order)
            end = len(order) - 1
            for b in cs:
                if b not in self.loop_end: self.loop_end[b] = end
            self.header_of[h] = (self.pos[h], end)

    def _wto_multi(self, roots, allowed, order):
        comps = self._sccs(roots, allowed)
        for c in comps:
            if len(c) == 1 and c[0] not in [s for s in self.succ[c[0]] if s in allowed]:
                self.pos[c[0]] = len(order); order.append(c[0])
                continue
            cs = set(c)
            h = c[-1]
            self.pos[h] = len(order); order.append(h)
            inner = cs - {h}
            self._wto_multi([s for s in self.succ[h] if s in inner], inner, order)
            end = len(order) - 1
            for b in cs:
                if b not in self.loop_end: self.loop_end[b] = end
            self.header_of[h] = (self.pos[h], end)

    def _sccs(self, roots, allowed):
        idx, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]

        def go(v):
            idx[v] = low[v] = cnt[0]; cnt[0] += 1
            st.append(v); onst.add(v)
            for w in self.succ[v]:
                if w not in allowed: continue
                if w not in idx:
                    go(w); low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); onst.discard(w); c.append(w)
                    if w == v: break
                out.append(c)
        for r in roots:
            if r not in idx: go(r)
        out.reverse()
        return out


class Restart(Exception):
    """part of the program was not understood; the interpretation starts again with that part opaque"""

    def __init__(self, kind, key, why, where): Exception.__init__(self, '%s %s: %s at %s' % (kind, key, why, where)); self.kind = kind; self.key = key; self.why = why; self.where = where


class Engine:
    def __init__(self, dump, models, max_steps=150000):
        self.d = dump
        self.T = dump['types']
        self.fns = dump['fns']
        self.cfg = {}
        self.models = models           # list of (compiled regex, handler)
        self.mcache = {}
        self.frame = 0
        self.stack = []
        self.lines = []                # source line being executed in each frame of the stack
        self.off_models = set()        # models that failed on this program: their callees are executed or left opaque
        self.off_fns = set()           # functions left opaque because their execution failed
        self.origin = {}               # id(token item) -> (item, 'function:line') that emitted it
        self.detached = set()
        self.panics = []               # (guard, message, where, stack)
        self.unmodelled = {}
        self.havocs = {}
        self.inputs = {}               # term -> concrete abstract value
        self.allowed = {}              # term -> allowed variant names
        self.strdom = {}               # term -> finite domain of a symbolic string
        self.consts = []
        self.cconst = {}
        self.const_ids = {}
        self.steps = 0
        self.calls = 0
        self.max_steps = max_steps
        self.analysed = {}             # fn name -> number of block executions
        self.hooks = {}
        self.opaque_pred = set()
        self.assume = {}               # atom key -> forced truth value
        self.valid = True              # every option value parses
        self.inputs_disc = {}          # term -> [(guard, variant name)] of a symbolic enum
        self.inp = None
        self.undecided = []            # (function, reason)
        self._tot = {}
        self.closure_by_name = {}
        for i, f in enumerate(self.fns):
            if 'blocks' in f and '{closure#' in f['def'] and f['kind'] == 'item':
                self.closure_by_name.setdefault(f['def'], []).append(i)

    # ---- types
    def ts(self, t): return self.T[t]['s'] if t is not None else '?'

    def variant(self, ty, name):
        for i, v in enumerate(self.T[ty]['v']):
            if v['n'] == name: return i
        raise KeyError((self.ts(ty), name))

    def adt(self, ty, vname, fields=()):
        return ('a', ty, self.variant(ty, vname), tuple(fields))

    def some(self, ty, v): return ('a', ty, 1, (v,))
    def none(self, ty): return ('a', ty, 0, ())
    def ok(self, ty, v): return ('a', ty, 0, (v,))
    def err(self, ty, v): return ('a', ty, 1, (v,))

    def field_ty(self, ty, vi, i):
        t = self.T[ty]
        if t['k'] == 'adt': return t['v'][vi]['f'][i][1]
        if 'ts' in t: return t['ts'][i]
        return None

    def field_index(self, ty, name, vi=0):
        for i, f in enumerate(self.T[ty]['v'][vi]['f']):
            if f[0] == name: return i
        return None

    # ---- symbols
    BOXY = re.compile(r'^(std::boxed::Box|std::ptr::Unique|std::ptr::NonNull|std::mem::ManuallyDrop|std::mem::MaybeUninit|core::ptr::unique::Unique|core::ptr::unique)')

    def sym(self, term, ty):
        v = self.inputs.get(term) if isinstance(term, str) else None
        if v is not None: return v
        if ty is not None:
            t = self.T[ty]
            k = t['k']
            if k == 'bool': return mkb(mdd.lit(('t', term), True))
            if k == 'tuple' and not t['ts']: return UNIT
            if k == 'adt' and t['name'].endswith('string::String') or k == 'str' or (k == 'ref' and self.T[t['t']]['k'] == 'str'):
                return ('s', (('disp', term),))
            if k == 'adt' and t['name'].endswith('Punctuated') or k == 'adt' and t['name'] == 'std::vec::Vec' or k == 'slice':
                el = t['a'][0] if k == 'adt' else t['t']
                return ('l', ((T, ('splat', term, el)),))
            if k == 'adt' and t['name'] == 'proc_macro2::TokenStream':
                return ('k', ((T, ('h', term, ty, None)),))
        return ('y', term, ty)

    def child(self, term, name):
        if isinstance(term, str): return term + '.' + name
        return ('.', term, name)

    def disc_alts(self, term, ty):
        """[(guard, variant index)] of a symbolic enum"""
        vs = self.T[ty].get('v') or []
        if len(vs) == 1: return [(T, 0)]
        d = self.inputs_disc.get(term) if isinstance(term, str) else None
        if d is not None: return [(g, self.variant(ty, n)) for g, n in d]
        allowed = self.allowed.get(term)
        if allowed is None and isinstance(term, tuple) and term and term[0] == 'elem': allowed = None
        names = [v['n'] for v in vs]
        if allowed is not None:
            allowed = [a for a in allowed if a in names]
            if len(allowed) == 1: return [(T, names.index(allowed[0]))]
            return [(mdd.lit(('d', term), a, allowed), names.index(a)) for a in allowed]
        return [(mdd.lit(('d', term), n, names), i) for i, n in enumerate(names)]

    # ---- input atoms
    def atom(self, key):
        v = self.assume.get(key)
        if v is not None: return T if v else F
        return mdd.lit(key, True)

    def streq(self, part, s):
        """guard of: the symbolic string part equals the constant s"""
        if isinstance(part, str): return T if part == s else F
        d = self.strdom.get(part[1]) if isinstance(part[1], str) else None
        if d is not None:
            key, dom = d
            return mdd.lit(key, s, dom) if s in dom else F
        if s == 'builder' and isinstance(part[1], str) and part[1].endswith('@any:name'): return F      # the attribute of arbitrary name is another one
        k = ('streq', part, s)
        v = self.assume.get(k)
        if v is not None: return T if v else F
        return mdd.lit(k, True)

    def result(self, rt, ok, bad):
        if self.valid or rt is None: return self.ok(rt, ok)
        ety = self.T[rt]['v'][1]['f'][0][1]
        b = self.atom(bad)
        if b == F: return self.ok(rt, ok)
        return merge_vals([(NOT(b), self.ok(rt, ok)), (b, self.err(rt, ('y', ('err',) + bad, ety)))])

    def meta_list(self, term): return self.inp.list_of(term) if self.inp is not None else None

    def meta_term(self, x):
        """name of the option a structured Meta item stands for"""
        v = x[3][0]
        if self.T[x[1]]['v'][x[2]]['n'] != 'Path': v = v[3][self.field_index(v[1], 'path')]
        seg = v[3][1][1][0][1]
        sp = seg[3][0][2]
        return sp[1]

    def leafval(self, t, ty):
        base = t[:-2] if isinstance(t, str) and t.endswith('.=') else t
        if self.T[ty]['k'] == 'bool': return mkb(mdd.lit(('val', base), True))
        return self.sym(base, ty)

    def pathlist(self, mt, ty):
        el = self.T[self.T[ty]['v'][0]['f'][0][1]]['a'][0]
        return ('a', ty, 0, (('l', tuple((g, ('y', '%s.%d' % (mt, i), el)) for i, g in enumerate(self.inp.derives()))),))

    def totokens(self, ty):
        r = self._tot.get(ty, -1)
        if r == -1:
            r = None
            for i, f in enumerate(self.fns):
                if 'blocks' in f and f['local'] and f['name'].startswith('<') and f['name'].endswith('quote::ToTokens>::to_tokens'):
                    t0 = self.T[f['locals'][1]]
                    if t0['k'] == 'ref' and t0['t'] == ty: r = i; break
            self._tot[ty] = r
        return r

    # ---- memory
    def const_ref(self, v):
        k = self.const_ids.get(v)
        if k is None:
            k = len(self.consts)
            self.const_ids[v] = k
            self.consts.append(v)
        return ('r', ('K', k), ())

    def cell(self, st, c):
        v = st.mem.get(c)
        if v is not None: return v
        if c[0] == 'K': return self.consts[c[1]]
        if c[0] == 'S': return self.sym(c[1], c[2])
        return UNINIT

    def new_cell(self, st, v):
        self.frame += 1
        c = ('H', self.frame)
        st.mem[c] = v
        return ('r', c, ())

    def project(self, v, e, g=T):
        k = v[0]
        if k == 'u':
            alts = []
            for gi, x in v[1]:
                if AND(g, gi) == F: continue
                y = self.project(x, e, g)
                if y[0] != 'B': alts.append((gi, y))
            return merge_vals(alts) if alts else BOT
        if k in ('B', 'U'): return v
        if e[0] == 'f':
            _, i, ty = e
            if k == 'a':
                return v[3][i] if i < len(v[3]) else BOT
            if k == 'y':
                ty0 = v[2]
                t = self.T[ty0] if ty0 is not None else {'k': '?', 's': '?'}
                if self.BOXY.match(t['s']): return ('y', v[1], ty)
                vi = v[3] if len(v) > 3 else 0
                name = str(i)
                if t['k'] == 'adt':
                    if vi < len(t['v']) and i < len(t['v'][vi]['f']): name, fty = t['v'][vi]['f'][i]; ty = fty
                    if len(v) > 3 and len(t['v']) > 1: name = '#' + t['v'][vi]['n'] + ('' if name == '0' and len(t['v'][vi]['f']) == 1 else '.' + name)
                    if len(v) > 3 and len(t['v']) > 1:
                        term = v[1] + name if isinstance(v[1], str) else ('.', v[1], name)
                        return self.sym(term, ty)
                return self.sym(self.child(v[1], name), ty)
            if k == 'x': return v
            if k == 'l' or k == 'k' or k == 's' or k == 'r': return v
            return ('y', ('proj', i, self.term(v)), ty)
        if e[0] == 'd':
            if k == 'a': return v if v[2] == e[1] else BOT
            if k == 'y': return ('y', v[1], v[2], e[1])
            h = self.hooks.get('downcast')
            if h:
                r = h(self, v, e[1])
                if r is not None: return r
            return ('y', ('as', e[1], self.term(v)), None, e[1])
        if e[0] == 'box':
            if k == 'x': return v[1]
            return v
        if e[0] == 'e':
            if k == 'l':
                return v[1][e[1]][1]
            if k == 'y': return self.sym(('idx', v[1], e[1]), self.T[v[2]].get('t') if v[2] is not None else None)
            return ('y', ('idx', self.term(v), e[1]), None)
        if e[0] == '?': return ('y', ('part', e[1:], self.term(v)), None)
        raise AssertionError(e)

    def load(self, st, cell, proj):
        v = self.cell(st, cell)
        for e in proj: v = self.project(v, e, st.g)
        if v[0] == 'u': v = self.prune(v, st.g)
        return v

    def prune(self, v, g):
        if g == T: return v
        alts = [(gi, x) for gi, x in v[1] if AND(g, gi) != F]
        if len(alts) == len(v[1]): return v
        if not alts: return BOT
        if len(alts) == 1: return alts[0][1]
        return ('u', tuple(alts))

    def setin(self, v, proj, new):
        if not proj: return new
        k = v[0]
        e = proj[0]
        if k == 'u':
            return merge_vals([(g, self.setin(x, proj, new)) for g, x in v[1]])
        if k == 'B': return v
        if e[0] == 'f':
            if k == 'y':
                vi = v[3] if len(v) > 3 else 0
                t = self.T[v[2]]
                n = len(t['v'][vi]['f']) if t['k'] == 'adt' else len(t.get('ts', ()))
                v = ('a', v[2], vi, tuple(self.project(v, ('f', i, None)) for i in range(n))); k = 'a'
            if k == 'a':
                fs = list(v[3])
                while len(fs) <= e[1]: fs.append(UNINIT)
                fs[e[1]] = self.setin(fs[e[1]], proj[1:], new)
                return ('a', v[1], v[2], tuple(fs))
            if k == 'U':
                fs = [UNINIT] * (e[1] + 1)
                fs[e[1]] = self.setin(UNINIT, proj[1:], new)
                return ('a', None, 0, tuple(fs))
            if k == 'x': return self.setin(v, proj[1:], new)
            if k in ('l', 'k', 's', 'id', 'p'): return self.setin(v, proj[1:], new)
        if e[0] == 'd':
            if k == 'a': return self.setin(v, proj[1:], new) if v[2] == e[1] else v
            if k == 'y': return self.setin(('y', v[1], v[2], e[1]), proj[1:], new)
            if k == 'U': return self.setin(('a', None, e[1], ()), proj[1:], new)
        if e[0] == 'box':
            if k == 'x': return ('x', self.setin(v[1], proj[1:], new))
            return self.setin(v, proj[1:], new)
        if e[0] == 'e' and k == 'l':
            items = list(v[1])
            items[e[1]] = (items[e[1]][0], self.setin(items[e[1]][1], proj[1:], new))
            return ('l', tuple(items))
        return ('y', ('havoc', 'store', self.term(v)), None)

    def detached_cell(self, st, v):
        """a copy of an element of a list whose elements are unknown: it can be looked at, but a change of it would be lost"""
        r = self.new_cell(st, v)
        self.detached.add(r[1])
        return r

    def store(self, st, cell, proj, new):
        if cell in self.detached: raise Undecided('change of an element of a list whose elements are unknown')
        if not proj:
            st.mem[cell] = new
        else:
            st.mem[cell] = self.setin(self.cell(st, cell), proj, new)

    def deref(self, st, v, where):
        """value of pointer type -> [(guard, cell, proj)]"""
        k = v[0]
        if k == 'r': return [(T, v[1], v[2])]
        if k == 'u':
            out = []
            for g, x in v[1]:
                if AND(g, st.g) == F: continue
                for g2, c, p in self.deref(st, x, where): out.append((AND(g, g2), c, p))
            return out
        if k == 'y':
            t = self.T[v[2]] if v[2] is not None else None
            pt = None
            if t is not None:
                if t['k'] in ('ref', 'ptr'): pt = t['t']
                elif t['k'] == 'adt' and t['a']: pt = t['a'][0]
            return [(T, ('S', v[1], pt), ())]
        if k == 'B': return []
        return None   # by-value pointee

    def addr(self, st, fid, place):
        """[(guard, cell, proj)]"""
        cur = [(T, (fid, place[0]), ())]
        for e in place[1:]:
            if e == '*':
                nxt = []
                for g, c, p in cur:
                    v = self.load(st, c, p)
                    if v[0] == 'u': v = self.prune(v, AND(st.g, g))
                    d = self.deref(st, v, place)
                    if d is None:
                        nxt.append((g, c, p + (('box',),) if v[0] == 'x' else p))
                    else:
                        for g2, c2, p2 in d:
                            x = AND(g, g2)
                            if x != F: nxt.append((x, c2, p2))
                cur = nxt
            elif e[0] == 'f': cur = [(g, c, p + (('f', e[1], e[2]),)) for g, c, p in cur]
            elif e[0] == 'd': cur = [(g, c, p + (('d', e[1]),)) for g, c, p in cur]
            elif e[0] == 'i':
                iv = self.load(st, (fid, e[1]), ())
                nxt = []
                for gi, x in guarded(iv):
                    for g, c, p in cur:
                        g2 = AND(g, gi)
                        if AND(g2, st.g) == F: continue
                        if x[0] == 'i': nxt.extend(self.element(st, g2, c, p, x[1]))
                        elif x[0] not in 'BU': nxt.append((g2, c, p + (('?', 'idx', self.term(x)),)))
                cur = nxt
            elif e[0] == 'c':
                cur = [x for g, c, p in cur for x in self.element(st, g, c, p, e[1] - 1 if e[2] else e[1], e[2])]
            else:
                cur = [(g, c, p + (('?',) + tuple(e),)) for g, c, p in cur]
        return cur

    def positions(self, seq, n, from_end=False, live=T):
        """the elements that can be the n-th one of a sequence whose elements are present under guards:
        ([(guard, index into seq)], guard of there being no such element), or None if the length of a part is unknown"""
        order = range(len(seq) - 1, -1, -1) if from_end else range(len(seq))
        before = {0: live}
        out = []
        for i in order:
            g, x = seq[i]
            if g == F or AND(g, live) == F: continue
            if x[0] == 'splat':
                if mdd.ORS([before.get(k, F) for k in range(n + 1)]) != F and AND(g, mdd.ORS([before.get(k, F) for k in range(n + 1)])) != F: return None
                continue
            h = AND(before.get(n, F), g)
            if h != F: out.append((h, i))
            nxt = {}
            for k in range(n + 1):
                b = before.get(k, F)
                if b == F: continue
                y, z = AND(b, g), DIFF(b, g)
                if z != F: nxt[k] = OR(nxt.get(k, F), z)
                if y != F and k < n: nxt[k + 1] = OR(nxt.get(k + 1, F), y)
            before = nxt
        return out, mdd.ORS(before.values())

    def element(self, st, g, c, p, n, from_end=False):
        """addresses of the n-th element of the list at an address"""
        v = self.load(st, c, p)
        alts = []
        for gv, x in guarded(v):
            gg = AND(g, gv)
            if AND(gg, st.g) == F: continue
            if x[0] != 'l':
                if x[0] in 'BU': continue
                if from_end: alts.append((gg, c, p + (('?', 'idx', ('end', n)),)))
                else: alts.append((gg, c, p + (('e', n),)))
                continue
            r = self.positions(x[1], n, from_end, AND(gg, st.g))
            if r is None:
                if any(e[0] == 'splat' for _, e in x[1]): alts.append((gg, c, p + (('?', 'idx', ('end' if from_end else 'at', n)),)))
                continue
            alts.extend((AND(gg, h), c, p + (('e', i),)) for h, i in r[0])
        if len(alts) == 1: return [(g, alts[0][1], alts[0][2])]
        return alts

    def read(self, st, fid, place):
        if len(place) == 1:
            v = st.mem.get((fid, place[0]), UNINIT)
            return self.prune(v, st.g) if v[0] == 'u' else v
        a = self.addr(st, fid, place)
        if len(a) == 1: return self.load(st, a[0][1], a[0][2])
        return merge_vals([(g, self.load(st, c, p)) for g, c, p in a]) if a else BOT

    def write(self, st, fid, place, v):
        if len(place) == 1:
            st.mem[(fid, place[0])] = v
            return
        self.write_addrs(st, self.addr(st, fid, place), v)

    def write_addrs(self, st, a, v):
        if len(a) == 1 and (a[0][0] == T or DIFF(st.g, a[0][0]) == F):
            self.store(st, a[0][1], a[0][2], v)
        else:
            for g, c, p in a:
                if c in self.detached: raise Undecided('change of an element of a list whose elements are unknown')
                old = self.cell(st, c)
                new = self.setin(old, p, v)
                st.mem[c] = merge_vals([(g, new), (NOT(g), old)])

    def rload(self, st, ref):
        """load through a reference value"""
        if ref[0] in ('r', 'y', 'u'):
            d = self.deref(st, ref, None)
            if d is None: return ref
            if len(d) == 1: return self.load(st, d[0][1], d[0][2])
            return merge_vals([(g, self.load(st, c, p)) for g, c, p in d]) if d else BOT
        if ref[0] == 'x': return ref[1]
        return ref

    def rstore(self, st, ref, v):
        d = self.deref(st, ref, None)
        if d is None: return
        self.write_addrs(st, d, v)

    def deep(self, st, v, n=8):
        """load through any number of references"""
        while n and (v[0] == 'r' or (v[0] == 'u' and any(x[0] == 'r' for _, x in v[1]))
                     or (v[0] == 'y' and v[2] is not None and self.T[v[2]]['k'] == 'ref')):
            if v[0] == 'u':
                v = merge_vals([(g, self.rload(st, x) if x[0] in ('r', 'y') else x) for g, x in v[1]])
            else:
                v = self.rload(st, v)
            n -= 1
        return v

    # ---- terms
    def term(self, v):
        k = v[0]
        if k == 'y' and len(v) == 3: return v[1]
        if k == 's' and len(v[1]) == 1 and not isinstance(v[1][0], str): return v[1][0][1] if v[1][0][0] == 'disp' else v[1][0]
        if k == 's' and all(isinstance(p, str) for p in v[1]): return repr(''.join(v[1]))
        if k == 'l' and len(v[1]) == 1 and v[1][0][1][0] == 'splat': return v[1][0][1][1]
        if k == 'k' and len(v[1]) == 1 and v[1][0][0] == T and v[1][0][1][0] == 'h': return v[1][0][1][1]
        if k == 'i': return v[1]
        return v

    def deep_term(self, st, v):
        v = self.deep(st, v)
        if v[0] == 'a': return ('a', self.ts(v[1])[:40], v[2], tuple(self.deep_term(st, x) for x in v[3]))
        return self.term(v)

    # ---- constants and operands
    def const(self, c):
        k = c['k']
        if k == 'str': return ('s', (c['v'],) if c['v'] else ())
        if k == 'int':
            t = self.T[c['t']]['k']
            if t == 'bool': return mkb(T if int(c['v']) else F)
            return ('i', int(c['v']))
        if k == 'zst':
            if 'fn' in c: return ('f', c['fn']['i'], c['fn']['name'])
            t = self.T[c['t']]
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'adt' and len(t['v']) == 1:
                return ('a', c['t'], 0, tuple(self.const({'k': 'zst', 't': f[1]}) for f in t['v'][0]['f']))
            if t['k'] == 'closure': return ('a', c['t'], 0, ())
            return ('a', c['t'], 0, ())
        if k == 'ref':
            v = self.const(c['v'])
            if v[0] == 's': return v
            return self.const_ref(v)
        if k == 'seq': return ('l', tuple((T, self.const(x)) for x in c['v']))
        if k == 'adt': return ('a', c['t'], c['vi'], tuple(self.const(x) for x in c['v']))
        if k == 'tup': return ('a', c['t'], 0, tuple(self.const(x) for x in c['v']))
        if k == 'fnptr': return ('f', c['i'], self.fns[c['i']]['def'])
        if k == 'static': return ('y', ('static', c['n']), c['t'])
        return ('y', ('const', json.dumps(c, sort_keys=True)[:80]), c.get('t'))

    def operand(self, st, fid, o):
        if o['o'] == 'c':
            cv = self.cconst.get(id(o))
            if cv is None: cv = self.cconst[id(o)] = self.const(o['c'])
            return cv
        if o['o'] in ('cp', 'mv'): return self.read(st, fid, o['p'])
        if 'RuntimeChecks' in str(o): return FALSE
        raise Undecided('operand ' + str(o)[:80])

    # ---- rvalues
    def as_bool(self, v):
        """value -> guard node"""
        if v[0] == 'b': return v[1]
        if v[0] == 'u': return mdd.ORS([AND(g, self.as_bool(x)) for g, x in v[1]])
        if v[0] == 'i': return T if v[1] else F
        if v[0] in 'BU': return F
        return mdd.lit(('t', self.term(v)), True)

    def discriminant(self, st, v, ty):
        k = v[0]
        if k == 'u':
            return merge_vals([(g, self.discriminant(st, x, ty)) for g, x in v[1]])
        if k == 'a':
            if v[1] is None: return ('i', v[2])
            return ('i', int(self.T[v[1]]['v'][v[2]]['d']))
        if k == 'y':
            t = v[2] if v[2] is not None else ty
            if t is None or self.T[t]['k'] != 'adt': return ('y', ('discr', v[1]), None)
            alts = [(g, ('i', int(self.T[t]['v'][i]['d']))) for g, i in self.disc_alts(v[1], t)]
            return merge_vals([(g, x) for g, x in alts if AND(g, st.g) != F] or [alts[0]])
        if k in 'BU': return v
        h = self.hooks.get('discriminant')
        if h:
            r = h(self, v, ty)
            if r is not None: return r
        if ty is not None and self.T[ty]['k'] == 'adt':
            alts = [(g, ('i', int(self.T[ty]['v'][i]['d']))) for g, i in self.disc_alts(('val', self.term(v)), ty)]
            return merge_vals(alts)
        return ('y', ('discr', self.term(v)), None)

    def binop(self, st, op, x, y):
        if x[0] == 'u' or y[0] == 'u':
            out = []
            for g, a in guarded(x):
                for g2, b in guarded(y):
                    gg = AND(g, g2)
                    if AND(gg, st.g) != F: out.append((gg, self.binop(st, op, a, b)))
            return merge_vals(out) if out else BOT
        if x[0] in 'BU' or y[0] in 'BU': return BOT
        if op.endswith('Unchecked'): op = op[:-9]
        if x[0] == 'b' and y[0] == 'b':
            a, b = x[1], y[1]
            if op == 'Eq': return mkb(mdd.IFF(a, b))
            if op == 'Ne': return mkb(NOT(mdd.IFF(a, b)))
            if op == 'BitAnd': return mkb(AND(a, b))
            if op == 'BitOr': return mkb(OR(a, b))
            if op == 'BitXor': return mkb(NOT(mdd.IFF(a, b)))
            if op == 'Lt': return mkb(AND(NOT(a), b))
            if op == 'Gt': return mkb(AND(a, NOT(b)))
            if op == 'Le': return mkb(OR(NOT(a), b))
            if op == 'Ge': return mkb(OR(a, NOT(b)))
        if x[0] == 'i' and y[0] == 'i':
            a, b = x[1], y[1]
            r = {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}.get(op)
            if r is not None: return mkb(T if r else F)
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b,
                 'Offset': a + b}.get(op)
            if r is not None: return ('i', r)
            if op == 'Div' and b: return ('i', a // b)
            if op == 'Rem' and b: return ('i', a % b)
            if op == 'Shl': return ('i', a << b)
            if op == 'Shr': return ('i', a >> b)
            if op == 'Cmp': return ('i', -1 if a < b else int(a > b))
        if 'r' in (x[0], y[0]) and 'i' in (x[0], y[0]):      # addresses: aligned, not null
            if op == 'BitAnd': return ('i', 0)
            if op in ('Eq', 'Ne'): return mkb(F if op == 'Eq' else T)
        tx, tyy = self.term(x), self.term(y)
        if op in ('Eq', 'Ne'):
            if x[0] == 'r' and y[0] == 'r': n = T if x == y else F
            else: n = T if tx == tyy else mdd.lit(('eq', tx, tyy), True)
            return mkb(n if op == 'Eq' else NOT(n))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Gt', 'Le'):
                n = mdd.lit(('lt', tyy, tx), True)
                return mkb(n if op == 'Gt' else NOT(n))
            n = mdd.lit(('lt', tx, tyy), True)
            return mkb(n if op == 'Lt' else NOT(n))
        return ('y', ('op', op, tx, tyy), None)

    def overflow(self, st, fn, r, x, y):
        """where the checked operation on known numbers leaves the range of its type; numbers that are not known count as in range"""
        ty = None
        for o in (r['x'], r['y']):
            c = o.get('c') if isinstance(o, dict) else None
            if isinstance(c, dict) and 't' in c: ty = c['t']; break
            p = o.get('p') if isinstance(o, dict) else None
            if isinstance(p, list) and len(p) == 1: ty = fn.j['locals'][p[0]]; break
        if ty is None: return F
        t = self.T[ty]; m = re.match(r'^([iu])(8|16|32|64|128|size)$', str(t.get('s') or t.get('name') or ''))
        if not m: return F
        n = 64 if m.group(2) == 'size' else int(m.group(2))
        lo, hi = (0, 2 ** n - 1) if m.group(1) == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)
        out = F
        for g, a in guarded(x):
            for g2, b in guarded(y):
                if a[0] != 'i' or b[0] != 'i': continue
                v = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}.get(r['k'])
                if v is not None and not lo <= v <= hi: out = OR(out, AND(g, g2))
        return out

    def unit_or(self, t): return UNIT

    def rvalue(self, st, fid, fn, r):
        k = r['r']
        if k == 'use': return self.operand(st, fid, r['o'])
        if k == 'ref':
            p = r['p']
            a = self.addr(st, fid, p)
            if not a: return BOT
            # a pointer stored by value (str, slices of constants) is its own address
            if len(p) > 1 and p[-1] == '*':
                base = self.read(st, fid, p[:-1])
                if base[0] in ('s',): return base
            if len(a) == 1: return ('r', a[0][1], a[0][2])
            return merge_vals([(g, ('r', c, q)) for g, c, q in a])
        if k == 'discr':
            return self.discriminant(st, self.read(st, fid, r['p']), r['t'])
        if k == 'len':
            return self.length(st, self.read(st, fid, r['p']))
        if k == 'agg':
            vs = tuple(self.operand(st, fid, o) for o in r['v'])
            kk = r['k']
            if kk == 'array': return ('l', tuple((T, v) for v in vs))
            if kk == 'tuple': return ('a', None, 0, vs) if vs else UNIT
            if kk in ('adt', 'closure'): return ('a', r['t'], r['vi'], vs)
            if kk == 'rawptr': return vs[0]
            raise Undecided('aggregate ' + kk)
        if k == 'cast':
            v = self.operand(st, fid, r['o'])
            if r['fn'] is not None and r['k'].startswith('PointerCoercion'):
                if v[0] == 'f': return ('f', r['fn']['i'] if r['fn']['i'] is not None else v[1], v[2])
                return v
            if 'IntToInt' in r['k'] and v[0] == 'b': return merge_vals([(v[1], ('i', 1)), (NOT(v[1]), ('i', 0))])
            if v[0] == 'y' and len(v) == 3 and 'Transmute' in r['k']:
                return ('y', v[1], r['t'])
            if v[0] == 'y' and 'IntToInt' in r['k']: return ('y', v[1], r['t'])
            return v
        if k == 'bin':
            x, y = self.operand(st, fid, r['x']), self.operand(st, fid, r['y'])
            if r['c']: return ('a', None, 0, (self.binop(st, r['k'], x, y), mkb(self.overflow(st, fn, r, x, y))))
            return self.binop(st, r['k'], x, y)
        if k == 'un':
            x = self.operand(st, fid, r['x'])
            if r['k'] == 'Not':
                if x[0] in ('b', 'u', 'y'): return mkb(NOT(self.as_bool(x)))
                if x[0] == 'i': return ('y', ('not', x[1]), None)
            if r['k'] == 'PtrMetadata': return self.length(st, self.rload(st, x))
            if r['k'] == 'Neg' and x[0] == 'i': return ('i', -x[1])
            return ('y', ('un', r['k'], self.term(x)), None)
        if k == 'rep':
            v = self.operand(st, fid, r['o'])
            return ('l', tuple((T, v) for _ in range(r['n'] or 0)))
        raise Undecided('rvalue ' + str(r)[:100])

    def length(self, st, v):
        v = self.deep(st, v)
        if v[0] == 'u': return merge_vals([(g, self.length(st, x)) for g, x in v[1]])
        if v[0] in 'kl' and v[0] != 'k':
            if any(e[0] == 'splat' for _, e in v[1]): return ('y', ('len', v), None)
            alts = [(T, 0)]
            for g, _ in v[1]:
                nxt = {}
                for ga, n in alts:
                    nxt[n + 1] = OR(nxt.get(n + 1, F), AND(ga, g))
                    nxt[n] = OR(nxt.get(n, F), AND(ga, NOT(g)))
                alts = [(g2, n) for n, g2 in nxt.items() if AND(g2, st.g) != F]
            if len(alts) == 1: return ('i', alts[0][1])
            return ('u', tuple((g, ('i', n)) for g, n in alts)) if alts else BOT
        if v[0] == 's' and all(isinstance(p, str) for p in v[1]): return ('i', sum(len(p.encode()) for p in v[1]))
        return ('y', ('len', self.term(v)), None)

    # ---- calls
    def model(self, name, fname):
        key = (name, fname)
        h = self.mcache.get(key, 0)
        if h == 0:
            h = None
            for rx, f in self.models:
                if rx.search(fname) or rx.search(name):
                    h = f; break
            self.mcache[key] = h
        return h

    def panic(self, g, msg, where):
        if g != F: self.panics.append((g, msg, where, tuple(self.fns[i]['def'] for i in self.stack)))

    def here(self):
        """the innermost function of the repository being executed, with the line"""
        for i, l in zip(reversed(self.stack), reversed(self.lines)):
            f = self.fns[i]
            if f['local']: return '%s (%s)' % (f['def'], l)
        return '?'

    def emitted(self, items):
        for g, i in items:
            if id(i) not in self.origin: self.origin[id(i)] = (i, self.here())

    def call(self, st, inst, name, args, rt, where, closure_call=False):
        """-> (state, value) or (None, None) when it never returns"""
        self.calls += 1
        f = self.fns[inst] if inst is not None else None
        fname = f['name'] if f else name
        dname = f['def'] if f else name
        if f is not None and 'blocks' not in f and rt is not None and self.T[rt]['k'] == 'adt':
            # a tuple struct or variant constructor used as a function
            last = fname.split('::')[-1]
            for i, v in enumerate(self.T[rt]['v']):
                if v['n'] == last and len(v['f']) == len(args) and fname.split('::<')[0].startswith(self.T[rt]['name'].split('<')[0]): return st, ('a', rt, i, tuple(args))
        h = self.model(dname, fname)
        if h is not None and (dname, fname) not in self.off_models:
            try: r = h(self, st, args, rt, Call(name, fname, dname, f, where, inst))
            except (Restart, RecursionError, MemoryError): raise
            except Exception as e: raise Restart('model', (dname, fname), '%s: %s' % (type(e).__name__, str(e)[:120]), self.here())
            if r is NotImplemented: pass
            elif r is None: return None, None
            elif isinstance(r, tuple) and len(r) == 2 and (r[0] is None or isinstance(r[0], St)): return r
            else: return st, r
        if f is not None and 'blocks' in f and '{closure#' in dname and f['kind'] == 'item' and re.search(r'::call(_once|_mut)?$', name) and len(args) == 2:
            tup = args[1]
            n = f['argc'] - 1
            args = [args[0]] + [self.project(tup, ('f', i, None)) for i in range(n)]
            # FnOnce on a closure body that expects a reference to itself
        if f is not None and 'blocks' in f and len(args) != f['argc'] and args and len(args) == 2 and f['argc'] >= 1:
            tup = args[1]
            args = [args[0]] + [self.project(tup, ('f', i, None)) for i in range(f['argc'] - 1)]
        if f is None or 'blocks' not in f: return self.unknown(st, fname, args, rt, where)
        if f['def'] in self.off_fns or self.stack.count(inst) >= 8 or len(self.stack) > 220: return self.left_out(st, f, args, rt, where)
        return self.run(st, inst, args)

    def unknown(self, st, fname, args, rt, where):
        self.unmodelled[fname] = self.unmodelled.get(fname, 0) + 1
        terms = tuple(self.deep_term(st, a) for a in args)
        # anything reachable through a mutable reference may have changed; the dump does not track mutability of
        # the argument value, so the declared parameter types decide (see call_terminator)
        return st, self.sym(('app', fname, terms), rt)

    def left_out(self, st, f, args, rt, where):
        """a call of a function that is not followed"""
        st, r = self.unknown(st, f['name'], args, rt if rt is not None else f['locals'][0], where)
        for a, ty in zip(args, f['locals'][1:f['argc'] + 1]): self.clobber_all(st, f['name'], a, ty)
        return st, r

    def clobber_all(self, st, fname, a, ty, n=6):
        """everything that can be changed through the argument: itself if it is a mutable reference, and the mutable references inside it (captured ones too)"""
        if ty is None or not n: return
        t = self.T[ty]
        if t['k'] == 'ref':
            if not t['m']: return
            inner = self.rload(st, a) if a[0] in ('r', 'u', 'y') else a
            if self.T[t['t']]['k'] == 'closure': self.clobber_all(st, fname, inner, t['t'], n - 1)
            else: self.clobber(st, fname, a, ty)
            return
        if a[0] == 'u':
            for g, x in a[1]: self.clobber_all(st, fname, x, ty, n)
        elif a[0] == 'a':
            vi = a[2] if t['k'] == 'adt' else 0
            for i, x in enumerate(a[3]):
                try: ft = self.field_ty(ty, vi, i)
                except (IndexError, KeyError, TypeError): ft = None
                self.clobber_all(st, fname, x, ft, n - 1)

    def clobber(self, st, fname, a, ty):
        """what an unmodelled function may have done through a mutable reference"""
        if ty is not None and self.T[ty]['k'] == 'ref' and self.T[ty]['m'] and a[0] in ('r', 'u', 'y'):
            self.havocs[fname] = self.havocs.get(fname, 0) + 1
            self.rstore(st, a, ('y', ('havoc', fname, self.steps), self.T[ty]['t']))

    def call_value(self, st, f, args, rt, where):
        """call a closure or function value with plain (untupled) args"""
        if f[0] == 'u':
            outs = []
            for g, x in f[1]:
                gg = AND(g, st.g)
                if gg == F: continue
                s2, v = self.call_value(st.fork(gg), x, args, rt, where)
                if s2 is not None: outs.append((s2, v))
            if not outs: return None, None
            return merge_states([s for s, _ in outs]), merge_vals([(s.g, v) for s, v in outs])
        if f[0] == 'r':
            inner = self.rload(st, f)
            if inner[0] in ('f', 'r'): return self.call_value(st, inner, args, rt, where)
            target = inner; selfarg = f
        else:
            target = f; selfarg = f
        if target[0] == 'f':
            if target[1] is None: return self.unknown(st, target[2], args, rt, where)
            return self.call(st, target[1], target[2], list(args), rt, where)
        if target[0] == 'a' and target[1] is not None and self.T[target[1]]['k'] == 'closure':
            cname = self.T[target[1]]['name']
            cands = self.closure_by_name.get(cname, [])
            best = None
            for i in cands:
                t0 = self.fns[i]['locals'][1] if self.fns[i]['argc'] >= 1 else None
                tt = self.T[t0] if t0 is not None else None
                by_ref = tt is not None and tt['k'] == 'ref'
                base = tt['t'] if by_ref else t0
                if base == target[1] or (self.T[base]['k'] == 'closure' and self.T[base]['name'] == cname and (len(cands) == 1 or self.T[base]['ts'] == self.T[target[1]]['ts'])):
                    best = (i, by_ref); break
            if best is None: raise Undecided('closure body ' + cname)
            i, by_ref = best
            if by_ref and selfarg[0] != 'r': selfarg = self.new_cell(st, target)
            if not by_ref and selfarg[0] == 'r': selfarg = target
            if self.fns[i]['def'] in self.off_fns: return self.left_out(st, self.fns[i], [selfarg] + list(args), rt, where)
            return self.run(st, i, [selfarg] + list(args))
        return self.unknown(st, 'call of ' + str(self.term(target))[:60], args, rt, where)

    def call_guarded(self, st, g, thunk):
        """run thunk(state) under guard g and join with the untouched rest; returns (state, value or None)"""
        gg = AND(st.g, g)
        if gg == F: return st, None
        rest = AND(st.g, NOT(g))
        if rest == F: return thunk(st)
        s2, v = thunk(st.fork(gg))
        s3 = merge_states([x for x in (s2, St(rest, st.mem)) if x is not None])
        return s3, v

    # ---- functions
    def fn(self, i):
        f = self.cfg.get(i)
        if f is None:
            f = self.cfg[i] = Fn(self.fns[i])
        return f

    def run(self, st, inst, args):
        fn = self.fn(inst)
        j = fn.j
        self.frame += 1
        fid = self.frame
        for i, a in enumerate(args):
            if a[0] == 'u': a = self.prune(a, st.g)
            st.mem[(fid, i + 1)] = a
        self.stack.append(inst); self.lines.append(None)
        pending = {0: ([St(st.g, st.mem)], fn.pos[0])}
        rets = []
        name = j['name']
        nblk = 0
        try:
            while pending:
                b = min(pending, key=lambda x: (pending[x][1], fn.pos[x]))
                sts, _ = pending.pop(b)
                s = merge_states(sts)
                if s is None: continue
                self.steps += 1; nblk += 1
                if self.steps > self.max_steps: raise Restart('limit', name, 'step limit', self.here())
                try: edges = self.block(s, fid, fn, b)
                except (Restart, RecursionError, MemoryError): raise
                except Exception as e:
                    raise Restart('function', j['def'], '%s: %s' % (type(e).__name__, str(e)[:120]), self.here())
                for tb, s2, held in edges:
                    if tb == 'ret':
                        rets.append(s2); continue
                    if s2.g == F: continue
                    key = fn.pos[tb]
                    h = fn.header_of.get(tb)
                    if held: key = fn.loop_end.get(tb, fn.pos[tb]) + 0.5
                    elif h is not None and h[0] <= fn.pos[b] <= h[1]: key = h[1] + 0.5
                    if tb in pending:
                        pending[tb][0].append(s2)
                        pending[tb] = (pending[tb][0], min(pending[tb][1], key))
                    else:
                        pending[tb] = ([s2], key)
        finally:
            self.stack.pop(); self.lines.pop()
            self.analysed[name] = self.analysed.get(name, 0) + nblk
        out = merge_states(rets)
        if out is None: return None, None
        v = out.mem.get((fid, 0), UNIT)
        if v[0] == 'U': v = UNIT
        for i in range(len(j['locals'])): out.mem.pop((fid, i), None)
        return out, v

    def block(self, s, fid, fn, b):
        bl = fn.blocks[b]
        for x in bl['s']:
            if x['s'] == '=':
                self.write(s, fid, x['p'], self.rvalue(s, fid, fn, x['v']))
            else:
                a = self.addr(s, fid, x['p'])
                for g, c, p in a:
                    v = self.load(s, c, p)
                    if v[0] == 'a': self.store(s, c, p, ('a', v[1], x['vi'], v[3]))
                    else: self.store(s, c, p, ('a', None, x['vi'], ()))
        t = bl['t']
        k = t['t']
        if k == 'goto': return [(t['b'], s, False)]
        if k == 'ret': return [('ret', s, False)]
        if k == 'drop':
            h = self.hooks.get('drop')
            if h:
                s = h(self, s, fid, t)
                if s is None: return []
            return [(t['b'], s, False)]
        if k == 'assert' and ('MisalignedPointer' in t['m'] or 'NullPointer' in t['m']): return [(t['b'], s, False)]
        if k == 'assert':
            n = self.as_bool(self.operand(s, fid, t['o']))
            ok = n if t['e'] else NOT(n)
            bad = AND(s.g, NOT(ok))
            if bad != F:
                self.panic(bad, 'assert ' + t['m'], t['l'])
                s = St(AND(s.g, ok), s.mem)
                if s.g == F: return []
            return [(t['b'], s, False)]
        if k == 'sw':
            v = self.operand(s, fid, t['o'])
            conds = self.switch(s, v, [int(c) for c, _ in t['br']])
            out = []
            live = [(AND(s.g, c), tb) for c, tb in zip(conds, [b2 for _, b2 in t['br']] + [t['else']])]
            live = [(g, tb) for g, tb in live if g != F]
            for i, (g, tb) in enumerate(live):
                out.append((tb, St(g, s.mem if i == len(live) - 1 else dict(s.mem)), False))
            return out
        if k == 'call': return self.call_term(s, fid, fn, b, t)
        if k in ('unreach', 'resume', 'abort'): return []
        raise Undecided('terminator ' + k)

    def switch(self, s, v, consts):
        if v[0] == 'b':
            r = [NOT(v[1]) if c == 0 else v[1] for c in consts]
            return r + [NOT(mdd.ORS(r))]
        if v[0] == 'i':
            r = [T if v[1] == c else F for c in consts]
            return r + [NOT(mdd.ORS(r))]
        if v[0] == 'u':
            acc = [F] * (len(consts) + 1)
            for g, x in v[1]:
                for i, c in enumerate(self.switch(s, x, consts)): acc[i] = OR(acc[i], AND(g, c))
            return acc
        if v[0] in 'BU': return [F] * (len(consts) + 1)
        if v[0] == 'r': return [F] * len(consts) + [T]
        tm = self.term(v)
        r = []
        rest = T
        for c in consts:
            x = AND(rest, mdd.lit(('eq', tm, c), True))
            r.append(x); rest = AND(rest, NOT(x))
        return r + [rest]

    def call_term(self, s, fid, fn, b, t):
        args = [self.operand(s, fid, o) for o in t['a']]
        f = t['f'].get('fn')
        self.cur_at = t['at']
        self.lines[-1] = t['l']
        if any(a[0] == 'B' for a in args): return []
        if f is not None:
            if f['name'].endswith('Iterator::next') and b in fn.loop_end:
                h = self.hooks.get('next')
                r = h(self, s, args[0], t['dt'], f)
                if r is not None:
                    out = []
                    for held, s2, v in r:
                        if held: out.append((b, s2, True))
                        else:
                            self.write(s2, fid, t['d'], v)
                            if t['b'] is not None: out.append((t['b'], s2, False))
                    return out
            at = t['at']
            s2, v = self.call(s, f['i'], f['name'], args, t['dt'], t['l'])
            # a &mut argument of an unmodelled callee
            if s2 is not None and f['i'] is not None and self.is_unknown(f, args):
                for a, ty in zip(args, at): self.clobber(s2, f['name'], a, ty)
        else:
            p = self.operand(s, fid, t['f']['ptr'])
            s2, v = self.call_value(s, p, args, t['dt'], t['l'])
        if s2 is None or t['b'] is None: return []
        self.write(s2, fid, t['d'], v)
        return [(t['b'], s2, False)]

    def is_unknown(self, f, args):
        g = self.fns[f['i']]
        return 'blocks' not in g and (self.model(g['def'], g['name']) is None or (g['def'], g['name']) in self.off_models)


class Call:
    __slots__ = ('name', 'fname', 'dname', 'fn', 'where', 'inst')

    def __init__(self, name, fname, dname, fn, where, inst):
        self.name = name; self.fname = fname; self.dname = dname; self.fn = fn; self.where = where; self.inst = inst
