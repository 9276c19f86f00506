"""One interpretation of the macro over one symbolic input, and the guarded items, functions and zones of its expansion."""
import os, shutil, signal, time, traceback
from . import mdd, models, inputs, front, load
from .mdd import T, F, AND, OR, NOT, DIFF
from .engine import Engine, St, Undecided, Restart
from .front import G

ROOTFN = 'builder_for_struct'


def engine(dump):
    E = Engine(dump, models.M)
    E.hooks = {'next': models.hook_next, 'drop': models.hook_drop, 'discriminant': models.hook_disc, 'downcast': models.hook_downcast}
    return E


class Fnx:
    """all generated functions of one kind (for one field)"""

    def __init__(self, kind, field): self.kind = kind; self.field = field; self.g = F; self.zones = {}; self.body = []; self.src = []; self.dup = F

    def add(self, it, zones):
        self.dup = OR(self.dup, AND(self.g, it.g))
        self.g = OR(self.g, it.g)
        for z, v in zones.items(): self.zones.setdefault(z, []).extend(v)
        self.body.extend((AND(it.g, g), t, s) for g, t, s in it.body.xs)
        self.src.append(it.bodysrc)

    def zone(self, z): return self.zones.get(z, [])


def words(xs):
    for g, t, s in front.flat(xs):
        if isinstance(t, str): yield g, t


SPLICED = ('tokens', 'TokenStream', 'TokenTree', 'Vec', 'IntoIter', 'Punctuated')


def opaque_in(items, E, ctx=T):
    """(guard, what) of the tokens of unknown number: a stream, or a value of the crate itself, whose tokens are not known"""
    bad, what = F, None
    for g, i in items:
        if i[0] == 'g':
            b, w = opaque_in(i[2], E, AND(ctx, g))
        elif i[0] == 'h' and ("'app'" in repr(i[1]) or "'havoc'" in repr(i[1])):
            t = i[2] if isinstance(i[2], str) else E.ts(i[2]) if isinstance(i[2], int) else ''
            t = t.split('<')[0]
            b, w = (AND(ctx, g), repr(i[1])[:400]) if t.split('::')[-1] in SPLICED or t.lstrip('&').startswith('derive_builder') else (F, None)
        else: continue
        if b != F: bad = OR(bad, b); what = what or w
    return bad, what


def unparsed(items): return any(unparsed(i[2]) if i[0] == 'g' else i[0] == 'h' and "'INPUT'" in repr(i[1]) for g, i in items)


class Expansion:
    def __init__(self, dump, fields=('f0', 'f1'), **kw):
        self.t0 = time.time()
        self.fields = fields
        fn = lambda ok: [i for i, f in enumerate(dump['fns']) if f['local'] and 'blocks' in f and ok(f)]
        ty = lambda t: dump['types'][t].get('name', '').split('<')[0]
        core = fn(lambda f: f['def'].endswith('::' + ROOTFN)) or fn(lambda f: f['argc'] == 1 and ty(f['locals'][1]) == 'syn::DeriveInput' and ty(f['locals'][0]) == 'proc_macro2::TokenStream')
        entry = fn(lambda f: f['argc'] == 1 and f['def'].startswith('derive_builder_macro::') and ty(f['locals'][1]).endswith('proc_macro::TokenStream') and ty(f['locals'][0]).endswith('proc_macro::TokenStream'))
        if not core and not entry: raise Undecided('entry point %s not found' % ROOTFN)
        # from the entry point of the proc-macro; if that cannot be followed, from the function of the core crate that it calls
        why = self.fallback = None
        for root in entry[:1] + core[:1]:
            self.root = dump['fns'][root]
            try: v = self.interpret(dump, root, root in entry, kw)
            except Undecided as e:
                why = why or e; self.fallback = str(e)[:200]
                continue
            why = None
            break
        if why: raise why
        E = self.E
        s = self.state
        self.never = s is None
        self.term = s.g if s is not None else F
        self.raw = v[1]
        self.opaque, self.opaque_why = opaque_in(v[1], E)   # an unmodelled function produced tokens of its own
        self.gens = []          # (guard, kind, value, changed) of every printed generics
        self.origgen = self.arg[3][E.field_index(self.arg[1], 'generics')]
        self.C = mdd.lit(('o', 'S.crate'), True)
        xs = self.plain = front.nest(self.gen_items(v[1]))
        self.xs = front.crate_root(xs, self.C)
        self.split()
        self.time = time.time() - self.t0

    def interpret(self, dump, root, entry, kw):
        self.restarts = []
        while True:
            mdd.reset()
            mdd.only = kw.get('only')
            self.E = E = engine(dump)
            E.off_models = {r.key for r in self.restarts if r.kind == 'model'}
            E.off_fns = {r.key for r in self.restarts if r.kind == 'function'}
            self.I = I = inputs.Inputs(E, fields=self.fields, **{k: v for k, v in kw.items() if k in ('valid', 'optional_fields', 'shapes', 'wrong', 'reverse', 'anyattr', 'long')})
            if 'valid' in kw: E.valid = kw['valid']
            st = St(T, {})
            self.arg = E.parsed = arg = I.derive_input()
            if entry: arg = ('y', 'INPUT', dump['fns'][root]['locals'][1])
            try: self.state, v = E.run(st, root, [arg])
            except Restart as r:
                if r.kind == 'limit' or len(self.restarts) >= 12 or any((x.kind, x.key) == (r.kind, r.key) for x in self.restarts): raise Undecided('; '.join(str(x) for x in (self.restarts[:3] + [r]))) from None
                self.restarts.append(r)
                continue
            except RecursionError: raise Undecided('recursion limit')
            break
        if v is None or v[0] != 'k': raise Undecided('the result is not a token stream: %s' % (v[0] if v else None,))
        if entry and unparsed(v[1]): raise Undecided('the input is used without being parsed')
        return v

    # ---- generics
    def gen_items(self, items, ctx=T):
        """every printed generics replaced by a hole that says what it is compared with the target's"""
        out = []
        for g, i in items:
            x = AND(ctx, g)
            if i[0] == 'g':
                out.append((g, self.moved(i, ('g', i[1], self.gen_items(i[2], x)) + tuple(i[3:])))); continue
            if i[0] != 'gen':
                out.append((g, i)); continue
            for ga, v in (i[2][1] if i[2][0] == 'u' else ((T, i[2]),)):
                h = AND(g, ga)
                if h == F: continue
                txt, clones = self.gen_info(i[1], v)
                self.gens.append((AND(ctx, h), i[1], txt, clones))
                out.append((h, self.moved(i, ('h', txt, 'Generics', None))))
        return tuple(out)

    def moved(self, old, new):
        o = self.E.origin.get(id(old))
        if o: self.E.origin[id(new)] = (new, o[1])
        return new

    def xs_flat(self):
        if self._flat is None: self._flat = front.flat(self.xs)
        return self._flat

    _flat = None

    def plain_build(self):
        """the tokens of the build body with their positions, before the crate root is normalised"""
        out = []

        def walk(xs):
            items, left = front.split_items(xs)
            for it in items:
                heads = [t for g, t in words(it.head)]
                if 'fn' in heads and '{T:ident!}' in heads and 'impl' not in heads: out.extend((AND(it.g, g), t, s) for g, t, s in it.body.xs)
                elif 'impl' in heads and 'fn' not in heads: walk(it.body.xs)
        walk(self.plain)
        return out

    def gen_info(self, kind, v):
        """(description, {parameter: guard of an added Clone bound})"""
        E = self.E
        if v[0] != 'a': return '%s:unknown' % kind, {}
        pi = E.field_index(v[1], 'params')
        a, b = self.origgen[3][pi], v[3][pi]
        clones = {}
        if b[0] != 'l' or len(a[1]) != len(b[1]): return '%s:changed' % kind, {}
        for (ga, pa), (gb, pb) in zip(a[1], b[1]):
            if ga != gb: return '%s:changed' % kind, {}
            if pa == pb: continue
            ok = self.type_param(pa, pb, kind)
            if ok is None: return '%s:changed' % kind, {}
            clones[ok[0]] = (AND(ok[1], ga), ok[2])
        return kind, clones

    def type_param(self, pa, pb, kind):
        E = self.E
        if pa[0] != 'a' or pb[0] != 'a' or pa[2] != pb[2] or E.T[pa[1]]['v'][pa[2]]['n'] != 'Type': return None
        ta, tb = pa[3][0], pb[3][0]
        if tb[0] != 'a': return None
        fs = [f[0] for f in E.T[ta[1]]['v'][0]['f']]
        g, extra = F, []
        for n, x, y in zip(fs, ta[3], tb[3]):
            if x == y: continue
            if n != 'bounds':
                if kind == 'ty' and n not in ('ident',): continue
                return None
            if y[0] != 'l' or y[1][:len(x[1])] != x[1]: return None
            for gx, e in y[1][len(x[1]):]:
                extra.append((gx, e)); g = OR(g, gx)
        return ta[3][fs.index('ident')][1], g, extra

    # ---- items
    def split(self):
        items, left = front.split_items(self.xs)
        self.rej = F            # rejected by the derive
        self.diag = F           # carries a compile_error next to generated code
        self.diags = []
        self.stray = []
        for g, t, s in left:
            if isinstance(t, str) and t.startswith("<compile_error:"):
                if s[1][0] == 'err' and s[1][1] != 'syn': self.rej = OR(self.rej, g)
                else: self.diag = OR(self.diag, g)
                self.diags.append((g, s))
            else: self.stray.append((g, t, s))
        self.V = NOT(self.rej)
        self.items = {}
        self.fns = {}
        self.order = []
        for it in items: self.item(it)

    def item(self, it):
        z, fin = front.automaton(it.head, it.g, 'start', front.head_step)
        kws = {t for g, t, s in z.get('kw', [])}
        kind = 'struct' if 'struct' in kws else 'enum' if 'enum' in kws else 'impl' if 'impl' in kws else 'fn' if 'fn' in kws else 'other'
        if kind == 'impl':
            pre, post, found = [], [], False
            for x in z.get('rest', []):
                if x[1] == 'for': found = True; continue
                (post if found else pre).append(x)
            if not found: key = ('impl', '')
            else:
                z['self'] = post
                names = [t for g, t, s in pre if isinstance(t, str)]
                z['trait'] = pre
                key = ('impl', self.trait_key(names))
        else: key = (kind, '')
        x = self.items.get(key)
        if x is None: x = self.items[key] = Fnx(key, None)
        x.add(it, z)
        if kind == 'impl':
            its, left = front.split_items(it.body.xs)
            x.zones.setdefault('left', []).extend(left)
            for i2 in its: self.func(key, i2)

    @staticmethod
    def trait_key(names):
        for n in ('Default', 'From', 'Display', 'Error'):
            if n in names:
                if n == 'From': return 'From:' + ('Uninit' if 'UninitializedFieldError' in names else 'String' if 'String' in names else '?')
                return n
        return ' '.join(n for n in names if n not in ('::', 'ROOT', 'export', 'core'))

    def field_of(self, toks):
        n = {}
        for g, t in toks:
            for f in self.fields:
                if ('{%s!}' % f) in t or ('{%s}' % f) in t or ('{%s.' % f) in t or (':%s:' % f) in t or (':%s.' % f) in t or (':%s@' % f) in t:
                    n[f] = n.get(f, 0) + 1
        return max(n, key=lambda k: n[k]) if n else None

    def func(self, owner, it):
        z, fin = front.automaton(it.head, it.g, 'start', front.head_step)
        if owner != ('impl', ''):
            kind, f = owner[1] + '::' + '/'.join(sorted({str(t) for g, t, s in z.get('name', [])})), None
        else:
            ret = [t for g, t in words(z.get('ret', []))]
            par = [t for g, t in words(z.get('params', []))]
            body = [t for g, t in words(it.body.xs)]
            f = None
            if '{T:ident!}' in ret: kind = 'build'
            elif par == ['(', ')']: kind = 'create_empty'
            else:
                f = self.field_of(list(words(it.head)) + list(words(it.body.xs)))
                if f is None: kind = 'other'
                elif 'Extend' in [t for g, t in words(z.get('where', []))] or 'extend' in body: kind = 'each'
                elif 'Result' in ret or 'try_into' in body: kind = 'try'
                else: kind = 'setter'
        x = self.fns.get((kind, f))
        if x is None: x = self.fns[(kind, f)] = Fnx(kind, f)
        x.add(it, z)
        self.order.append((kind, f, it.g))

    def fn(self, kind, f=None): return self.fns.get((kind, f)) or Fnx(kind, f)
    def it(self, kind, sub=''): return self.items.get((kind, sub)) or Fnx((kind, sub), None)

    # ---- builder fields and struct literals
    @staticmethod
    def member_step(s, t):
        """zones of `attrs vis name : rest`"""
        if s == 'start':
            if t == '#': return 'attr', 'attrs'
            if t == ':': return 'rest', None
            return 'start', 'head'
        if s == 'attr': return ('attr' if t == '!' else 'start'), 'attrs'
        return s, 'rest'

    def members(self, xs, kind):
        """{field: Fnx} of the comma separated members of a braced body, in declaration order"""
        out = {}
        order = []
        for it in front.split_list(xs):
            z, fin = front.automaton(it.head, it.g, 'start', self.member_step)
            name, vis = [], []
            for g, t, s in z.get('head', []):
                (name if isinstance(t, str) and t.startswith('{') else vis).append((g, t, s))
            z['name'] = name; z['vis'] = vis
            f = self.field_of([(g, t) for g, t, s in name if isinstance(t, str)]) or self.field_of(list(words(it.head)))
            x = out.get(f)
            if x is None: x = out[f] = Fnx(kind, f)
            x.dup = OR(x.dup, AND(x.g, it.g)); x.g = OR(x.g, it.g)
            for k, v in z.items(): x.zones.setdefault(k, []).extend(v)
            x.src.append(it.bodysrc if it.body is not None else None)
            order.append((f, it.g))
        return out, order

    def literal(self, body, heads):
        """(body with the contents of the first struct literal after one of heads replaced by LITERAL, the guarded contents)"""
        inner = []

        def walk(xs):
            out = []
            prev = {}
            for g, t, s in xs:
                if isinstance(t, G):
                    hit = F
                    if t.d == '{}':
                        hit = AND(prev.get('h', F), g)
                    if hit != F:
                        inner.extend((AND(g, gi), ti, si) for gi, ti, si in t.xs)
                        out.append((g, G('{}', [(g, 'LITERAL', s)], t.src), s))
                    else: out.append((g, G(t.d, walk(t.xs), t.src), s))
                    prev['h'] = DIFF(prev.get('h', F), g)
                else:
                    out.append((g, t, s))
                    h = t in heads
                    prev['h'] = OR(DIFF(prev.get('h', F), g), g) if h else DIFF(prev.get('h', F), g)
            return out
        return walk(body), inner
