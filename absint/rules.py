"""The rules: per property, what of the guarded expansion is compared with the specification. Every rule reports the guard
(set of option assignments) on which the code deviates, the generated construct, and the source that emitted it."""
import re
from . import mdd, front, rustx
from .mdd import T, F, AND, OR, NOT, DIFF, ITE
from .front import G
from .rustx import Eval, Ret, Unknown, parse_block
from .spec import Spec, decide, product, core, OPTION, ROOT_OPT
from .inputs import Inputs, PATTERNS
from .expand import words, Fnx
from .engine import Undecided

RULES = []


def rule(*props):
    def deco(f):
        RULES.append((props, f))
        return f
    return deco


def nt(seq):
    """token normal form: no joint '>>', no trailing commas"""
    out = []
    for t in seq:
        if t == '>>': out += ['>', '>']; continue
        if t in ('>', ')', ']', '}') and out and out[-1] == ',': out.pop()
        out.append(t)
    while out and out[-1] == ',': out.pop()
    return tuple(out)


class Finding:
    def __init__(self, props, g, site, rule, msg, exp, got, src, definite=True):
        self.props = props; self.g = g; self.site = site; self.rule = rule; self.msg = msg; self.exp = exp; self.got = got; self.src = src
        self.definite = definite


OPAQUE = re.compile(r"'(app|havoc)\\*'|:unknown")
_opq = {}


def opaque_key(k):
    r = _opq.get(k)
    if r is None: r = _opq[k] = bool(OPAQUE.search(repr(k)))
    return r


IDX = re.compile(r"\('idx', ('[^']*'|\(.*?\)), \d+\)")


def entangled(keys):
    """facts about the elements of a sequence of unknown length: known to be independent of everything but each other and
    other facts about the same part of the input, so only a lone one decides"""
    roots = {}
    for k in keys:
        s = repr(k)
        if "'idx'" not in s: continue
        for m in IDX.finditer(s): roots.setdefault(m.group(1), set()).add(k)
    bad = set()
    for r, ks in roots.items():
        if r[0] != "'": bad |= ks; continue
        base = r[1:-1].rsplit('.segments', 1)[0]
        others = [k for k in keys if k not in ks and isinstance(k, tuple) and (k[0] in ('single', 'streq', 'eq', 'len', 'numcmp', 'empty') and ("'%s'" % base) in repr(k) or k[0] != 'more' and r in repr(k))]
        facts = [k for k in ks if k[0] not in ('more', 'empty')]
        if others or len(facts) > 1 and not all(k[0] == 'd' and str(k[1][0]) == '.' and k[1][1][0] == 'idx' for k in facts): bad |= ks        # the kinds of different elements are independent
    return bad


class R:
    """rule context over one expansion"""

    def __init__(self, X, config=''):
        self.X = X; self.E = X.E; self.S = Spec(X.I); self.config = config
        self.V = X.V
        self.findings = []
        self.obl = 0               # obligations discharged
        self.sites = set()
        self.vcache = {}
        self.cur = None
        self.prop = None
        self.props = ()
        self.bf = None
        self.unsure = False        # parts of the expansion are not understood, and the current rule looks for something anywhere

    def blur(self):
        """where some token of the expansion is not understood"""
        r = self.vcache.get('blur')
        if r is None:
            r = self.vcache['blur'] = mdd.ORS([g for g, t, s in list(front.flat(self.X.xs)) + list(front.flat(self.X.plain)) if isinstance(t, str) and OPAQUE.search(t)])
            if any(opaque_key(k) for k in mdd.support(r)): r = self.vcache['blur'] = mdd.quant(r, opaque_key, forall=False)
        return r

    def blurred(self): return self.blur() != F

    def hazy(self):
        """some token is not understood, or it is not known when it appears"""
        if self.blurred() or self.X.opaque != F: return True
        seen = set()
        for g, t, s in list(front.flat(self.X.xs)) + list(front.flat(self.X.plain)):
            if g in seen: continue
            seen.add(g)
            if any(opaque_key(k) for k in mdd.support(g)): return True
        return False

    def only(self, *props): return self.prop in props

    # ---- reporting
    def fail(self, g, site, msg, exp=None, got=None, src=(), props=None):
        if g == F: return
        definite = True
        keys = mdd.support(g)
        knots = entangled(keys)
        if knots or any(opaque_key(k) for k in keys):
            definite = mdd.quant(g, lambda k: opaque_key(k) or k in knots, forall=True) != F
        if got is not None and (OPAQUE.search(repr(got)) or 'not understood' in repr(got)) or 'not understood' in msg: definite = False
        if self.unsure or got in (None, 'absent', [], ()) and DIFF(g, self.blur()) == F or DIFF(g, self.X.opaque) == F: definite = False
        self.findings.append(Finding(props or self.props, g, site, self.cur, msg, exp, got, tuple(src), definite))

    def ok(self, site, n=1):
        self.obl += n
        self.sites.add(site)

    def same(self, actual, expected, ctx, site, msg, src=()):
        """two guards agree on ctx"""
        self.ok(site)
        self.fail(AND(ctx, DIFF(actual, expected)), site, msg + ': present', 'absent', 'present', src)
        self.fail(AND(ctx, DIFF(expected, actual)), site, msg + ': missing', 'present', 'absent', src)

    def variants(self, xs, ctx, key=None):
        k = (key, ctx)
        if key is not None and k in self.vcache: return self.vcache[k]
        r = front.variants(xs, ctx)
        if r is not None:
            m = {}
            for s, g in r.items():
                s = nt(s)
                m[s] = OR(m.get(s, F), g)
            r = m
        if key is not None: self.vcache[k] = r
        return r

    def compare(self, actual, expected, ctx, site, msg, src=()):
        """{value: guard} against {value: guard} on ctx"""
        self.ok(site, max(1, len(expected)))
        if actual is None:
            self.fail(ctx, site, msg + ': not understood: too many variants')
            return
        for s, g in actual.items():
            bad = AND(ctx, DIFF(g, expected.get(s, F)))
            if bad != F:
                want = [e for e, h in expected.items() if AND(bad, h) != F]
                self.fail(bad, site, msg, want[0] if want else None, s, src)

    def zone(self, fx, z, expected, msg=None, ctx=None):
        c = AND(self.V, fx.g)
        if ctx is not None: c = AND(c, ctx)
        exp = {}
        for s, g in expected.items():
            s = nt(s)
            exp[s] = OR(exp.get(s, F), g)
        zs = fx.zone(z)
        self.compare(self.variants(zs, c), exp, c, self.site(fx, z), msg or '%s of %s' % (z, self.name(fx)), self.srcs(zs, fx))

    def name(self, fx):
        k = fx.kind if isinstance(fx.kind, str) else ' '.join(x for x in fx.kind if x)
        return '%s%s' % (k, ' of field %s' % fx.field if fx.field else '')

    def site(self, fx, z=None): return self.name(fx) + ('/' + z if z else '')

    def srcs(self, xs, fx=None):
        out = []
        for g, t, s in xs:
            o = self.E.origin.get(id(s))
            if o and o[1] not in out: out.append(o[1])
        if not out and fx is not None:
            for s in fx.src:
                o = self.E.origin.get(id(s))
                if o and o[1] not in out: out.append(o[1])
        return out[:6]

    # ---- shared parts
    def fields(self): return self.X.fields

    def bfields(self):
        if self.bf is None: self.bf = self.X.members(self.X.it('struct').body, 'builder field')
        return self.bf

    _inits = None

    def inits(self):
        if self._inits is None:
            b = self.X.fn('build')
            skel, inner = self.X.literal(b.body, ('{T:ident!}',))
            self._inits = (skel, inner) + self.X.members(inner, 'initialiser')
        return self._inits

    _empties = None

    def empties(self):
        if self._empties is None:
            b = self.X.fn('create_empty')
            skel, inner = self.X.literal(b.body, ('Self', '{T:ident}Builder', '{S.name!}'))
            self._empties = (skel, inner) + self.X.members(inner, 'empty field')
        return self._empties

    def attrs(self, fx):
        """[(guard, content tokens, source)] of the attributes before an item; inner content split by variant"""
        k = ('attrs', id(fx))
        r = self.vcache.get(k)
        if r is None:
            r = []
            for g, t, s in fx.zone('attrs'):
                if isinstance(t, G):
                    gg = AND(self.V, g)
                    if gg == F: continue
                    for seq, h in (self.variants(t.xs, gg) or {('?',): gg}).items(): r.append((h, seq, s))
                elif isinstance(t, str) and t.startswith('<Attribute:'): r.append((AND(self.V, g), (t,), s))
                elif t not in ('#', '!'): r.append((AND(self.V, g), ('stray', t), s))
            self.vcache[k] = r
        return r


def forwarded(seq): return any(isinstance(t, str) and '@' in t for t in seq)


# ------------------------------------------------------------------ existence
def only(t): return {t: T}


@rule('C25', 'C15', 'C14', 'C13', 'C18')
def r_items(R):
    X, S, V = R.X, R.S, R.V
    for key in (('struct', ''), ('impl', '')):
        it = X.it(*key)
        R.same(it.g, T, V, R.site(it), 'the builder %s' % key[0])
        R.fail(AND(V, it.dup), R.site(it), 'generated twice')
    for g, t, s in X.stray:
        R.fail(AND(V, g), 'top level', 'stray token', None, t if isinstance(t, str) else t.d, R.srcs([(g, t, s)]))
    for k, x in X.items.items():
        if k not in KNOWN_ITEMS: R.fail(AND(V, x.g), R.site(x), 'an item the documentation does not mention', None, k, R.srcs([], x))
    for (k, f), x in X.fns.items():
        if k == 'other' or k.split('::')[0] not in ('setter', 'try', 'each', 'build', 'create_empty', 'Default', 'From:Uninit', 'From:String', 'Display'):
            R.fail(AND(V, x.g), R.site(x), 'a function the documentation does not mention', None, k, R.srcs([], x))


KNOWN_ITEMS = {('struct', ''), ('impl', ''), ('impl', 'Default'), ('enum', ''), ('impl', 'From:Uninit'), ('impl', 'From:String'), ('impl', 'Display'), ('impl', 'Error')}


@rule('C07', 'C08', 'C11', 'C10', 'C25', 'C31', 'C24')
def r_setters_exist(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        for kind, exp in (('setter', S.setter(f)), ('try', S.trys(f)), ('each', S.each(f))):
            x = X.fn(kind, f)
            exp = AND(exp, S.has(f))
            if kind == 'setter' and R.only('C10', 'C11'): continue
            if kind == 'try' and R.only('C11'): continue
            if kind == 'each' and R.only('C10'): continue
            R.same(x.g, exp, V, R.site(x), {'setter': 'setter', 'try': 'fallible setter', 'each': 'collection setter'}[kind] + ' of %s' % f, R.srcs([], x))
            R.fail(AND(V, x.dup), R.site(x), 'generated twice', None, None, R.srcs([], x))


@rule('C24', 'C06', 'C04')
def r_build_exists(R):
    b = R.X.fn('build')
    R.same(b.g, R.S.has_build(), R.V, R.site(b), 'the build method', R.srcs([], b))
    R.fail(AND(R.V, b.dup), R.site(b), 'generated twice')


@rule('C22', 'C24')
def r_ctor_exists(R):
    c = R.X.fn('create_empty')
    R.same(c.g, T, R.V, R.site(c), 'the empty constructor')
    R.fail(AND(R.V, c.dup), R.site(c), 'generated twice')
    d = R.X.it('impl', 'Default')
    R.same(d.g, NOT(R.S.p('S.custom_constructor')), R.V, R.site(d), 'impl Default')
    R.fail(AND(R.V, d.dup), R.site(d), 'generated twice')
    R.zone(c, 'params', only(('(', ')')))
    R.zone(c, 'ret', only(('->', 'Self')))


# ------------------------------------------------------------------ names
def self_ty(R): return product(R.S.builder_name(), ('<Generics:ty>',))


@rule('C15', 'C08', 'C24', 'C10', 'C11')
def r_names(R):
    X, S = R.X, R.S
    for f in R.fields():
        if not R.only('C10', 'C11'): R.zone(X.fn('setter', f), 'name', S.setter_name(f))
        if R.only('C08'): continue
        if not R.only('C11'): R.zone(X.fn('try', f), 'name', S.setter_name(f, True))
        if not R.only('C10'): R.zone(X.fn('each', f), 'name', S.each_name(f))
        if R.only('C10', 'C11'): continue
        bf = R.bfields()[0].get(f)
        if bf: R.zone(bf, 'name', only(('{%s!}' % f,)))
    if R.only('C08', 'C10', 'C11'): return
    R.zone(X.it('struct'), 'name', S.builder_name())
    R.zone(X.fn('build'), 'name', S.build_name())
    R.zone(X.fn('create_empty'), 'name', S.ctor_name())
    R.zone(X.it('enum'), 'name', S.error_name())
    R.zone(X.it('impl'), 'rest', product(('<Generics:impl>',), self_ty(R)))
    R.zone(X.it('impl', 'Default'), 'self', self_ty(R))
    for k in ('From:Uninit', 'From:String', 'Display', 'Error'): R.zone(X.it('impl', k), 'self', S.error_name())
    R.zone(X.fn('build'), 'ret', product(('->',), core('result', 'Result'), ('<', '{T:ident!}', '<Generics:ty>', ','), S.error_type(), ('>',)))


# ------------------------------------------------------------------ visibility
@rule('C14', 'C08', 'C10', 'C11', 'C24')
def r_vis(R):
    X, S = R.X, R.S
    for f in R.fields():
        for k in ('setter', 'try', 'each'):
            if R.only('C10') and k != 'try' or R.only('C11') and k != 'each': continue
            R.zone(X.fn(k, f), 'vis', S.setter_vis(f))
        bf = R.bfields()[0].get(f)
        if bf and not R.only('C10') and not R.only('C11'): R.zone(bf, 'vis', S.field_vis(f))
    if R.only('C08', 'C10', 'C11'): return
    R.zone(X.it('struct'), 'vis', S.builder_vis())
    R.zone(X.it('enum'), 'vis', S.builder_vis())
    R.zone(X.fn('build'), 'vis', S.build_vis())


# ------------------------------------------------------------------ receivers and returns
def norm_self(seq): return ('self',) if seq == ('mut', 'self') else seq


def recv(pat): return decide([(pat('owned'), ('self',)), (pat('mutable'), ('&', 'mut', 'self'))], ('&', 'self'))
def retty(pat): return decide([(pat('mutable'), ('&', 'mut', 'Self'))], ('Self',))


def split_params(R, fx):
    """{(self tokens): guard}, {type tokens: guard}, {names}"""
    c = AND(R.V, fx.g)
    vs = R.variants(fx.zone('params'), c)
    selfs, tys, names = {}, {}, set()
    for s, g in (vs or {}).items():
        s = s[1:-1]
        i = s.index(',') if ',' in s else len(s)
        a, b = norm_self(s[:i]), s[i + 1:]
        selfs[a] = OR(selfs.get(a, F), g)
        if b and ':' in b:
            j = b.index(':')
            names.add(b[j - 1])
            tys[b[j + 1:]] = OR(tys.get(b[j + 1:], F), g)
        elif b: tys[b] = OR(tys.get(b, F), g)
    return selfs, tys, names


@rule('C02', 'C08', 'C10', 'C11')
def r_receivers(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        for k in ('setter', 'try', 'each'):
            if R.only('C10') and k != 'try' or R.only('C11') and k != 'each': continue
            x = X.fn(k, f)
            c = AND(V, x.g)
            pat = lambda p: S.fpat(f, p)
            selfs, tys, names = split_params(R, x)
            R.compare(selfs, recv(pat), c, R.site(x, 'receiver'), 'receiver of ' + R.name(x), R.srcs(x.zone('params'), x))
            ret = retty(pat)
            if k == 'try': ret = product(('->',), core('result', 'Result'), ('<',), ret, (',', 'VALUE', '::', 'Error', '>'))
            else: ret = product(('->',), ret)
            R.zone(x, 'ret', ret)
    if R.only('C08', 'C10', 'C11'): return
    b = X.fn('build')
    selfs, tys, names = split_params(R, b)
    exp = decide([(S.spat('owned'), ('self',))], ('&', 'self'))
    R.compare(selfs, exp, AND(V, b.g), R.site(b, 'receiver'), 'receiver of build', R.srcs(b.zone('params'), b))
    for s, g in tys.items(): R.fail(AND(V, g), R.site(b, 'params'), 'build takes an argument', None, s)


# ------------------------------------------------------------------ argument types
@rule('C09', 'C08', 'C10')
def r_argtypes(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        x, y = X.fn('setter', f), X.fn('try', f)
        ty = S.argty(f)
        into = S.into(f)
        if not R.only('C10'):
            c = AND(V, x.g)
            bound = product(('<', 'VALUE', ':'), core('convert', 'Into'), ('<',), ty, ('>', '>'))
            exp = {(): NOT(into)}
            for s, g in bound.items(): exp[s] = AND(g, into)
            R.zone(x, 'generics', exp)
            _, tys, _ = split_params(R, x)
            exp = {('VALUE',): into}
            for s, g in ty.items(): exp[s] = DIFF(g, into)
            R.compare(tys, exp, c, R.site(x, 'argument'), 'argument type of ' + R.name(x), R.srcs(x.zone('params'), x))
            R.zone(x, 'where', only(()))
        if not R.only('C08'):
            R.zone(y, 'generics', product(('<', 'VALUE', ':'), core('convert', 'TryInto'), ('<',), ty, ('>', '>')))
            _, tys, _ = split_params(R, y)
            R.compare(tys, only(('VALUE',)), AND(V, y.g), R.site(y, 'argument'), 'argument type of ' + R.name(y), R.srcs(y.zone('params'), y))
            R.zone(y, 'where', only(()))


@rule('C11')
def r_each_types(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        x = X.fn('each', f)
        t = f + '.setter.each.into'
        into = S.on(t)
        conv = ('<', 'VALUE', ',', 'FROM_VALUE', ':') + core('convert', 'Into') + ('<', 'VALUE', '>', '>')
        R.zone(x, 'generics', {conv: into, ('<', 'VALUE', '>'): NOT(into)})
        _, tys, _ = split_params(R, x)
        R.compare(tys, {('FROM_VALUE',): into, ('VALUE',): NOT(into)}, AND(V, x.g), R.site(x, 'argument'), 'argument type of ' + R.name(x), R.srcs(x.zone('params'), x))
        R.zone(x, 'where', product(('where',), S.argty(f), (':',), core('default', 'Default'), ('+',), core('iter', 'Extend'), ('<', 'VALUE', '>')))


# ------------------------------------------------------------------ setter bodies
def changes(ev, who): return tuple(sorted((k, x) for k, x in ev.heap[who].items() if x != ev.init.get(k, ('fld', k))))


def summary(ev, v):
    """what one way through a setter body did: (returned object, changed fields of it, changes of the receiver, other effects)"""
    if v[0] in ('obj', 'refobj'): who = v[1]
    else: return ('returns', v)
    kind = 'self' if who == 'self' else 'clone' if who.endswith(' of self') else who
    calls = tuple(e for e in ev.events if e[0] in ('call', 'user'))
    return (kind, changes(ev, who), () if who == 'self' else changes(ev, 'self'), calls)


def run_body(seq, names, before, post):
    """the results of all ways through a body"""
    try:
        ps = rustx.paths(parse_block(seq), before, dict([('self', ('obj', 'self'))] + [(n, ('arg',)) for n in names]))
        return list(dict.fromkeys(('panics', v[1]) if how == 'panic' else post(ev, v) for ev, v, how in ps))
    except Unknown as e: return [not_understood(e, seq)]
    except rustx.IllTyped as e: return [('does not compile', str(e))]


def not_understood(e, seq): return ('not understood: ' + str(e), ' '.join(map(str, seq)))


def wrap(v, n):
    for _ in range(n): v = ('some', v)
    return v


def obj_kind(S, f): return {'clone': S.fpat(f, 'immutable'), 'self': NOT(S.fpat(f, 'immutable'))}


@rule('C01', 'C02', 'C09', 'C08', 'C07')
def r_setter_body(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        x = X.fn('setter', f)
        c = AND(V, x.g)
        if c == F: continue
        _, _, names = split_params(R, x)
        vs = R.variants(x.body, c, ('body', id(x)))
        exp = {}
        into, st, cu = S.into(f), S.stripped(f), S.custom_ty(f)
        for kind, gk in obj_kind(S, f).items():
            for iv, gi in ((('into', ('arg',)), into), (('arg',), NOT(into))):
                for n, gn in ((0, AND(cu, NOT(st))), (1, OR(AND(cu, st), AND(NOT(cu), NOT(st)))), (2, AND(NOT(cu), st))):
                    g = AND(gk, AND(gi, gn))
                    if g != F:
                        key = (kind, (('{%s!}' % f, wrap(iv, n)),), (), ())
                        exp[key] = OR(exp.get(key, F), g)
        body_check(R, x, vs, names, exp, c, f)


def body_check(R, x, vs, names, exp, c, f, before=None):
    act = {}
    for seq, g in (vs or {}).items():
        for key in run_body(seq, names, before or {}, summary): act[key] = OR(act.get(key, F), g)
    if vs is None: act = None
    R.compare(act, exp, c, R.site(x, 'body'), 'effect of ' + R.name(x), R.srcs(x.body, x))


@rule('C10', 'C01', 'C02', 'C09')
def r_try_body(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        x = X.fn('try', f)
        c = AND(V, x.g)
        if c == F: continue
        _, _, names = split_params(R, x)
        vs = R.variants(x.body, c, ('body', id(x)))
        st, cu = S.stripped(f), S.custom_ty(f)
        exp = {}
        conv = ('okof', ('tryres', ('arg',)))
        for kind, gk in obj_kind(S, f).items():
            for n, gn in ((0, AND(cu, NOT(st))), (1, OR(AND(cu, st), AND(NOT(cu), NOT(st)))), (2, AND(NOT(cu), st))):
                for ty, gt in S.argty(f).items():
                    g = AND(AND(gk, gt), gn)
                    if g != F:
                        key = (kind, (('{%s!}' % f, wrap(conv, n)),), (), (), 'ok', ('converted', ty))
                        exp[key] = OR(exp.get(key, F), g)

        failed = ('errof', conv[1])
        exp[('fails with', failed, ())] = T

        def post(ev, v):
            if v in (('err', failed), ('err', ('into', failed))): return ('fails with', failed, changes(ev, 'self'))
            if v[0] != 'ok': return ('returns', v)
            typed = [e[2] for e in ev.events if e[0] == 'typed' and e[3] in (conv, conv[1])]
            return summary(ev, v[1]) + ('ok', ('converted', typed[0] if typed and typed[0] != ('_',) else None))
        # an untyped conversion is typed by the only TryInto bound
        act = {}

        def add(k, g): act[k] = OR(act.get(k, F), g)
        own = S.fpat(f, 'owned')
        for seq, g in (vs or {}).items():
            for key in run_body(seq, names, {}, post):
                if len(key) == 6 and key[5][1] is None:
                    for ty, gt in S.argty(f).items(): add(key[:5] + (('converted', ty),), AND(g, gt))
                elif len(key) == 3 and key[2]:
                    # a builder taken by value is gone with the error
                    add(key[:2] + ((),), AND(g, own)); add(key, DIFF(g, own))
                else: add(key, g)
        R.compare(act if vs is not None else None, exp, c, R.site(x, 'body'), 'effect of ' + R.name(x), R.srcs(x.body, x))


@rule('C11', 'C01', 'C02')
def r_each_body(R):
    X, S, V = R.X, R.S, R.V
    for f in R.fields():
        x = X.fn('each', f)
        c0 = AND(V, x.g)
        if c0 == F: continue
        _, _, names = split_params(R, x)
        fl = '{%s!}' % f
        into = S.on(f + '.setter.each.into')
        st, cu = S.stripped(f), S.custom_ty(f)
        # how many Options are around the collection in the builder: a custom builder field type has none of its own
        for c, cases in ((AND(c0, AND(cu, NOT(st))), (({fl: ('coll',)}, ('coll',), 0),)),
                         (AND(c0, ITE(cu, st, NOT(st))), (({fl: ('none',)}, ('dflt',), 1), ({fl: ('some', ('coll',))}, ('coll',), 1))),
                         (AND(c0, AND(st, NOT(cu))), (({fl: ('none',)}, ('dflt',), 2), ({fl: ('some', ('none',))}, ('dflt',), 2), ({fl: ('some', ('some', ('coll',)))}, ('coll',), 2)))):
            if c == F: continue
            vs = R.variants(x.body, c, ('body', id(x)))
            for before, base, n in cases:
                exp = {}
                for kind, gk in obj_kind(S, f).items():
                    for iv, gi in ((('into', ('arg',)), into), (('arg',), NOT(into))):
                        key = (kind, ((fl, wrap(('ext', base, iv), n)),), (), ())
                        exp[key] = OR(exp.get(key, F), AND(gk, gi))
                body_check(R, x, vs, names, exp, c, f, before)


# ------------------------------------------------------------------ builder fields
@rule('C07', 'C08', 'C25', 'C01', 'C09', 'C13', 'C24')
def r_builder_fields(R):
    X, S, V = R.X, R.S, R.V
    bf, order = R.bfields()
    for f in R.fields():
        x = bf.get(f) or Fnx('builder field', f)
        R.same(x.g, S.has(f), V, R.site(x), 'builder field %s' % f)
        R.fail(AND(V, x.dup), R.site(x), 'declared twice', None, None, R.srcs([], x))
        R.zone(x, 'rest', S.field_ty(f), 'type of builder field %s' % f)
        if R.only('C25'): R.zone(x, 'name', only(('{%s!}' % f,)))
    for f in bf:
        if f is None: R.fail(AND(V, bf[f].g), 'builder struct', 'an extra field', None, None, R.srcs([], bf[f]))
    if R.only('C25'): r_order(R, order, 'builder fields')


def r_order(R, order, what):
    idx = {f: i for i, f in enumerate(R.fields())}
    seen = []
    for f, g in order:
        if f is None: continue
        for f2, g2 in seen:
            if idx[f2] > idx[f]: R.fail(AND(R.V, AND(g, g2)), what, 'not in declaration order', '%s before %s' % (f, f2), '%s before %s' % (f2, f))
        seen.append((f, g))
    R.ok(what, len(order))


@rule('C25')
def r_orders(R):
    X, S, V = R.X, R.S, R.V
    for k in ('setter', 'try', 'each'): r_order(R, [(f, g) for kk, f, g in X.order if kk == k], k + 's')
    for what, (skel, inner, m, order) in (('initialisers in build', R.inits()), ('initialisers in the empty constructor', R.empties())):
        ctx = AND(V, X.fn('build').g) if 'build' in what else V
        r_order(R, order, what)
        for f in R.fields():
            x = m.get(f) or Fnx(what, f)
            R.same(x.g, S.has(f), ctx, what + ' ' + f, 'initialiser of %s' % f)
            R.fail(AND(V, x.dup), what, 'field %s initialised twice' % f, None, None, R.srcs([], x))
            R.zone(x, 'name', only(('{%s!}' % f,)), ctx=ctx)
        for f in m:
            if f is None: R.fail(AND(V, m[f].g), what, 'an extra initialiser', None, None, R.srcs([], m[f]))


@rule('C25')
def r_independent(R):
    """nothing generated for one field depends on another field's options"""
    X, V = R.X, R.V
    parts = [(f, x) for (k, f), x in X.fns.items() if f is not None]
    for m in (R.bfields()[0], R.inits()[2], R.empties()[2]): parts += [(f, x) for f, x in m.items() if f is not None]
    pres = {}
    for f, x in parts:
        others = [o for o in R.fields() if o != f]
        if not others: continue
        foreign = pres.setdefault(f, foreign_pred(others))
        toks = [(x.g, x.kind, None)] + [t for z in x.zones.values() for t in front.flat(z)] + list(front.flat(x.body))
        done = set()
        for g, t, s in toks:
            if g in done: continue
            done.add(g)
            R.ok(R.site(x))
            a = AND(V, g)
            sup = mdd.support(g)
            if not any(foreign(k) for k in sup): continue
            # dependence on the other field beyond whether the whole input is accepted
            on, off = mdd.quant(a, foreign), mdd.quant(DIFF(V, g), foreign)
            R.fail(AND(on, off), R.site(x), 'depends on the options of %s' % '/'.join(others), None, t if isinstance(t, str) else '', R.srcs([(g, t, s)], x))


def foreign_pred(others):
    memo = {}

    def pred(k):
        r = memo.get(k)
        if r is None:
            s = repr(k)
            r = memo[k] = any("'%s." % o in s or "'%s@" % o in s or "'%s'" % o in s or "'%s:" % o in s for o in others)
        return r
    return pred


# ------------------------------------------------------------------ build
def default_names(R):
    names = set()
    b = R.X.fn('build')
    for g, t, s in front.flat(b.body): pass
    for seq in (R.variants(R.inits()[0], AND(R.V, b.g), 'skel') or {}):
        for i, t in enumerate(seq):
            if t == 'let' and i + 2 < len(seq): names.add(seq[i + 2] if seq[i + 1] == 'mut' else seq[i + 1])
    return names


def skel_run(seq):
    """ordered effects of the build body around the struct literal, for all ways through it. `f()?` and a match which returns
    the converted error are one thing: the way with the error ends there and is left out"""
    try: ps = rustx.paths(parse_block(seq), {}, {'self': ('obj', 'self')})
    except Unknown as e: return [not_understood(e, seq)]
    out = []
    for ev, v, how in ps:
        bad = [k for k, n, i in ev.taken if k[0] == 'res' and i == 1]
        if bad and v in (('err', ('into', ('errof', bad[-1][1]))), ('err', ('errof', bad[-1][1]))) and ev.events and ev.events[-1] == ('call',) + bad[-1][1][1:] and bad[-1][1][0] == 'called': continue
        k = skel_effects(ev, v)
        if k not in out: out.append(k)
    return out


def skel_effects(ev, v):
    out = []
    for e in ev.events:
        if e[0] == 'call': out.append(['call', e[1], e[2], 'ignored'])
        elif e[0] == 'try' and e[1][0] == 'called':
            for o in out:
                if o[0] == 'call' and o[1] == e[1][1] and o[3] == 'ignored': o[3] = '?'; break
            else: out.append(['?'])
        elif e[0] == 'user': out.append(['user', e[1]])
        elif e[0] == 'typed': out.append(['let', nt(e[2]), e[3]])
        elif e[0] in ('store', 'read', 'try', 'dread'): out.append(list(e[:1]))
    res = []
    for o in out:
        if o[0] == 'call': res.append(('call', o[1], tuple('self' if a[0] in ('obj', 'refobj') and a[1] == 'self' else repr(a) for a in o[2]), o[3]))
        else: res.append(tuple(o))
    if v[0] == 'ok' and v[1][0] == 'literal': tail = ('Ok', v[1][1], tuple(n for n, _ in v[1][2]))
    else: tail = ('returns', repr(v)[:200])
    return tuple(res) + (tail,)


@rule('C06', 'C05', 'C03', 'C28', 'C24', 'C04')
def r_build_body(R):
    X, S, V = R.X, R.S, R.V
    b = X.fn('build')
    c = AND(V, b.g)
    if c == F:
        R.fail(V, 'build', 'no build method found'); return
    vs = R.variants(R.inits()[0], c, 'skel')
    act = {}
    for seq, g in (vs or {}).items():
        for k in skel_run(seq): act[k] = OR(act.get(k, F), g)
    val = decide([(S.p('S.build_fn.validate'), (('call', '<Path:S.build_fn.validate>', ('self',), '?'),))], ())
    dcases = []
    tt = ('{T:ident!}', '<Generics:ty>')
    for g, v in S.default_kinds('S.default'):
        ev = ((('user', v[1]),) if v[0] == 'user' else ()) + (('let', tt, v),)
        dcases.append((g, ev))
    exp = product(val, decide(dcases, ()), (('Ok', ('{T:ident!}',), ('LITERAL',)),))
    R.compare(act if vs is not None else None, exp, c, R.site(b, 'body'), 'validation, struct default and result of build', R.srcs(b.body, b))


def init_run(seq, f, val, dnames):
    """what an initialiser evaluates to, reads and does, for all ways through it"""
    try:
        p = rustx.P(rustx.norm(seq))
        ast = p.expr()
        if not p.end(): raise Unknown('tokens after the expression')
        ps = rustx.paths(ast, {'{%s!}' % f: val}, dict([('self', ('obj', 'self'))] + [(d, ('struct', 'default')) for d in dnames]))
    except Unknown as e: return [not_understood(e, seq)]
    out = []
    for ev, v, how in ps:
        reads = tuple(sorted({e[2] for e in ev.events if e[0] == 'read'}))
        users = tuple(e[1] if e[0] == 'user' else 'Default::default' for e in ev.events if e[0] in ('user', 'dflt'))
        other = tuple(e[0] for e in ev.events if e[0] in ('store', 'call', 'try'))
        k = (how, v, reads, users) + other
        if k not in out: out.append(k)
    return out


@rule('C03', 'C04', 'C05', 'C07', 'C28', 'C08', 'C02', 'C12')
def r_inits(R):
    X, S, V = R.X, R.S, R.V
    skel, inner, m, order = R.inits()
    b = X.fn('build')
    dn = default_names(R)
    for f in R.fields():
        x = m.get(f)
        c = AND(AND(V, b.g), S.has(f))
        if x is None:
            R.fail(c, 'initialiser of %s' % f, 'no initialiser'); continue
        c = AND(c, x.g)
        fl = '{%s!}' % f
        vs = R.variants(x.zone('rest'), c, ('init', f))
        src = R.srcs(x.zone('rest'), x)
        hid, cb, ct = S.hidden(f), S.custom_build(f), S.custom_ty(f)
        v = ('val', f)
        dk = S.default_kinds(f + '.default')
        sd = S.p('S.default')
        sfield = ('sfield', 'default', fl)
        missing = ('return', ('err', ('into', ('uninit', ('lit', '"%s"' % fl)))))
        us = lambda d: (d[1],) if d[0] == 'user' else ('Default::default',) if d[0] == 'dflt' else ()
        bk = [(g, u) for g, u in S.default_kinds(f + '.field.build')]
        for case, val in (('with a value', ('some', v)), ('without a value', ('none',))):
            cases = []
            hd = [(g, ('value', d, (), us(d))) for g, d in dk] + [(sd, ('value', sfield, (), ())), (T, ('value', ('dflt',), (), us(('dflt',))))]
            for g, e in seq_cases(hd): cases.append((AND(hid, g), e))
            for g, u in bk: cases.append((AND(NOT(hid), g), ('value', u, (), us(u))))
            plain = DIFF(NOT(hid), cb)
            cases.append((AND(plain, ct), ('value', val, (fl,), ())))
            plain = DIFF(plain, ct)
            if val[0] == 'some':
                cases.append((AND(plain, S.spat('owned')), ('value', v, (fl,), ())))
                cases.append((plain, ('value', ('cloned', v), (fl,), ())))
            else:
                nd = [(g, ('value', d, (fl,), us(d))) for g, d in dk] + [(sd, ('value', sfield, (fl,), ())), (T, missing + ((fl,), ()))]
                for g, e in seq_cases(nd): cases.append((AND(plain, g), e))
            exp = {}
            for g, e in cases:
                g = DIFF(g, mdd.ORS(list(exp.values())))
                if g != F: exp[e] = OR(exp.get(e, F), g)
            act = {}
            for seq, g in (vs or {}).items():
                for k in init_run(seq, f, val, dn): act[k] = OR(act.get(k, F), g)
            R.compare(act if vs is not None else None, exp, c, 'initialiser of %s' % f, 'value of field %s %s' % (f, case), src)


def seq_cases(cs):
    rest = T
    for g, e in cs:
        x = AND(rest, g)
        if x != F: yield x, e
        rest = DIFF(rest, g)


@rule('C28')
def r_user_once(R):
    """every user expression appears exactly once, and only inside build"""
    X, S, V = R.X, R.S, R.V
    R.unsure = R.blurred()
    b = X.fn('build')
    terms = ['S.default'] + [t for f in R.fields() for t in (f + '.default', f + '.field.build')]
    for t in terms:
        toks = {S.block_str(t), '<Expr:%s.=>' % t}
        occ = [(g, s) for g, tok, s in front.flat(X.xs) if tok in toks]
        g1, g2 = F, F
        for g, s in occ:
            g2 = OR(g2, AND(g1, g)); g1 = OR(g1, g)
        R.ok('uses of ' + t, len(occ))
        R.fail(AND(V, g2), 'uses of ' + t, 'the expression appears more than once')
        inb = mdd.ORS([g for g, tok, s in front.flat(b.body) if tok in toks])
        R.fail(AND(V, DIFF(g1, inb)), 'uses of ' + t, 'the expression appears outside build')
        if t == 'S.default': want = AND(NOT(S.form(t, 'Path')), S.p(t))
        else:
            f = t.split('.')[0]
            want = DIFF(S.p(t), S.form(t, 'Path')) if 'Path' in S.forms(t) else S.p(t)
            want = AND(want, S.has(f))
            if t.endswith('build'): want = DIFF(want, S.hidden(f))
        R.same(g1, want, AND(V, b.g), 'uses of ' + t, 'the user expression %s' % t)
        other = mdd.ORS([g for g, tok, s in front.flat(X.xs) if isinstance(tok, str) and ("'%s.=" % t in tok or ':%s.=' % t in tok) and tok not in toks])
        R.fail(AND(V, other), 'uses of ' + t, 'a part of or a changed copy of the expression appears')


# ------------------------------------------------------------------ the empty builder
def results(seq, locals_, cls=Eval):
    """what a body without a builder in it evaluates to, for all ways through it"""
    out = []
    try:
        for ev, v, how in rustx.paths(parse_block(seq), {}, locals_, cls=cls):
            if v[0] == 'literal': v = ('literal', tuple(n for n, _ in v[2]), len(ev.events))
            elif v[0] == 'called': v = v[:3]
            out.append(v)
    except Unknown as e: out = [not_understood(e, seq)]
    return list(dict.fromkeys(out))


@rule('C22', 'C24')
def r_empty_body(R):
    X, S, V = R.X, R.S, R.V
    skel, inner, m, order = R.empties()
    c = X.fn('create_empty')
    ctx = AND(V, c.g)
    act = {}
    for seq, g in (R.variants(skel, ctx) or {}).items():
        for k in results(seq, {}): act[k] = OR(act.get(k, F), g)
    R.compare(act, {('literal', ('LITERAL',), 0): T}, ctx, R.site(c, 'body'), 'body of the empty constructor', R.srcs(c.body, c))
    for f in R.fields():
        x = m.get(f)
        if x is None:
            R.fail(AND(ctx, S.has(f)), R.site(c, f), 'field %s is not initialised' % f); continue
        h, ct = S.hidden(f), S.custom_ty(f)
        fresh = ('value', ('dflt',), (), ())
        act = {}
        for seq, g in (R.variants(x.zone('rest'), AND(ctx, x.g)) or {}).items():
            for k in init_run(seq, f, ('none',), ()):
                h2 = g
                if k == ('value', ('dflt',), (), ('Default::default',)): k = fresh
                elif k[:2] == ('value', ('none',)):
                    # None is the Default of an Option; a phantom field or one of the user's type is something else
                    h2 = AND(g, NOT(OR(h, ct)))
                    act[k] = OR(act.get(k, F), DIFF(g, h2)); k = fresh
                elif k[:2] == ('value', ('fn', 'ROOT::export::core::marker::PhantomData')) and DIFF(AND(ctx, g), h) == F: k = fresh
                act[k] = OR(act.get(k, F), h2)
        R.compare(act, {fresh: T}, AND(ctx, x.g), R.site(c, f), 'value of %s in a fresh builder' % f, R.srcs(x.zone('rest'), x))


@rule('C22', 'C24')
def r_default_impl(R):
    X, S, V = R.X, R.S, R.V
    d = [x for (k, f), x in X.fns.items() if k == 'Default::default']
    it = X.it('impl', 'Default')
    R.same(d[0].g if d else F, it.g, V, 'impl Default', 'fn default')
    if not d: return
    x = d[0]
    ctx = AND(V, x.g)
    act = {}
    for seq, g in (R.variants(x.body, ctx) or {}).items():
        for k in results(seq, {}): act[k] = OR(act.get(k, F), g)
    exp = {}
    for n, g in S.ctor_name().items(): exp[('called', 'Self::' + n[0], ())] = g
    R.compare(act, exp, ctx, 'impl Default/body', 'body of Default::default', R.srcs(x.body, x))


# ------------------------------------------------------------------ Clone
@rule('C12')
def r_clone(R):
    X, S, V = R.X, R.S, R.V
    st = X.it('struct')
    g = F
    for h, seq, s in R.attrs(st):
        if seq and seq[0] == 'derive' and 'Clone' in seq: g = OR(g, h)
    R.same(g, S.must_clone(), V, 'derives of the builder', '#[derive(Clone)]', R.srcs(st.zone('attrs'), st))
    for k, x in X.items.items():
        if k[0] == 'impl' and 'Clone' in [t for _, t in words(x.zone('trait'))]: R.fail(AND(V, x.g), R.site(x), 'an impl of Clone')
    need = S.impl_clone()
    path = core('clone', 'Clone')
    for gg, kind, txt, clones in X.gens:
        ctx = AND(V, gg)
        if ctx == F or kind == 'ty': continue
        for p in ('T', 'U'):
            term = 'G.%s:ident' % p
            got, extra = clones.get(term, (F, []))
            has = mdd.lit(('g', p), True)
            want = AND(need, has) if kind == 'impl' else F
            R.same(got, want, AND(ctx, has), '%s generics' % kind, 'Clone bound on %s' % p)
            for gx, e in extra:
                toks = bound_tokens(R, e)
                R.compare(R.variants(toks, AND(ctx, gx)), {path: T}, AND(ctx, gx), '%s generics' % kind, 'added bound of %s' % p)
    # unbounded where the impls need no Clone
    impl = [(gg, txt) for gg, kind, txt, _ in X.gens if kind == 'impl']
    R.same(mdd.ORS([g for g, _ in impl]), T, V, 'impl generics', 'generics of the impl blocks')
    clone_words = F
    for key in (('struct', ''), ('impl', ''), ('impl', 'Default')):
        x = X.it(*key)
        for z in ('generics', 'where', 'rest', 'self'):
            for g, t, s in front.flat(x.zone(z)):
                if t == 'Clone': clone_words = OR(clone_words, g)
    R.fail(AND(V, clone_words), 'builder headers', 'a Clone bound outside the type parameters')


def bound_tokens(R, e):
    """guarded tokens of a parsed trait bound"""
    out = []

    def walk(v):
        if not isinstance(v, tuple): return
        if v and v[0] == 'p' and len(v) >= 3 and isinstance(v[2], tuple):
            out.extend(front.crate_root(front.nest(v[2]), R.X.C)); return
        for x in v:
            if isinstance(x, tuple): walk(x)
    walk(e)
    return out


# ------------------------------------------------------------------ generics
@rule('C13')
def r_generics(R):
    X, S, V = R.X, R.S, R.V
    st = X.it('struct')
    R.zone(st, 'generics', only(('<Generics:decl>',)))
    w = mdd.lit(('g', 'where'), True)
    wh = {('<WhereClause:G.where>',): w, (): NOT(w)}
    R.zone(st, 'where', wh)
    R.zone(X.it('impl'), 'where', wh)
    R.zone(X.it('impl', 'Default'), 'where', wh)
    R.zone(X.it('impl'), 'rest', product(('<Generics:impl>',), self_ty(R)))
    R.zone(X.it('impl', 'Default'), 'trait', only(('<Generics:impl>',) + core('default', 'Default')))
    R.zone(X.it('impl', 'Default'), 'self', self_ty(R))
    R.zone(X.fn('build'), 'ret', product(('->',), core('result', 'Result'), ('<', '{T:ident!}', '<Generics:ty>', ','), S.error_type(), ('>',)))
    for gg, kind, txt, clones in X.gens:
        R.ok('%s generics' % kind)
        if txt != kind: R.fail(AND(V, gg), '%s generics' % kind, "not the target's parameters", kind, txt)
        if kind == 'decl' and clones: R.fail(AND(V, AND(gg, mdd.ORS([g for g, _ in clones.values()]))), 'decl generics', 'bounds added to the builder struct')
        if kind == 'impl':
            for t, (g, extra) in clones.items():
                for gx, e in extra:
                    vs = R.variants(bound_tokens(R, e), AND(AND(V, gg), gx)) or {}
                    for s, h in vs.items():
                        if 'Clone' not in s: R.fail(h, 'impl generics', 'a bound added to a parameter', None, s)


# ------------------------------------------------------------------ attributes
ATTR_CONTENT = {'doc': lambda t: ('doc', '=', '<Expr:%s.=>' % t), 'doc list': lambda t: ('doc', '(', '<tokens:%s.tokens>' % t, ')'),
                'cfg': lambda t: ('cfg', '(', '<tokens:%s.tokens>' % t, ')'),
                'allow': lambda t: ('allow', '(', '<tokens:%s.tokens>' % t, ')')}


def expected_attrs(R, base, names, own, shared):
    out = []
    for n in names:
        real = n.rstrip('0123456789')
        t = base + '@' + n
        if real in shared: out.append((R.X.I.given(t), ATTR_CONTENT['doc list' if n == 'doc2' else real](t)))
        elif real == own: out.append((R.X.I.given(t), ('<tokens:%s.tokens>' % t,)))
    return out


@rule('C16', 'C10', 'C11', 'C29')
def r_attrs(R):
    X, S, V = R.X, R.S, R.V
    if X.I.anyattr: return          # decided by r_any_attr: the attribute may be named like a documented one
    todo = []
    for f in R.fields():
        exp = expected_attrs(R, f, X.I.field_attrs, 'builder_setter_attr', ('doc', 'cfg', 'allow'))
        for k in ('setter', 'try', 'each'):
            if R.only('C10') and k != 'try' or R.only('C11') and k != 'each': continue
            todo.append((X.fn(k, f), exp))
        bf = R.bfields()[0].get(f)
        if bf and not R.only('C10') and not R.only('C11'):
            todo.append((bf, expected_attrs(R, f, X.I.field_attrs, 'builder_field_attr', ('doc', 'cfg', 'allow'))))
    if R.only('C16'):
        todo.append((X.it('struct'), expected_attrs(R, 'S', X.I.struct_attrs, 'builder_struct_attr', ('cfg', 'allow'))))
        todo.append((X.it('impl'), expected_attrs(R, 'S', X.I.struct_attrs, 'builder_impl_attr', ('cfg', 'allow'))))
    for x, exp in todo:
        c = AND(V, x.g)
        if c == F: continue
        at = R.attrs(x)
        act = [(h, seq) for h, seq, s in at if forwarded(seq)]
        bad = front.seq_diff(act, exp, c)
        R.ok(R.site(x, 'attributes'), len(exp))
        if bad != F:
            w = mdd.witness(bad)
            ev = lambda l: [' '.join(map(str, s)) for g, s in l if mdd.evaluate(g, w)]
            R.fail(bad, R.site(x, 'attributes'), 'forwarded attributes', ev(exp), ev(act), R.srcs(x.zone('attrs'), x))
    if not R.only('C16'): return
    allowed = set()
    for x, exp in todo: allowed |= {id(x)}
    for key, x in list(X.items.items()) + list(X.fns.items()):
        if id(x) in allowed: continue
        for h, seq, s in R.attrs(x):
            R.ok(R.site(x, 'attributes'))
            if forwarded(seq): R.fail(AND(V, h), R.site(x, 'attributes'), 'an input attribute was copied here', None, seq, R.srcs([(h, seq, s)], x))
    for f, x in list(R.inits()[2].items()) + list(R.empties()[2].items()):
        for h, seq, s in R.attrs(x): R.fail(AND(V, h), R.site(x, 'attributes'), 'an attribute on an initialiser', None, seq)
    inside = F
    for x in list(X.fns.values()):
        for g, t, s in front.flat(x.body):
            if isinstance(t, str) and '@' in t: R.fail(AND(V, g), R.site(x, 'body'), 'an input attribute inside a body', None, t)


@rule('C16')
def r_any_attr(R):
    """an attribute whose name is none of the documented ones appears nowhere"""
    X, V = R.X, R.V
    if not R.X.I.anyattr: return
    own = {'S': ('builder_struct_attr', 'builder_impl_attr', 'cfg', 'allow'), 'f': ('builder_field_attr', 'builder_setter_attr', 'doc', 'cfg', 'allow')}
    for g, t, s in X.xs_flat():
        if not isinstance(t, str): continue
        m = re.search(r'\b(S|f\d+)@any', t)
        if not m: continue
        R.ok('attribute of arbitrary name')
        ok = mdd.ORS([X.E.streq(('disp', m.group(1) + '@any:name'), n) for n in own[m.group(1)[0]]])
        R.fail(AND(V, DIFF(g, ok)), 'attribute of another name', 'an attribute that is not documented to be forwarded is copied', None, t, R.srcs([(g, t, s)]))


@rule('C29')
def r_docs(R):
    X, S, V = R.X, R.S, R.V

    def has(x, pred): return mdd.ORS([h for h, seq, s in R.attrs(x) if pred(seq)])
    doc = lambda s: s[:2] == ('doc', '=') and not forwarded(s) and len(s) == 3 and s[2] not in ('""', '" "')
    for x in (X.it('struct'), X.it('enum'), X.fn('build'), X.fn('create_empty')):
        R.same(has(x, doc), T, AND(V, x.g), R.site(x, 'doc'), 'doc comment of ' + R.name(x), R.srcs(x.zone('attrs'), x))
    if X.it('enum').g != F:
        vs = enum_variants(R)
        for n, (g, at) in vs.items():
            d = mdd.ORS([h for h, seq in at if doc(seq)])
            R.same(d, T, AND(V, g), 'error variant %s' % n, 'doc comment of variant ' + n)
    allow = lambda what: (lambda s: s[:2] == ('allow', '(') and s[-1] == ')' and not forwarded(s) and what in ' '.join(s[2:-1]).split(' , '))
    clippy = 'clippy' in R.config
    for x in (X.it('struct'), X.it('impl')):
        g = has(x, allow('clippy :: all'))
        R.same(g, F if clippy else T, AND(V, x.g), R.site(x, 'clippy'), '#[allow(clippy::all)] on ' + R.name(x), R.srcs(x.zone('attrs'), x))
    R.same(has(X.it('impl'), allow('dead_code')), T, V, 'impl/dead_code', '#[allow(dead_code)] on the impl', R.srcs(X.it('impl').zone('attrs'), X.it('impl')))
    for f in R.fields():
        for k in ('setter', 'each'):
            x = X.fn(k, f)
            if AND(V, x.g) == F: continue
            R.same(has(x, allow('unused_mut')), T, AND(V, x.g), R.site(x, 'unused_mut'), '#[allow(unused_mut)] on ' + R.name(x), R.srcs(x.zone('attrs'), x))


# ------------------------------------------------------------------ the error type
def enum_variants(R):
    """{variant: (guard, [(guard, attribute)])} plus payload tokens"""
    k = 'enumvars'
    if k in R.vcache: return R.vcache[k]
    out = {}
    R.enum_payload = {}
    for it in front.split_list(R.X.it('enum').body):
        name = None
        at, toks = [], []
        skip = False
        for g, t, s in it.head:
            if t == '#': skip = True; continue
            if skip and isinstance(t, G):
                for seq, h in (R.variants(t.xs, g) or {}).items(): at.append((h, seq))
                skip = False; continue
            if name is None: name = t
            else: toks.append((g, t, s))
        g0, a0 = out.get(name, (F, []))
        out[name] = (OR(g0, it.g), a0 + at)
        R.enum_payload.setdefault(name, []).append((it.g, toks, AND(g0, it.g)))
    R.vcache[k] = out
    return out


STATIC_STR = (('(', '&', "'", 'static', 'str', ')'), ('(', '&', "'static", 'str', ')'))


@rule('C21', 'C15', 'C20', 'C24')
def r_error_type(R):
    X, S, V = R.X, R.S, R.V
    en = X.it('enum')
    noalloc = 'noalloc' in R.config
    ge, va = S.gen_error(), S.validation()
    if noalloc: ge, va = DIFF(ge, va), F
    std = DIFF(ge, S.p('S.no_std'))
    for key, exp in ((('enum', ''), ge), (('impl', 'From:Uninit'), ge), (('impl', 'Display'), ge), (('impl', 'From:String'), va), (('impl', 'Error'), std)):
        x = X.it(*key)
        R.same(x.g, exp, V, R.site(x), {'enum': 'the generated error type'}.get(key[0], 'impl ' + key[1]), R.srcs([], x))
        R.fail(AND(V, x.dup), R.site(x), 'generated twice')
    if R.only('C15'): return
    if en.g == F: return
    vs = enum_variants(R)
    R.same(vs.get('UninitializedField', (F,))[0], en.g, V, 'error variants', 'variant UninitializedField')
    R.same(vs.get('ValidationError', (F,))[0], va, V, 'error variants', 'variant ValidationError')
    for n in vs:
        if n not in ('UninitializedField', 'ValidationError'): R.fail(AND(V, vs[n][0]), 'error variants', 'an extra variant', None, n)
    for n, want in (('UninitializedField', STATIC_STR), ('ValidationError', (('(',) + string_path() + (')',),))):
        for g, toks, dup in R.enum_payload.get(n, ()):
            R.fail(AND(V, dup), 'error variants', 'variant %s twice' % n)
            for seq, h in (R.variants(toks, AND(V, g)) or {}).items():
                R.ok('error variants')
                if seq not in want: R.fail(h, 'error variants', 'payload of ' + n, want[0], seq)
    if R.only('C20'): return
    der = nonex = F
    for h, seq, s in R.attrs(en):
        if seq[:1] == ('derive',) and 'Debug' in seq: der = OR(der, h)
        if seq == ('non_exhaustive',): nonex = OR(nonex, h)
    R.same(nonex, T, AND(V, en.g), 'enum/attribute', '#[non_exhaustive]')
    R.same(der, T, AND(V, en.g), 'enum/derive', '#[derive(Debug)]')
    R.zone(X.it('impl', 'From:Uninit'), 'trait', only(core('convert', 'From') + ('<', 'ROOT', '::', 'UninitializedFieldError', '>')))
    R.zone(X.it('impl', 'From:String'), 'trait', only(core('convert', 'From') + ('<',) + string_path() + ('>',)))
    R.zone(X.it('impl', 'Display'), 'trait', only(core('fmt', 'Display')))
    R.zone(X.it('impl', 'Error'), 'trait', only(('std', '::', 'error', '::', 'Error')))
    for k in ('From:Uninit', 'From:String', 'Display', 'Error'): R.zone(X.it('impl', k), 'self', S.error_name())
    # conversions keep their payload
    for k, ty, want in (('From:Uninit::from', ('ROOT', '::', 'UninitializedFieldError'), ('called', 'Self::UninitializedField', (('name of', ('arg',)),))),
                        ('From:String::from', string_path(), ('called', 'Self::ValidationError', (('arg',),)))):
        x = X.fn(k)
        R.same(x.g, X.it('impl', k.split('::')[0]).g, V, k, 'fn from')
        if AND(V, x.g) == F: continue
        vsp = R.variants(x.zone('params'), AND(V, x.g)) or {}
        names = set()
        for s, g in vsp.items():
            R.ok(k)
            if len(s) > 4 and s[2] == ':' and s[3:-1] == ty: names.add(s[1])
            else: R.fail(AND(V, g), k, 'parameter of from', ty, s)
        act = {}
        for seq, g in (R.variants(x.body, AND(V, x.g)) or {}).items():
            for v in results(seq, {n: ('arg',) for n in names}, ErrEval): act[v] = OR(act.get(v, F), g)
        R.compare(act, {want: T}, AND(V, x.g), k, 'conversion ' + k, R.srcs(x.body, x))
    # Display
    x = X.fn('Display::fmt')
    c = AND(V, x.g)
    R.same(x.g, X.it('impl', 'Display').g, V, 'Display', 'fn fmt')
    if c != F:
        act = {'UninitializedField': {}, 'ValidationError': {}}
        for seq, g in (R.variants(x.body, c) or {('?',): c}).items():
            try: arms = display_arms(seq)
            except Unknown as e:
                R.fail(g, 'Display/body', 'Display not understood: %s' % e, None, ' '.join(map(str, seq)), R.srcs(x.body, x)); continue
            for n, parts in arms.items():
                d = act.setdefault(n, {})
                d[parts] = OR(d.get(parts, F), g)
        R.compare(act['UninitializedField'], {('`', ('payload',), '` must be initialized'): T}, c, 'Display/UninitializedField', 'text of a missing field error', R.srcs(x.body, x))
        R.compare(act['ValidationError'], {(('payload',),): va}, c, 'Display/ValidationError', 'text of a validation error', R.srcs(x.body, x))
        R.same(mdd.ORS(list(act['UninitializedField'].values())), T, c, 'Display', 'arm UninitializedField')
        R.same(mdd.ORS(list(act['ValidationError'].values())), va, c, 'Display', 'arm ValidationError')


def string_path(): return ('ROOT', '::', 'export', '::', 'core', '::', 'string', '::', 'String')


class ErrEval(Eval):
    def method(self, r, n, args):
        if n == 'field_name' and not args and r == ('arg',): return ('name of', r)
        return Eval.method(self, r, n, args)


def display_arms(seq):
    ast = parse_block(seq)
    if ast[1] or ast[2] is None or ast[2][0] != 'match': raise Unknown('not one match')
    m = ast[2]
    sc = m[1]
    while sc[0] in ('deref', 'ref'): sc = sc[1] if sc[0] == 'deref' else sc[2]
    if sc != ('path', ('self',)): raise Unknown('scrutinee')
    out = {}
    for pat, cond, b in m[2]:
        while pat[0] == 'refpat': pat = pat[1]
        if cond is not None: raise Unknown('pattern')
        if pat[0] != 'tuple' or pat[1][0] != 'Self' or len(pat[2]) != 1 or pat[2][0][0] != 'bind': raise Unknown('pattern')
        out[pat[1][1]] = write_parts(b, pat[2][0][1])
    return out


def write_parts(b, bound):
    while b[0] == 'block' and not b[1] and b[2] is not None: b = b[2]
    if b[0] == 'macro' and b[1][-1] in ('write',):
        a, cur = [], []
        for t in b[2]:
            if t == ',': a.append(cur); cur = []
            else: cur.append(t)
        if cur: a.append(cur)
        if len(a) < 2 or a[0] != ['f']: raise Unknown('write arguments')
        fmt = a[1][0]
        if not (fmt.startswith('"') and fmt.endswith('"')): raise Unknown('format')
        fmt = fmt[1:-1]
        rest = a[2:]
        parts, i, txt, k = [], 0, '', 0
        while i < len(fmt):
            if fmt[i:i + 2] in ('{{', '}}'): txt += fmt[i]; i += 2; continue
            if fmt[i] == '{':
                j = fmt.index('}', i)
                spec = fmt[i + 1:j]
                if spec == '' or spec.isdigit():
                    n = k if spec == '' else int(spec)
                    if n >= len(rest): raise Unknown('argument')
                    arg = rest[n]; k += 1 if spec == '' else 0
                else: arg = [spec]
                if txt: parts.append(txt); txt = ''
                parts.append(('payload',) if arg == [bound] else ('arg', ' '.join(arg)))
                i = j + 1; continue
            txt += fmt[i]; i += 1
        if txt: parts.append(txt)
        return tuple(parts)
    if b[0] == 'call' and rustx.tail_of(b[1][1]).endswith('Display::fmt') and b[2] == (('path', (bound,)), ('path', ('f',))): return (('payload',),)
    if b[0] == 'mcall' and b[2] == 'fmt' and b[1] == ('path', (bound,)): return (('payload',),)
    raise Unknown('display arm')


# ------------------------------------------------------------------ paths
def all_tokens(R):
    """every token of the expansion, with the tokens inside added bounds"""
    for x in R.X.xs_flat(): yield x
    for gg, kind, txt, clones in R.X.gens:
        for t, (g, extra) in clones.items():
            for gx, e in extra:
                for g2, tok, s in front.flat(bound_tokens(R, e)): yield AND(gg, AND(gx, g2)), tok, s


LIBS = {'std', 'core', 'alloc', 'derive_builder', 'derive_builder_core', 'derive_builder_macro', 'proc_macro', 'export'}


def sequences(R):
    """runs of path tokens, with the guard of each whole run: [(guard, (segments))]"""
    return path_runs(R.X.xs, T) + [y for gg, kind, txt, clones in R.X.gens for t, (g, extra) in clones.items() for gx, e in extra
                                   for y in path_runs(bound_tokens(R, e), AND(gg, gx))]


def path_runs(xs, ctx):
    out = []
    cur = {(): ctx}          # current run -> guard

    def flush(run, g):
        if '::' in run: out.append((g, run))
    for g, t, s in xs:
        nxt = {}
        sub = None
        if isinstance(t, G):
            for run, gr in cur.items():
                a, b = AND(gr, g), DIFF(gr, g)
                if a != F:
                    flush(run, a); nxt[()] = OR(nxt.get((), F), a)
                if b != F: nxt[run] = OR(nxt.get(run, F), b)
            out.extend(path_runs(t.xs, AND(ctx, g)))
            cur = nxt
            continue
        part = t == '::' or t == 'ROOT' or rustx.is_ident(t) or t.startswith(('<Path:', '<Type:'))
        for run, gr in cur.items():
            a, b = AND(gr, g), DIFF(gr, g)
            if a != F:
                if not part: flush(run, a); k = ()
                elif t == '::' or (run and run[-1] == '::'): k = run + (t,)
                else: flush(run, a); k = (t,)
                nxt[k] = OR(nxt.get(k, F), a)
            if b != F: nxt[run] = OR(nxt.get(run, F), b)
        cur = nxt
    for run, g in cur.items(): flush(run, g)
    return out


@rule('C19')
def r_paths(R):
    X, S, V = R.X, R.S, R.V
    err = X.it('impl', 'Error')
    R.unsure = R.blurred()
    n = 0
    for g, run in sequences(R):
        g = AND(V, g)
        if g == F: continue
        n += 1
        if run[0] == 'ROOT': continue
        if run == ('std', '::', 'error', '::', 'Error'):
            if DIFF(g, err.g) == F: continue
        if run[0] == '::' or run[0] in LIBS or run[0] in ('crate', 'super', 'self'):
            R.fail(g, 'path ' + ''.join(run), 'a path that does not go through the crate root', 'ROOT...', run)
        elif run[0] in ('Self', 'VALUE', 'clippy') or run[0].startswith(('<Path:', '<Type:', '{')): continue
        elif run[0][0].isupper() and run[0] in ('Default', 'Into', 'Clone', 'Option', 'Result', 'Some', 'String', 'From', 'TryInto', 'Extend', 'PhantomData', 'Vec', 'UninitializedFieldError', 'Iterator', 'ToString'):
            R.fail(g, 'path ' + ''.join(run), 'an item of the library or of core named without the crate root', 'ROOT...', run)
    R.ok('paths', n)
    for g, t, s in all_tokens(R):
        if t in ('UninitializedFieldError', 'String', 'PhantomData'):
            pass
    # items of the library or of alloc that no prelude has
    for name in ('UninitializedFieldError', 'PhantomData', 'Formatter', 'Display'):
        tot = mdd.ORS([g for g, t, s in all_tokens(R) if t == name])
        via = mdd.ORS([g for g, run in sequences(R) if name in run and run[0] == 'ROOT'])
        R.fail(AND(V, DIFF(tot, via)), 'path to ' + name, 'named without the crate root', None, name)
    dollar = mdd.ORS([g for g, t, s in all_tokens(R) if t == 'derive_builder'])
    R.fail(AND(V, dollar), 'crate name', 'derive_builder is named apart from the default crate root')


@rule('C20')
def r_nostd(R):
    X, S, V = R.X, R.S, R.V
    noalloc = 'noalloc' in R.config
    std = mdd.ORS([g for g, t, s in all_tokens(R) if t == 'std' or t == 'alloc'])
    R.ok('std'); R.ok('String'); R.ok('alloc diagnostic')
    src = [x for x in all_tokens(R) if x[1] == 'std']
    R.fail(AND(V, AND(std, S.p('S.no_std'))), 'std', 'std or alloc is named in no_std mode', None, 'std', R.srcs(src))
    st = [(g, t, s) for g, t, s in all_tokens(R) if t in ('String', 'ToString', 'to_string', 'Vec', 'Box', 'format', 'vec', 'string') or isinstance(t, str) and t in ('to_owned', 'into_string')]
    sg = mdd.ORS([x[0] for x in st])
    R.fail(AND(V, DIFF(sg, S.validation())), 'String', 'String or another alloc item is named although no validation error is generated', None, sorted({x[1] for x in st}), R.srcs(st))
    if noalloc:
        R.fail(AND(V, sg), 'String', 'String is named although neither alloc nor std is enabled', None, None, R.srcs(st))
        R.same(X.diag, S.validation(), V, 'alloc diagnostic', 'the compile error asking for alloc')
    else: R.fail(AND(V, X.diag), 'alloc diagnostic', 'a compile error although alloc or std is enabled')


# ------------------------------------------------------------------ panics and unsafe in generated code
PANICKY = {'unwrap', 'expect', 'unwrap_err', 'expect_err', 'panic', 'unreachable', 'todo', 'unimplemented', 'assert', 'assert_eq', 'assert_ne', 'debug_assert',
           'unwrap_unchecked', 'get_unchecked', 'unreachable_unchecked', 'abort', 'exit', 'take', 'remove', 'split_at', 'copy_from_slice', 'swap', 'zeroed', 'transmute',
           'MaybeUninit', 'ManuallyDrop', 'borrow_mut', 'unwrap_or_else_panic'}
PANICKY -= {'take', 'swap', 'remove'}


@rule('C26')
def r_panics(R):
    X, V = R.X, R.V
    n = 0
    for g, t, s in all_tokens(R):
        n += 1
        if t == 'unsafe': R.fail(AND(V, g), 'token unsafe', 'generated code contains unsafe', None, t, R.srcs([(g, t, s)]))
        if t in PANICKY: R.fail(AND(V, g), 'token ' + t, 'generated code can panic', None, t, R.srcs([(g, t, s)]))
    for (k, f), x in X.fns.items():
        for pg, prev, g, t, s in groups(x.body, T):
            if t.d == '[]' and prev not in ('#', '!', None) and (rustx.is_ident(prev) or prev == ')'):
                R.fail(AND(V, g), R.site(x, 'body'), 'indexing in generated code', None, prev, R.srcs([(g, t, s)], x))
    R.ok('tokens', n)


def groups(xs, ctx):
    prev = None
    for g, t, s in xs:
        if isinstance(t, G):
            yield ctx, prev, g, t, s
            for y in groups(t.xs, g): yield y
            prev = ')'
        else: prev = t


# ------------------------------------------------------------------ rejection
@rule('C17')
def r_reject(R):
    X, S = R.X, R.S
    exp = mdd.ORS([g for n, g in S.rejected()])
    for n, g in S.rejected():
        R.ok(n)
        R.fail(DIFF(g, X.rej), n, 'the conflict is not reported', 'compile_error', 'accepted')
    bad = DIFF(X.rej, exp)
    R.ok('nothing else rejected')
    R.fail(bad, 'nothing else rejected', 'an input without a conflict is rejected', 'accepted', [errs(X, bad)])
    # a rejected input must not get code that looks as if it had been accepted
    R.fail(AND(exp, DIFF(NOT(X.rej), T)), 'rejected', '')


def errs(X, g):
    out = []

    def walk(v, d=0):
        if isinstance(v, tuple):
            if v and v[0] == 'custom': out.append(v[1])
            for x in v: walk(x, d + 1)
    for h, s in X.diags:
        if AND(h, g) != F: walk(s[1])
    return [str(x)[:100] for x in out][:5]


# ------------------------------------------------------------------ the macro itself does not panic
@rule('C18')
def r_nopanic(R):
    X = R.X
    R.ok('reachable panics', len(R.E.analysed))
    for g, m, w, st in R.E.panics:
        R.fail(g, 'panic in ' + (st[-1] if st else '?'), 'the macro panics: %s' % (m,), None, m, ['%s (%s)' % (w, ' < '.join(s.split('::')[-1] for s in reversed(st[-4:])))])
    R.fail(NOT(OR(X.term, mdd.ORS([p[0] for p in R.E.panics]))), 'termination', 'no result')


# ------------------------------------------------------------------ options reach the expansion
@rule('C31')
def r_reach(R):
    X, S, V = R.X, R.S, R.V
    R.unsure = R.hazy()
    sup = set()
    holes = set()
    for g, t, s in list(all_tokens(R)) + front.flat(X.plain):
        sup |= mdd.support(AND(V, g)) if g not in R.vcache else set()
        R.vcache[g] = 1
        if isinstance(t, str): holes.add(t)
    text = ' '.join(holes)
    for t, (spec, p) in S.voc.items():
        R.ok('option ' + t)
        kind = spec[0]
        if ('o', t) not in sup: R.fail(AND(V, p), 'option ' + t, 'presence of the option does not influence the expansion')
        if kind == 'bool' and ('val', t) not in sup: R.fail(AND(V, p), 'option ' + t, 'the value of the option does not influence the expansion')
        if kind in ('ident', 'path', 'vis', 'type', 'error', 'each'):
            if not any(x in text for x in ('{%s!}' % t, '{%s}' % t, ':%s>' % t, ':%s:' % t)): R.fail(AND(V, p), 'option ' + t, 'the value of the option does not appear in the expansion')
        if kind == 'expr' and t + '.=' not in text: R.fail(AND(V, p), 'option ' + t, 'the expression does not appear in the expansion')
        if kind == 'pattern' and ('str', t) not in sup: R.fail(AND(V, p), 'option ' + t, 'the value of the option does not influence the expansion')
    # derive(...) entries
    st = X.it('struct')
    for i, present in enumerate(X.I.derives()):
        want = AND(S.p('S.derive'), present)
        tok = '<Path:S.derive.%d>' % i
        g = mdd.ORS([h for h, seq, s in R.attrs(st) if seq[:1] == ('derive',) and tok in seq])
        R.same(g, want, V, 'derive list', 'derive entry %d' % i)


# ------------------------------------------------------------------ positions
@rule('C30')
def r_spans(R):
    X, S, V = R.X, R.S, R.V
    b = X.plain_build()
    ex = S.existing_error()
    n = 0
    for g, run, kids in err_groups(b, T):
        ctx = AND(V, AND(g, ex))
        if ctx == F: continue
        flat = front.flat(kids)
        names = {t for _, t, _ in flat if isinstance(t, str)}
        if 'UninitializedFieldError' not in names: continue
        toks = span_items(kids, T)
        for gi, what, sp in toks:
            gx = AND(ctx, gi)
            if gx == F: continue
            n += 1
            if what[:1] == '"': continue
            if not err_span(sp): R.fail(gx, 'error conversion', 'token %s of the conversion does not carry the position of the error path' % what, "the user's error path", sp, R.srcs([]))
    R.ok('tokens of the conversion', n)
    if n == 0 and AND(V, ex) != F and not R.hazy(): R.fail(AND(V, ex), 'error conversion', 'no conversion found')


def err_span(sp): return sp is not None and 'S.build_fn.error' in repr(sp)


def err_groups(xs, ctx):
    prev = None
    for g, t, s in xs:
        if isinstance(t, G):
            if prev == 'Err' and t.d == '()': yield AND(ctx, g), prev, t.xs
            for y in err_groups(t.xs, AND(ctx, g)): yield y
            prev = None
        else: prev = t


def span_items(xs, ctx):
    """[(guard, text, span)] of all tokens, groups included"""
    out = []
    for g, t, s in xs:
        if isinstance(t, G):
            out.append((AND(ctx, g), t.d, t.src[3] if len(t.src) > 3 else None))
            out.extend(span_items(t.xs, ctx))
        else:
            k = s[0]
            sp = s[2] if k in ('i', 'p', 'lit', 'lits') and len(s) > 2 else s[3] if k == 'h' else None
            out.append((AND(ctx, g), t, sp))
    return out


# ------------------------------------------------------------------ running
def run_rules(R, prop, skip=()):
    for props, f in RULES:
        if prop not in props or f.__name__ in skip: continue
        R.prop = prop; R.props = (prop,); R.cur = f.__name__; R.unsure = False
        f(R)
    return R
