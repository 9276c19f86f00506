"""What the documentation promises, as guards over the options of the symbolic input. Independent of the macro's source."""
from . import mdd
from .mdd import T, F, AND, ANDS, OR, NOT, DIFF, ITE
from .inputs import STRUCT, FIELD, PATTERNS, WORD, NV, LIST, SHAPES, EXPRS, EXPRLITS

ROOT_OPT = ('ROOT', '::', 'export', '::', 'core', '::')


def core(*segs):
    out = list(ROOT_OPT)
    for i, s in enumerate(segs):
        if i: out.append('::')
        out.append(s)
    return tuple(out)


OPTION = core('option', 'Option')


def decide(cases, other=None):
    """decision list [(condition, sequence)] -> {sequence: guard}"""
    out = {}
    rest = T
    for c, s in cases:
        g = AND(rest, c)
        if g != F: out[s] = OR(out.get(s, F), g)
        rest = DIFF(rest, c)
    if rest != F and other is not None: out[other] = OR(out.get(other, F), rest)
    return out


def product(*ds):
    """concatenation of independent guarded sequences"""
    out = {(): T}
    for d in ds:
        nxt = {}
        for s, g in out.items():
            for s2, g2 in (d.items() if isinstance(d, dict) else ((tuple(d), T),)):
                x = AND(g, g2)
                if x != F: nxt[s + s2] = OR(nxt.get(s + s2, F), x)
        out = nxt
    return out


class Spec:
    def __init__(self, I):
        self.fields = I.fields
        self.wrong = I.wrong
        self.voc = {}
        self.index('S', STRUCT, T)
        for f in I.fields:
            self.index(f, FIELD, mdd.lit(('has', f), True) if I.optional else T)
        self.I = I

    def index(self, base, voc, g):
        for name, spec in voc:
            t = base + '.' + name
            p = AND(g, mdd.lit(('o', t), True))
            self.voc[t] = (spec, p)
            if len(spec) > 2:
                forms = self.forms(t)
                pl = p if len(forms) == 1 else AND(p, mdd.lit(('form', t), LIST, forms))
                self.index(t, spec[2], pl)

    def forms(self, t):
        return (WORD, NV, LIST) if t in self.wrong else self.voc[t][0][1]

    # ---- options
    def p(self, t): return self.voc[t][1]

    def form(self, t, f):
        fs = self.forms(t)
        return self.p(t) if len(fs) == 1 else AND(self.p(t), mdd.lit(('form', t), f, fs))

    def on(self, t):
        """a boolean option given as true"""
        return AND(self.p(t), OR(self.form(t, WORD), mdd.lit(('val', t), True)) if len(self.forms(t)) > 1 else T)

    def over(self, f, name):
        """field-level boolean over the struct-level one, false if neither"""
        a, b = '%s.%s' % (f, name), 'S.%s' % name
        return ITE(self.p(a), self.on(a), self.on(b))

    # ---- derived
    def pattern(self, t, p, dflt):
        x = mdd.lit(('str', t + '.pattern'), p, PATTERNS)
        return ITE(self.p(t + '.pattern'), x, dflt)

    def spat(self, p): return self.pattern('S', p, T if p == 'mutable' else F)
    def fpat(self, f, p): return self.pattern(f, p, self.spat(p))

    def vis(self, base): return [(self.p(base + '.public'), ('pub',)), (self.p(base + '.private'), ()), (self.p(base + '.vis'), ('<Visibility:%s.vis>' % base,))]

    def conflict(self, base):
        a, b, c = (self.p('%s.%s' % (base, n)) for n in ('public', 'private', 'vis'))
        return OR(AND(a, b), OR(AND(a, c), AND(b, c)))

    def field_enabled(self, f):
        """not hidden"""
        s = f + '.setter'
        bare = self.form(s, WORD)
        gen = mdd.ORS([self.p('%s.%s' % (s, n)) for n in ('prefix', 'name', 'into', 'strip_option', 'each')])
        up = NOT(self.on('S.setter.skip'))
        return ITE(bare, T, ITE(self.p(s + '.skip'), NOT(self.on(s + '.skip')), ITE(gen, T, up)))

    def hidden(self, f): return NOT(self.field_enabled(f))
    def setter(self, f): return AND(self.field_enabled(f), NOT(self.on(f + '.setter.custom')))
    def trys(self, f): return AND(self.setter(f), OR(self.p(f + '.try_setter'), self.p('S.try_setter')))
    def each(self, f): return AND(self.setter(f), self.p(f + '.setter.each'))
    def custom_ty(self, f): return self.p(f + '.field.ty')
    def custom_build(self, f): return self.p(f + '.field.build')

    def is_option(self, shape_key):
        if not mdd.known(('shape', shape_key)): return F
        dom = mdd.domain(('shape', shape_key))
        return mdd.isin(('shape', shape_key), [s[0] for s in SHAPES if s[3] and s[0] in dom], dom)

    def stripped(self, f):
        opt = ITE(self.custom_ty(f), self.is_option(f + '.field.ty'), self.is_option(f))
        return AND(self.over(f, 'setter.strip_option'), opt)

    def into(self, f): return self.over(f, 'setter.into')

    def argty(self, f):
        """type a setter takes before Into, as tokens"""
        st = self.stripped(f)
        c = self.custom_ty(f)
        return decide([(AND(c, st), ('<Type:%s.field.ty:inner>' % f,)), (c, ('<Type:%s.field.ty>' % f,)), (st, ('<Type:%s:inner>' % f,))], ('<Type:%s:ty>' % f,))

    def setter_name(self, f, tryp=False):
        w = (lambda s, frag: 'try_' + frag) if tryp else (lambda s, frag: s)
        return decide([(self.p(f + '.setter.name'), (w('{%s.setter.name!}' % f, '{%s.setter.name}' % f),)),
                       (self.p(f + '.setter.prefix'), (w('{%s.setter.prefix}_{%s}' % (f, f), '{%s.setter.prefix}_{%s}' % (f, f)),)),
                       (self.p('S.setter.prefix'), (w('{S.setter.prefix}_{%s}' % f, '{S.setter.prefix}_{%s}' % f),))],
                      (w('{%s!}' % f, '{%s}' % f),))

    def each_name(self, f):
        return decide([(self.form(f + '.setter.each', NV), ('{%s.setter.each!}' % f,))], ('{%s.setter.each.name!}' % f,))

    def setter_vis(self, f): return decide(self.vis(f) + self.vis('S'), ('pub',))
    def builder_vis(self): return decide(self.vis('S'), ('<Visibility:T:vis>',))
    def build_vis(self): return decide(self.vis('S.build_fn') + self.vis('S'), ('<Visibility:T:vis>',))
    def field_vis(self, f): return decide(self.vis(f + '.field') + [(self.hidden(f), ())] + self.vis('S.field'), ())
    def builder_name(self): return decide([(self.p('S.name'), ('{S.name!}',))], ('{T:ident}Builder',))
    def existing_error(self): return self.form('S.build_fn.error', NV)
    def error_name(self): return decide([(self.p('S.name'), ('{S.name}Error',))], ('{T:ident}BuilderError',))

    def error_type(self):
        return decide([(self.existing_error(), ('<Path:S.build_fn.error>',)), (self.p('S.name'), ('{S.name}Error',))], ('{T:ident}BuilderError',))

    def gen_error(self): return NOT(self.existing_error())

    def validation_off(self):
        t = 'S.build_fn.error.validation_error'
        return AND(self.p(t), NOT(self.on(t)))

    def validation(self): return AND(self.gen_error(), NOT(self.validation_off()))
    def build_name(self): return decide([(self.p('S.build_fn.name'), ('{S.build_fn.name!}',))], ('build',))
    def ctor_name(self): return decide([(self.p('S.create_empty'), ('{S.create_empty!}',))], ('create_empty',))
    def has_build(self): return NOT(self.on('S.build_fn.skip'))
    def field_ty(self, f):
        h = self.hidden(f)
        return decide([(h, core('marker', 'PhantomData') + ('<', '<Type:%s:ty>' % f, '>')), (self.custom_ty(f), ('<Type:%s.field.ty>' % f,))],
                      OPTION + ('<', '<Type:%s:ty>' % f, '>'))

    def impl_clone(self): return mdd.ORS([NOT(self.spat('owned'))] + [AND(self.has(f), AND(self.setter(f), self.fpat(f, 'immutable'))) for f in self.fields])
    def must_clone(self): return mdd.ORS([NOT(self.spat('owned'))] + [AND(self.has(f), NOT(self.fpat(f, 'owned'))) for f in self.fields])
    def has(self, f): return mdd.lit(('has', f), True) if self.I.optional else T

    # ---- expressions
    def block_str(self, t): return "<Block:('parse', 'Block', ('s', ('{', ('disp', '%s.=#Lit.lit#Str'), '}')))>" % t

    def expr_lit(self, t):
        """the option is given as a string"""
        if t in self.I.wrong: return AND(self.form(t, NV), mdd.lit(('d', t + '.='), 'Lit', ('Lit', 'Macro')))
        g = mdd.lit(('d', t + '.='), 'Lit', EXPRS)
        return ANDS([self.form(t, NV), g, mdd.lit(('d', t + '.=#Lit.lit'), 'Str', EXPRLITS) if t.endswith('.default') else T])

    def default_kinds(self, t):
        """[(guard, value)] of a default-like option: evaluator value of the expression"""
        return [(AND(self.p(t), self.form(t, WORD)) if WORD in self.forms(t) else F, ('dflt',)), (self.expr_lit(t), ('user', self.block_str(t))),
                (DIFF(self.form(t, NV), self.expr_lit(t)), ('user', '<Expr:%s.=>' % t))]

    def empty(self, t):
        k = ('empty', ('.', ('parse', 'Block', ('s', ('{', ('disp', t + '.=#Lit.lit#Str'), '}'))), 'stmts'))
        return AND(self.expr_lit(t), mdd.lit(k, True)) if mdd.known(k) else F

    # ---- rejection
    def rejected(self):
        """[(name, guard)] of the documented conflicts and meaningless options"""
        out = []
        for b in ['S', 'S.build_fn', 'S.field']: out.append(('public/private/vis together in %s' % b, self.conflict(b)))
        for f in self.fields:
            for b in [f, f + '.field']: out.append(('public/private/vis together in %s' % b, AND(self.has(f), self.conflict(b))))
            out.append(('default with field(ty) on %s' % f, AND(self.p(f + '.default'), self.custom_ty(f))))
            out.append(('default with field(build) on %s' % f, AND(self.p(f + '.default'), self.custom_build(f))))
            for t in ('default', 'field.build'): out.append(('empty %s on %s' % (t, f), AND(self.has(f), self.empty(f + '.' + t))))
        out.append(('empty struct default', self.empty('S.default')))
        out.append(('validate with validation_error = false', AND(self.p('S.build_fn.validate'), self.validation_off())))
        # mandatory parts of the list forms
        out.append(('error() without validation_error', DIFF(self.form('S.build_fn.error', LIST), self.p('S.build_fn.error.validation_error'))))
        for f in self.fields: out.append(('each() without name on %s' % f, DIFF(self.form(f + '.setter.each', LIST), self.p(f + '.setter.each.name'))))
        return out
