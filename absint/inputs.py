"""The symbolic derive input: one abstract `syn::DeriveInput` standing for every struct with the documented options, each
option present or absent in every accepted spelling, two fields, every kind of generic parameter, and attributes of every
forwarded name. Terms: T:* the target, S.* struct options, f0.*/f1.* field options, fN:* the fields themselves, G.* generics,
X@name attributes."""
import re
from . import mdd
from .mdd import T, F, AND, OR, NOT
from .engine import UNIT, mkb, merge_vals, TRUE

WORD, NV, LIST = 'Path', 'NameValue', 'List'
BOOL = ('bool', (WORD, NV))
FLAG = ('flag', (WORD,))
IDENT = ('ident', (NV,))
VIS3 = (('public', FLAG), ('private', FLAG), ('vis', ('vis', (NV,))))
PATTERN = ('pattern', (NV,))

STRUCT = (
    ('name', IDENT), ('crate', ('path', (NV,))), ('pattern', PATTERN),
    ('build_fn', ('list', (LIST,), (
        ('skip', BOOL), ('name', IDENT), ('validate', ('path', (NV,))),
        ('error', ('error', (NV, LIST), (('validation_error', BOOL),))),
    ) + VIS3)),
    ('derive', ('pathlist', (LIST,))), ('custom_constructor', FLAG), ('create_empty', IDENT),
    ('setter', ('list', (LIST,), (('prefix', IDENT), ('into', BOOL), ('strip_option', BOOL), ('skip', BOOL)))),
    ('default', ('expr', (WORD, NV))),
) + VIS3 + (
    ('no_std', FLAG), ('try_setter', FLAG), ('field', ('list', (LIST,), VIS3)),
)
FIELD = (
    ('pattern', PATTERN),
) + VIS3 + (
    ('setter', ('list', (WORD, LIST), (('prefix', IDENT), ('name', IDENT), ('into', BOOL), ('strip_option', BOOL), ('skip', BOOL),
                                       ('custom', BOOL), ('each', ('each', (NV, LIST), (('name', IDENT), ('into', BOOL))))))),
    ('default', ('expr', (WORD, NV))), ('try_setter', FLAG),
    ('field', ('list', (LIST,), VIS3 + (('ty', ('type', (NV,))), ('build', ('expr', (NV,)))))),
)
LITS = ('Str', 'Bool', 'Int')
EXPRS = ('Lit', 'Paren', 'Macro')     # expressions: a literal, a parenthesised string, anything else
EXPRLITS = ('Str', 'Int')
PATTERNS = ('owned', 'mutable', 'immutable')

# spellings of a field type, for strip_option: (shape, segments or None, generic arguments, is an Option)
SHAPES = (
    ('plain', ('Foo',), 'none', False),
    ('Option', ('Option',), 'type', True),
    ('std::option::Option', ('std', 'option', 'Option'), 'type', True),
    ('core::option::Option', ('core', 'option', 'Option'), 'type', True),
    ('option::Option', ('option', 'Option'), 'type', False),
    ('alloc::option::Option', ('alloc', 'option', 'Option'), 'type', False),
    ('MyOption', ('MyOption',), 'type', False),
    ('std::vec::Vec', ('std', 'vec', 'Vec'), 'type', False),
    ('Option-bare', ('Option',), 'none', False),
    ('Option-empty', ('Option',), 'empty', False),
    ('Option-lifetime', ('Option',), 'lifetime', False),
    ('Option-fn', ('Option',), 'paren', False),
)


def a(key): return mdd.lit(key, True)


class Inputs:
    def __init__(self, E, fields=('f0', 'f1'), valid=True, optional_fields=False, shapes=None, wrong=(), reverse=False, anyattr=False, long=0):
        self.E = E
        self.fields = fields
        self.valid = valid
        self.wrong = wrong           # error modes switched on
        self.anyattr = anyattr       # one more attribute, of arbitrary name
        self.reverse = reverse       # options in reverse order, spread over two attributes
        self.lists = {}              # tokens term -> parent key
        self.long = long             # length of the lists of derives, attributes and type parameters, or 0
        more = lambda names: names + tuple(n.rstrip('1') + str(i) for i in range(3, long) for n in names if n[-1] == '1' or n == 'allow')
        self.struct_attrs, self.field_attrs = more(self.STRUCT_ATTRS), more(self.FIELD_ATTRS)
        E.inp = self
        self.optional = optional_fields
        self.present = {}            # option term -> guard of presence of the option in the source
        self.shapes = shapes or {}
        for t in E.T: pass
        self.ty = {}
        for i, t in enumerate(E.T):
            if t['k'] == 'adt': self.ty.setdefault(t['name'] if not t['a'] else t['s'], i)
        # fix the atom order: struct options first
        if 'shape' in self.wrong:
            mdd.var(('data', 'kind'), ('struct', 'enum', 'union')); mdd.var(('data', 'fields'), ('named', 'tuple', 'unit'))
        self.order('S', STRUCT)
        for f in fields: self.order(f, FIELD)

    def order(self, base, voc):
        if mdd.only is not None: return
        if not self.valid: a(('badlist', base + '.tokens'))
        for kind in ('unknown', 'lit', 'dup', 'name'):
            if base + '!' + kind in self.wrong: a(('o', base + '!' + kind))
        for name, spec in voc:
            t = base + '.' + name
            a(('o', t))
            if not self.valid:
                for k in ('bad', 'badlist', 'badparse'):
                    for x in {'bad': (t, t + '.=')}.get(k, (t + '.tokens',)): a((k, x))
            if t in self.wrong: mdd.var(('d', t + '.='), ('Lit', 'Macro')); mdd.var(('d', t + '.=#Lit.lit'), LITS)
            elif spec[0] == 'expr':
                mdd.var(('d', t + '.='), EXPRS)
                if name == 'default': mdd.var(('d', t + '.=#Lit.lit'), EXPRLITS)
            forms = (WORD, NV, LIST) if t in self.wrong else spec[1]
            if len(forms) > 1: mdd.var(('form', t), forms)
            if spec[0] == 'bool': a(('val', t))
            if spec[0] == 'pattern': mdd.var(('str', t), PATTERNS)
            if len(spec) > 2: self.order(t, spec[2])

    def t(self, name):
        return self.ty[name]

    # ---- structured values
    def struct(self, tyname, **fields):
        E = self.E
        ty = self.ty[tyname] if isinstance(tyname, str) else tyname
        vs = E.T[ty]['v'][0]['f']
        vals = []
        for n, fty in vs:
            if n in fields: vals.append(fields.pop(n))
            else: vals.append(E.sym((tyname, n), fty))
        assert not fields, fields
        return ('a', ty, 0, tuple(vals))

    def enum(self, tyname, variant, *payload):
        return self.E.adt(self.ty[tyname] if isinstance(tyname, str) else tyname, variant, payload)

    def opt(self, ty, g, v):
        E = self.E
        if g == T: return E.some(ty, v)
        if g == F: return E.none(ty)
        return ('u', ((g, E.some(ty, v)), (NOT(g), E.none(ty))))

    def path(self, names, span):
        E = self.E
        pty = self.ty['syn::Path']
        segty = self.ty['syn::PathSegment']
        argty = self.ty['syn::PathArguments']
        segs = []
        for n in (names if isinstance(names, tuple) and names[0] != 'disp' else (names,)):
            segs.append((T, ('a', segty, 0, (('id', (n,), ('span', span)), E.adt(argty, 'None')))))
        return ('a', pty, 0, (E.none(E.field_ty(pty, 0, 0)), ('l', tuple(segs))))

    def meta_word(self, name, span): return self.enum('syn::Meta', 'Path', self.path(name, span))

    def meta_list_v(self, name, tokterm, span):
        E = self.E
        ml = self.struct('syn::MetaList', path=self.path(name, span), delimiter=self.enum('syn::MacroDelimiter', 'Paren', ('y', ('paren', span), None)),
                         tokens=('k', ((T, ('h', tokterm, 'tokens', None)),)))
        return self.enum('syn::Meta', 'List', ml)

    def meta_nv(self, name, valterm, span):
        E = self.E
        nv = self.struct('syn::MetaNameValue', path=self.path(name, span), value=('y', valterm, self.ty['syn::Expr']))
        return self.enum('syn::Meta', 'NameValue', nv)

    # ---- option lists
    def meta_items(self, base, voc):
        """guarded NestedMeta items of one option list"""
        E = self.E
        nm = self.ty['darling::ast::NestedMeta']
        out = []
        for name, spec in (reversed(voc) if self.reverse else voc):
            t = base + '.' + name
            g = a(('o', t))
            if g == F: continue
            kind, forms = spec[0], spec[1]
            if t in self.wrong: forms = (WORD, NV, LIST)
            alts = []
            for f in forms:
                fg = T if len(forms) == 1 else mdd.lit(('form', t), f, forms)
                if f == WORD: v = self.meta_word(name, t)
                elif f == LIST:
                    v = self.meta_list_v(name, t + '.tokens', t)
                    self.lists[t + '.tokens'] = (t, spec)
                else:
                    v = self.meta_nv(name, t + '.=', t)
                    if t in self.wrong:
                        E.allowed[t + '.='] = ('Lit', 'Macro'); E.allowed[t + '.=#Lit.lit'] = LITS
                        if kind == 'pattern': E.strdom[t + '.=#Lit.lit#Str'] = (('str', t), PATTERNS)
                    else: self.value(t, kind)
                alts.append((fg, E.adt(nm, 'Meta', [v])))
            out.append((g, alts[0][1] if len(alts) == 1 else ('u', tuple(alts))))
        for kind in ('unknown', 'lit', 'dup', 'name'):
            if base + '!' + kind in self.wrong:
                g = a(('o', base + '!' + kind))
                if kind == 'unknown': out.append((g, E.adt(nm, 'Meta', [self.meta_word('no_such_option', base + '!unknown')])))
                elif kind == 'lit': out.append((g, E.adt(nm, 'Lit', [('y', base + '!lit', self.ty['syn::Lit'])])))
                elif kind == 'name': out.append((g, E.adt(nm, 'Meta', [self.meta_word(('disp', base + '!name'), base + '!unknown')])))
                else: out.extend([(AND(g, go), v) for go, v in out[:len(voc)]])
        return ('l', tuple(out))

    def value(self, t, kind):
        E = self.E
        e = t + '.='
        if kind == 'pattern':
            E.allowed[e] = ('Lit',); E.allowed[e + '#Lit.lit'] = ('Str',)
            E.strdom[e + '#Lit.lit#Str'] = (('str', t), PATTERNS)
        elif kind == 'expr':
            kinds = [v['n'] for v in E.T[self.ty['syn::Expr']]['v'] if v['n'] not in ('Lit', 'Paren')]
            lits = [v['n'] for v in E.T[self.ty['syn::Lit']]['v'] if v['n'] != 'Str']
            d = lambda n: mdd.lit(('d', e), n, EXPRS)
            E.inputs_disc[e] = [(d('Lit'), 'Lit'), (d('Paren'), 'Paren')] + [(AND(d('Macro'), mdd.lit(('exprkind', e), n, kinds)), n) for n in kinds]
            if t.endswith('.default'):
                l = lambda n: mdd.lit(('d', e + '#Lit.lit'), n, EXPRLITS)
                E.inputs_disc[e + '#Lit.lit'] = [(l('Str'), 'Str')] + [(AND(l('Int'), mdd.lit(('litkind', e), n, lits)), n) for n in lits]
            else: E.allowed[e + '#Lit.lit'] = ('Str',)
            E.allowed[e + '#Paren.expr'] = ('Lit',); E.allowed[e + '#Paren.expr#Lit.lit'] = ('Str',)

    def list_of(self, term):
        r = self.lists.get(term)
        if r is None: return None
        t, spec = r
        if spec[0] == 'pathlist': return None
        return self.meta_items(t, spec[2] if len(spec) > 2 else ())

    # ---- attributes
    def attr(self, term, name, form=LIST, tokens=None):
        E = self.E
        if form == LIST: m = self.meta_list_v(name, tokens or term + '.tokens', term)
        elif form == NV: m = self.meta_nv(name, term + '.=', term)
        else: m = self.meta_word(name, term)
        at = self.ty['syn::Attribute']
        style = E.adt(E.field_ty(at, 0, E.field_index(at, 'style')), 'Outer')
        return self.struct('syn::Attribute', style=style, meta=m, pound_token=('y', ('pound', term), E.field_ty(at, 0, 0)))

    def attrs(self, base, names, voc):
        out = []
        if self.anyattr: out.append((a(('o', base + '@any')), self.attr(base + '@any', ('disp', base + '@any:name'))))
        for n in names:
            if n == 'builder':
                term = base + '@builder'
                if self.reverse:
                    k = len(voc) // 2
                    self.lists[base + '.tokens2'] = (base, ('list', (LIST,), voc[k:]))
                    out.append((T, self.attr(term, 'builder', tokens=base + '.tokens2')))
                    voc = voc[:k]
                self.lists[base + '.tokens'] = (base, ('list', (LIST,), voc))
                out.append((a(('o', term)) if term in self.wrong else T, self.attr(term, 'builder', tokens=base + '.tokens')))
                continue
            term = base + '@' + n
            if self.given(term) == F: continue
            real = n.rstrip('0123456789')
            forms = NV if real == 'doc' and n != 'doc2' else LIST
            if term + '!form' in self.wrong:
                alts = tuple((mdd.lit(('form', term), f, (LIST, WORD, NV)), self.attr(term, real, f)) for f in (LIST, WORD, NV))
                v = ('u', alts)
            else: v = self.attr(term, real, forms)
            out.append((self.given(term), v))
        return ('l', tuple(out))

    def given(self, term):
        """presence of an attribute"""
        n = re.search(r'\d*$', term).group()
        return T if n and int(n) > 2 else a(('o', term))

    def derives(self):
        return [mdd.lit(('has', 'S.derive.%d' % i), True) if i < 2 else T for i in range(max(2, self.long))]

    STRUCT_ATTRS = ('builder_impl_attr1', 'doc', 'allow', 'builder_struct_attr1', 'builder', 'cfg', 'zzz', 'builder_field_attr', 'builder_struct_attr2', 'builder_impl_attr2')
    FIELD_ATTRS = ('builder_setter_attr1', 'doc1', 'builder_field_attr1', 'cfg', 'builder', 'zzz', 'allow', 'builder_struct_attr', 'builder_field_attr2', 'builder_setter_attr2', 'doc2')

    # ---- the input
    def generics(self):
        E = self.E
        gp = self.ty['syn::GenericParam']
        tp = self.ty['syn::TypeParam']
        ps = [(a(('g', 'lt')), E.adt(gp, 'Lifetime', [('y', 'G.lt', E.field_ty(gp, 0, 0))]))]
        for n in tuple('P%d' % i for i in range(self.long)) + ('T', 'U'):
            ident = ('y', 'G.%s:ident' % n, E.field_ty(tp, 0, 1))
            v = self.struct('syn::TypeParam', attrs=('l', ()), ident=ident,
                            bounds=('l', ((T, ('splat', 'G.%s.bounds' % n, E.T[E.field_ty(tp, 0, 3)]['a'][0])),)),
                            default=('y', 'G.%s.default' % n, E.field_ty(tp, 0, 5)))
            ps.append((a(('g', n)) if n in 'TU' else T, E.adt(gp, 'Type', [v])))
        ps.append((a(('g', 'const')), E.adt(gp, 'Const', [('y', 'G.const', E.field_ty(gp, 2, 0))])))
        gt = self.ty['syn::Generics']
        wty = E.field_ty(gt, 0, E.field_index(gt, 'where_clause'))
        w = self.opt(wty, a(('g', 'where')), ('y', 'G.where', E.field_ty(wty, 1, 0)))
        return self.struct('syn::Generics', params=('l', tuple(p for p in ps if p[0] != F)), where_clause=w)

    def field(self, f):
        E = self.E
        ft = self.ty['syn::Field']
        ity = E.field_ty(ft, 0, E.field_index(ft, 'ident'))
        self.types(f + ':ty', f, self.shapes.get(f))
        self.types(f + '.field.ty', f + '.field.ty', ('plain', 'Option', 'ref'))
        return self.struct('syn::Field', attrs=self.attrs(f, self.field_attrs, FIELD), vis=('y', f + ':vis', self.ty['syn::Visibility']),
                           ident=E.some(ity, ('y', f, E.field_ty(ity, 1, 0))), ty=('y', f + ':ty', self.ty['syn::Type']))

    def types(self, term, f, shapes=None):
        """a type with every relevant spelling"""
        E = self.E
        shapes = shapes or [s[0] for s in SHAPES] + ['qself', 'ref']
        key = ('shape', f)
        dom = tuple(shapes)
        sh = {s[0]: s for s in SHAPES}
        kinds = [v['n'] for v in E.T[self.ty['syn::Type']]['v'] if v['n'] != 'Path']      # a type that is not a path
        pathy = [s for s in shapes if s in sh or s == 'qself']
        tyT = self.ty['syn::Type']
        E.inputs_disc[term] = [(mdd.isin(key, pathy, dom), 'Path')] + ([(AND(mdd.isin(key, ['ref'], dom), mdd.lit(('typekind', f), n, kinds)), n) for n in kinds] if 'ref' in shapes else [])
        tp = term + '#Path'
        qty = E.field_ty(self.ty['syn::TypePath'], 0, 0)
        q = mdd.isin(key, ['qself'], dom) if 'qself' in shapes else F
        E.inputs[tp + '.qself'] = self.opt(qty, q, ('y', tp + '.qself!', E.field_ty(qty, 1, 0)))
        segty = self.ty['syn::PathSegment']
        argty = self.ty['syn::PathArguments']
        items = []
        for n in ['qself'] * ('qself' in shapes) + [s for s in shapes if s in sh]:
            g = mdd.isin(key, [n], dom)
            _, segs, args, _ = sh.get(n) or (n, ('Option',), 'type', False)
            for i, s in enumerate(segs):
                av = E.adt(argty, 'None')
                if i == len(segs) - 1 and args in ('type', 'lifetime', 'empty'):
                    ab = self.ty['syn::AngleBracketedGenericArguments']
                    ga = self.ty['syn::GenericArgument']
                    arg = E.adt(ga, 'Type', [('y', f + ':inner', tyT)]) if args == 'type' else E.adt(ga, 'Lifetime', [('y', f + ':lt', E.field_ty(ga, 0, 0))])
                    av = E.adt(argty, 'AngleBracketed', [self.struct('syn::AngleBracketedGenericArguments', args=('l', ((T, arg),) if args != 'empty' else ()))])
                elif i == len(segs) - 1 and args == 'paren':
                    av = E.adt(argty, 'Parenthesized', [('y', f + ':paren', E.field_ty(argty, 2, 0))])
                items.append((g, ('a', segty, 0, (('id', (s,), ('span', term)), av))))
        E.inputs[tp + '.path.segments'] = ('l', tuple(items))

    def derive_input(self):
        E = self.E
        di = self.ty['syn::DeriveInput']
        fs = []
        for i, f in enumerate(self.fields):
            fs.append((a(('has', f)) if self.optional else T, self.field(f)))
        named = self.struct('syn::FieldsNamed', named=('l', tuple(fs)))
        fields = self.enum('syn::Fields', 'Named', named)
        if 'shape' in self.wrong:
            dom = ('named', 'tuple', 'unit')
            un = self.struct('syn::FieldsUnnamed', unnamed=('l', ()))
            fields = ('u', ((mdd.lit(('data', 'fields'), 'named', dom), fields), (mdd.lit(('data', 'fields'), 'tuple', dom), self.enum('syn::Fields', 'Unnamed', un)),
                            (mdd.lit(('data', 'fields'), 'unit', dom), self.enum('syn::Fields', 'Unit'))))
        data = self.enum('syn::Data', 'Struct', self.struct('syn::DataStruct', fields=fields))
        if 'shape' in self.wrong:
            dt = self.ty['syn::Data']
            dom = ('struct', 'enum', 'union')
            en = self.struct('syn::DataEnum', variants=('l', ()))
            un = ('y', 'T:union', E.field_ty(dt, 2, 0))
            data = ('u', ((mdd.lit(('data', 'kind'), 'struct', dom), data), (mdd.lit(('data', 'kind'), 'enum', dom), E.adt(dt, 'Enum', [en])),
                          (mdd.lit(('data', 'kind'), 'union', dom), E.adt(dt, 'Union', [un]))))
        return self.struct('syn::DeriveInput', attrs=self.attrs('S', self.struct_attrs, STRUCT), vis=('y', 'T:vis', self.ty['syn::Visibility']),
                           ident=('y', 'T:ident', self.ty['proc_macro2::Ident']), generics=self.generics(), data=data)
