"""Rules for the analyses whose symbolic input contains mistakes, and the rules that look at the library itself."""
from . import mdd, rules
from .mdd import T, F, AND, OR, NOT, DIFF
from .inputs import STRUCT, FIELD, Inputs

READ = {'S': ('builder_struct_attr1', 'builder_struct_attr2', 'builder_impl_attr1', 'builder_impl_attr2'),
        'f0': ('builder_field_attr1', 'builder_field_attr2', 'builder_setter_attr1', 'builder_setter_attr2')}
FORMS = ('List', 'Path', 'NameValue')


def misused(R):
    """[(name, guard)] of the documented mistakes in the misuse input, beyond Spec.rejected()"""
    S = R.S
    out = []
    t = 'S.build_fn.error'
    out.append(('error as a bare word', AND(S.p(t), S.form(t, 'Path'))))
    for base, names in READ.items():
        for n in names:
            a = '%s@%s' % (base, n)
            if base != 'S' and R.X.I.optional: continue
            bad = AND(mdd.lit(('o', a), True), NOT(mdd.lit(('form', a), 'List', FORMS)))
            out.append(('%s as %s' % (n.rstrip('12'), 'a word or name = value'), bad))
    out.append(('not a struct', NOT(mdd.lit(('data', 'kind'), 'struct', ('struct', 'enum', 'union')))))
    out.append(('no named fields', AND(mdd.lit(('data', 'kind'), 'struct', ('struct', 'enum', 'union')), NOT(mdd.lit(('data', 'fields'), 'named', ('named', 'tuple', 'unit'))))))
    return out


def wrong_rules(R, prop):
    R.prop = prop; R.props = (prop,)
    X, S = R.X, R.S
    name = R.run.name
    if prop == 'C18':
        R.cur = 'r_nopanic'
        rules.r_nopanic(R)
    elif prop == 'C17':
        R.cur = 'r_misuse'
        shape = AND(mdd.lit(('data', 'kind'), 'struct', ('struct', 'enum', 'union')), mdd.lit(('data', 'fields'), 'named', ('named', 'tuple', 'unit')))
        exp = [(n, AND(g, shape)) for n, g in S.rejected()] + misused(R)
        for n, g in exp:
            R.ok(n)
            R.fail(DIFF(g, X.rej), n, 'the mistake is not reported', 'compile_error', 'accepted')
        R.ok('nothing else rejected')
        tot = mdd.ORS([g for n, g in exp])
        bad = DIFF(X.rej, tot)
        R.fail(bad, 'nothing else rejected', 'an input without a conflict is rejected', 'accepted', [rules.errs(X, bad)])
    elif prop == 'C31':
        R.cur = 'r_vocabulary'
        if name == 'unknown':
            for b in sorted(x[:-8] for x in R.run.kw['wrong']):
                g = mdd.lit(('o', b + '!unknown'), True)
                if b in S.voc: g = AND(g, S.form(b, 'List') if len(S.forms(b)) > 1 else S.p(b))
                R.ok('unknown name in ' + b)
                R.fail(DIFF(g, X.rej), 'unknown name in ' + b, 'an unknown option is not reported', 'compile_error', 'accepted')
        elif name.startswith('vocab '): vocabulary(R, name[6:])


def vocab_of(base):
    voc = FIELD if base.split('.')[0] == 'f0' else STRUCT
    for part in base.split('.')[1:]:
        voc = dict((n, s) for n, s in voc)[part][2]
    return [n for n, s in voc]


def vocabulary(R, base):
    """the names an option of arbitrary name is compared with are the documented ones"""
    names = set()
    t = base + '!name'
    for key, dom in list(mdd.atoms.values()):
        if isinstance(key, tuple) and key[0] == 'streq' and t in repr(key[1]):
            names.add(key[2])
        if isinstance(key, tuple) and key[0] == 'str' and t in repr(key[1]): names |= set(map(str, dom))
    doc = set(vocab_of(base))
    R.ok('names read in ' + base, max(1, len(doc)))
    g = mdd.lit(('o', t), True)
    if not names: raise rules.Undecided('no name comparison found in %s' % base)
    for n in sorted(doc - names): R.fail(g, 'option %s.%s' % (base, n), 'the documented option is not accepted', n, sorted(names))
    for n in sorted(names - doc): R.fail(g, 'option %s.%s' % (base, n), 'an undocumented option is accepted', 'compile_error', n)
