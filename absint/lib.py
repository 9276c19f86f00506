"""Rules on the library itself rather than on the expansion: effects over the resolved call graph, the proc-macro entry point,
the runtime error type, feature forwarding, unsafe code."""
import glob, os, re, shutil, time, tomllib
from . import build, load, mdd, models
from .mdd import T, F
from .engine import Engine, St, Undecided, Restart
from .expand import engine

REPO = build.REPO


class Rep:
    def __init__(self, prop, name, what):
        self.prop = prop; self.rule = name; self.t = time.time()
        self.out = {'run': name, 'config': 'source', 'what': what, 'fields': 0, 'obligations': 0, 'findings': [], 'undecided': None, 'stats': {}, 'sites': [], 'functions': []}

    def ok(self, site, n=1):
        self.out['obligations'] += n
        if site not in self.out['sites']: self.out['sites'].append(site)

    def fail(self, site, msg, exp=None, got=None, src=(), definite=True):
        key = '%s/%s: %s' % (self.rule, site, msg)
        if any(f['key'] == key for f in self.out['findings']): return
        self.out['findings'].append({'key': key, 'rule': self.rule, 'site': site, 'message': msg, 'expected': None if exp is None else str(exp)[:800], 'got': None if got is None else str(got)[:800],
                                     'source': [str(s) for s in src], 'definite': definite, 'input': [], 'conditions': {}, 'more': 0, 'run': self.rule, 'config': 'source'})

    def undecided(self, why): self.out['undecided'] = why if not self.out['undecided'] else self.out['undecided'] + '; ' + why

    def done(self):
        self.out['seconds'] = round(time.time() - self.t, 2)
        return self.out


def run(f, prop, tier):
    R = Rep(prop, f.__name__, (f.__doc__ or '').strip())
    try: f(R, tier)
    except build.BuildError: raise
    except Undecided as e: R.undecided('not decided: %s' % str(e)[:400])
    except Restart as e: R.undecided('not decided: %s' % str(e)[:400])
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        R.undecided('analysis failed: %s: %s at %s' % (type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-3:]))))
    return R.done()


def dumped(pkg, features=(), default=True, crate=None):
    p = build.dump(pkg, features, default=default, crate=crate)
    try:
        s = open(p).read()
        if not default: s = re.sub(r'\bcore::(?=(fmt|convert|clone|option|result|ops|default|string|str)::)', 'std::', s)
        with open(p, 'w') as f: f.write(s)
        return load.load(p)
    finally: shutil.rmtree(os.path.dirname(p), ignore_errors=True)


# ------------------------------------------------------------------ C27
def strings(E, st, v):
    from .models import strv
    return strv(E, st, v)


def r_uninit_error(R, tier):
    """UninitializedFieldError's constructors, accessor, Display, Clone interpreted for a symbolic name, per feature set"""
    NAME = ('s', (('disp', 'NAME'),))
    for label, feats, dflt in (('std', (), True), ('no features', (), False), ('alloc', ('alloc',), False), ('std and alloc', ('alloc',), True)):
        d = dumped('derive_builder', feats, dflt)
        fns = {}
        for i, f in enumerate(d['fns']):
            if f['local'] and 'blocks' in f and 'UninitializedFieldError' in f['name']:
                n = f['name']
                k = 'display' if ' as std::fmt::Display>::fmt' in n else 'debug' if ' as std::fmt::Debug>' in n else 'clone' if n.endswith(' as std::clone::Clone>::clone') else 'from' if 'From<&' in n and n.endswith('::from') else n.split('::')[-1]
                fns[k] = i
        site = 'UninitializedFieldError (%s)' % label
        for k in ('new', 'field_name', 'from', 'display'):
            if k not in fns: R.fail(site + '/' + k, 'the function is missing', k, sorted(fns))
        R.out['functions'] += [d['fns'][i]['name'] for i in fns.values()]
        impl = any('Error"' in x and 'UninitializedFieldError' in x and 'error::Error' in x for x in d['impls'])
        R.ok(site + '/Error')
        if 'std' in label and not impl: R.fail(site + '/Error', 'std::error::Error is not implemented', 'impl Error', d['impls'])

        def interpret(k, args):
            mdd.reset()
            E = engine(d)
            E.origin = {}
            st = St(T, {})
            a = [x(E, st) for x in args]
            s, v = E.run(st, fns[k], a)
            if E.panics: R.fail(site + '/' + k, 'the function can panic', None, E.panics[0][1], [E.panics[0][2]])
            return E, s, v, a
        for ctor in ('new', 'from'):
            if ctor not in fns: continue

            def value(E, st):
                s, v = E.run(st, fns[ctor], [NAME])
                if v is None: raise Undecided('%s does not return' % ctor)
                return E.new_cell(st, v)
            if 'field_name' in fns:
                R.ok('%s/%s then field_name' % (site, ctor))
                E, s, v, a = interpret('field_name', [value])
                got = strings(E, s, v)
                if got != NAME: R.fail('%s/%s then field_name' % (site, ctor), 'the name is not kept', 'NAME', got, definite=decided(got))
            if 'clone' in fns and 'field_name' in fns:
                R.ok('%s/%s clone field_name' % (site, ctor))

                def cloned(E, st):
                    s, v = E.run(st, fns['clone'], [value(E, st)])
                    return E.new_cell(st, v)
                E, s, v, a = interpret('field_name', [cloned])
                got = strings(E, s, v)
                if got != NAME: R.fail('%s/%s clone field_name' % (site, ctor), 'the name is not kept by clone', 'NAME', got, definite=decided(got))
            if 'display' in fns:
                R.ok('%s/%s then Display' % (site, ctor))
                E, s, v, a = interpret('display', [value, lambda E, st: E.new_cell(st, ('s', ()))])
                got = strings(E, s, E.rload(s, a[1]))
                want = ('s', ('Field not initialized: ', ('disp', 'NAME')))
                if models.norm_parts(got[1]) != want[1] if got[0] == 's' else True:
                    R.fail('%s/%s then Display' % (site, ctor), 'the displayed text differs', "Field not initialized: NAME", got, definite=decided(got))
                w = v
                if w[0] == 'a' and E.T[w[1]]['k'] == 'adt' and len(E.T[w[1]]['v']) == 2 and w[2] != 0: R.fail('%s/%s then Display' % (site, ctor), 'Display fails')


def decided(v): return v is not None and not re.search(r"'(app|havoc)'", repr(v))


# ------------------------------------------------------------------ C23
BAD = [
    (r'^std::env::', 'reads the environment'), (r'^std::fs::|^<std::fs::|^std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists)', 'uses the file system'),
    (r'^std::net::|^<std::net::', 'uses the network'), (r'^std::(time|os::unix::time)::(Instant|SystemTime)', 'reads the clock'), (r'^std::process::(Command|id|exit|abort|Child)', 'uses processes'),
    (r'^std::thread::|^<std::thread::', 'depends on threads or thread-local state'), (r'^std::io::(_print|_eprint|stdout|stderr|stdin|Std)|^std::io::stdio::|^<std::io::Std', 'does input or output'),
    (r'^(rand|fastrand|getrandom|oorandom)::|^<(rand|fastrand|getrandom)', 'uses random numbers'), (r'RandomState as std::hash::BuildHasher>::(hash_one|build_hasher)$|^std::hash::RandomState::', 'observes randomly seeded hashes'),
    (r'^std::sync::(atomic|Mutex|RwLock|OnceLock|Once|mpsc)|^<std::sync::(atomic|Mutex|RwLock)|^std::sync::poison::', 'uses state shared between expansions'),
    (r'^proc_macro2?::Span::(start|end|line|column|file|local_file|source_file|byte_range|source_text|parent)$', 'reads source positions'),
    (r'^<proc_macro2?::Span as std::fmt::Debug>::fmt$|^std::fmt::Pointer|Pointer for .*>::fmt$|^<.* as std::fmt::Pointer>::fmt$', 'formats positions or addresses'),
    (r'^std::ptr::(addr|hash)|<impl \*(const|mut) .*>::(addr|expose_provenance|is_aligned)', 'observes addresses'), (r'^proc_macro::(tracked_env|tracked_path|tracked::)', 'reads tracked environment'),
    (r'^std::backtrace::', 'captures a backtrace')]
BADRE = [(re.compile(p), w) for p, w in BAD]
HASHIT = re.compile(r'std::collections::(hash_map::|hash_set::|hash::|HashMap|HashSet)|hashbrown::')
HASHNEXT = re.compile(r'(HashMap|HashSet|hash_map|hash_set|hashbrown).*::(iter|iter_mut|into_iter|keys|values|values_mut|into_keys|into_values|drain|retain|next|for_each|extract_if|fmt)(::<.*>)?$')
HASHARG = re.compile(r'::(extend|append_all|append_separated|append_terminated|chain|zip|flat_map|from_iter)::<(.*)>$')
UNORDERED_SELF = re.compile(r'^<?(std|hashbrown)::collections::(hash_set::|hash_map::|hash::|btree_set::|btree_map::|btree::)?\w*(Hash|BTree)(Set|Map)')


def by_value(full):
    """a hash table handed over to an operation that takes its elements one by one"""
    m = HASHARG.search(full)
    return m is not None and HASHIT.search(m.group(2)) is not None and not UNORDERED_SELF.search(full)


ORDERED = re.compile(r'::sort(_by|_by_key|_unstable|_unstable_by|_unstable_by_key|_by_cached_key)?(::<.*>)?$|BTree(Map|Set).*(from_iter|extend)|Itertools::sorted|^<?(std::collections|hashbrown)::.*hash.* as std::iter::Iterator>::(any|all|count|max|min|sum|product)(::<.*>)?$')


def callees(f):
    """[(index, name, source position)] of every call and function value of a body"""
    out = []

    def walk(x, where):
        if isinstance(x, dict):
            if 'fn' in x and isinstance(x['fn'], dict): out.append((x['fn'].get('i'), x['fn']['name'], where))
            elif x.get('k') == 'fn' and 'i' in x: out.append((x.get('i'), x.get('name', ''), where))
            for v in x.values(): walk(v, where)
        elif isinstance(x, list):
            for v in x: walk(v, where)
    for b in f.get('blocks', ()):
        for s in b['s']: walk(s.get('v'), s.get('l'))
        walk(b['t'], b['t'].get('l'))
    return out


def effects(R, d, what):
    fns = d['fns']
    ours = lambda f: f['local'] or f['crate'].startswith('derive_builder')
    edges = {}
    for i, f in enumerate(fns):
        if 'blocks' in f: edges[i] = callees(f)
    n = 0
    for i, f in enumerate(fns):
        if not ours(f) or 'blocks' not in f: continue
        R.out['functions'].append(f['name'])
        names = [(j, fns[j]['name'] if j is not None else nm, nm, l) for j, nm, l in edges[i]]
        ordered = any(ORDERED.search(x[1]) for x in names)
        for j, full, nm, l in names:
            n += 1
            for p, w in BADRE:
                if p.search(full) or p.search(nm): R.fail('%s calls %s' % (short(f['name']), short(full)), w, None, full, ['%s (%s)' % (f['name'], l)])
            if (HASHNEXT.search(full) or by_value(full) or by_value(nm)) and not (full.endswith('::fmt')) and not ordered:
                R.fail('%s iterates %s' % (short(f['name']), short(full)), 'the order of a hash table is observed', None, full, ['%s (%s)' % (f['name'], l)])
        for b in f['blocks']:
            for s in b['s']:
                v = s.get('v')
                if isinstance(v, dict) and v.get('r') == 'cast' and 'Expose' in str(v.get('k')): R.fail('%s casts a pointer' % short(f['name']), 'observes addresses', None, None, [s.get('l')])
    # what our code reaches through std and darling
    seen = {}
    todo = [i for i, f in enumerate(fns) if ours(f) and 'blocks' in f]
    for i in todo: seen[i] = None
    while todo:
        i = todo.pop()
        for j, nm, l in edges.get(i, ()):
            if j is not None and j not in seen:
                seen[j] = i; todo.append(j)
    for j in seen:
        f = fns[j]
        if ours(f): continue
        if f['crate'] in ('std', 'core', 'alloc'):
            if not re.match(r'^<?(std::env::|std::fs::|std::net::|std::time::(Instant|SystemTime)|std::process::Command|std::io::_)', f['name']): continue
        for p, w in BADRE[:6]:
            if p.search(f['name']):
                chain = []
                k = j
                while k is not None and len(chain) < 8: chain.append(short(fns[k]['name'])); k = seen[k]
                R.fail('reaches ' + short(f['name']), w, None, ' < '.join(chain))
    R.ok('call sites of %s' % what, n)
    for s in d['statics']:
        R.ok('static ' + s['name'])
        if s['name'].endswith('::_DECLS'): continue
        lazy = 'LazyLock' in s['ty'] or 'LazyCell' in s['ty']
        if s['mut'] or (not s['freeze'] and not lazy): R.fail('static ' + s['name'], 'state kept between expansions', None, s['ty'])
    return n


def short(n): return re.sub(r'derive_builder_core::', '', n)[:160]


def r_effects(R, tier):
    """every call site of the macro crates, resolved, against a table of effectful and order-dependent operations"""
    n = effects(R, dumped('derive_builder_core', ('lib_has_std',)), 'derive_builder_core')
    if n < 200: R.undecided('only %d call sites of derive_builder_core found' % n)
    n = effects(R, dumped('derive_builder_macro', ('lib_has_std',)), 'derive_builder_macro')
    if n < 3: R.undecided('only %d call sites of derive_builder_macro found' % n)
    # a positive example for each pattern keeps the table honest
    for f in ('std::env::var::<&str>', 'std::fs::read_to_string::<&str>', 'std::time::SystemTime::now', 'proc_macro2::Span::start', 'std::sync::atomic::AtomicUsize::fetch_add', '<std::collections::hash_map::Iter<\'_, K, V> as std::iter::Iterator>::next', 'std::thread::LocalKey::<T>::with::<F, R>'):
        if not any(p.search(f) for p, w in BADRE) and not HASHNEXT.search(f): raise Undecided('the effect table no longer matches ' + f)
    if not by_value('<syn::punctuated::Punctuated<T, P> as std::iter::Extend<T>>::extend::<std::collections::HashSet<&syn::Path>>'): raise Undecided('hash table rule')


# ------------------------------------------------------------------ C20: features and gates
def r_features(R, tier):
    """feature forwarding between the crates: std and alloc of derive_builder switch the macro's lib_has_std and alloc"""
    t = {c: tomllib.load(open(os.path.join(REPO, c, 'Cargo.toml'), 'rb')) for c in ('derive_builder', 'derive_builder_macro', 'derive_builder_core')}

    def closure(crate, feat, seen):
        if (crate, feat) in seen: return
        fs = t[crate].get('features', {})
        if feat not in fs:
            return
        seen.add((crate, feat))
        for x in fs[feat]:
            if '/' in x:
                c, f = x.split('/'); closure(c.rstrip('?'), f, seen)
            else: closure(crate, x, seen)

    def enabled(*feats):
        seen = set()
        for f in feats: closure('derive_builder', f, seen)
        deps = t['derive_builder']['dependencies']['derive_builder_macro']
        for c, dep in (('derive_builder', 'derive_builder_macro'), ('derive_builder_macro', 'derive_builder_core')):
            e = t[c]['dependencies'][dep]
            if isinstance(e, dict):
                for f in e.get('features', ()): closure(dep, f, seen)
                if e.get('default-features', True): closure(dep, 'default', seen)
        return {f for c, f in seen if c == 'derive_builder_core'}
    for feats, want, not_ in ((('std',), 'lib_has_std', None), (('alloc',), 'alloc', 'lib_has_std'), (('clippy',), 'clippy', None), (('default',), 'lib_has_std', None), ((), None, 'lib_has_std'), ((), None, 'alloc')):
        R.ok('features %s' % (feats,))
        e = enabled(*feats)
        if want and want not in e: R.fail('feature %s' % feats, 'does not enable %s in derive_builder_core' % want, want, sorted(e))
        if not_ and not_ in e: R.fail('features %s' % (feats or 'none',), 'enables %s in derive_builder_core' % not_, None, sorted(e))


WITNESS = (     # (type reached through the crate root, the type it must be)
    ('option::Option<u8>', 'core::option::Option<u8>', 'Option'), ('result::Result<u8, u16>', 'core::result::Result<u8, u16>', 'Result'),
    ('marker::PhantomData<u8>', 'core::marker::PhantomData<u8>', 'PhantomData'), ('fmt::Result', 'core::fmt::Result', 'fmt::Result'), ('fmt::Formatter<\'static>', 'core::fmt::Formatter<\'static>', 'fmt::Formatter'))
BOUNDS = (      # (bound reached through the crate root, the bound it must be)
    ('default::Default', 'core::default::Default'), ('clone::Clone', 'core::clone::Clone'), ('convert::Into<u8>', 'core::convert::Into<u8>'), ('convert::From<u8>', 'core::convert::From<u8>'),
    ('convert::TryInto<u8>', 'core::convert::TryInto<u8>'), ('iter::Extend<u8>', 'core::iter::Extend<u8>'), ('fmt::Display', 'core::fmt::Display'), ('fmt::Debug', 'core::fmt::Debug'))


def witness(feats):
    L = ['#![no_std]', 'extern crate alloc;', 'use derive_builder::export::core as e;']
    label = {}

    def add(l, what):
        L.append(l); label[len(L)] = what
    ws = list(WITNESS)
    if feats: ws.append(('string::String', 'alloc::string::String', 'String'))
    for i, (a, b, n) in enumerate(ws): add('pub fn w%d(x: e::%s) -> %s { x }' % (i, a, b), 'export::core::' + a)
    for i, (a, b) in enumerate(BOUNDS):
        add('pub fn b%d<T: e::%s>(x: T) -> impl %s { x }' % (i, a, b), 'export::core::' + a)
        add('pub fn c%d<T: %s>(x: T) -> impl e::%s { x }' % (i, b, a), 'export::core::' + a)
    add('pub fn v1(x: u8) -> e::option::Option<u8> { match (e::option::Option::Some(x), e::option::Option::None::<u8>) { (e::option::Option::Some(y), _) => e::option::Option::Some(y), _ => e::option::Option::None } }', 'export::core::option::Option variants')
    add('pub fn v2(x: u8) -> e::result::Result<u8, u8> { match e::result::Result::Ok::<u8, u8>(x) { e::result::Result::Ok(v) => e::result::Result::Ok(v), e::result::Result::Err(v) => e::result::Result::Err(v) } }', 'export::core::result::Result variants')
    add('pub fn v3(x: u8) -> u16 { e::convert::Into::<u16>::into(x) }', 'export::core::convert::Into')
    add('pub fn v4() -> u16 { e::default::Default::default() }', 'export::core::default::Default')
    add('pub fn v5(x: &u16) -> u16 { e::clone::Clone::clone(x) }', 'export::core::clone::Clone')
    add("pub fn u1(x: &'static str) -> derive_builder::UninitializedFieldError { derive_builder::UninitializedFieldError::new(x) }", 'UninitializedFieldError::new')
    add("pub fn u2(x: &'static str) -> derive_builder::UninitializedFieldError { core::convert::From::from(x) }", 'UninitializedFieldError: From<&str>')
    add("pub fn u3(x: &derive_builder::UninitializedFieldError) -> &'static str { x.field_name() }", 'UninitializedFieldError::field_name')
    add("pub fn u4(x: derive_builder::UninitializedFieldError) -> impl core::fmt::Display + core::fmt::Debug + core::clone::Clone { x }", 'UninitializedFieldError: Display + Debug + Clone')
    add("pub use derive_builder::Builder;", 'derive_builder::Builder')
    return '\n'.join(L) + '\n', label


def r_exports(R, tier):
    """what the generated code reaches through the crate root, type-checked against the items of core and alloc, per feature set;
    the crates the library links without std"""
    n = 0
    broken = set()
    for feats in (('std',), (), ('alloc',), ('std', 'alloc')):
        site = 'features ' + (' and '.join(feats) or 'none')
        src, label = witness(feats)
        errs, other, ok = build.witness(src, feats)
        R.ok(site + '/witness', len(label))
        if ok: n += 1; continue
        for line, msg, code in errs:
            if line in label: R.fail('%s/%s' % (site, label[line]), 'is not the item it must be, or is missing', label[line], msg)
            else: R.fail('%s/export::core' % site, 'is missing', 'derive_builder::export::core', msg)
        if not errs and feats == ('std',): raise build.BuildError(other)
        if not errs: broken.add(feats)
        if not errs and other: R.fail(site, 'derive_builder does not compile under this feature set', None, other, definite='error[' in other or 'error: ' in other)
    for feats in ((), ('alloc',)):
        if feats in broken: continue
        d = dumped('derive_builder', feats, False)
        R.ok('features %s/linked crates' % (feats or 'none',))
        if 'std' in d['externs']: R.fail('features %s' % (' '.join(feats) or 'none'), 'the library links std', 'core and alloc', d['externs'])
        if not feats and 'alloc' in d['externs']: R.fail('features none', 'the library links alloc', 'core', d['externs'])
    if not n: R.undecided('no feature set of the witness compiles')


# ------------------------------------------------------------------ C26: the library's own source
def tokens(src):
    """identifiers of Rust source outside comments and literals, with line numbers"""
    i, n, line = 0, len(src), 1
    while i < n:
        c = src[i]
        if c == '\n': line += 1; i += 1
        elif src.startswith('//', i):
            while i < n and src[i] != '\n': i += 1
        elif src.startswith('/*', i):
            d = 0
            while i < n:
                if src.startswith('/*', i): d += 1; i += 2
                elif src.startswith('*/', i):
                    d -= 1; i += 2
                    if d == 0: break
                else:
                    if src[i] == '\n': line += 1
                    i += 1
        elif (m := re.compile(r'b?c?r(#*)"').match(src, i)) is not None:
            e = src.find('"' + m.group(1), m.end())
            e = n if e < 0 else e
            line += src.count('\n', i, e); i = e + 1 + len(m.group(1))
        elif c == '"':
            i += 1
            while i < n and src[i] != '"':
                if src[i] == '\\': i += 1
                if i < n and src[i] == '\n': line += 1
                i += 1
            i += 1
        elif (m := re.compile(r"'(\\.[^']*|[^'\\])'").match(src, i)) is not None: i = m.end()
        elif c.isalpha() or c == '_':
            m = re.compile(r'\w+').match(src, i)
            yield m.group(), line
            i = m.end()
        else: i += 1


def r_unsafe(R, tier):
    """no unsafe in the library's own source"""
    n = files = 0
    for c in ('derive_builder', 'derive_builder_macro', 'derive_builder_core'):
        for p in sorted(glob.glob(os.path.join(REPO, c, 'src', '**', '*.rs'), recursive=True)):
            files += 1
            for w, l in tokens(open(p).read()):
                n += 1
                if w == 'unsafe': R.fail('unsafe in ' + os.path.relpath(p, REPO), 'the library uses unsafe', None, None, ['%s:%d' % (os.path.relpath(p, REPO), l)])
    R.ok('source files', files)
    R.out['stats'] = {'files': files, 'identifiers': n}
    if files < 15: R.undecided('only %d source files found' % files)
    if [w for w, l in tokens('fn f() { let s = "unsafe"; /* unsafe */ unsafe { g() } }')].count('unsafe') != 1: raise Undecided('the unsafe scan does not see its own example')


# ------------------------------------------------------------------ C30: functions that re-position tokens
def r_respan(R, tier):
    """every function of the core that takes a token stream and a span and returns a token stream, interpreted on a nested stream
    of optional tokens of every kind: all tokens get the span, nothing else changes"""
    d = dumped('derive_builder_core', ('lib_has_std',))
    ts = lambda t: d['types'][t].get('name', '').endswith('proc_macro2::TokenStream')
    sp = lambda t: d['types'][t].get('name', '').endswith('proc_macro2::Span')
    cands = [i for i, f in enumerate(d['fns']) if f['local'] and 'blocks' in f and f['argc'] == 2 and ts(f['locals'][0]) and ts(f['locals'][1]) and sp(f['locals'][2])]
    for i in cands:
        f = d['fns'][i]
        mdd.reset()
        E = engine(d)
        n = [0]

        def a():
            n[0] += 1
            return mdd.lit(('tok', n[0]), True)

        def stream(depth):
            out = [(a(), ('i', ('name',), ('span', 'old%d' % n[0]))), (a(), ('p', '+', ('span', 'old%d' % n[0]))), (a(), ('lit', '1', ('span', 'old%d' % n[0])))]
            if depth:
                for dl in ('()', '{}', '[]', ''): out.append((a(), ('g', dl, stream(depth - 1), ('span', 'old%d' % n[0]))))
            return tuple(out)
        items = stream(2)
        st = St(T, {})
        SP = ('y', 'SPAN', f['locals'][2])
        s, v = E.run(st, i, [('k', items), SP])
        site = short(f['name'])
        R.out['functions'].append(f['name'])
        if v is None or v[0] != 'k': raise Undecided('%s does not return a token stream' % site)
        if E.panics: R.fail(site, 'the function can panic', None, E.panics[0][1], [E.panics[0][2]])
        want = []

        def flatten(xs, g, out):
            for h, t in xs:
                x = mdd.AND(g, h)
                if x == F: continue
                if t[0] == 'g':
                    out.append((x, 'open' + t[1], t[3])); flatten(t[2], x, out); out.append((x, 'close' + t[1], t[3]))
                else: out.append((x, t[1], t[2] if len(t) > 2 else None))
        got = []
        flatten(items, T, want); flatten(v[1], T, got)
        R.ok(site + '/tokens', len(want))
        if [(g, t) for g, t, _ in got] != [(g, t) for g, t, _ in want]: R.fail(site, 'the tokens themselves change', str(want)[:200], str(got)[:200], definite=decided(v))
        for g, t, q in got:
            if 'SPAN' not in repr(q): R.fail(site, 'a token keeps another position', 'SPAN', '%s at %s' % (t, q), definite=decided(q)); break


ANALYSES = {'C27': (r_uninit_error,), 'C23': (r_effects,), 'C20': (r_features, r_exports), 'C19': (r_exports,), 'C30': (r_respan,), 'C26': (r_unsafe,)}
