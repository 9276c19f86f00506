"""The analyses behind each check: which feature configuration and symbolic input each one interprets, and which rules it
applies to the result. Every analysis runs in its own process; its result is plain data."""
import os, re, shutil, signal, sys, time, traceback
from . import mdd
from .inputs import STRUCT, FIELD, Inputs

FEATURES = {'std': ('lib_has_std',), 'noalloc': (), 'alloc': ('alloc',), 'clippy': ('lib_has_std', 'clippy')}
ALL = ['C%02d' % i for i in range(1, 32)]
LIMIT = 420          # seconds for one analysis


def fields(n): return tuple('f%d' % i for i in range(n))


def every(base, voc):
    for n, sp in voc:
        yield base + '.' + n
        if len(sp) > 2:
            for t in every(base + '.' + n, sp[2]): yield t


BASES = ('S', 'S.build_fn', 'S.build_fn.error', 'S.setter', 'S.field', 'f0', 'f0.setter', 'f0.setter.each', 'f0.field')
ATTRFORMS = frozenset('S@%s!form' % n for n in Inputs.STRUCT_ATTRS if n != 'builder') | frozenset('f0@%s!form' % n for n in Inputs.FIELD_ATTRS if n != 'builder')
MISUSE = ATTRFORMS | {'shape', 'S.build_fn.error'}
EVERYTHING = ATTRFORMS | {'shape'} | set(every('S', STRUCT)) | set(every('f0', FIELD)) | {b + '!' + k for b in BASES for k in ('unknown', 'lit', 'dup')}


class Run:
    def __init__(self, name, config, n=1, what='', **kw): self.name = name; self.config = config; self.n = n; self.kw = kw; self.what = what


RUNS = {r.name: r for r in (
    Run('main', 'std', 2, 'two fields, every documented option present or absent in every accepted spelling'),
    Run('one', 'std', 1, 'one field, every documented option'),
    Run('reversed', 'std', 1, 'one field, every documented option, in reverse order and spread over two builder attributes per item', reverse=True),
    Run('none', 'std', 0, 'a struct without fields'),
    Run('three', 'std', 3, 'three fields, every documented option'),
    Run('four', 'std', 4, 'four fields, every documented option'),
    Run('many', 'std', 20, 'many fields (at least 20, and two more than any length constant of up to 68 in the library source) with defaults, custom setters and hidden fields',
        only=frozenset(('S.default', 'S.pattern', '.default', '.setter', '.setter.skip', '.setter.custom'))),
    Run('attributes', 'std', 1, 'one field, struct and field with an attribute of arbitrary name', anyattr=True,
        only=frozenset(('S@any', 'f0@any', '.setter', '.setter.skip', '.setter.each', '.try_setter', 'S.try_setter', 'S.build_fn', 'S.build_fn.skip'))),
    Run('long', 'std', 1, 'one field, long lists of derives, forwarded attributes and type parameters (at least 20, and two more than any length constant of up to 68)', long=20,
        only=frozenset(('T', 'U', 'S.derive', 'S.pattern', 'S@builder_impl_attr1', 'S@allow', 'f0@doc1', 'f0@allow', 'f0.setter', '.setter.each', 'f0.try_setter', 'f0.field', '.field.ty', '.default'))),
    Run('noalloc', 'noalloc', 1, 'one field, library built without alloc and std'),
    Run('alloc', 'alloc', 1, 'one field, library built with alloc only'),
    Run('clippy', 'clippy', 1, 'one field, library built with the clippy feature'),
    Run('misuse', 'std', 1, 'one field, conflicting options, options in unsupported forms and unsupported shapes', wrong=MISUSE),
    Run('unknown', 'std', 1, 'one field, unknown option names at every level', wrong=frozenset(b + '!unknown' for b in BASES)),
    Run('anything', 'std', 1, 'one field, every option in every form with literals of every kind, unknown, duplicated and literal entries, and every parser failing', wrong=EVERYTHING, valid=False),
    Run('anything-noalloc', 'noalloc', 1, 'as anything, library built without alloc and std', wrong=EVERYTHING, valid=False),
)}
for _b in BASES: RUNS['vocab ' + _b] = Run('vocab ' + _b, 'std', 1, 'one field, an option of arbitrary name in %s' % _b, wrong=frozenset([_b + '!name']))

CORE = [p for p in ALL if p not in ('C23', 'C27')]
QUICK = {p: ['main', 'none', 'reversed', 'noalloc', 'clippy'] for p in CORE}
QUICK.update({'C17': ['main', 'misuse', 'reversed', 'noalloc'], 'C18': ['main', 'anything', 'none'], 'C31': ['main', 'reversed', 'unknown'] + ['vocab ' + b for b in BASES],
              'C25': ['main', 'none', 'three'], 'C22': ['main', 'none'], 'C23': [], 'C27': []})
QUICK['C30'].remove('none')
QUICK['C16'] = QUICK['C16'] + ['attributes']
for p in ('C01', 'C03', 'C04', 'C05', 'C07', 'C22', 'C25'): QUICK[p] = QUICK[p] + ['many']
for p in ('C10', 'C11', 'C12', 'C13', 'C16', 'C25', 'C31'): QUICK[p] = QUICK[p] + ['long']
QUICK['C20'] = ['main', 'none', 'reversed', 'noalloc', 'alloc', 'clippy']
THOROUGH = {p: list(dict.fromkeys(QUICK[p] + ['one', 'alloc', 'three'])) for p in CORE}
THOROUGH['C25'] = THOROUGH['C25'] + ['four']
THOROUGH['C18'] = THOROUGH['C18'] + ['anything-noalloc', 'misuse']


def longer(n, dump):
    """a number of fields beyond the counts that the library's own functions compare with"""
    usize = {i for i, t in enumerate(dump['types']) if t.get('s') == 'usize' or t.get('name') == 'usize'}
    out = n

    def walk(x):
        nonlocal out
        if isinstance(x, dict):
            if x.get('k') == 'int' and x.get('t') in usize and 0 <= int(x['v']) <= 68: out = max(out, int(x['v']) + 2)
            if x.get('r') == 'bin' and ('c' in x['x'] and 'c' in x['y'] or x['k'] not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne')): return      # checks of alignment and null pointers
            if x.get('t') == 'call' and isinstance(x.get('f'), dict) and re.search(r'alloc|box|size_of', str((x['f'].get('fn') or {}).get('name'))): return
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    for f in dump['fns']:
        if f['local'] and 'blocks' in f: walk(f['blocks'])
    return out


class TimedOut(BaseException): pass      # not an Exception: the engine turns those of its models into restarts


def analyse(run, dump, prop, limit=LIMIT):
    """interpret and apply the property's rules -> plain dict"""
    from . import expand, rules, replay, special
    from .engine import Undecided
    t = time.time()
    out = {'run': run.name, 'config': run.config, 'what': run.what, 'fields': run.n, 'obligations': 0, 'findings': [], 'undecided': None, 'stats': {}}

    def stop(*a): raise TimedOut()
    signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, limit, 5)
    try:
        n = longer(run.n, dump) if run.name == 'many' else run.n
        out['fields'] = n
        kw = dict(run.kw)
        if 'long' in kw: kw['long'] = longer(kw['long'], dump)
        X = expand.Expansion(dump, fields=fields(n), **kw)
        E = X.E
        R = rules.R(X, run.config)
        R.run = run
        if run.kw.get('wrong') or run.kw.get('valid') is False: special.wrong_rules(R, prop)
        else: rules.run_rules(R, prop)
        out['obligations'] = R.obl
        out['sites'] = sorted(R.sites)
        seen = {}
        for f in R.findings:
            key = '%s/%s: %s' % (f.rule, f.site, f.msg)
            if key in seen:
                seen[key]['more'] += 1
                continue
            lines, rest = replay.show(X.I, f.g)
            d = {'key': key, 'rule': f.rule, 'site': f.site, 'message': f.msg, 'expected': text(f.exp), 'got': text(f.got), 'source': [str(s)[:300] for s in f.src],
                 'definite': f.definite, 'input': lines, 'conditions': rest, 'more': 0, 'run': run.name, 'config': run.config}
            seen[key] = d
            out['findings'].append(d)
        out['stats'] = {'entry': X.root['def'], 'entry_given_up': X.fallback, 'functions_interpreted': len(E.analysed), 'steps': E.steps, 'atoms': len(mdd.atoms), 'diagram_nodes': len(mdd._var),
                        'panic_sites_reached': len(E.panics), 'models_given_up': [str(r)[:200] for r in X.restarts], 'unmodelled': sorted(map(str, E.unmodelled))[:10]}
        out['functions'] = sorted({n.split('::<')[0] for n in E.analysed})
    except TimedOut: out['undecided'] = 'time limit of %d s' % limit
    except Undecided as e: out['undecided'] = 'not decided: %s' % (str(e)[:600],)
    except RecursionError: out['undecided'] = 'recursion limit'
    except MemoryError: out['undecided'] = 'memory limit'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out['undecided'] = 'analysis failed: %s: %s at %s' % (type(e).__name__, str(e)[:300], ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:])))
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    out['seconds'] = round(time.time() - t, 2)
    return out


def text(x):
    if x is None: return None
    if isinstance(x, tuple) and all(isinstance(t, str) for t in x): return ' '.join(x)[:1500]
    return str(x)[:1500]


LEVEL = {}


def rule_names(prop):
    from . import rules
    return [f.__name__ for ps, f in rules.RULES if prop in ps] + (['r_misuse'] if prop == 'C17' else ['r_vocabulary'] if prop == 'C31' else [])
