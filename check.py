#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property of /repo's current working tree from its source.
Exit 0: nothing found; exit 1: a line `VIOLATION property=<id> replay=<path>` per violation."""
import json, multiprocessing, multiprocessing.connection, os, resource, shutil, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from absint import build, load, runs, lib

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(prop):
    """{key: text} of the recorded findings of a property ("fixed:" lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                key = l.split(' ', 2)[2]
                out[key] = key
    return out


DEADLINE = 780       # seconds after which the analyses still running are given up
MEMORY = 26 << 30    # bytes that the analyses running at one time may take together


def nothing(name, why):
    return {'run': name, 'config': runs.RUNS[name].config, 'what': '', 'fields': 0, 'obligations': 0, 'findings': [], 'undecided': why, 'stats': {}, 'seconds': 0}


def worker(conn, name, path, prop, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try: r = runs.analyse(runs.RUNS[name], load.load(path), prop)
    except BaseException as e: r = nothing(name, 'failed: %s: %s' % (type(e).__name__, str(e)[:300]))
    conn.send(r)
    conn.close()


def analyse_all(tasks, prop, end):
    """every analysis in a process of its own; one that is killed or does not end is undecided"""
    ctx = multiprocessing.get_context('fork')
    todo, running, out = list(enumerate(tasks)), {}, {}
    mem = MEMORY // min(8, len(tasks))
    while todo or running:
        while todo and len(running) < 8 and time.time() < end:
            i, (n, path) = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, n, path, prop, mem))
            p.start(); b.close()
            running[a] = (i, n, p)
        if time.time() >= end:
            for a, (i, n, p) in running.items():
                p.kill(); p.join(); out[i] = nothing(n, 'time limit')
            for i, (n, path) in todo: out[i] = nothing(n, 'time limit')
            break
        for a in multiprocessing.connection.wait(list(running), max(0.1, end - time.time())):
            i, n, p = running.pop(a)
            try: out[i] = a.recv()
            except (EOFError, OSError): out[i] = nothing(n, 'the analysis was ended from outside')
            a.close(); p.join()
    return [out[i] for i in sorted(out)]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    names = (runs.THOROUGH if tier == 'thorough' else runs.QUICK).get(prop, [])
    results = []
    dumps = {}
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    failed = None
    try:
        for n in names:
            c = runs.RUNS[n].config
            if c not in dumps: dumps[c] = build.dump('derive_builder_macro', runs.FEATURES[c])
        results = []
        if names:
            results = analyse_all([(n, dumps[runs.RUNS[n].config]) for n in names], prop, t0 + (DEADLINE if tier != 'thorough' else 6 * DEADLINE))
        for f in lib.ANALYSES.get(prop, ()): results.append(lib.run(f, prop, tier))
    except build.BuildError as e: failed = str(e)
    finally:
        for p in dumps.values(): shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    kn = known(prop)
    violations, undecided, seen = [], [], set()
    if failed: undecided.append({'run': 'build', 'why': 'the code does not build: ' + failed})
    for r in results:
        if r['undecided']: undecided.append({'run': r['run'], 'why': r['undecided']})
        for f in r['findings']:
            if not f['definite']:
                undecided.append({'run': r['run'], 'why': 'an uninterpreted operation decides: ' + f['key'], 'input': f['input'][:40], 'conditions': f['conditions'], 'unmodelled': r['stats'].get('unmodelled'), 'given_up': r['stats'].get('models_given_up'), 'got': (f['got'] or '')[:400]})
                continue
            if f['key'] in seen: continue
            seen.add(f['key'])
            if f['key'] in kn: print('KNOWN-FINDING: property=%s %s' % (prop, f['key']))
            else: violations.append(f)
    rd = os.path.join(ev, 'replay', prop)
    shutil.rmtree(rd, ignore_errors=True)
    for i, f in enumerate(violations):
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%d.json' % i)
        json.dump(f, open(p, 'w'), indent=1)
        if i < 5:
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  rule %s, construct: %s\n  %s\n  expected: %s\n  found:    %s' % (f['rule'], f['site'], f['message'], f['expected'], f['got']))
            if f['source']: print('  emitted at: ' + '; '.join(f['source'][:4]))
            if f['input']: print('  for example for (%s):' % f['run']); print(''.join('    %s\n' % l for l in f['input']), end='')
            if f['conditions']: print('  where ' + ', '.join('%s=%s' % x for x in list(f['conditions'].items())[:6])[:600])
    if len(violations) > 5: print('  ... and %d more under %s' % (len(violations) - 5, rd))
    for u in undecided: print('UNDECIDED property=%s run=%s %s' % (prop, u['run'], u['why'][:500]))
    obl = sum(r['obligations'] for r in results)
    sites = sorted({s for r in results for s in r.get('sites', ())})
    fns = sorted({s for r in results for s in r.get('functions', ())})
    cov = {'explanation': 'Static: abstract interpretation of the MIR of the current tree over a symbolic derive input (all option combinations at once, as guarded values), then the rules of this property on the guarded expansion; plus rules on the library source. Every count below was measured on this run. obligations = rule instances compared, each for all option assignments of its analysis; discharged = those without deviation and decided.',
           'rules': sorted(set(runs.rule_names(prop)) | {f.__name__ for f in lib.ANALYSES.get(prop, ())}), 'obligations': obl,
           'discharged': max(0, obl - len(violations) - len(undecided)) if not failed else 0,
           'analyses': [{k: r.get(k) for k in ('run', 'config', 'what', 'fields', 'obligations', 'seconds', 'undecided', 'stats')} for r in results],
           'constructs_checked': sites[:250], 'constructs_total': len(sites), 'functions_analysed': fns[:250] if prop in ('C18', 'C23') else [f for f in fns if f.startswith(('derive_builder', '<derive_builder'))][:120], 'functions_total': len(fns), 'undecided': undecided[:20]}
    assume = ['models of syn, quote, proc_macro2 and of the standard library used by the interpreter (absint/models.py) describe those crates',
              'the tables of documented behaviour in absint/spec.py and absint/rules.py state the property', 'number of fields bounded as listed under analyses']
    doc = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': SEED, 'level': runs.LEVEL.get(prop, 'other'), 'coverage': cov, 'assumptions': assume,
           'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(doc, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations in %d analyses (%s), %d violations, %d undecided, %.1f s' % (prop, obl, len(results), ', '.join(r['run'] for r in results), len(violations), len(undecided), time.time() - t0))
    return 1 if violations else 0


if __name__ == '__main__': sys.exit(main())
