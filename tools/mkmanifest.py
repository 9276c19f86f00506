"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C32': 'quantifies over all user types, trait impls and user expressions; whether rustc accepts the expansion depends on trait solving of code that is not in the repository (and documented gotchas make it false in corners), so no rule over this source decides it',
      'C33': "a statement about the optimiser's output for arbitrary Clone impls, not about this repository's source"}
EXP = 'family-based abstract interpretation of the macro\'s MIR over a symbolic derive input (guards as decision diagrams, joins at every CFG node); '
TECH = {
    'C01': 'dataflow over the bodies of generated setters', 'C02': 'comparison of receivers, return types and body effects of all generated methods', 'C03': 'dataflow over the generated build body',
    'C04': 'case analysis of every generated initialiser', 'C05': 'case analysis of every generated initialiser and of evaluation order in build', 'C06': 'must-precede and exactly-once analysis of the generated build body',
    'C07': 'guarded existence of setters, storage and initialisers', 'C08': 'precedence tables compared as decision diagrams', 'C09': 'argument types and dataflow of generated setters',
    'C10': 'path analysis of fallible setter bodies', 'C11': 'effect analysis of collection setter bodies', 'C12': 'guarded Clone bounds and derives', 'C13': 'generics of every generated header',
    'C14': 'visibility of every generated item', 'C15': 'names of every generated item', 'C16': 'attribute lists of every generated item', 'C17': 'rejection guard compared with the documented conflicts',
    'C18': 'reachability of every panic site', 'C19': 'every path token sequence of the expansion; compile witness for what the crate root re-exports', 'C20': 'every token of the expansion per feature set; Cargo feature forwarding and cfg gates; compile witness and linked crates per feature set', 'C21': 'structure and bodies of the generated error type',
    'C22': 'constructor and Default bodies', 'C23': 'whole-program effect analysis over the resolved call graph', 'C24': 'independence of the rest of the expansion from build_fn options', 'C25': 'multiplicity, order and non-interference of per-field output',
    'C26': 'every token of the expansion; unsafe scan of the library source', 'C27': 'abstract interpretation of the runtime error type in each feature set', 'C28': 'placement and multiplicity of user expressions', 'C29': 'doc and lint attributes of every generated item',
    'C30': 'provenance of token positions', 'C31': 'influence of every option on the expansion; vocabulary of names compared by the parser'}
NOTE = ('Decides the property for every assignment of the documented options (every accepted spelling, all at once) for the numbers of fields listed in the evidence, on the source as it is; no solver, no execution, no path enumeration. '
        'Trusts rustc\'s MIR, the models of syn/quote/proc_macro2/std functions in absint/models.py and the documented behaviour as written in absint/spec.py and absint/rules.py. '
        'What an unmodelled operation decides is reported as UNDECIDED (exit 0) and listed in the evidence, never as a violation.')
EXTRA = {'C23': 'Decides that no function reachable from the derive entry point, in the repository\'s crates, calls an effectful or order-dependent API; the dependencies (syn, quote, darling, proc_macro2) are trusted to be pure except where the library calls them with such effects.',
         'C27': 'Interprets the MIR of UninitializedFieldError\'s constructors, accessors and Display for a symbolic name in each feature set.',
         'C30': 'The field name literal inside the conversion is excluded (it carries the macro\'s position); change_span is interpreted on a nested stream.'}
ONLYLIB = {'C23', 'C27'}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        if i in NA: continue
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': ('' if i in ONLYLIB else EXP) + TECH[i], 'level': 'other', 'level_note': (EXTRA[i] + ' ' if i in EXTRA else '') + ('' if i == 'C23' else NOTE)})
    doc = {'version': 1, 'setup_cmd': 'python3 absint/build.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
    json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
