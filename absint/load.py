import json, re


def load(path):
    s = open(path).read()
    name = json.loads(re.match(r'\{"crate":("[^"]*")', s).group(1)) if s.startswith('{"crate":') else None
    for c in ('derive_builder_core', 'derive_builder_macro', 'derive_builder'):
        for x in ('syn', 'quote', 'proc_macro2', 'darling'):
            s = s.replace('%s::%s::' % (c, x), x + '::')
    if name == 'derive_builder_macro': s = rename(s)
    d = json.loads(s)
    for f in d['fns']:
        if f['crate'].startswith('derive_builder'): f['local'] = True
    return d


def rename(s):
    """the names the core crate prints for the same items"""
    for old, new in ((r'derive_builder_macro::(?=derive_builder_core::)', ''), (r'derive_builder_macro::(?=proc_macro::)', 'derive_builder_core::'), (r'\bsyn::__private::quote::', 'quote::'),
                     (r'\bsyn::Ident\b', 'proc_macro2::Ident'), (r'\bdarling_core::error::Error\b', 'darling::Error'),
                     (r'\bdarling_core::from_\w+::(?=From)', 'darling::'), (r'\bdarling_core::(ast|util)::[a-z_]+::', r'darling::\1::'), (r'\bdarling_core::', 'darling::')):
        s = re.sub(old, new, s)
    return s
