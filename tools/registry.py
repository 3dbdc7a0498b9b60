"""The properties, what decides each, and within what bounds. properties.jsonl and MANIFEST.json are generated from this (tools/gen.py)."""
PROPS = {}
NA = []
# families of programs that quick checks cut down (unless the pass is meant for them)
LITE = {('opt', 0), ('opt', 3), ('focus', 1), ('focus', 4), ('shapes', 3)}


def P(id, title, statement, over, qtext, why, files, mechanism, bounds, outside, runs, note=None, assumptions=(), observe=()):
    for r in runs:
        if 'changed' not in r.get('reach', []) and 'quick' in r:
            r['quick'] = [a + [2] if len(a) == 2 and (r['h'], a[1]) in LITE else a for a in r['quick']]
    assert id not in PROPS and len(title) <= 80, id
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                     bounds=bounds, outside=outside, runs=runs, note=note, assumptions=list(assumptions), observe=list(observe))


def notapp(id, title, statement, over, qtext, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, reason=reason))


SEM = ('undefined behaviour and poison follow the LLVM language reference; a transformed program may be more defined than its original; '
       'external calls are opaque: they may return anything and overwrite escaped memory')
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules.setdefault('registry', sys.modules[__name__])
for _m in sorted(f[:-3] for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f.startswith('reg_') and f.endswith('.py')):
    importlib.import_module(_m)
