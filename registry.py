"""property id -> verification units and metadata (gen.py turns it into properties.jsonl and MANIFEST.json)"""
import os
R = '$REPO/'
V = '$VERIF/'
INC = [R + 'src', R + 'var/icgem/src', R]
STUB = [V + 'stubs/dso'] + INC
PROPS = {}


def U(src, entries=None, **kw):
    kw.setdefault('inc', INC)
    if isinstance(entries, str):
        entries = entries.split()
    return dict(src=src, entries=entries, **kw)


def P(pid, units, **kw):
    PROPS[pid] = dict(units=units, **kw)


for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))):
    if _f.endswith('.py'):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', _f)).read(), _f, 'exec'))
