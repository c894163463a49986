"""Writes properties.jsonl and MANIFEST.json from props/*.py (META) and tools/na.py."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.na import NA, HOOKS
out, checks = [], []


def row(i, m):
    return dict(id=i, title=m['title'], statement=m['statement'], quantifier=dict(over=m['over'], text=m['text']), why_tests_cant=m['why'],
                anchors=dict(files=m['files'], mechanism=[dict(name=a, where=b) for a, b in m['mechanism']], hook_needed=None))


for f in sorted(glob.glob(V + '/props/P*.py')):
    i = os.path.basename(f)[:-3]
    mod = importlib.import_module('props.' + i)
    m = mod.META
    out.append(row(i, m))
    checks.append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='bin/check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=m.get('technique', 'contract proofs with CBMC (goto-instrument --dfcc): function contracts and loop contracts on /repo\'s C sources'),
                       level=m.get('level', 'proof'), level_note=m.get('note', 'Deductive, unbounded over inputs and iterations for the functions listed in the evidence file; assumptions: ' + '; '.join(getattr(mod, 'ASSUMPTIONS', []) or ['see evidence file']))))
na = []
for i, m in NA:
    out.append(row(i, m))
    na.append(dict(property=i, reason=m['reason']))
with open(V + '/properties.jsonl', 'w') as h:
    for r in out:
        assert len(r['title']) <= 80, r['title']
        h.write(json.dumps(r) + '\n')
man = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
if HOOKS:
    man['hooks'] = HOOKS
with open(V + '/MANIFEST.json', 'w') as h:
    json.dump(man, h, indent=1)
    h.write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for r in out:
        jsonschema.validate(r, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('schemas ok', len(checks), 'checks', len(na), 'n/a')
except ImportError:
    print('no jsonschema')
