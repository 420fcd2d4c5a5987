"""Writes MANIFEST.json from the check modules present."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {
 'C30': 'reconstruction error is a numerical quantity over all signals; no static bound on floating-point accuracy of FFT-based inversion is in reach',
 'C31': 'accuracy of numerically integrated wavelet quantities depends on continuous parameters; not a structural fact of the source',
 'C32': 'the scale range comes out of numerical searches over the wavelet shape; its extent is a runtime value',
 'C33': 'optimality of the tracked ridge is a relation between runtime energies; the recurrences themselves are decided under C23',
 'C34': 'equality up to rounding of external FFT libraries is outside the repository source',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=m.TECHNIQUE, level='other',
                           level_note='static decision over the whole current source: ' + getattr(m, 'LEVEL', 'every obligation found is proved, violated or reported undecided in the evidence')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Checks read /repo/ssqueezepy as syntax with the system python3 (standard library only).')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
