#!/usr/bin/env python3
"""mkseed.py SPEC.py : write /verif/seeded/<id>/ from a spec (id, prop, edits, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
SH = '''#!/bin/bash
# run with cwd = the repository; everything written goes to a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONPYCACHEPREFIX=$T/pyc NUMBA_CACHE_DIR=$T/nb MPLCONFIGDIR=$T/mpl MPLBACKEND=Agg PYTHONPATH=$R
cd "$T"
%s/opt/venv/bin/python "$D/demo.py"
'''


def main(path):
    g = {}
    exec(open(path).read(), g)
    for s in g['SEEDS']:
        d = '/verif/seeded/' + s['id']
        w = tempfile.mkdtemp()
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'], env=dict(os.environ, GIT_LFS_SKIP_SMUDGE='1'))
            for f, old, new in s['edits']:
                p = os.path.join(w, 'r', f)
                t = open(p).read()
                n = t.count(old)
                assert n >= 1, (s['id'], 'not found', old)
                if s.get('count', 1) is not None:
                    assert n == s.get('count', 1), (s['id'], n, old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
        finally:
            shutil.rmtree(w)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH % s.get('env', ''))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        for fn, txt in s.get('files', {}).items():
            open(d + '/' + fn, 'w').write(txt.lstrip('\n'))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], len(diff))


main(sys.argv[1])
