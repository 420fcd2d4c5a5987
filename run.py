#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough]: decide one property from /repo's source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from ssqlint.report import Report
    from ssqlint.project import Project
    mod = importlib.import_module('checks.' + pid.lower())
    rep = Report(pid, tier)
    try:
        proj = Project()
    except (SyntaxError, OSError) as e:
        print('cannot parse the source: %s' % e)
        return 2
    mod.run(proj, rep)
    return rep.finish(mod.TECHNIQUE, mod.EXPLANATION, mod.ASSUMPTIONS)


if __name__ == '__main__':
    sys.exit(main())
