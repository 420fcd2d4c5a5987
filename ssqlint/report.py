"""Obligations, verdicts, known findings, evidence."""
import json
from collections import Counter
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.ok, self.bad, self.und = [], [], []
        self.stats = {}
        self.rules = {}
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def good(self, rule, construct, detail=''):
        self.ok.append((rule, construct, detail))

    def violation(self, rule, construct, detail, where=''):
        key = (rule, construct)
        if not any((r, c) == key for r, c, *_ in self.bad):
            self.bad.append((rule, construct, detail, where))

    def undecided(self, rule, construct, why):
        self.und.append((rule, construct, why))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def guard(self, rule, construct, fn, *a, **k):
        """Run an obligation; an internal failure leaves it undecided."""
        try:
            return fn(*a, **k)
        except RecursionError:
            self.undecided(rule, construct, 'term too deep')
        except Exception as e:  # noqa
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(rule, construct, '%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    def finish(self, technique, explanation, assumptions, level='other', seed=None):
        known = load_known(self.pid)
        new = []
        for rule, construct, detail, where in self.bad:
            k = '%s %s' % (rule, construct)
            if k in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, known[k]))
            else:
                new.append((rule, construct, detail, where))
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier,
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1) if seed is None else seed,
                  level=level,
                  coverage=dict(explanation=explanation,
                                obligations_proved=len(self.ok),
                                obligations_violated=len(self.bad),
                                obligations_undecided=len(self.und),
                                rules=self.rules, **self.stats,
                                proved=[dict(rule=r, construct=c, detail=str(d)[:300]) for r, c, d in self.ok],
                                undecided=[dict(rule=r, construct=c, why=str(d)[:300]) for r, c, d in self.und]),
                  assumptions=assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.bad))
        ev['coverage']['violated'] = [dict(rule=r, construct=c, detail=str(d)[:2000], where=w, known=('%s %s' % (r, c)) in known) for r, c, d, w in self.bad]
        ev['coverage']['proved_per_rule'] = dict(Counter(r for r, _, _ in self.ok))
        path = os.path.join(EVID, self.pid + '.json')
        text = json.dumps(ev, indent=1, default=str)
        cap = 1200
        while len(text) > 700000 and cap >= 10:              # the list of what holds is cut, evenly over the rules; the counts are not
            n = Counter()
            kept = []
            for r, c, d in self.ok:
                n[r] += 1
                if n[r] <= cap:
                    kept.append(dict(rule=r, construct=c, detail=str(d)[:80]))
            ev['coverage']['proved'] = kept
            for k in ('undecided', 'violated'):
                ev['coverage'][k] = ev['coverage'][k][:cap]
            ev['coverage']['proved_listed'] = len(kept)
            text = json.dumps(ev, indent=1, default=str)
            cap //= 2
        with open(path, 'w') as f:
            f.write(text)
        print('%s: %d obligations hold, %d violated (%d known), %d undecided, %.1fs'
              % (self.pid, len(self.ok), len(self.bad), len(self.bad) - len(new), len(self.und), time.time() - self.t0))
        for r, c, d, w in new:
            print('  [%s] %s %s\n      %s' % (r, c, w, str(d)[:1500]))
        if new:
            rp = os.path.join(EVID, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=self.pid, violations=[dict(rule=r, construct=c, detail=str(d), where=w) for r, c, d, w in new]), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not self.ok:
            print('no obligation could be decided')
            for u in self.und[:10]:
                print('   undecided', u)
            return 2
        return 0


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out
