"""Shared frame of all checks: obligations, reporting, known findings, evidence."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from tsa import ir, load                      # noqa: E402
from tsa.engine import Endless                # noqa: E402


class Check:
    def __init__(self, pid, level, rule, trusted=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obs = {}            # clause -> [ok, fail]
        self.viol = {}           # key -> (message)
        self.cov = {}
        self.samples = []
        self.short = []
        self.fns = set()
        self.trusted = list(trusted)
        self.assumptions = []
        self.known = self._known()
        Check.current = self

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        return {x['key']: x for x in json.load(open(p)).get('findings', []) if x['property'] == self.pid}

    def ob(self, clause, ok, key=None, msg=''):
        """one proof obligation; key identifies the construct at fault"""
        c = self.obs.setdefault(clause, [0, 0])
        if ok:
            c[0] += 1
            return True
        c[1] += 1
        k = clause + (':' + key if key else '')
        if k not in self.viol:
            self.viol[k] = msg() if callable(msg) else msg
        return False

    def engine(self, e, kinds, clause_prefix=''):
        """import the engine's own obligations of the given kinds"""
        self.fns |= set(e.fn_used)
        for (kind, fn, file, line), (ok, bad, msg, stack) in e.obl.items():
            if kind not in kinds:
                continue
            cl = clause_prefix + kind
            c = self.obs.setdefault(cl, [0, 0])
            if ok or not bad:
                c[0] += 1
            if bad:
                c[1] += 1
                k = '%s:%s' % (cl, fn)
                text = '%s:%d in %s(): %s (call path %s)' % (os.path.relpath(file, load.REPO) if file.startswith('/') else file,
                                                            line, fn, msg, stack)
                if k in self.viol:
                    if text not in self.viol[k]:
                        self.viol[k] += '\n' + text
                else:
                    self.viol[k] = text

    def floor(self, what, n, least):
        """the rule must have matched at least `least` instances"""
        self.cov[what] = n
        if n < least:
            self.short.append('only %d %s analysed (expected at least %d)' % (n, what, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:400])

    def finish(self):
        wall = time.time() - self.t0
        bad = {k: m for k, m in self.viol.items() if k not in self.known}
        hit = {k: m for k, m in self.viol.items() if k in self.known}
        cov = dict(self.cov)
        tot = sum(a + b for a, b in self.obs.values())
        ok = sum(a for a, b in self.obs.values())
        cov['rule'] = self.rule
        cov['clauses'] = {k: {'discharged': a, 'failed': b} for k, (a, b) in sorted(self.obs.items())}
        cov['obligations'] = tot
        cov['discharged'] = ok
        cov['checker_cmd'] = 'python3 /verif/checks/run.py %s' % self.pid
        cov['trusted_base'] = ['clang-18 -O0 lowering to LLVM IR and mem2reg', 'tsa abstract interpreter (this directory)',
                               'C library models in tsa/models.py'] + self.trusted
        cov['functions_analysed'] = sorted(self.fns)
        if self.samples:
            cov['samples'] = self.samples
        cov['explanation'] = ('Static analysis of the LLVM IR of the current sources: ' + self.rule)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 3), 'violations': len(bad)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, m in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]['what']))
        print('%s: %d obligations, %d discharged, %d functions, %.1f s' % (self.pid, tot, ok, len(self.fns), wall))
        if bad:
            rd = os.path.join(VERIF, '.build', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + '.txt')
            with open(path, 'w') as f:
                for k, m in sorted(bad.items()):
                    f.write('[%s]\n%s\n\n' % (k, m))
            for k, m in sorted(bad.items()):
                print('  [%s] %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if tot == 0:
            self.short.append('no obligations')
        if self.short:
            print('%s: analysis broken: %s' % (self.pid, '; '.join(self.short)))
            return 3
        return 0


class Late(Exception):
    """out of time"""


T0 = time.time()


def limit(seconds):
    """raise Late that many seconds after the start of the check (no limit for the thorough tier)"""
    if os.environ.get('VERIF_TIER') == 'thorough':
        return

    def late(*_):
        raise Late('no answer within %d seconds' % seconds)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(T0 + seconds - time.time())))


def main(pid, fn):
    limit(840)
    try:
        rc = fn()
    except Exception as ex:
        if isinstance(ex, Endless) and getattr(Check, 'current', None) is not None:
            Check.current.ob('returns', False, *ex.args)
            rc = 4
        elif isinstance(ex, ir.IRError):
            print('%s: analysis error: %s' % (pid, ex))
            rc = 3
        else:
            traceback.print_exc()
            rc = 4
        # violations established before the analysis stopped stand
        c = getattr(Check, 'current', None)
        if c is not None and any(k not in c.known for k in c.viol):
            rc = c.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
