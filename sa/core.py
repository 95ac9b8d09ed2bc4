"""Check driver: obligations, evidence, known findings, exit codes."""
import json, os, re, sys, time, traceback
from . import build
from .prog import Prog, AnchorError

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(pid):
    """key -> description of the findings recorded for a property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obs = []          # (rule, where, ok, msg, key)
        self.functions = set()
        self.counts = {}
        self.assumptions = []
        self.seed = int(os.environ.get('VERIF_SEED', '0') or 0)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()

    def ob(self, rule, where, ok, msg='', key=None):
        """record one proof obligation; msg says what is wrong when it is not met"""
        self.obs.append((rule, where, bool(ok), msg, key or re.sub(r'[^\w:.+*/<>=\[\]-]+', '_', '%s@%s' % (rule, re.sub(r':\d+', '', str(where))))))
        return ok

    def fn(self, f):
        self.functions.add(f.dem if hasattr(f, 'dem') else str(f))
        return f

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def need(self, cond, what):
        if not cond:
            raise AnchorError(what)
        return cond

    def finish(self, level='other'):
        if not self.obs:
            raise AnchorError('no instance of the rule found')
        known = known_findings(self.pid)
        bad = [o for o in self.obs if not o[2]]
        kn, new, seen = [], [], set()
        for o in bad:
            if (o[4], o[1], o[3]) in seen:
                continue
            seen.add((o[4], o[1], o[3]))
            (kn if o[4] in known else new).append(o)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        per = {}
        for r, w, ok, m, k in self.obs:
            a = per.setdefault(r, [0, 0])
            a[0] += 1
            a[1] += 1 if ok else 0
        cov = {
            'explanation': self.rule,
            'obligations': len(self.obs),
            'discharged': sum(1 for o in self.obs if o[2]),
            'functions_analysed': sorted(self.functions),
            'per_rule': {r: {'checked': a, 'met': b} for r, (a, b) in sorted(per.items())},
            'sites': sorted({str(o[1]) for o in self.obs})[:60],
            'samples': ['%s at %s: %s' % (r, w, 'met' if ok else 'NOT MET ' + m) for r, w, ok, m, k in self.obs[:6]],
            'known_findings_seen': len(kn),
        }
        cov.update(self.counts)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for o in {o[4]: o for o in kn}.values():
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[o[4]], o[1]))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for r, w, ok, m, k in new:
                    f.write('property %s\nrule      %s\nat        %s\nfinding   %s\nkey       %s\n\n' % (self.pid, r, w, m, k))
            for r, w, ok, m, k in new[:12]:
                print('%s: %s: %s  [key=%s]' % (w, r, m, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations met (%d functions)' % (self.pid, cov['discharged'], len(self.functions)))
        return 0


_progs = {}


def lib():
    """the whole library"""
    if 'lib' not in _progs:
        _progs['lib'] = Prog(build.dump('lib'))
    return _progs['lib']


def harness(name, files, tus=(), **kw):
    if name not in _progs:
        _progs[name] = Prog(build.dump(name, tus=list(tus), harness=list(files), **kw))
    return _progs[name]
