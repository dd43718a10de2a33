"""Collects the outcome of one check: evidence file, KNOWN-FINDING / VIOLATION lines, exit status."""
import os, json, time, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

class Report:
    def __init__(self, pid, tier, level):
        self.pid = pid; self.tier = tier; self.level = level; self.t0 = time.time()
        self.viol = []; self.knownhit = []; self.cov = {}; self.assume = []; self.notes = []
        self.inconclusive = []; self.counts = {}
        self.known = {k: t for p, k, t in known() if p == pid}
        self.dir = os.path.join(VERIF, 'evidence'); os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            if f.startswith(pid + '.replay.'): os.unlink(os.path.join(self.dir, f))
    def add(self, **kw):
        for k, v in kw.items(): self.counts[k] = self.counts.get(k, 0) + v
    def violation(self, key, text, replay):
        """key: stable identity of the failing input/site; replay: text of the replay artefact"""
        if key in self.known:
            if key not in self.knownhit: self.knownhit.append(key)
            return
        if any(k == key for k, _, _ in self.viol): return
        p = os.path.join(self.dir, '%s.replay.%d.txt' % (self.pid, len(self.viol) + 1))
        if len(self.viol) < 20:
            with open(p, 'w', errors='replace') as f: f.write('property %s\nsite %s\n%s\n\n%s\n' % (self.pid, key, text, replay))
        self.viol.append((key, text, p))
    def incon(self, what, why): self.inconclusive.append((what, str(why)[-300:]))
    def finish(self):
        cov = dict(self.cov)
        if self.inconclusive:
            cov['inconclusive'] = len(self.inconclusive); cov['inconclusive_list'] = ['%s: %s' % x for x in self.inconclusive[:60]]
        else: cov['inconclusive'] = 0
        if self.notes: cov['notes'] = self.notes
        if self.knownhit: cov['known_findings_reproduced'] = list(self.knownhit)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.viol: ev['coverage']['violation_list'] = ['%s: %s' % (k, t[:400]) for k, t, _ in self.viol[:40]]
        tmp = os.path.join(self.dir, self.pid + '.json.tmp')
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(self.dir, self.pid + '.json'))
        for k in self.knownhit: print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        for k, t, p in self.viol[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, p)); print('  %s: %s' % (k, t[:600].replace('\n', '\n  ')))
        print('%s %s: %d violation(s), %d inconclusive, %.1f s' % (self.pid, self.tier, len(self.viol), len(self.inconclusive), time.time() - self.t0))
        return 1 if self.viol else 0
