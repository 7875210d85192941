"""Obligations, known findings, evidence."""
import json, os, sys, time
from . import extract
VERIF = extract.VERIF

def known():
    """exact keys of recorded findings: {(property, key): text}"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                rest = ln[len('known: '):]
                prop, rest = rest.split(' ', 1)
                key, text = rest.split(' :: ', 1)
                r[(prop.split('=', 1)[1], key.split('=', 1)[1].strip())] = text.strip()
    return r

class Check:
    def __init__(s, pid, level='other'):
        s.pid = pid; s.level = level; s.t0 = time.time()
        s.obl = []          # (name, ok, key, message)
        s.counts = {}
        s.samples = []
        s.rules = []
        s.open = []         # undecided: (name, reason)
        s.assumptions = []
        s.trusted = []
    def rule(s, text): s.rules.append(text)
    def assume(s, *text): s.assumptions.extend(text)
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def ob(s, name, ok, msg='', key=None, sample=None):
        """one obligation; key identifies a violation independently of line numbers"""
        s.obl.append((name, bool(ok), key or name, msg))
        if sample is not None or len(s.samples) < 40:
            s.samples.append('%s: %s%s' % (name, 'ok' if ok else 'VIOLATED', (' — ' + str(sample)) if sample is not None else ''))
        return ok
    def undecided(s, name, why):
        """a fact the analysis could neither establish nor refute on this tree"""
        s.open.append((name, why))
    def floor(s, what, got, least):
        s.count(what, 0); s.counts[what] = got
        s.ob('floor:%s' % what, got >= least, 'only %d instances of %s were analysed, at least %d were counted by hand: the rule lost its anchors' % (got, what, least))
    def finish(s):
        kn = known()
        bad = [(n, k, m) for n, ok, k, m in s.obl if not ok]
        listed = [(n, k, m) for n, k, m in bad if (s.pid, k) in kn]
        new = [(n, k, m) for n, k, m in bad if (s.pid, k) not in kn]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=s.pid, tier=os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=s.level,
                  coverage=dict(obligations=len(s.obl), discharged=len(s.obl) - len(bad), known_findings=len(listed), undecided=[dict(what=n, why=w) for n, w in s.open],
                                explanation='Static analysis of the MIR of /repo\'s current tree. ' + ' '.join(s.rules),
                                counts=s.counts, samples=s.samples[:60]),
                  assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 3), violations=len(new))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.pid + '.json'), 'w'), indent=1)
        for n, k, m in listed:
            print('KNOWN-FINDING: property=%s %s' % (s.pid, kn[(s.pid, k)]))
        for n, w in s.open: print('UNDECIDED %s: %s' % (n, w[:400]))
        if new:
            rp = os.path.join('evidence', s.pid + '.violation.json')
            json.dump([dict(obligation=n, key=k, report=m) for n, k, m in new], open(os.path.join(VERIF, rp), 'w'), indent=1)
            for n, k, m in new[:20]:
                print('  %s [%s]: %s' % (n, k, m))
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
            return 1
        print('%s: %d obligations, %d discharged, %d known findings; %s' % (s.pid, len(s.obl), len(s.obl) - len(bad), len(listed), s.counts))
        return 0
