"""Shared by all checks: findings, known findings, evidence files, exit status."""
import json, os, sys, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')

class Finding:
    def __init__(s, prop, key, site, text, detail=''):
        s.prop, s.key, s.site, s.text, s.detail = prop, key, site, text, detail
    def line(s):
        return '%s: %s%s' % (s.site, s.text, ' [%s]' % s.detail if s.detail else '')

class Result:
    """outcome of one property"""
    def __init__(s, prop):
        s.prop = prop
        s.findings = {}
        s.cov = {}
        s.assume = []
        s.samples = []
        s.notes = []
    def add(s, key, site, text, detail=''):
        s.findings.setdefault(key, Finding(s.prop, key, site, text, detail))
    def count(s, k, n=1):
        s.cov[k] = s.cov.get(k, 0) + n
    def sample(s, x, limit=12):
        if len(s.samples) < limit:
            s.samples.append(x)

def known():
    """{property: {key: text}} of listed findings; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property='):
                head, _, text = l[len('finding: property='):].partition(' :: ')
                p, _, key = head.partition(' ')
                out.setdefault(p, {})[key.strip()] = text
    return out

def finish(results, t0, tier, seed):
    kn = known()
    bad = False
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for r in results:
        k = kn.get(r.prop, {})
        new = [f for key, f in sorted(r.findings.items()) if key not in k]
        old = [f for key, f in sorted(r.findings.items()) if key in k]
        ev = {'property': r.prop, 'tier': tier, 'seed': seed, 'level': 'other',
              'coverage': dict({'explanation': r.cov.pop('explanation', '')}, **r.cov),
              'assumptions': r.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        if r.samples:
            ev['coverage']['samples'] = r.samples
        if r.notes:
            ev['coverage']['not_analysed'] = r.notes
        if old:
            ev['coverage']['known_findings'] = [f.key for f in old]
        if new:
            ev['coverage']['violations'] = [{'key': f.key, 'site': f.site, 'text': f.text, 'detail': f.detail} for f in new]
        p = os.path.join(VERIF, 'evidence', r.prop + '.json')
        tmp = p + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, p)
        for f in old:
            print('KNOWN-FINDING: property=%s %s (%s)' % (r.prop, f.key, f.line()))
        for f in new:
            print('  %s' % f.line())
            print('  key: %s' % f.key)
        if new:
            bad = True
            print('VIOLATION property=%s replay=evidence/%s.json' % (r.prop, r.prop))
        else:
            print('property %s holds on everything analysed (%.1fs)' % (r.prop, time.time() - t0))
    return 1 if bad else 0
