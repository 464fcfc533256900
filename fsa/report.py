"""Check harness: instance counts, floors, self tests, known findings, evidence."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

from .program import AnalysisBroken, program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.counts = {}
        self.notes = []
        self.samples = []
        self.assumptions = []
        self.explanation = ''
        self.rules = []
        self._seen = set()

    def violation(self, rule, construct, loc, msg):
        """rule+construct identify the finding; loc/msg are for the reader."""
        key = f'{rule}|{construct}'
        if key in self._seen:
            return
        self._seen.add(key)
        self.findings.append({'rule': rule, 'construct': construct, 'loc': loc, 'msg': msg, 'key': key})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        have = self.counts.get(name, 0)
        if have < least:
            raise AnalysisBroken(f'{self.pid}: instance count {name}={have} fell below the confirmed floor {least}')

    def self_test(self, ok, what):
        self.count('self_tests')
        if not ok:
            raise AnalysisBroken(f'{self.pid}: self test failed: {what}')

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)


def load_known(pid):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known: property=' + pid + ' key='):
                rest = line[len('known: property=' + pid + ' key='):]
                key, _, text = rest.partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def run(pid, fn, tier):
    t0 = time.time()
    c = Check(pid, tier)
    try:
        fn(c, program())
    except AnalysisBroken as e:
        # Violations already established stay reported; otherwise error exit.
        if not c.findings:
            print(f'ANALYSIS-BROKEN property={pid} {e}')
            return 3
        c.notes.append(f'analysis incomplete: {e}')
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid} internal error')
        return 3
    known = load_known(pid)
    new, old = [], []
    for f in c.findings:
        (old if f['key'] in known else new).append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {'explanation': c.explanation, 'rules': c.rules, 'instances': dict(sorted(c.counts.items())),
           'obligations': sum(v for k, v in c.counts.items() if k != 'self_tests'),
           'samples': c.samples, 'source_digest': program().digest(), 'modules_analysed': len(program().modules),
           'functions_in_program': sum(len(m.functions) for m in program().modules.values()),
           'known_findings_seen': [f['key'] for f in old]}
    if c.notes:
        cov['notes'] = c.notes
    cov['violations'] = [{k: f[k] for k in ('rule', 'construct', 'loc', 'msg')} for f in new]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(VERIF, 'evidence', pid + '.replay.json')
    if os.path.exists(rp):
        os.unlink(rp)
    for f in old:
        print(f'KNOWN-FINDING: property={pid} {f["loc"]} {f["key"]}: {known[f["key"]]}')
    if new:
        with open(rp, 'w') as fh:
            json.dump({'property': pid, 'findings': new, 'command': f'python3 /verif/check.py {pid}'}, fh, indent=1)
        for f in new:
            print(f'{f["loc"]}: [{f["rule"]}] {f["construct"]}: {f["msg"]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'{pid}: held; ' + ', '.join(f'{k}={v}' for k, v in sorted(c.counts.items())) + f' ({ev["wall_s"]} s)')
    return 0
