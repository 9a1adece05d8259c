"""Common driver: evidence files, known findings, exit codes."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback
from typing import List, Dict, Callable, Any

from .src import Index, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Report:
    def __init__(self, prop: str):
        self.prop = prop
        self.violations: List[Dict[str, Any]] = []
        self.obligations = 0
        self.discharged = 0
        self.counts: Dict[str, Any] = {}
        self.samples: List[str] = []
        self.assumptions: List[str] = []
        self.rule = ''
        self._seen = set()

    def ok(self, what: str = '', n: int = 1):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def violation(self, rule: str, construct: str, where: str, msg: str):
        """construct: stable key (rule + construct, no line numbers)"""
        self.obligations += 1
        k = (rule, construct)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append({'rule': rule, 'construct': construct, 'where': where, 'message': msg})

    def count(self, name: str, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name: str, minimum: int):
        """fails the run if fewer instances than confirmed by hand were seen"""
        v = self.counts.get(name, 0)
        if v < minimum:
            raise AnalysisError(f'rule instance count "{name}" is {v}, expected at least {minimum}: '
                                f'the construct the rule is anchored to has vanished')


def known_findings(prop: str) -> Dict[str, str]:
    """lines:  finding: property=C01 key=<rule>|<construct> <what fails>"""
    res = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:') and f'property={prop} ' in line:
                    key = line.split(' key=', 1)[1]
                    key, _, what = key.partition(' :: ')
                    res[key.strip()] = what.strip()
    except FileNotFoundError:
        pass
    return res


def main(prop: str, check: Callable[[Index, Report, str], None], explanation: str,
         assumptions: List[str] = ()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(prop)
    rep.assumptions.extend(assumptions)
    sys.setrecursionlimit(20000)
    try:
        ix = Index()
        check(ix, rep, tier)
    except AnalysisError as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop}: internal error')
        sys.exit(2)
    known = known_findings(prop)
    new, old = [], []
    for v in rep.violations:
        k = f"{v['rule']}|{v['construct']}"
        (old if k in known else new).append((k, v))
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = {'explanation': explanation, 'rule': rep.rule or explanation,
           'modules_parsed': len(ix.modules), 'source_digest': ix.digest[:16],
           'rule_instances': rep.obligations, 'discharged_instances': rep.discharged,
           'known_findings_seen': len(old), 'samples': rep.samples[:12]}
    cov.update({k: v for k, v in rep.counts.items()})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 3),
          'violations': len(new)}
    with open(os.path.join(evdir, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, v in old:
        print(f'KNOWN-FINDING: property={prop} {v["rule"]}: {v["where"]}: {known[k]}')
    if new:
        rp = os.path.join(evdir, prop + '.violations.txt')
        with open(rp, 'w', encoding='utf-8') as f:
            for k, v in new:
                f.write(f"{v['where']}: [{v['rule']}] {v['message']}\n    key={k}\n")
        for k, v in new:
            print(f"{v['where']}: [{v['rule']}] {v['message']}   (key={k})")
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    print(f'{prop}: held; {rep.obligations} rule instances, {rep.discharged} discharged, '
          f'{len(old)} known findings; ' + ', '.join(f'{k}={v}' for k, v in rep.counts.items()
                                                     if isinstance(v, int)))
    sys.exit(0)
