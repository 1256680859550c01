"""Runner: generates cases with Hypothesis, decides each with a plain check function, shrinks, writes evidence and replays.

A check module (pbt/checks/cNN.py) defines SUBS, a list of Sub. A Sub has a strategy producing plain JSON data, and a
function check(case) that builds real objects of the code under test from that data and raises on any disagreement with
its oracle. check returns labels; a case labelled 'trivial' is not counted as non-trivial.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('PBT_SCRATCH', '/tmp')


def bootstrap():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import hypothesis  # noqa: F401
    # third-party packages first, with their cached bytecode; the code under test always from source
    import matplotlib.pyplot, networkx, numpy, pandas, pint, pint_pandas, scipy.special, sympy.physics.wigner, tqdm  # noqa
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    sys.path.insert(0, REPO)
    import atomtoolkit
    here = os.path.realpath(os.path.dirname(atomtoolkit.__file__))
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'atomtoolkit comes from {here}, not from {REPO}')
    warnings.simplefilter('ignore')


class Violation(AssertionError):
    pass


class StopSearch(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick=100, thorough=None, rule='', cases=None):
        self.name, self.strategy, self.check, self.rule, self.cases = name, strategy, check, rule, cases
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20


def canon(case):
    return json.dumps(case, sort_keys=True)


class Recorder:
    def __init__(self, prop):
        self.prop, self.evals, self.seen, self.nontrivial = prop, collections.Counter(), set(), set()
        self.labels = collections.Counter()
        self.samples, self.fail = {}, None

    def run(self, sub, case):
        """evaluates the check on a case; returns the error or None"""
        key = sub.name + canon(case)
        h = hashlib.sha1(key.encode()).digest()[:12]
        self.evals[sub.name] += 1
        try:
            labels = list(sub.check(case) or [])
        except Exception as e:
            tb = traceback.format_exc()
            if self.fail is None or len(canon(case)) <= self.fail['size']:
                self.fail = {'size': len(canon(case)), 'sub': sub.name, 'case': case, 'error': f'{type(e).__name__}: {e}',
                             'traceback': tb}
            return e
        if h not in self.seen:
            self.seen.add(h)
            for lab in labels:
                self.labels[f'{sub.name}:{lab}'] += 1
            if 'trivial' not in labels:
                self.nontrivial.add(h)
                self.samples.setdefault(sub.name, [])
                if len(self.samples[sub.name]) < 2 and len(key) < 4000:
                    self.samples[sub.name].append(case)
        return None


def search(sub, rec, seed, n, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    if sub.cases is not None:
        for case in sub.cases():
            if time.time() > deadline:
                rec.labels[f'{sub.name}:time-limit'] += 1
                return
            if rec.run(sub, case) is not None:
                break
        if rec.fail or sub.strategy is None:
            return
    state = {'first_fail': None}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)
    @given(sub.strategy())
    def test(case):
        now = time.time()
        if state['first_fail'] is not None and now - state['first_fail'] > 40:
            raise StopSearch()
        if now > deadline:
            rec.labels[f'{sub.name}:time-limit'] += 1
            raise StopSearch()
        err = rec.run(sub, case)
        if err is not None:
            if state['first_fail'] is None:
                state['first_fail'] = now
            raise Violation(str(err))

    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            test()
    except StopSearch:
        pass
    except Exception:
        if rec.fail is None:  # not a verdict of the check: an error of the harness
            raise


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8'):
            if line.startswith(f'KNOWN-FINDING: property={prop} '):
                out.append(line.strip())
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    bootstrap()
    mod = importlib.import_module('pbt.checks.' + a.prop.lower())
    rec = Recorder(a.prop)
    subs = [s for s in mod.SUBS if a.sub in (None, s.name)]

    if a.replay:
        data = json.load(open(a.replay, encoding='utf-8'))
        sub = next(s for s in mod.SUBS if s.name == data['sub'])
        err = rec.run(sub, data['case'])
        if err is None:
            print(f'replay of {a.replay}: holds')
            return 0
        print(rec.fail['traceback'])
        print(f'VIOLATION property={a.prop} replay={a.replay}')
        return 1

    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    budget = 420 if a.tier == 'quick' else 2400
    import zlib
    for i, sub in enumerate(subs):
        n = max(1, int((sub.quick if a.tier == 'quick' else sub.thorough) * a.scale))
        deadline = t0 + budget * (i + 1) / len(subs)
        search(sub, rec, (seed * 1000003 + zlib.crc32(f'{a.prop}/{sub.name}'.encode())) % 2 ** 32, n, deadline)
        if rec.fail:
            break

    wall = time.time() - t0
    total = sum(rec.evals.values())
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': total, 'distinct_nontrivial': len(rec.nontrivial),
                       'rule': ' '.join(f'[{s.name}] {s.rule}' for s in subs),
                       'samples': [{'sub': k, 'case': c} for k, cs in rec.samples.items() for c in cs] or
                                  ([{'sub': rec.fail['sub'], 'case': rec.fail['case']}] if rec.fail else []),
                       'evaluations_by_sub': dict(rec.evals), 'distinct': len(rec.seen),
                       'labels': dict(sorted(rec.labels.items()))},
          'assumptions': ['the reference models in pbt/ and Hypothesis are trusted',
                          'a search: absence of violations is evidence, not proof'],
          'wall_s': round(wall, 2), 'violations': int(bool(rec.fail))}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for line in known_findings(a.prop):
        print(line)
    if rec.fail:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}-{rec.fail['sub']}-{hashlib.sha1(canon(rec.fail['case']).encode()).hexdigest()[:10]}.json")
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'sub': rec.fail['sub'], 'case': rec.fail['case'], 'error': rec.fail['error']},
                      f, indent=1, ensure_ascii=False)
        print(rec.fail['traceback'][-3000:])
        print('case:', canon(rec.fail['case'])[:3000])
        print(f'VIOLATION property={a.prop} replay={path}')
        return 1
    print(f'{a.prop}: held on {total} cases ({len(rec.nontrivial)} distinct non-trivial) in {wall:.1f} s')
    return 0


if __name__ == '__main__':
    from pbt import core  # the same module object as the check modules import
    try:
        sys.exit(core.main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
