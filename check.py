#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--scale X] [--replay FILE]

Records the real code of /repo on generated histories and lets TLC decide, against the TLA+ specification in spec/,
whether every recorded answer is one the specification allows.  exit 0: held on everything explored; exit 1: VIOLATION
lines; exit 2: the machinery failed (no verdict)."""
import argparse
import copy
import json
import os
import shutil
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import core  # noqa: E402
import plans  # noqa: E402


def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    out = []
    for line in open(path) if os.path.exists(path) else []:
        if line.startswith('known: '):
            # known: property=<id> key=<exact key of the failing event> <what fails>
            head, prop, key, what = line.rstrip('\n').split(' ', 3)
            out.append((prop.split('=', 1)[1], key.split('=', 1)[1], what))
    return out


class Run:
    def __init__(self, prop, tier, seed, scale):
        self.prop, self.tier, self.seed, self.scale = prop, tier, seed, scale
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts = [], {}
        self.M = core.PRIMES[seed % len(core.PRIMES)]
        self.dir = core.work_dir(prop)

    def left(self):
        budget = 780 if self.tier == 'thorough' else 240
        return budget - (time.time() - self.t0)

    def note(self, part, **kw):
        p = self.parts.setdefault(part, {})
        for k, v in kw.items():
            p[k] = p.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def violation(self, part, hist, upto, bad):
        known = [k for k in known_findings() if k[0] == self.prop and k[1] in json.dumps(hist)]
        if known:
            print(f'KNOWN-FINDING: property={self.prop} {known[0][2]}')
            return
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{self.tier}-{self.seed}-{len(self.violations) + 1}.json')
        rep = {'property': self.prop, 'part': part, 'M': self.M, 'seed': self.seed, 'bad': bad, 'history': hist, 'event': upto}
        json.dump(rep, open(path, 'w'), indent=1)
        self.violations.append((path, bad))

    def histories(self, part, hists, runner, module, cfg, narrow=None):
        """record, judge, collect"""
        if not hists:
            return
        inputs = {h['id']: copy.deepcopy(h) for h in hists}
        d = os.path.join(self.dir, part)
        os.makedirs(d, exist_ok=True)
        good, broken = core.record(hists, d, self.M, runner)
        for b in broken:
            self.violation(part, inputs.get(b['id'], b), 0, {'clause': 'the real code hung or died', **b})
        bad, gen, distinct = core.judge(good, d, self.M, module, cfg, timeout=max(60, 860 - (time.time() - self.t0)))
        self.states += distinct
        self.transitions += sum(len(h['ev']) for h in good)
        self.traces += len(good)
        self.note(part, histories=len(good), events=sum(len(h['ev']) for h in good), mismatches=len(bad))
        if good and len(self.samples) < 6:
            self.samples.append({'part': part, 'history': trim(good[0])})
        by = {h['id']: h for h in good}
        seen = set()
        for b in bad:
            if (b['id'], b['clause']) in seen:
                continue
            seen.add((b['id'], b['clause']))
            if len(self.violations) < 20:
                h = inputs[b['id']]
                rec = by[b['id']]['ev'][b['l'] - 1]
                if narrow:
                    h = narrow(h, by[b['id']], b['l'])
                self.violation(part, h, b['l'], {**b, 'observed': rec})
        shutil.rmtree(d, ignore_errors=True)

    def model(self, part, module, cfg, expect_error=None, constants=None, invariants=None):
        """model-check a design-level specification; expect_error names the invariant a broken variant must violate"""
        rc, out = core.tlc(module, cfg, self.dir, constants=constants, invariants=invariants, timeout=max(60, 860 - (time.time() - self.t0)))
        gen, distinct = core.stats(out)
        if expect_error is None:
            if rc != 0:
                raise core.Machinery(f'{module}/{cfg}: rc {rc}\n{out[-3000:]}')
        elif f'{expect_error} is violated' not in out and f'property {expect_error}' not in out:
            raise core.Machinery(f'{module}/{cfg}: the broken variant was not rejected\n{out[-3000:]}')
        self.states += distinct
        self.transitions += gen
        self.note(part, model_states=distinct)
        return out

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                           'samples': self.samples, 'unspecified_answers': core.judge.unspecified, 'modulus': self.M, 'parts': self.parts},
              'assumptions': plans.ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{self.prop}.json'), 'w'), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for path, bad in self.violations[:10]:
            print(f'VIOLATION property={self.prop} replay={path}')
            print('  ' + json.dumps({k: bad[k] for k in bad if k in ('id', 'l', 'clause')}) + ' expected ' + json.dumps(bad.get('exp'))[:300])
        print(f'{self.prop} {self.tier}: {self.traces} recorded histories, {self.states} states, {len(self.violations)} violations, {time.time() - self.t0:.1f} s')
        return 1 if self.violations else 0


def trim(h):
    s = json.dumps(h)
    return h if len(s) < 4000 else json.loads(json.dumps({'id': h['id'], 'ev': h['ev'][:2]})) if len(json.dumps(h['ev'][:2])) < 4000 else {'id': h['id'], 'text': s[:3000]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--part')
    a = ap.parse_args()
    run = Run(a.prop, a.tier, a.seed, a.scale)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            run.M = rep['M']
            part = [p for p in plans.PLANS[a.prop] if p.name == rep['part']][0]
            part.replay(run, rep)
        else:
            for part in plans.PLANS[a.prop]:
                if a.part and part.name != a.part:
                    continue
                part.run(run)
            if a.tier == 'thorough' and not a.part:
                k = 0
                while run.left() > 200 and not run.violations:
                    k += 1
                    for part in plans.PLANS[a.prop]:
                        if part.repeat and run.left() > 120 and not run.violations:
                            part.run(run, k)
    except core.Machinery as ex:
        if run.violations:
            print('after the violation(s), the machinery failed: ' + str(ex)[:500])
            return run.finish()
        print('MACHINERY FAILURE: ' + str(ex))
        return 2
    except Exception:
        traceback.print_exc()
        if run.violations:
            return run.finish()
        return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    return run.finish()


if __name__ == '__main__':
    sys.exit(main())
