#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough     decide one property
check.py replay FILE                   re-execute a recorded violation

Exit 0: the property held on everything explored.  Exit 1 together with a line
VIOLATION property=<id> replay=<path>: it does not.
"""
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import drv      # noqa: E402
import tlc      # noqa: E402
from bindings import BINDINGS   # noqa: E402

EVID = os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as fh:
        return json.load(fh)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.rng = random.Random(SEED)
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self.violations = []

    def violation(self, binding, what, history, extra=None):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as fh:
            json.dump({'property': self.prop, 'domain': binding.get('domain'), 'params': binding.get('params') or {},
                       'module': binding.get('module'), 'what': what, 'history': history, 'extra': extra}, fh, indent=1)
        self.violations.append((path, what))

    def mismatches(self, b, res, walks):
        if res['crash']:
            self.violation(b, 'the code did not get through the behaviours of %s: %s' % (b['module'], res['crash'][-1500:]), [])
        groups = {}
        for m in res['mismatches']:
            groups.setdefault(json.dumps([m['action'].get('op'), m['why'].split(':')[0]]), []).append(m)
        for g in sorted(groups.values(), key=len, reverse=True)[:4]:
            m = min(g, key=lambda m: len(m['history']))
            self.violation(b, m['why'], m['history'], {'state_before': m['prev'], 'got': m['got'], 'similar': len(g)})

    def graph(self, b):
        t0 = time.time()
        deep = self.tier == 'thorough'
        r, g = tlc.tlc_graph(b['module'], b.get('cfg_thorough') if deep and b.get('cfg_thorough') else b.get('cfg'),
                             workers=4, timeout=b.get('tlc_timeout', 400 if not deep else 3000))
        if not g.edges:
            raise tlc.MachineryError('%s has no transitions' % b['module'])
        rounds = b.get('rounds', 1) if not deep else b.get('rounds_thorough', 3)
        n = 0
        for i in range(rounds):
            walks = g.walks(self.rng, maxlen=b.get('maxlen', 40) + 20 * i, pad=b.get('pad'),
                            extra_random=b.get('random', 0) if not deep else b.get('random_thorough', 1500))
            steps = [g.steps(p) for p in walks]
            res = drv.replay(b['domain'], steps, b.get('params'), procs=8, timeout=b.get('timeout', 600 if not deep else 3000))
            self.traces += res['walks']
            self.steps += res['steps']
            n += res['steps']
            self.mismatches(b, res, walks)
            if self.violations:
                break
        self.states += r.distinct
        self.transitions += len(g.edges)
        if steps:
            self.samples.append({'module': b['module'], 'behaviour': [s['a'] for s in min(steps, key=len)[:12]]})
        self.parts.append({'module': b['module'], 'cfg': b.get('cfg') or b['module'], 'states': r.distinct,
                           'transitions': len(g.edges), 'depth': r.depth, 'code_steps': n, 'actions': res['ops'],
                           'invariants': b.get('checked', []), 'wall_s': round(time.time() - t0, 1)})

    def sim(self, b):
        """Random deep behaviours of a specification too large to enumerate."""
        t0 = time.time()
        deep = self.tier == 'thorough'
        num = b.get('num', 400) if not deep else b.get('num_thorough', 6000)
        r, walks = tlc.simulate_walks(b['module'], b.get('cfg'), num, b.get('depth', 40), SEED,
                                      timeout=b.get('tlc_timeout', 400 if not deep else 3000))
        res = drv.replay(b['domain'], walks, b.get('params'), procs=8, timeout=b.get('timeout', 600 if not deep else 3000))
        self.traces += res['walks']
        self.steps += res['steps']
        self.mismatches(b, res, walks)
        seen = {json.dumps(s['t'], sort_keys=True) for w in walks for s in w}
        tr = {json.dumps([w[i - 1]['t'] if i else None, s['a'], s['t']], sort_keys=True) for w in walks for i, s in enumerate(w)}
        self.states += len(seen)
        self.transitions += len(tr)
        if walks:
            self.samples.append({'module': b['module'], 'behaviour': [s['a'] for s in walks[0][:12]]})
        self.parts.append({'module': b['module'], 'cfg': b.get('cfg') or b['module'], 'simulated_behaviours': len(walks),
                           'states': len(seen), 'transitions': len(tr), 'code_steps': res['steps'], 'actions': res['ops'],
                           'wall_s': round(time.time() - t0, 1)})

    def table(self, b):
        """A specification evaluated by TLC into a table of cases (one step each)."""
        t0 = time.time()
        r = tlc.run_tlc(b['module'], b.get('cfg_thorough') if self.tier == 'thorough' and b.get('cfg_thorough') else b.get('cfg'),
                        workers=4, timeout=b.get('tlc_timeout', 400))
        if not r.ok:
            raise tlc.MachineryError('TLC rejects %s: %s' % (b['module'], r.out[-3000:]))
        recs = r.lines
        seen = {json.dumps(x, sort_keys=True): x for x in recs}
        recs = [seen[k] for k in sorted(seen)]
        if not recs:
            raise tlc.MachineryError('%s yields no case' % b['module'])
        size = b.get('chunk', 50)
        self.rng.shuffle(recs)
        walks = [[{'a': x['a'], 't': x.get('t')} for x in recs[i:i + size]] for i in range(0, len(recs), size)]
        res = drv.replay(b['domain'], walks, b.get('params'), procs=8, timeout=b.get('timeout', 600))
        # a case is independent of the others: its history is itself
        for m in res['mismatches']:
            if not b.get('chained'):
                m['history'] = m['history'][-1:]
        self.traces += res['steps']
        self.steps += res['steps']
        self.mismatches(b, res, walks)
        self.states += r.distinct
        self.transitions += len(recs)
        self.samples.append({'module': b['module'], 'behaviour': [x['a'] for x in recs[:4]]})
        self.parts.append({'module': b['module'], 'cfg': b.get('cfg') or b['module'], 'cases': len(recs), 'code_steps': res['steps'],
                           'actions': res['ops'], 'wall_s': round(time.time() - t0, 1)})

    def trace(self, b):
        """Histories recorded from the real code, checked by TLC against the specification."""
        t0 = time.time()
        deep = self.tier == 'thorough'
        num = b.get('num', 200) if not deep else b.get('num_thorough', 2000)
        job = {'params': b.get('params') or {}, 'seed': SEED, 'num': num, 'len': b.get('len', 30)}
        out = drv.call('record', b['domain'], job, timeout=b.get('timeout', 600))
        if 'traces' not in out:
            self.violation(b, 'recording %s failed: %s' % (b['domain'], json.dumps(out)[-1500:]), [])
            return
        lines = [json.dumps(t) for t in out['traces']]
        r = tlc.run_tlc(b['module'], b.get('cfg'), files={'traces.ndjson': '\n'.join(lines) + '\n'}, workers=4,
                        timeout=b.get('tlc_timeout', 600))
        rej = [x for x in r.lines if 'rejected' in x]
        for x in rej[:4]:
            t = out['traces'][x['rejected'] - 1]
            self.violation(b, 'recorded history %d of %s is not a behaviour of %s: stuck at event %d %s' % (
                x['rejected'], b['domain'], b['module'], x['at'], json.dumps(t[x['at'] - 1] if x['at'] <= len(t) else None)), t[:x['at']])
        if not r.ok and not rej:
            raise tlc.MachineryError('TLC rejects %s: %s' % (b['module'], r.out[-3000:]))
        self.traces += len(lines)
        self.steps += sum(len(t) for t in out['traces'])
        self.states += r.distinct
        self.transitions += r.states
        self.samples.append({'module': b['module'], 'recorded': out['traces'][0][:6]})
        self.parts.append({'module': b['module'], 'recorded_histories': len(lines), 'events': sum(len(t) for t in out['traces']),
                           'wall_s': round(time.time() - t0, 1)})

    def model(self, b):
        """Design-level model checking only (invariants / temporal properties)."""
        t0 = time.time()
        r = tlc.run_tlc(b['module'], b.get('cfg'), workers=8, timeout=b.get('tlc_timeout', 400))
        if not r.ok:
            raise tlc.MachineryError('TLC rejects %s: %s %s' % (b['module'], r.violated, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append({'module': b['module'], 'states': r.distinct, 'transitions': r.states, 'wall_s': round(time.time() - t0, 1)})

    def known(self):
        for f in load_known()['findings']:
            if f['property'] != self.prop:
                continue
            walk = [{'a': a, 't': None} for a in f['history']]
            for st in walk[:-1]:
                st['a'] = dict(st['a'], res=st['a'].get('res', ['any']))
            walk[-1]['a'] = dict(walk[-1]['a'], res=f['right'])
            b = {'domain': f['domain'], 'params': dict(f.get('params') or {}, noprobe=True), 'module': f.get('module', '')}
            res = drv.replay(f['domain'], [walk], b['params'], procs=1, timeout=120)
            if res['crash']:
                self.violation(b, 'known finding %s: %s' % (f['id'], res['crash'][-800:]), f['history'])
            elif not res['mismatches']:
                print('note: known finding %s does not fail any more' % f['id'])
            else:
                m = res['mismatches'][0]
                if m['step'] == len(walk) - 1 and m['got'] in f['wrong']:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
                else:
                    self.violation(b, 'known finding %s now fails differently: %s' % (f['id'], m['why']), m['history'])

    def run(self):
        for b in BINDINGS[self.prop]:
            if b.get('thorough_only') and self.tier != 'thorough':
                continue
            getattr(self, b['kind'])(b)
            if self.violations:
                break
        if not self.violations:
            self.known()


def main():
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as fh:
            r = json.load(fh)
        walk = [{'a': a, 't': None} for a in r['history']]
        res = drv.replay(r['domain'], [walk], dict(r['params'], noprobe=True), procs=1)
        print(json.dumps(res, indent=1)[:6000])
        return 1 if res['mismatches'] or res['crash'] else 0
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    run = Run(prop, tier)
    try:
        run.run()
    except tlc.MachineryError as er:
        print('machinery error: %s' % er)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': run.states, 'transitions': run.transitions, 'traces_validated_against_impl': run.traces,
                       'code_steps': run.steps, 'samples': run.samples, 'parts': run.parts,
                       'violations': [w[:500] for p, w in run.violations]}}
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for path, what in run.violations:
        print('  ' + what[:1200])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d states, %d transitions, %d behaviours (%d steps) replayed, %.1f s: %s' % (
        prop, tier, run.states, run.transitions, run.traces, run.steps, time.time() - t0,
        'VIOLATED' if run.violations else 'held'))
    return 1 if run.violations else 0


if __name__ == '__main__':
    sys.exit(main())
