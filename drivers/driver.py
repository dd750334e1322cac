"""Runs inside the repository's interpreter (/opt/venv/bin/python, PyPy 3.9).

driver.py replay DOMAIN IN.json OUT.json   step the walks of a specification
                                           through the real code
driver.py record DOMAIN IN.json OUT.json   drive the real code at random (or by
                                           a script) and record what it does
"""
import importlib
import json
import logging
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class AnyWhere(object):
    pass


def match(exp, got):
    """exp comes from the specification: ["any"] stands for an outcome the
    specification leaves open, ["oneof", [..]] for a choice, {"set": [..]} for
    elements in any order."""
    if exp == ['any']:
        return True
    if isinstance(exp, list) and len(exp) == 2 and exp[0] == 'oneof':
        return any(match(e, got) for e in exp[1])
    if isinstance(exp, dict) and set(exp) == {'set'} and isinstance(got, list):
        key = lambda x: json.dumps(x, sort_keys=True)
        return sorted(exp['set'], key=key) == sorted(got, key=key)
    if isinstance(exp, list) and isinstance(got, list):
        return len(exp) == len(got) and all(match(e, g) for e, g in zip(exp, got))
    if isinstance(exp, dict) and isinstance(got, dict):
        return set(exp) == set(got) and all(match(exp[k], got[k]) for k in exp)
    return type(exp) == type(got) and exp == got


def replay(mod, job):
    params = job.get('params') or {}
    out = {'walks': 0, 'steps': 0, 'mismatches': [], 'ops': {}}
    limit = job.get('max_mismatches', 40)
    for wi, walk in enumerate(job['walks']):
        ad = mod.Adapter(params)
        try:
            for si, st in enumerate(walk):
                a, t = st['a'], st['t']
                try:
                    got = ad.step(a)
                except Exception as er:
                    got = ['exc', type(er).__name__, str(er)[:200]]
                out['steps'] += 1
                out['ops'][a['op']] = out['ops'].get(a['op'], 0) + 1
                why = None
                if not match(a.get('res', ['any']), got):
                    why = 'result: specification %s, code %s' % (json.dumps(a.get('res')), json.dumps(got))
                elif not params.get('noprobe'):
                    p = ad.probe(a, t, si == len(walk) - 1)
                    if p:
                        why = 'state: ' + p
                if why:
                    out['mismatches'].append({
                        'walk': wi, 'step': si, 'why': why, 'action': a, 'got': got,
                        'prev': walk[si - 1]['t'] if si else None,
                        'history': [w['a'] for w in walk[:si + 1]]})
                    break
        finally:
            close = getattr(ad, 'close', None)
            if close:
                close()
        out['walks'] += 1
        if len(out['mismatches']) >= limit:
            break
    return out


def main():
    mode, domain, inp, outp = sys.argv[1:5]
    with open(inp) as fh:
        job = json.load(fh)
    real_stdout = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        import ngoschema  # noqa
        logging.disable(logging.CRITICAL)
        mod = importlib.import_module('d_' + domain)
        if mode == 'replay':
            out = replay(mod, job)
        else:
            out = mod.record(job)
    except Exception:
        out = {'crash': traceback.format_exc()}
    with open(outp, 'w') as fh:
        json.dump(out, fh)


if __name__ == '__main__':
    main()
