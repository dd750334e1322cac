"""Running drivers (in the repository's interpreter) from the orchestrator."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile

from tlc import MachineryError, VERIF

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def env_for(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('PYTHON'):
            del e[k]
    e.update({'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
              'LANG': 'C.UTF-8', 'TZ': 'UTC', 'HOME': scratch, 'TMPDIR': scratch})
    return e


def call(mode, domain, job, timeout=800):
    d = tempfile.mkdtemp(prefix='vdrv_')
    try:
        inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(inp, 'w') as fh:
            json.dump(job, fh)
        try:
            p = subprocess.run([PY, os.path.join(VERIF, 'drivers', 'driver.py'), mode, domain, inp, outp],
                               cwd=d, env=env_for(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'timeout': True}
        if not os.path.exists(outp):
            return {'crash': 'driver ended with %s\n%s' % (p.returncode, p.stdout.decode(errors='replace')[-3000:])}
        with open(outp) as fh:
            return json.load(fh)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(domain, walks, params=None, procs=8, timeout=800):
    """Replay walks in parallel; returns merged statistics."""
    procs = max(1, min(procs, len(walks)))
    chunks = [walks[i::procs] for i in range(procs)]
    res = {'walks': 0, 'steps': 0, 'ops': {}, 'mismatches': [], 'crash': None}
    with cf.ThreadPoolExecutor(procs) as ex:
        outs = list(ex.map(lambda c: call('replay', domain, {'params': params or {}, 'walks': c}, timeout), chunks))
    for o in outs:
        if 'crash' in o:
            res['crash'] = o['crash']
            continue
        if 'timeout' in o:
            res['crash'] = 'timeout'
            continue
        res['walks'] += o['walks']
        res['steps'] += o['steps']
        for k, v in o['ops'].items():
            res['ops'][k] = res['ops'].get(k, 0) + v
        res['mismatches'] += o['mismatches']
    return res
