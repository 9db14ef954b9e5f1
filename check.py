#!/usr/bin/env python3-vt
"""check.py <property>: discharge every obligation of the property on /repo's current tree."""
import json
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
NATIVE = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3-vt'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

TRUSTED = [
    'z3 (python API, 5.3) and cvc5 1.1.2 decision procedures',
    'pyvc: the symbolic interpreter of the Python subset in /verif/pyvc (semantics of Python statements, '
    'expressions, exceptions and of the modelled builtins)',
    'CPython import-time evaluation of module-level code of bitcoinx and of its dependencies',
    'attrs-generated __init__/__eq__ methods are modelled from the declared fields',
    'int is mathematical (as in Python); no float reasoning',
]


def failed(name, msg):
    return {'item': name, 'status': 'unsupported', 'message': msg, 'model': None, 'stubs': [],
            'functions': [], 'machines': [], 'solver': {}, 'obligations': 1, 'paths': 0, 'wall': 0,
            'obl_names': {}, 'complete': 0, 'ok': 0, 'kind': '?'}


def merge(a, b):
    """The result of an item from the results of its parts."""
    if a is None:
        return b
    r = dict(b if b['status'] != 'proved' and a['status'] == 'proved' else a)
    for k in ('obligations', 'paths', 'wall', 'complete', 'ok'):
        r[k] = a[k] + b[k]
    for k in ('stubs', 'functions', 'machines'):
        r[k] = sorted(set(a[k]) | set(b[k]))
    r['solver'] = {k: a['solver'].get(k, 0) + b['solver'].get(k, 0) for k in {**a['solver'], **b['solver']}}
    r['obl_names'] = {k: a['obl_names'].get(k, 0) + b['obl_names'].get(k, 0) for k in {**a['obl_names'], **b['obl_names']}}
    return r


def proof_child(conn, name, timeout, part=0):
    sys.stdout = sys.stderr
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(6000)
        from pyvc import api, verify
        r = verify.run_item(api.REGISTRY[name], timeout=timeout, part=part)
    except BaseException as e:
        r = failed(name, f'engine: {type(e).__name__}: {e}')
    conn.send(r)
    conn.close()


def run_proofs(names, timeout_of, nproc=NPROC, grow=None, limit=560, done=None):
    """Discharge items in parallel; grow(result) gives further item names to prove."""
    from pyvc import api
    ctx = mp.get_context('fork')
    live, res, seen, left = {}, {}, set(names), {}

    def tasks(n):
        left[n] = len(api.REGISTRY[n].parts())
        return [(n, k) for k in range(left[n])]

    def result(n, r):
        res[n] = merge(res.get(n), r)
        left[n] -= 1
        if done and not left[n]:
            done(res[n])
    todo = [t for n in sorted(names, key=lambda n: -timeout_of(n)) for t in tasks(n)]
    end = time.time() + limit
    while todo or live:
        if time.time() > end:
            for n, k in todo:
                result(n, failed(n, 'not attempted: the time for the whole check ran out'))
            todo = []
            for a, (p, n, t) in live.items():
                p.kill()
        while todo and len(live) < nproc:
            n, k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=proof_child, args=(b, n, timeout_of(n), k))
            p.start()
            b.close()
            live[a] = (p, n, time.time())
        for a in wait(list(live), timeout=1):
            p, n, _ = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = failed(n, 'the prover process died or ran out of time')
            p.join()
            result(n, r)
            for m in (grow(r) if grow else ()):
                if m not in seen:
                    seen.add(m)
                    new = tasks(m)
                    todo = new + todo if timeout_of(m) > 150 else todo + new
        for a, (p, n, t) in list(live.items()):
            if time.time() - t > 1.5 * timeout_of(n) + 60:
                p.kill()
    return res


def start_falsifier(args):
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.Popen([NATIVE, '-m', 'pyvc.falsify', '--out', out] + args, cwd=VERIF, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out


def finish_falsifier(h, limit=700):
    p, out = h
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
    try:
        r = json.load(open(out))
    except Exception:
        r = [{'item': '*', 'evaluations': 0, 'distinct': 0, 'samples': [], 'violation': None,
              'error': f'native run failed: {err[-1500:]}'}]
    os.unlink(out)
    return r


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                out.append(line[7:].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    thorough = tier == 'thorough'
    from pyvc import api, verify
    verify.load_contracts()
    items = [i for i in api.REGISTRY.values() if prop in i.props]
    if not items:
        print(f'no items for {prop}')
        return 2
    proofs = [i.name for i in items if i.mode == 'proof']
    nb = len(items)
    # the native run: bounded stand-ins and a falsification pass on everything
    secs = max(0.8, min(6.0, 70.0 / nb)) if not thorough else max(20.0, min(120.0, 2400.0 / nb))
    nbnd = max(1, len([i for i in items if i.mode == 'bounded']))
    bsecs = max(3.0, min(20.0, 140.0 / nbnd)) if not thorough else max(60.0, min(300.0, 4800.0 / nbnd))
    fal = start_falsifier(['--prop', prop, '--seed', str(seed), '--secs', f'{secs:.1f}', '--bsecs', f'{bsecs:.1f}', '--procs',
                           str(max(2, NPROC // 2) if proofs else NPROC)])

    def timeout_of(n):
        i = api.REGISTRY[n]
        return (i.timeout or 150) * (4 if thorough else 1)

    def grow(r):
        return [x for x in list(r['stubs']) + list(r['machines'])
                if x in api.REGISTRY and api.REGISTRY[x].mode == 'proof']
    res = run_proofs(proofs, timeout_of, max(4, NPROC - 2), grow, 560 if not thorough else 7200)
    nat = finish_falsifier(fal, 3000 if thorough else 500)
    for r in res.values():
        if r['status'] == 'proved' and not r['obligations']:
            r['status'], r['message'] = 'vacuous', 'no obligation was generated'
    bad = [n for n, r in res.items() if r['status'] != 'proved']
    viol = {}
    for r in nat:
        if r.get('violation'):
            viol[r['item']] = r['violation']
    second = []
    need = [n for n in bad if n not in viol]
    if need and not viol:
        fd, mp_ = tempfile.mkstemp(suffix='.pkl')
        os.write(fd, pickle.dumps({n: [res[n]['model']] for n in need if res[n]['model']}))
        os.close(fd)
        # also look again at every item of the property: the failing input may surface elsewhere
        names = sorted(set(need) | {i.name for i in items})
        s2 = '25' if not thorough else '120'
        second = finish_falsifier(start_falsifier(
            ['--items', ','.join(names), '--seed', str(seed + 1000), '--secs', s2, '--models', mp_]),
            3000 if thorough else max(60, min(400, 840 - (time.time() - t0))))
        os.unlink(mp_)
        for r in second:
            if r.get('violation'):
                viol[r['item']] = r['violation']
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    known = known_findings()
    code = 0
    for n, v in sorted(viol.items()):
        kf = [k for k in known if f'property={prop} ' in k and f'item={n} ' in k and k.split('args=')[1] == v['args']]
        if kf:
            lines.append(f'KNOWN-FINDING: property={prop} {kf[0]}')
            continue
        path = os.path.join(rdir, f'{prop}_{safe(n)}.json')
        json.dump({'property': prop, 'item': n, 'message': v['message'], 'args': v['args'], 'pickle': v['pickle'],
                   'obligation': res.get(n, {}).get('message'),
                   'replay': f'python3 /verif/replay.py {path}'}, open(path, 'w'), indent=1)
        lines.append(f'# {n}: {v["message"][:700]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
        code = 1
    nofail = [n for n in bad if n not in viol]
    if nofail and not code:
        path = os.path.join(rdir, f'{prop}_obligation.json')
        json.dump({'property': prop, 'failed_obligations':
                   {n: {'status': res[n]['status'], 'verifier_output': res[n]['message'],
                        'obligations': res[n]['obl_names']} for n in nofail}}, open(path, 'w'), indent=1)
        for n in nofail:
            lines.append(f'# obligation {n} not discharged ({res[n]["status"]}): {res[n]["message"][:500]}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        code = 1
    errs = [r for r in nat + second if r.get('error')]
    for r in errs:
        lines.append(f'# native run of {r["item"]}: {r["error"][:1500]}')
    if errs and not code:
        # the code could not be run natively: nothing was decided
        path = os.path.join(rdir, f'{prop}_native.json')
        json.dump({'property': prop, 'errors': errs}, open(path, 'w'), indent=1)
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        code = 1
    # evidence
    funcs = sorted({f for r in res.values() for f in r['functions']})
    bounded = [i.name for i in items if i.mode == 'bounded']
    ev_n = sum(r['evaluations'] for r in nat)
    level = 'proof' if proofs and not bounded else 'other' if proofs else 'exploration'
    obl = sum(r['obligations'] for r in res.values())
    dis = sum(r['obligations'] for r in res.values() if r['status'] == 'proved')
    q = {k: sum(r['solver'].get(k, 0) for r in res.values()) for k in
         ('queries', 'time', 'unknown', 'sat', 'unsat', 'cvc5', 'cvc5_proved')}
    from contracts import ASSUMPTIONS
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': f'python3-vt /verif/check.py {prop}',
        'trusted_base': TRUSTED,
        'contracts_discharged': {n: {'status': r['status'], 'paths': r['paths'], 'obligations': r['obligations'],
                                     'seconds': r['wall'], 'uses_contracts': r['stubs']}
                                 for n, r in sorted(res.items())},
        'functions_interpreted': funcs,
        'solver': {**{k: v for k, v in q.items() if k != 'time'}, 'seconds': round(q['time'], 2)},
        'bounded_items': bounded,
        'evaluations': ev_n,
        'distinct_nontrivial': sum(r['distinct'] for r in nat),
        'rule': 'native runs of the same contracts on the real code: boundary values, constants harvested from the '
                'source, structured generators, coverage-guided mutation; a case is counted when it satisfies the '
                'precondition, and as distinct when its arguments differ',
        'samples': [f"{r['item']}: {x}" for r in nat for x in r['samples'][:2]][:12] or ['(none)'],
        'native': {r['item']: {'evaluations': r['evaluations'], 'distinct': r['distinct']} for r in nat},
        'explanation': f'{len(proofs)} contracts/drivers proved for all inputs; {len(bounded)} items bounded '
                       '(native execution against the contract, never counted as proved): '
                       + (', '.join(bounded) or 'none'),
    }
    json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
               'level': level, 'coverage': cov,
               'assumptions': ASSUMPTIONS.get('*', []) + ASSUMPTIONS.get(prop, []),
               'wall_s': round(time.time() - t0, 2), 'violations': sum('VIOLATION' in x for x in lines)},
              open(os.path.join(evdir, f'{prop}.json'), 'w'), indent=1)
    for x in lines:
        print(x)
    if code == 0:
        print(f'{prop}: {len(res)} contracts discharged ({dis}/{obl} obligations), {len(bounded)} bounded, '
              f'{ev_n} native evaluations, {time.time() - t0:.1f}s')
    return code


def safe(n):
    return ''.join(c if c.isalnum() or c in '._-' else '_' for c in n)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
