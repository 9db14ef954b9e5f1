"""Native falsifier: runs the contracts and drivers on the real code under CPython.

Used (a) to replay counterexamples of failed obligations, (b) to look for a failing input when
an obligation is not discharged, (c) as the bounded stand-in for items with mode 'bounded'.
"""
import argparse
import ast
import base64
import copy
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
for _p in (VERIF, REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)

from pyvc import api            # noqa: E402


def load_contracts(props=None):
    api.setup_copying()
    d = os.path.join(VERIF, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('contracts.' + f[:-3])


# ---------------------------------------------------------------- constants of the code under test
def harvest():
    ints, bts, strs = set(), set(), set()
    d = os.path.join(REPO, 'bitcoinx')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
        except (SyntaxError, OSError):
            continue
        big = f in ('misc.py',)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 200:
                    bts.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 120 and '\n' not in v and not big:
                    strs.add(v)
            elif isinstance(n, (ast.BinOp, ast.UnaryOp)):
                try:
                    v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}})
                    if isinstance(v, int) and not isinstance(v, bool) and v.bit_length() < 600:
                        ints.add(v)
                except Exception:
                    pass
    return sorted(ints), sorted(bts), sorted(strs)


# ---------------------------------------------------------------- membership and mutation
def contains(d, v):
    if isinstance(d, api.Int):
        if isinstance(v, bool) or not isinstance(v, int):
            return False
        if type(v) is not (d.cls or int):
            return False
        return (d.lo is None or v >= d.lo) and (d.hi is None or v <= d.hi)
    if isinstance(d, api.Bool):
        return isinstance(v, bool)
    if isinstance(d, api.Const):
        return type(v) is type(d.v) and v == d.v
    if isinstance(d, api.OneOf):
        return any(type(v) is type(x) and v == x for x in d.vals)
    if isinstance(d, api.AnyOf):
        return any(contains(x, v) for x in d.doms)
    if isinstance(d, api.Bytes):
        return (type(v) is d.cls and len(v) >= d.min and (d.max is None or len(v) <= d.max)
                and (d.top == 256 or all(x < d.top for x in v)))
    if isinstance(d, api.Str):
        return (isinstance(v, str) and len(v) >= d.min and (d.max is None or len(v) <= d.max)
                and (d.alphabet is None or all(c in d.alphabet for c in v)) and not set(v) & set(d.exclude))
    if isinstance(d, api.Joined):
        return isinstance(v, str) and all(contains(d.dom, x) for x in v.split(d.sep))
    if isinstance(d, api.ListOf):
        return (type(v) is d.cls and len(v) >= d.min and (d.max is None or len(v) <= d.max)
                and all(contains(d.dom, x) for x in v))
    if isinstance(d, api.TupleOf):
        return isinstance(v, tuple) and len(v) == len(d.doms) and all(contains(a, b) for a, b in zip(d.doms, v))
    if isinstance(d, api.ObjOf) and d.like is not None:
        return type(v) is d.klass()
    if isinstance(d, api.ObjOf):
        return type(v) is d.klass() and all(contains(x, getattr(v, k, None)) for k, x in d.fields.items())
    if isinstance(d, api.Stream):
        return isinstance(v, api.NativeStream) and v.pos == 0 and contains(d.dom, v.data)
    if hasattr(d, 'contains'):
        return d.contains(v)
    return False


def mutate(rng, d, v, H):
    ints, bts, strs = H
    if isinstance(d, api.AnyOf):
        c = [x for x in d.doms if contains(x, v)]
        if not c or rng.random() < 0.1:
            return rng.choice(d.doms).sample(rng)
        return mutate(rng, rng.choice(c), v, H)
    if isinstance(d, api.Int):
        r = rng.random()
        if r < 0.3:
            v = v + rng.choice((1, -1, 2, -2, 16, 255, 256, -256))
        elif r < 0.5:
            v = v ^ (1 << rng.randrange(max(1, abs(v).bit_length() + 1)))
        elif r < 0.8 and ints:
            v = rng.choice(ints) + rng.choice((0, 0, 0, 1, -1))
        else:
            v = d.sample(rng)
        try:
            return d._wrap(int(v))
        except ValueError:
            return v
    if isinstance(d, (api.Bytes,)):
        b = bytearray(v)
        for _ in range(rng.choice((1, 1, 1, 2, 4))):
            r = rng.random()
            p = rng.randrange(len(b) + 1)
            if r < 0.25 and b:
                b[p % len(b)] = rng.choice((rng.randrange(256), (b[p % len(b)] + 1) % 256, b[p % len(b)] ^ 0x80,
                                            0, 0xff, 0x80))
            elif r < 0.4:
                b[p:p] = rng.randbytes(rng.choice((1, 1, 2, 4, 20)))
            elif r < 0.55 and b:
                q = min(len(b), p + rng.choice((1, 1, 2, 4)))
                del b[p:q]
            elif r < 0.7 and bts:
                c = rng.choice(bts)
                if rng.random() < 0.5:
                    b[p:p + len(c)] = c
                else:
                    b[p:p] = c
            elif r < 0.8 and ints:
                i = rng.choice(ints)
                if 0 <= i < 1 << 64:
                    c = i.to_bytes(max(1, (i.bit_length() + 7) // 8), rng.choice(('little', 'big')))
                    b[p:p + len(c)] = c
            elif r < 0.88 and b:
                q = rng.randrange(len(b) + 1)
                p, q = min(p, q), max(p, q)
                b[p:p] = b[p:q][:300]
            elif b:
                b = b[:p]
            if len(b) > 5000:
                b = b[:5000]
        if d.max is not None:
            b = b[:d.max]
        if len(b) < d.min:
            b += bytes(d.min - len(b))
        return d.cls(bytes(b))
    if isinstance(d, api.Joined):
        r = v.split(d.sep)
        k = rng.randrange(len(r))
        r[k] = mutate(rng, d.dom, r[k], H)
        return d.sep.join(r)
    if isinstance(d, api.Str):
        s = list(v)
        alpha = d.alphabet
        for _ in range(rng.choice((1, 1, 2))):
            p = rng.randrange(len(s) + 1)
            r = rng.random()
            ch = rng.choice(alpha) if alpha else rng.choice(
                'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-:/\'\n\t\u00b2\u212a\u00e9')
            if r < 0.35 and s:
                s[p % len(s)] = ch
            elif r < 0.55:
                s[p:p] = [ch]
            elif r < 0.7 and s:
                del s[p % len(s)]
            elif r < 0.8 and s:
                s[p % len(s)] = s[p % len(s)].swapcase()
            elif r < 0.9 and strs:
                c = rng.choice(strs)
                s[p:p] = list(c)
            elif s:
                s = s[:p]
        return ''.join(c for c in s if c not in d.exclude)
    if isinstance(d, api.ListOf):
        ls = list(v)
        r = rng.random()
        p = rng.randrange(len(ls) + 1)
        if r < 0.5 and ls:
            p %= len(ls)
            ls[p] = mutate(rng, d.dom, ls[p], H)
        elif r < 0.65:
            ls.insert(p, d.dom.sample(rng, 1))
        elif r < 0.8 and ls:
            del ls[p % len(ls)]
        elif ls:
            ls.insert(p, copy.deepcopy(rng.choice(ls)))
        return d.cls(ls)
    if isinstance(d, api.TupleOf):
        ls = list(v)
        if ls:
            k = rng.randrange(len(ls))
            ls[k] = mutate(rng, d.doms[k], ls[k], H)
        return tuple(ls)
    if isinstance(d, api.ObjOf) and d.like is not None:
        return d.sample(rng)
    if isinstance(d, api.ObjOf):
        o = copy.copy(v)
        k = rng.choice(list(d.fields))
        object.__setattr__(o, k, mutate(rng, d.fields[k], getattr(o, k), H))
        return o
    if isinstance(d, api.Stream):
        return api.NativeStream(mutate(rng, d.dom, v.data, H))
    if hasattr(d, 'mutate'):
        return d.mutate(rng, v)
    return d.sample(rng)


# ---------------------------------------------------------------- coverage (new lines of the code under test)
class Coverage:
    def __init__(self):
        self.new = False
        self.ok = hasattr(sys, 'monitoring')
        self.lines = 0

    def start(self):
        if not self.ok:
            return
        m = sys.monitoring
        prefix = os.path.join(REPO, 'bitcoinx') + os.sep

        def line(code, ln):
            if code.co_filename.startswith(prefix):
                self.new = True
                self.lines += 1
            return m.DISABLE

        def branch(code, a, b):
            if code.co_filename.startswith(prefix):
                k = (code, a, b)
                if k not in seen:
                    seen.add(k)
                    self.new = True
                    return None
                c = seen_n[k] = seen_n.get(k, 0) + 1
                return m.DISABLE if c > 2000 else None
            return m.DISABLE
        seen, seen_n = set(), {}
        try:
            m.use_tool_id(3, 'verif')
            m.register_callback(3, m.events.LINE, line)
            m.register_callback(3, m.events.BRANCH, branch)
            m.set_events(3, m.events.LINE | m.events.BRANCH)
        except Exception:
            self.ok = False


# ---------------------------------------------------------------- running
class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_one(item, args, hang=40):
    """None when fine / skipped ('skip'), else a message."""
    signal.signal(signal.SIGVTALRM, _alarm)       # processor time: the machine may be busy
    signal.setitimer(signal.ITIMER_VIRTUAL, hang)
    try:
        api.native_run(item, args)
        return None
    except api.Skip:
        return 'skip'
    except api.Violation as e:
        return 'V' + str(e)
    except Hang:
        return f'V{item.target or item.name}: no result within {hang} s of processor time on this input'
    except RecursionError:
        if item.kind in ('ghost', 'lemma'):
            return 'skip'
        return f'V{item.target or item.name}: unbounded recursion'
    except OverflowError:
        if item.kind in ('ghost', 'lemma'):
            return 'skip'
        return f'V{item.name}: unexpected OverflowError'
    except MemoryError:
        return 'skip'
    except Exception as e:
        return 'V' + f'{item.name}: unexpected {type(e).__name__}: {e} ' + \
            ''.join(traceback.format_exc().splitlines(True)[-4:])[:600]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def simpler(d, v):
    """Candidate simplifications."""
    if isinstance(v, bool) or v is None:
        return
    if isinstance(v, int):
        for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
            if abs(c) < abs(v):
                yield type(v)(c)
    elif isinstance(v, (bytes, bytearray, str)):
        n = len(v)
        for k in (n // 2, n // 4, 4, 1):
            if 0 < k < n:
                yield v[:-k]
                yield v[k:]
        if isinstance(v, bytes) and n <= 64:
            for i in range(n):
                if v[i]:
                    yield v[:i] + b'\0' + v[i + 1:]
    elif isinstance(v, (list, tuple)):
        if not isinstance(d, api.TupleOf):
            for i in range(len(v)):
                yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            sub = d.doms[i] if isinstance(d, api.TupleOf) and len(d.doms) == len(v) else \
                d.dom if isinstance(d, api.ListOf) else None
            if sub is not None:
                for c in simpler(sub, v[i]):
                    yield type(v)(list(v[:i]) + [c] + list(v[i + 1:]))
    elif isinstance(v, api.NativeStream):
        for c in simpler(None, v.data):
            yield api.NativeStream(c)
    elif isinstance(d, api.ObjOf) and d.like is None:
        for k in d.fields:
            for c in simpler(d.fields[k], getattr(v, k)):
                o = copy.copy(v)
                object.__setattr__(o, k, c)
                yield o


def shrink(item, args, msg, secs=4):
    end = time.time() + secs
    changed = True
    while changed and time.time() < end:
        changed = False
        for k, d in item.domains.items():
            for c in simpler(d, args[k]):
                if time.time() > end:
                    break
                if not contains(d, c):
                    continue
                a = dict(args)
                a[k] = c
                try:
                    m = run_one(item, copy_args(a))
                except Exception:
                    continue
                if m and m != 'skip':
                    args, msg, changed = a, m, True
                    break
    return args, msg


def copy_args(a):
    return copy.deepcopy(a)


def digest(args):
    return hash(repr(args)[:4000])


def falsify(item, seed, secs, models=(), max_evals=10 ** 9, H=None):
    rng = random.Random(f'{seed}:{item.name}')
    H = H or harvest()
    t0 = time.time()
    out = {'item': item.name, 'evaluations': 0, 'skipped': 0, 'distinct': 0, 'violation': None, 'samples': []}
    seen = set()
    cov = Coverage()
    cov.start()
    corpus = []
    queue = []
    for m in models:
        try:
            queue.append(pickle.loads(m))
        except Exception:
            pass
    out['seeds'] = 0
    seeds = item.seeds() if callable(item.seeds) else item.seeds
    for s in seeds:
        queue.append(dict(zip(item.domains, s)) if isinstance(s, (tuple, list)) else dict(s))
        out['seeds'] += 1
    mutable = any(not isinstance(d, (api.Sampled, api.Const)) for d in item.domains.values())
    n = 0
    queue.reverse()
    while out['evaluations'] < max_evals:
        if n and time.time() - t0 > secs and not (queue and time.time() - t0 < 3 * secs + 10):
            break
        n += 1
        fresh = False
        try:
            if queue:
                args = queue.pop()
                fresh = True
            elif corpus and mutable and rng.random() < 0.5:
                # favour recent
                args = dict(corpus[-1 - min(len(corpus) - 1, int(rng.expovariate(0.15)))])
                for _ in range(rng.choice((1, 1, 2, 3))):
                    k = rng.choice(list(args))
                    if not isinstance(item.domains[k], api.Sampled):
                        args[k] = mutate(rng, item.domains[k], args[k], H)
                    else:
                        args[k] = item.domains[k].sample(rng)
                if not all(contains(item.domains[k], args[k]) or isinstance(item.domains[k], api.Sampled)
                           for k in args):
                    continue
            elif item.samples and rng.random() < 0.8:
                args = item.samples(rng)
            else:
                args = {k: d.sample(rng) for k, d in item.domains.items()}
                for k, d in item.domains.items():
                    if isinstance(d, api.Int) and H[0] and rng.random() < 0.25:
                        c = rng.choice(H[0]) + rng.choice((0, 0, 1, -1))
                        if (d.lo is None or c >= d.lo) and (d.hi is None or c <= d.hi):
                            args[k] = d._wrap(c)
        except api.Skip:
            continue
        keep = args
        if item.domains or item.samples:
            try:
                keep = copy_args(args)
            except Exception:
                keep = args
        if cov.ok:
            cov.new = False
        m = run_one(item, args)
        if m == 'skip':
            out['skipped'] += 1
        else:
            out['evaluations'] += 1
            h = digest(keep)
            if h not in seen and len(seen) < 2_000_000:
                seen.add(h)
            if len(out['samples']) < 3 and (fresh or out['evaluations'] % 37 == 0):
                out['samples'].append(repr(keep)[:300])
        if cov.ok and cov.new and len(corpus) < 5000:
            corpus.append(keep)
        if m and m != 'skip':
            msg = m[1:]
            try:
                keep, m2 = shrink(item, keep, m)
                msg = m2[1:]
            except Exception:
                pass
            try:
                p = base64.b64encode(pickle.dumps(keep)).decode()
            except Exception:
                p = None
            out['violation'] = {'message': msg[:3000], 'args': repr(keep)[:6000], 'pickle': p}
            break
        if not item.domains and not item.samples:
            break
    out['distinct'] = len(seen)
    out['wall'] = round(time.time() - t0, 2)
    return out


def _child(conn, name, seed, secs, models, max_evals):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.stdout = sys.stderr
    try:
        r = falsify(api.REGISTRY[name], seed, secs, models, max_evals)
    except BaseException as e:
        r = {'item': name, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violation': None,
             'error': f'{type(e).__name__}: {e} {traceback.format_exc()[-800:]}', 'skipped': 0}
    conn.send(r)
    conn.close()


def run_many(jobs, nproc=8):
    """jobs: (name, seed, secs, models, max_evals).  A process per job."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo, live, res = list(jobs), {}, []
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b,) + tuple(j))
            p.start()
            b.close()
            live[a] = (p, j, time.time())
        for a in wait(list(live), timeout=1):
            p, j, _ = live.pop(a)
            try:
                res.append(a.recv())
            except EOFError:
                res.append({'item': j[0], 'evaluations': 0, 'distinct': 0, 'samples': [], 'violation': None,
                            'skipped': 0, 'error': f'native process died (exit {p.exitcode})'})
            p.join()
        for a, (p, j, t) in list(live.items()):
            if time.time() - t > 6 * j[2] + 120:
                p.kill()
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--items')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--secs', type=float, default=3)
    ap.add_argument('--bsecs', type=float)
    ap.add_argument('--evals', type=int, default=10 ** 9)
    ap.add_argument('--models')
    ap.add_argument('--out')
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    load_contracts()
    items = [i for i in api.REGISTRY.values() if (not a.prop or a.prop in i.props)
             and (not a.items or i.name in a.items.split(','))]
    models = {}
    if a.models:
        models = pickle.load(open(a.models, 'rb'))
    items.sort(key=lambda i: i.mode != 'bounded')
    jobs = [(i.name, a.seed, a.bsecs if a.bsecs and i.mode == 'bounded' else a.secs, models.get(i.name, ()), a.evals) for i in items]
    res = run_many(jobs, a.procs)
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        for r in sorted(res, key=lambda r: r['item']):
            print(f"{'VIOLATION' if r['violation'] else 'ok':9s} {r['item']:45s} evals={r['evaluations']} "
                  f"distinct={r['distinct']} skipped={r['skipped']} {r.get('error', '')}")
            if r['violation']:
                print('    ', r['violation']['message'][:1500])
                print('    ', r['violation']['args'][:800])


if __name__ == '__main__':
    main()
