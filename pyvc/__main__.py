"""python3-vt -m pyvc [names|properties|prefix*]: discharge items."""
import os
import sys
from . import api, verify
from .verify import load_contracts, run_item


def show(r):
    print(f"{r['status']:11s} {r['item']:40s} {r['wall']:6.1f}s paths={r['paths']} obl={r['obligations']} "
          f"q={r['solver'].get('queries', 0)} ok={r['ok']} {r['message'][:600]}", flush=True)


if __name__ == '__main__':
    load_contracts()
    pats = sys.argv[1:]
    limit = float(os.environ.get('PYVC_T', '60'))
    names = [n for n, item in sorted(api.REGISTRY.items()) if item.mode == 'proof' and (
        not pats or any(p == n or p in item.props or p.endswith('*') and n.startswith(p[:-1]) for p in pats))]
    if len(names) == 1 and not api.REGISTRY[names[0]].split:
        rs = [run_item(api.REGISTRY[names[0]], timeout=limit)]
        show(rs[0])
    else:
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        from check import run_proofs
        rs = run_proofs(names, lambda n: limit, 7, None, 1e9, show).values()
    sys.exit(any(r['status'] != 'proved' for r in rs))
