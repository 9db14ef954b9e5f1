"""Build and validate /verif/seeded/<id>/ from tools/seeds.py (each: text replacements, demonstration).
usage: gen_seeds.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS            # noqa
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds in the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" SCRATCH="$T"
$PY "$D/demo.py"
'''


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main(ids):
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        if not ids and os.path.exists(os.path.join(d, 'meta.json')):
            continue
        w = tempfile.mkdtemp(prefix='seed')
        c = os.path.join(w, 'r')
        shutil.copytree('/repo', c, symlinks=True)
        try:
            for f, a, b in s['edits']:
                p = os.path.join(c, f)
                t = open(p).read()
                if t.count(a) != 1:
                    raise SystemExit(f"{s['id']}: {f}: text occurs {t.count(a)} times")
                open(p, 'w').write(t.replace(a, b))
            patch = run(['git', 'diff'], c).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(patch)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].strip() + '\n')
            env = dict(os.environ, PYTHONPATH='/opt/vp/plugins', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
                       PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            good = run([os.path.join(d, 'demo.sh')], '/repo')
            bad = run([os.path.join(d, 'demo.sh')], c)
            t = run([PY, '-m', 'pytest', '-q', '-p', 'fixed_random', '-p', 'pytest_timeout', '-p', 'no:cacheprovider',
                     '--timeout=300', '--basetemp', os.path.join(w, 'tmp'), 'tests'], c, env)
            ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
            print(s['id'], s['property'], 'OK' if ok else 'REJECTED', good.returncode, bad.returncode,
                  t.stdout.strip().splitlines()[-1][:90])
            if not ok:
                print('  ', good.stdout[-400:], bad.stdout[-400:], t.stdout[-600:])
                shutil.rmtree(d)
            else:
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(w)


main(sys.argv[1:])
