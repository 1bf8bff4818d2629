"""python3 tools/seed.py SPEC.py [ids]: validates planted changes in scratch copies of /repo and stores them in seeded/.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, what, demo)]."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
PY = '/opt/venv/bin/python'
SH = '#!/bin/bash\n# run with cwd /repo\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$D/demo.py"\n'


def run_demo(copy, demo):
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode()[-800:]


def tests(copy):
    xml = copy + '.xml'
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=200', '-W', 'ignore', '-o', 'junit_family=xunit2',
                    '--junitxml=' + xml, 'polog/tests'], cwd=copy, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = xml + '.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml], stdout=subprocess.DEVNULL)
    r = json.load(open(out))
    stable = set(BASE.get('stable') or BASE.get('passed') or [])
    passed = set(r.get('passed') or [])
    for f in (xml, out):
        os.unlink(f)
    return sorted(stable - passed)


def one(s):
    root = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    copy = os.path.join(root, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        rc, out = run_demo(copy, s['demo'])
        if rc:
            return s['id'], 'demo fails on the clean tree: ' + out
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'edit of %s: %d matches' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', copy, 'diff', '--', 'polog']).decode()
        rc, out = run_demo(copy, s['demo'])
        if not rc:
            return s['id'], 'demo passes with the change'
        missing = tests(copy)
        if missing:
            missing = tests(copy)
        if missing:
            return s['id'], 'tests notice it: ' + ', '.join(missing[:4])
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return s['id'], 'ok'
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(4) as ex:
        for id, r in ex.map(one, seeds):
            print(id, r, flush=True)


main()
