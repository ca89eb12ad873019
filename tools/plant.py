"""python3 tools/plant.py ID [--notests] : confirm one planted bug in a scratch copy (applies, builds, stable tests pass, demo 0 / nonzero) and show what every check says about it"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def stable(copy):
    files = subprocess.run(['find', 'fixedIncome/tests', '-name', 'test_*.py'], cwd=copy, capture_output=True, text=True).stdout.split()
    procs = []
    for f in files:
        x = os.path.join(copy, '.rep_' + f.replace('/', '_') + '.xml')
        procs.append((f, x, subprocess.Popen(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '--rootdir=' + copy, '--junitxml=' + x, f], cwd=copy, env=ENV,
                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    import xml.etree.ElementTree as ET
    ok = set()
    for f, x, p in procs:
        p.wait()
        if os.path.exists(x):
            for tc in ET.parse(x).iter('testcase'):
                if not list(tc):
                    ok.add(tc.get('classname') + '::' + tc.get('name'))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [w for w in want if w not in ok]


def main():
    pid = sys.argv[1]
    d = os.path.join(os.environ.get('SEEDED') or os.path.join(V, 'seeded'), pid)
    copy = '/tmp/plant_' + pid
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy)
    demo = os.path.join(d, 'demo.sh')
    a = subprocess.run(['bash', demo], cwd=copy, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    print('demo unchanged:', a.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '')
    r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy, capture_output=True, text=True)
    if r.returncode:
        print('patch does not apply', r.stderr)
        return 1
    a = subprocess.run(['bash', demo], cwd=copy, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    print('demo patched:', a.returncode, (a.stdout + a.stderr)[-300:])
    if '--notests' not in sys.argv:
        print('stable tests failing:', stable(copy))
    want = json.load(open(os.path.join(d, 'meta.json')))['property']
    props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
    if '--one' in sys.argv:
        props = [want]
    for p in props:
        if os.path.exists(os.path.join(V, 'sa', 'specs', p.lower() + '.py')):
            c = subprocess.run(['python3', os.path.join(V, 'sa', 'run.py'), p], env=dict(os.environ, VERIF_REPO=copy, VERIF_NOEVIDENCE='1'), capture_output=True, text=True)
            if c.returncode != 0 or p == want or ' 0 undecided' not in c.stdout:
                print(p, '(target)' if p == want else '', 'exit', c.returncode, '|', [l for l in c.stdout.splitlines() if 'obligations hold' in l], [l[:160] for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:2])
    shutil.rmtree(copy, ignore_errors=True)


main()
