"""Build and verify one planted bug: tools/seed.py ID [--notest]
/tmp/seedwork/ID.py defines PROP, FILE, OLD, NEW (or EDITS=[(file,old,new),..]), NEEDS, BREAKS, DEMO (python source)."""
import json, os, subprocess, sys, shutil, runpy
ID = sys.argv[1]; notest = '--notest' in sys.argv
s = runpy.run_path(f'/tmp/seedwork/{ID}.py')
edits = s.get('EDITS') or [(s['FILE'], s['OLD'], s['NEW'])]
W = f'/tmp/seedcopy_{ID}'
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', W], check=True)
for f, o, n in edits:
    p = os.path.join(W, f); t = open(p).read()
    assert t.count(o) == 1, (ID, f, o, t.count(o))
    open(p, 'w').write(t.replace(o, n))
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
out = f'/verif/seeded/{ID}'
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.py', 'w').write(s['DEMO'].lstrip())
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; everything it writes stays in a scratch HOME
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export HOME="$S" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
REPO="$PWD"
cd "$S" && RF_REPO="$REPO" /opt/venv/bin/python -W ignore "$D/demo.py"
''')
os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
def demo(repo):
    r = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]
a = demo('/repo'); b = demo(W)
ok = a[0] == 0 and b[0] not in (0,) and 'Traceback' not in b[1]
print(ID, 'demo clean', a, 'patched', b, 'OK' if ok else 'BAD', flush=True)
if not notest:
    t = open('/opt/vp/test.sh').read().replace('/repo', W).replace('PYTHONPATH=/opt/vp/plugin', f'PYTHONPATH={W}:/opt/vp/plugin').replace('-n 8', '-n 3')
    open(W + '.sh', 'w').write(t)
    subprocess.run(['bash', W + '.sh', W + '.json'], capture_output=True)
    r = json.load(open(W + '.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    bad = sorted(want - set(r['passed']))
    print(ID, 'tests', len(r['passed']), 'missing', bad, 'KEEP' if ok and not bad else 'DROP', flush=True)
    os.remove(W + '.sh'); os.remove(W + '.json')
shutil.rmtree(W, ignore_errors=True)
