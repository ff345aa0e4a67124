"""plant.py ID [--keep] [--props P1,P2]: confirm one planted bug of /verif/seeded/ID in a scratch copy of /repo (bind-mounted over /repo in a
user namespace of its own): demo passes unchanged; patch applies, builds, stable tests pass, demo fails; then which checks catch it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident = sys.argv[1]
D = '%s/seeded/%s' % (V, ident)
S = '/tmp/plant/' + ident
NS = ['unshare', '-Urm', 'bash', '-c']
def ns(cmd, timeout=1200):
    return subprocess.run(NS + ['mount --bind %s/repo /repo && cd /repo && %s' % (S, cmd)], capture_output=True, text=True, timeout=timeout)
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
subprocess.run(['cp', '-a', '/repo', S + '/repo'], check=True)
shutil.copytree(D, S + '/demo')
for f in os.listdir(S + '/demo'):
    if f.endswith(('.diff', '.patch')) or f == 'meta.json':
        os.remove(S + '/demo/' + f)
ok = True
def say(what, good, out=''):
    global ok
    ok = ok and good
    print('%-28s %s' % (what, 'ok' if good else 'FAILED'), flush=True)
    if not good and out:
        print(out[-3000:])
try:
    if '--checks' not in sys.argv:
        ns('bash /opt/vp/build.sh')
        r = ns('bash %s/demo/demo.sh' % S, 300)
        say('demo on the unchanged tree', r.returncode == 0, r.stdout + r.stderr)
    r = ns('git apply %s/patch.diff' % D)
    say('patch applies', r.returncode == 0, r.stderr)
    fs = subprocess.run(['git', '-C', S + '/repo', 'diff', '--name-only'], capture_output=True, text=True).stdout.split()
    say('only qcoro/ sources', bool(fs) and all(f.startswith('qcoro/') and not f.startswith('qcoro/test/') and f.endswith(('.h', '.cpp')) for f in fs), str(fs))
    if '--checks' not in sys.argv and ok:
        r = ns('bash /opt/vp/build.sh')
        say('builds', r.returncode == 0, r.stdout + r.stderr)
        if ok:
            r = ns('bash /opt/vp/test.sh %s/t.json' % S)
            try:
                t = json.load(open(S + '/t.json'))
            except Exception:
                t = {'passed': [], 'failed': ['?']}
            base = json.load(open('/opt/vp/BASELINE.json'))
            st = base.get('stable') or base.get('passed') or base.get('tests')
            missing = [x for x in st if x not in t['passed']]
            say('stable tests pass', not missing, str(missing))
            r = ns('bash %s/demo/demo.sh' % S, 300)
            say('demo fails with the patch', r.returncode != 0, r.stdout + r.stderr)
            print('   demo rc', r.returncode, (r.stdout + r.stderr).strip()[-300:])
    if ok:
        m = json.load(open(D + '/meta.json'))
        props = sys.argv[sys.argv.index('--props') + 1].split(',') if '--props' in sys.argv else [m['property']]
        env = dict(os.environ, QCORO_REPO=S + '/repo', QCORO_VERIF_BUILD=S + '/b')
        os.makedirs(S + '/b')
        for f in os.listdir(V + '/_build'):
            if f.startswith('extract-'):
                os.symlink(V + '/_build/' + f, S + '/b/' + f)
        for p in props:
            r = subprocess.run(['python3', V + '/check.py', p], env=env, capture_output=True, text=True)
            print('check %s rc=%d %s' % (p, r.returncode, 'CAUGHT' if r.returncode == 1 else 'missed'))
            for l in [l for l in (r.stdout + r.stderr).splitlines() if l.startswith(('  rule', 'TOOL'))][:3]:
                print('   ', l[:300])
finally:
    if '--keep' not in sys.argv:
        shutil.rmtree(S, ignore_errors=True)
print(ident, 'COUNTS' if ok else 'REJECTED')
