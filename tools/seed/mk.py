"""mk.py SPEC.py: plants the bugs a spec file lists, confirms each in a
scratch copy of /repo, and keeps it under /verif/seeded."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', '..', 'seeded')

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def plant(s):
    d = os.path.join(OUT, s['id'])
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        os.makedirs(os.path.join(tmp, 'd'))
        for n, t in s['files'].items():
            open(os.path.join(tmp, 'd', n), 'w').write(t)
        if 'demo.sh' not in s['files']:
            shutil.copy(os.path.join(HERE, 'demo.sh'), os.path.join(tmp, 'd'))
            shutil.copy(os.path.join(HERE, 'demo.h'), os.path.join(tmp, 'd'))
        rc, out = sh(['bash', os.path.join(tmp, 'd', 'demo.sh')], '/repo')
        if rc != 0:
            print(s['id'], 'demo fails on the unchanged tree', rc, out[-600:]); return
        rc, out = sh('git status --short', '/repo')
        assert out.strip() == '', out
        for f, old, new in s['edits']:
            p = os.path.join('/repo', f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit does not apply once', t.count(old), repr(old)); return
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', '/repo')
        rc, out = sh('bash /opt/vp/build.sh', '/repo')
        if rc != 0:
            print(s['id'], 'does not build', out[-800:]); return
        sh(['bash', '/opt/vp/test.sh', os.path.join(tmp, 't.json')], '/repo')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got = set(json.load(open(os.path.join(tmp, 't.json')))['passed'])
        if base - got:
            print(s['id'], 'caught by the tests:', sorted(base - got)[:5]); return
        rc, out = sh(['bash', os.path.join(tmp, 'd', 'demo.sh')], '/repo')
        if rc == 0:
            print(s['id'], 'demo does not notice'); return
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(os.path.join(tmp, 'd')):
            shutil.copy(os.path.join(tmp, 'd', n), d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(s['id'], 'kept; demo says:', out.strip().splitlines()[-1:][0][:150] if out.strip() else rc)
    finally:
        sh('git checkout -- .', '/repo')
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        plant(s)
    sh('bash /opt/vp/build.sh', '/repo')
