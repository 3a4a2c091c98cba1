#!/usr/bin/env python3
"""mkseed.py [ID...]: builds /verif/seeded/<ID> from tools/seeds.py and verifies
each one in a scratch copy: patch builds, stable tests pass, demo 0 -> nonzero,
and runs the property's check on it (caught or missed)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
SEEDS = []
BASE = '71831dd'


def seed(id, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


exec(open(os.path.join(V, 'tools', 'seeds.py')).read())


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(wt):
    out = os.path.join(wt, '.junit.xml')
    env = dict(os.environ, PYTHONPATH=wt, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '-o', 'junit_family=xunit2',
       '--junitxml=' + out, '--continue-on-collection-errors', cwd=wt, env=env)
    import xml.etree.ElementTree as E
    ok = set()
    for t in E.parse(out).iter('testcase'):
        if not list(t) or all(c.tag in ('system-out', 'system-err') for c in t):
            ok.add(t.get('classname') + '::' + t.get('name'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return sorted(set(base) - ok)


def main():
    want = sys.argv[1:]
    if want == ['--new']:
        want = [s['id'] for s in SEEDS if not os.path.exists(os.path.join(V, 'seeded', s['id'], 'status'))]
    for s in SEEDS:
        if want and s['id'] not in want and s['prop'] not in want:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        wt = tempfile.mkdtemp(prefix='seedwt')
        try:
            print('==', s['id'], s['prop'])
            sh('cp', '-a', '/repo/.', wt)
            for f, old, new in s['edits']:
                p = os.path.join(wt, f)
                t = open(p, newline='').read()
                if '\r\n' in t:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if t.count(old) != 1:
                    print('   EDIT DOES NOT MATCH ONCE (%d): %s' % (t.count(old), old)); break
                open(p, 'w', newline='').write(t.replace(old, new))
            else:
                raw = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE).stdout
                open(os.path.join(d, 'patch.diff'), 'wb').write(raw)
                diff = raw.decode()
                # removed lines must be original
                orig = {}
                for line in diff.splitlines():
                    if line.startswith('--- a/'):
                        cur = line[6:]
                        orig = set(sh('git', '-C', '/repo', 'show', BASE + ':' + cur).stdout.splitlines())
                        cur_ok = sh('git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff'))
                        if cur_ok.returncode: print('   DOES NOT APPLY', cur_ok.stdout)
                    elif line.startswith('-') and not line.startswith('---') and line[1:] not in orig:
                        print('   NOT ORIGINAL LINE:', line)
                open(os.path.join(d, 'demo.sh'), 'w').write(
                    "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s -W ignore \"$(dirname \"$0\")/demo.py\"\n" % PY)
                open(os.path.join(d, 'demo.py'), 'w').write(
                    'import os, sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip('\n') + '\n')
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                a = sh('bash', os.path.join(d, 'demo.sh'), cwd='/repo')
                b = sh('bash', os.path.join(d, 'demo.sh'), cwd=wt)
                miss = stable(wt)
                env = dict(os.environ, SX_REPO=wt, SX_EVIDENCE='/tmp/seed_ev')
                try:
                    c = sh('python3-vt', os.path.join(V, 'check.py'), s['prop'], cwd=V, env=env, timeout=900)
                    rc = c.returncode; co = c.stdout
                except subprocess.TimeoutExpired:
                    rc, co = 'timeout', ''
                vio = [l for l in co.splitlines() if l.startswith('VIOLATION')]
                good = a.returncode == 0 and b.returncode != 0 and not miss
                print('   valid=%s demo %s->%s stable missing %s | check rc=%s %s' % (
                    good, a.returncode, b.returncode, miss[:3], rc, 'CAUGHT' if vio else 'missed'))
                if not good:
                    print(a.stdout[-800:], '\n--', b.stdout[-400:])
                if not vio:
                    print(co[-600:])
                open(os.path.join(d, 'status'), 'w').write('valid=%s caught=%s\n' % (good, bool(vio)))
        finally:
            shutil.rmtree(wt)


main()
