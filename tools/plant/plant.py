"""Writes /verif/seeded/<id>/ from bugs*.py; verifies: plant.py [id...] (needs a clean /repo)."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = '/repo'


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/bugs*.py')):
        sp = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.BUGS
    return out


def missing(base, got):
    return sorted(set(base['stable']) - set(got['passed']))[:3]


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def revert():
    sh('git', '-C', REPO, 'checkout', '--', '.')


def write(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b['edits']:
        p = os.path.join(REPO, f)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d times in %s: %r' % (b['id'], s.count(old), f, old))
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    r = sh('git', '-C', REPO, 'diff')
    open(d + '/patch.diff', 'w', encoding='utf-8').write(r.stdout)
    open(d + '/demo.py', 'w', encoding='utf-8').write(b['demo'].lstrip('\n'))
    for f in ('h.py', 'demo.sh'):
        shutil.copy(os.path.join(HERE, f), d)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    return d


def note(b, verdict, kl):
    p = HERE + '/results.json'
    res = json.load(open(p, encoding='utf-8')) if os.path.exists(p) else {}
    res[b['id']] = [b['property'], verdict, kl[0][:200] if kl else '']
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(res, f, ensure_ascii=False, indent=0, sort_keys=True)


def build():
    r = sh('bash', '/opt/vp/build.sh')
    return r.returncode == 0


def main():
    ids = sys.argv[1:]
    if sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip():
        raise SystemExit('/repo is not clean')
    res = {}
    for b in load():
        if ids and b['id'] not in ids:
            continue
        try:
            d = write(b)
            revert()
            build()
            c = sh('bash', d + '/demo.sh', cwd=REPO)
            sh('git', '-C', REPO, 'apply', d + '/patch.diff')
            ok = build()
            t = sh('bash', '/opt/vp/test.sh', '/tmp/plant-t.json')
            try:
                tj = json.load(open('/tmp/plant-t.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                tl = missing(base, tj)
            except Exception as e:
                tl = repr(e)
            p = sh('bash', d + '/demo.sh', cwd=REPO)
            sh('git', '-C', REPO, 'checkout', '--', 'tests')
            k = subprocess.run([VERIF + '/run.sh', b['property'], '--tier', 'quick'], capture_output=True, text=True)
            kl = [l for l in k.stdout.splitlines() if l.startswith(('class', 'found', 'VIOL'))]
            verdict = 'GOOD' if c.returncode == 0 and p.returncode and ok and tl == [] and k.returncode == 1 else '****'
            print('%s %s: demo clean %d, patched %d (%s), build %s, tests %s, check %d %s' % (
                verdict, b['id'], c.returncode, p.returncode, (p.stdout.strip() or p.stderr.strip())[-150:].replace('\n', ' | '), ok, tl, k.returncode, kl[:2]))
            if c.returncode:
                print(c.stdout[-800:], c.stderr[-1500:])
            sys.stdout.flush()
            note(b, verdict, kl)
        finally:
            revert()
    build()


main()
