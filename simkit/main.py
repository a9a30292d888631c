"""Driver of one check: builds, starts workers, hands out cases, minimises and reports a violation, writes evidence."""
import argparse
import collections
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simkit import build, core, info  # noqa: E402

PY = build.PY


class Worker:
    def __init__(self, prop, tier, lib, shim, scratch, hashseed):
        env = {k: os.environ[k] for k in ('VERIF_PROFILE', 'VERIF_CASE_TIMEOUT', 'VERIF_REPO') if k in os.environ}
        env.update(PATH='/usr/local/bin:/usr/bin:/bin', HOME=scratch, PYTHONPATH=lib + os.pathsep + HERE, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
                   PYTHONUTF8='1', LD_PRELOAD=shim, VERIF_LIB=lib, TZ='UTC', LC_ALL='C.UTF-8', VERIF_SHIM=shim,
                   MALLOC_ARENA_MAX='2')
        os.makedirs(scratch)
        self.err = open(os.path.join(scratch, 'stderr'), 'w+')
        self.p = subprocess.Popen([PY, '-u', '-m', 'simkit.worker', prop, tier, scratch], cwd=scratch, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, start_new_session=True, preexec_fn=core.no_aslr)
        self.buf = b''
        self.busy = None
        self.since = 0

    def send(self, req):
        self.busy = req
        self.since = time.monotonic()
        self.p.stdin.write((json.dumps(req) + '\n').encode())
        self.p.stdin.flush()

    def read(self):
        c = os.read(self.p.stdout.fileno(), 1 << 20)
        if not c:
            self.err.seek(0)
            raise RuntimeError('worker died (%s): %s' % (self.p.poll(), self.err.read()[-3000:]))
        self.buf += c
        if b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            self.busy = None
            return json.loads(line)
        return None

    def ask(self, req):
        """blocking"""
        self.send(req)
        while True:
            a = self.read()
            if a is not None:
                return a

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        self.err.close()


def known(prop):
    try:
        with open(os.path.join(HERE, 'known-findings.json'), encoding='utf-8') as f:
            return [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'open']
    except FileNotFoundError:
        return []


def matches(k, viol):
    return all(viol.get(a) == b for a, b in k['match'].items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--count', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--hashseed', type=int, default=0)
    ap.add_argument('--index', type=int, help='run this one case')
    ap.add_argument('--digests', help='write the digest of every case to this file')
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    meta = info.PROPS[prop]
    t0 = time.monotonic()
    lib, shim = build.build_lib(), build.build_shim()
    t_build = time.monotonic() - t0
    base = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=_scratch())
    workers = []
    try:
        return drive(a, prop, tier, meta, lib, shim, base, workers, t0, t_build)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(base, ignore_errors=True)


def _scratch():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 300 << 20 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def start(prop, tier, lib, shim, base, n, workers, hashseed=0):
    new = []
    for i in range(n):
        w = Worker(prop, tier, lib, shim, os.path.join(base, 'k%d' % len(workers)), hashseed)
        workers.append(w)
        new.append(w)
    for w in new:
        while w.read() is None:
            pass
    return new


def drive(a, prop, tier, meta, lib, shim, base, workers, t0, t_build):
    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            rep = json.load(f)
        w = start(prop, rep['tier'], lib, shim, base, 1, workers, rep.get('hashseed', 0))[0]
        r = w.ask({'op': 'run', 'case': rep['case']})
        if 'error' in r:
            print(r['error'])
            return 2
        v = r['res'].get('viol')
        if v:
            print(json.dumps(v, ensure_ascii=False, indent=1))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(a.replay)))
            return 1
        print('the replay holds: no violation')
        return 0

    count = a.count or meta[tier]['count']
    budget = a.budget or meta[tier]['budget']
    ws = start(prop, tier, lib, shim, base, a.workers, workers, a.hashseed)
    sel = selectors.DefaultSelector()
    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    deadline = time.monotonic() + budget
    nxt = a.index if a.index is not None else 0
    end = nxt + 1 if a.index is not None else count
    # reruns for the determinism self-check: the first few cases again, on whatever worker is free
    rerun = collections.deque()
    stats, sigs, viols, errors = collections.Counter(), set(), [], []
    samples, digests = [], {}
    maxima = collections.Counter()
    evals = nontriv = mism = checked = 0
    nsig = set()
    skipped = 0
    hard = max(420, budget * 2)
    first_viol = None
    while True:
        for w in ws:
            if w.busy is None:
                stop = bool(errors) or (viols and time.monotonic() > first_viol + 3) or time.monotonic() > deadline
                if rerun and not stop:
                    i = rerun.popleft()
                    w.send({'op': 'run', 'seed': a.seed, 'index': i, 'rerun': True})
                elif nxt < end and not stop:
                    w.send({'op': 'run', 'seed': a.seed, 'index': nxt, 'want_case': nxt < 3})
                    nxt += 1
        if all(w.busy is None for w in ws):
            break
        for key, _ in sel.select(5):
            w = key.data
            req = w.busy
            ans = w.read()
            if ans is None:
                continue
            if 'error' in ans:
                errors.append((req, ans['error']))
                continue
            res = ans['res']
            i = req['index']
            if req.get('rerun'):
                checked += 1
                if digests[i] != res.get('log'):
                    mism += 1
                    print('determinism: case %d gave %s then %s' % (i, digests[i], res.get('log')), file=sys.stderr)
                continue
            evals += res.get('evals', 1)
            for k, v in res.get('stats', {}).items():
                if k.startswith('max '):
                    maxima[k] = max(maxima[k], v)
                else:
                    stats[k] += v
            for s in res.get('sigs', []):
                nsig.add(s)
            if res.get('nontrivial'):
                nontriv += 1
                sigs.add(res.get('sig'))
            digests[i] = res.get('log')
            if i % 40 == 7 and a.index is None:
                rerun.append(i)
            if ans.get('case') and len(samples) < 2 and not res.get('viol'):
                samples.append(_clip(ans['case']))
            if res.get('viol'):
                viols.append((i, ans['case'], res))
                first_viol = first_viol or time.monotonic()
        now = time.monotonic()
        for w in ws:
            if w.busy is not None and now - w.since > hard:
                errors.append((w.busy, 'a worker did not answer for %d s' % hard))
                w.kill()
                w.busy = None
                ws = [x for x in ws if x is not w]
                sel.unregister(w.p.stdout)
        if not ws:
            break

    wall = time.monotonic() - t0
    search = wall - t_build
    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f)
    findings = known(prop)
    hits, fresh = [], []
    for i, case, res in viols:
        k = next((k for k in findings if matches(k, res['viol'])), None)
        (hits if k else fresh).append((i, case, res, k))
    distinct = nsig | {s for s in sigs if s}
    cov = {
        'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': meta['rule'],
        'samples': samples or [_clip(v[1]) for v in viols[:1]],
        'simulated_runs': len(digests), 'nontrivial_runs': nontriv, 'requested_runs': end, 'workers': a.workers,
        'runs_per_hour': int(len(digests) / max(search, 0.1) * 3600),
        'simulated_time': meta.get('time', 'no simulated clock in this property: progress is counted in scheduler steps and system calls'),
        'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault ')},
        'probes': {k: v for k, v in sorted(list(stats.items()) + list(maxima.items())) if not k.startswith('fault ')},
        'distinct_measure': meta['distinct'],
        'real_components': meta['real'], 'stubbed_components': meta['stub'],
        'determinism_selfcheck': {'cases_run_twice': checked, 'mismatches': mism},
        'build_s': round(t_build, 1),
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
          'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 1), 'violations_found': len(fresh)}
    if a.index is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
            f.write('\n')
    seen = set()
    for i, case, res, k in hits:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s seed=%d: %d runs (%d non-trivial, %d distinct), %d evaluations in %.0f s + build %.0f s; faults %s' % (
        prop, tier, a.seed, len(digests), nontriv, len(distinct), evals, search, t_build,
        json.dumps(cov['faults_fired'], ensure_ascii=False)))
    if fresh:
        return report(a, prop, tier, lib, shim, base, workers, fresh)
    if errors:
        for req, e in errors[:3]:
            print('check error in case %s:\n%s' % (json.dumps(req)[:300], e), file=sys.stderr)
        return 2
    if not digests:
        print('check error: no run was completed', file=sys.stderr)
        return 2
    return 0


def _clip(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + '...'


def report(a, prop, tier, lib, shim, base, workers, fresh):
    fresh.sort(key=lambda v: (len(json.dumps(v[1])), v[0]))
    i, case, res, _ = fresh[0]
    cls = res['viol']['class']
    for w in workers:
        w.kill()
    w = start(prop, tier, lib, shim, base, 1, workers, a.hashseed)[0]
    ans = None
    try:
        ans = w.ask({'op': 'shrink', 'case': case, 'cls': cls, 'budget': float(os.environ.get('VERIF_SHRINK', '40'))})
    except Exception as e:
        print('minimisation stopped: %s' % e, file=sys.stderr)
    if ans and 'case' in ans and ans.get('res', {}).get('viol'):
        small, viol, tried = ans['case'], ans['res']['viol'], ans['tried']
    else:
        small, viol, tried = case, res['viol'], 0
    rep = {'property': prop, 'tier': tier, 'seed': a.seed, 'index': i, 'hashseed': a.hashseed, 'violation': viol, 'case': small,
           'minimised_from': case, 'attempts': tried,
           'how': './run.sh %s --replay <this file>' % prop}
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (prop, tier, a.seed, i))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(rep, f, ensure_ascii=False, indent=1)
    # exact reproduction in a fresh interpreter: the same violation with the same message, but for names of scratch directories

    def plain(v):
        return [v['class'], re.sub(re.escape(base) + r'/k\d+(/[a-z]+\d+)?', '', v.get('msg', ''))]
    w.kill()
    again = 0
    try:
        w = start(prop, tier, lib, shim, base, 1, workers, a.hashseed)[0]
        r = w.ask({'op': 'run', 'case': small})
        v2 = r.get('res', {}).get('viol')
        again = 1 if v2 and plain(v2) == plain(viol) else 0
    except Exception as e:
        print('replay: %s' % e, file=sys.stderr)
    print('class: %s' % viol['class'])
    print(viol.get('msg', '')[:3000])
    print('found in case %d of seed %d; %d violating runs; minimised in %d attempts; replays exactly: %s' % (
        i, a.seed, len(fresh), tried, 'yes' if again else 'NO'))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit as e:
        if e.code not in (0, 2):
            print(e.code, file=sys.stderr)
        code = e.code if e.code in (0, 2) else 2
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
