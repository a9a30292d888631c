"""One worker: a pristine interpreter (the library is imported, nothing has been used) that forks a child per simulated
execution.  Reads one JSON request per line from fd 0, answers one JSON line on the original stdout."""
import sys
import threading  # noqa
from simkit import sched
sched.patch()
import importlib
import json
import os
import random
import time
import traceback
import warnings


def main():
    prop, tier, scratch = sys.argv[1:4]
    # the protocol has its own descriptors; the library's prints go nowhere
    inp = os.fdopen(os.dup2(0, 901), 'r', encoding='utf-8')
    out = os.fdopen(os.dup2(1, 902), 'w', encoding='utf-8')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.close(null)
    warnings.simplefilter('ignore')
    from simkit import core
    import sudachipy.dictionary  # noqa
    import sudachipy.command_line  # noqa
    assert os.path.abspath(sudachipy.__file__).startswith(os.environ['VERIF_LIB'] + os.sep), sudachipy.__file__
    mod = importlib.import_module('props.' + prop.lower())
    core.start_zygote()
    ctx = core.Ctx(scratch)
    ctx.tier = tier
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    out.write('{"ready": true}\n')
    out.flush()
    prof = None
    if os.environ.get('VERIF_PROFILE'):
        import cProfile
        prof = cProfile.Profile()
        prof.enable()
    for line in inp:
        req = json.loads(line)
        t0 = time.monotonic()
        try:
            if req['op'] == 'run':
                case = req.get('case')
                if case is None:
                    r = random.Random('%s/%s/%s/%d' % (prop, req['seed'], tier, req['index']))
                    case = mod.gen(r, tier, req['index'])
                case = plain(case)
                res = mod.run(case, ctx)
                case = res.pop('case', None) or case
                ans = {'case': case if (res.get('viol') or req.get('want_case')) else None, 'res': res}
            elif req['op'] == 'shrink':
                ans = shrink(mod, ctx, req['case'], req['cls'], req['budget'])
            ans['wall'] = time.monotonic() - t0
        except BaseException as e:
            ans = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
                   'harness': isinstance(e, core.HarnessError)}
        if prof:
            import pstats
            with open(os.environ['VERIF_PROFILE'], 'w') as f:
                pstats.Stats(prof, stream=f).sort_stats('cumulative').print_stats(45)
            prof.enable()
        out.write(json.dumps(ans) + '\n')
        out.flush()


def plain(case):
    """as it comes from a replay file"""
    return json.loads(json.dumps(case))


def cls_of(res):
    return res['viol']['class'] if res.get('viol') else None


def shrink(mod, ctx, case, cls, budget):
    """greedy: any smaller case with the same violation class is taken"""
    end = time.monotonic() + budget
    tried = 0
    best = None
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in mod.shrink(case):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                c = plain(c)
                r = mod.run(c, ctx)
            except Exception:
                continue
            if cls_of(r) == cls:
                case, best = r.pop('case', None) or c, r
                progress = True
                break
    case = plain(case)
    res = mod.run(case, ctx)
    res.pop('case', None)
    return {'case': case, 'res': res, 'tried': tried}


if __name__ == '__main__':
    main()
