"""Opening descriptors: which dictionary, which settings, how."""
import json

from simkit import core, variants
from . import common as c

POOL = ['std'] * 5 + ['ties', 'tiny', 'nouser', 'users']


def gen_open(r, nworlds, invalid=0.3):
    """[profile, seed, variant, how]"""
    x = r.random()
    if x < 0.05:                                # the settings that come with the library
        return ['default', 900, 0, r.choice(['type default', 'type default', 'type default resdir', 'type default core'])]
    if x < 0.12:
        t = r.choice(sorted(core.Ctx.TYPES))
        p, s = core.Ctx.TYPES[t]
        return [p, s, r.choice([0, 1, 2, 4, 5, 3]), 'type ' + t]
    if x < 0.15:
        return ['tiny', 901, r.choice([1, 2]), 'type huge']     # not a type
    p, s = c.pick_world(r, POOL, nworlds)
    k = r.randrange(variants.N)
    if k % 3 == 0 and k and r.random() > invalid * 3:
        k += 1
    return [p, s, k, r.choice(['plain', 'plain', 'plain', 'resdir'])]


def kwargs(ctx, o):
    if o[3].startswith('type default'):
        x = o[3][13:]
        return {'resource_dir': ctx.world(o[0], o[1]).dir} if x == 'resdir' else {'dict_type': x} if x else {}
    return ctx.world(o[0], o[1]).variant(o[2], o[3])


def texts(o):
    return c.spec(o[0], o[1]).texts


def targets(s):
    """ends of the paths of the files that opening a dictionary of this world may touch"""
    users = ['/' + u[:-4] + '.dic' for u in s.users]
    return ['/system.dic', '/char.def', '/unk.def', '/rewrite.def', '/char2.def', '/unk2.def', '.json'] + users * 2 + users[:1] * 4


def oracle(ctx, o, reqs):
    """outcomes of a process that does nothing else"""
    w = ctx.world(o[0], o[1])
    kw = dict(kwargs(ctx, o), __path=ctx.packages())
    return ctx.fresh_many(w, reqs, json.dumps(kw))


def do_open(kw):
    """(dictionary or None, exception type name or None)"""
    from sudachipy.dictionary import Dictionary
    try:
        return Dictionary(**kw), None
    except Exception as e:
        return None, type(e).__name__
