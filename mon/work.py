"""Workloads shared by the checks: worlds (schema + device) and config pairs."""
import os
import shutil

from . import device, env, schema
from .gen import Gen
from .refmodel import Parser

_cache = {}


class World:
    def __init__(self, S, dev, kind):
        self.S, self.dev, self.kind = S, dev, kind
        self.P = Parser(S)


def rich():
    if 'rich' not in _cache:
        S = schema.rich_schema()
        _cache['rich'] = World(S, device.device_for(S), 'rich')
    return _cache['rich']


def real_folder():
    """Scratch copy of the YANG files of the repository."""
    if 'folder' not in _cache:
        src = os.path.join(env.SRC, 'ncdiff', 'tests', 'yang')
        dst = env.newdir('real')
        for f in os.listdir(src):
            if f.endswith('.yang'):
                shutil.copy(os.path.join(src, f), dst)
        _cache['folder'] = dst
    return _cache['folder']


REAL = ['openconfig-interfaces', 'openconfig-network-instance']


def real():
    if 'real' not in _cache:
        folder = real_folder()
        # modules that augment or deviate the ones of interest
        extra = [f[:-5] for f in sorted(os.listdir(folder))
                 if f.startswith(('openconfig', 'cisco-xe-openconfig'))]
        S = schema.pyang_schema(folder, REAL,
                                [e for e in extra if e not in REAL])
        mods = [(m.ns, m.name) for m in S.mods]
        dev = device.make_device(folder, mods, load=REAL)
        _cache['real'] = World(S, dev, 'real')
    return _cache['real']


def world(rng, tag, opts=None, p_rich=.4, p_real=.0):
    x = rng.random()
    if x < p_rich:
        return rich()
    if x < p_rich + p_real:
        return real()
    S = schema.random_schema(rng, tag, opts)
    return World(S, device.device_for(S), 'random')


def pair(rng, g, dens=None):
    """Two related (or, sometimes, unrelated or equal) trees."""
    A = g.tree()
    x = rng.random()
    if x < .65:
        B = g.mutate(A)
    elif x < .7:
        B = g.shuffle_system(A)
    elif x < .75:
        B = []
    elif x < .8:
        A, B = [], A
    else:
        B = g.tree()
    return A, B


def gen(rng, W, **kw):
    dens = rng.choice([.12, .2, .35, .6])
    if W.kind == 'real':
        dens = rng.choice([.06, .1, .15])
    kw.setdefault('density', dens)
    if rng.random() < .04 and dens < .3:
        kw.setdefault('many', rng.choice([15, 40, 120]))
    return Gen(W.S, rng, **kw)


def options(rng, n=4, all_=False, minrep=True):
    """Preference combinations of a delta."""
    out = []
    for c in ('merge', 'create', 'replace'):
        for r in ('merge', 'replace'):
            for d in ('delete', 'remove'):
                out.append(dict(preferred_create=c, preferred_replace=r,
                                preferred_delete=d))
    for o in list(out):
        for depth in (0, 1, 2, 3):
            out.append(dict(o, diff_type='replace', replace_depth=depth))
    if all_:
        return out
    base = [o for o in out if 'diff_type' not in o]
    repl = [o for o in out if 'diff_type' in o]
    pick = [dict()] + rng.sample(base, max(1, n // 2)) + \
        rng.sample(repl, max(1, n - 1 - n // 2))
    return pick


def name(o):
    return ','.join('%s=%s' % (k.replace('preferred_', ''), v)
                    for k, v in o.items()) or 'default'
