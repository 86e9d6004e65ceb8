"""C19: randomised deltas are permutations of the plain delta."""
import re

from lxml import etree
from ncdiff import Config, ConfigDelta

from .. import fresh, work
from ..refmodel import (canon, normalise, Server, EditError, RefError)

BATCHES = dict(quick=320, thorough=8000)
RULE = ('random pairs of configs x delta preferences x random_depth x '
        'random_seed; sibling sequences of the randomised delta compared with '
        'those of the plain delta; key: configs, preferences, depth, seed')
REQUIRED = {'reordered': 2000, 'kept level': 2000, 'keys first': 300,
            'seed generated': 300, 'server': 300, 'wide': 100,
            'depth 0': 300, 'depth 1': 300, 'depth 2': 200, 'bad argument': 50,
            'new process': 300}


def setup(tier):
    work.rich()


def key(e):
    return (e.tag, e.text if len(e) == 0 else None, tuple(sorted(
        e.attrib.items())), tuple(sorted(map(key, e), key=repr)))


def seq(e):
    return [key(c) for c in e]


def full(e):
    return (e.tag, e.text if len(e) == 0 else None,
            tuple(sorted(e.attrib.items())), tuple(full(c) for c in e))


def shape(e):
    """As full(), regardless of prefixes, which depend on what a process has
    seen before (lxml keeps a register of them)."""
    bare = [(k, re.sub(r'[\w.-]+:', '', v)) for k, v in e.attrib.items()]
    return (e.tag, re.sub(r'[\w.-]+:', '', e.text or '') if len(e) == 0
            else None, sorted(bare), [shape(c) for c in e])


def batch(m, rng, index, tier):
    W = work.world(rng, 'r%d' % index)
    srv = Server(W.S)
    jobs, seen = [], []
    for j in range(5):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        ta, tb = [g.render(t) for t in (A, B)]
        ca, cb = [Config(W.dev, t) for t in (ta, tb)]
        o = rng.choice(work.options(rng, 6))
        plain = ConfigDelta(ca, cb, **o)
        n0 = plain.nc
        m.expect(plain.random_depth is None and plain.random_seed is None,
                 'seed without depth')
        m.expect(ConfigDelta(ca, cb, random_seed=7, **o).random_seed is None,
                 'seed without depth')
        m.expect(full(ConfigDelta(ca, cb, random_seed=rng.randint(0, 99),
                                  **o).nc) == full(n0),
                 'order changed without depth')
        for depth in rng.sample(range(5), 3):
            m.where = 'depth %d %s' % (depth, work.name(o))
            orders, wide = set(), False
            for k in range(4):
                seed = rng.choice([rng.randint(0, 9), rng.randint(0, 10 ** 9),
                                   None])
                d = ConfigDelta(ca, cb, random_depth=depth, random_seed=seed,
                                **o)
                info = dict(options=o, src=ca, dst=cb, depth=depth, seed=seed,
                            plain=plain)
                if seed is None:
                    m.ev('seed generated')
                    seed = d.random_seed
                    m.expect(isinstance(seed, int), 'no seed generated', seed)
                m.expect(d.random_depth == depth and d.random_seed == seed,
                         'depth or seed changed')
                n1 = d.nc
                m.case(len(n0) > 0, (canon(A), canon(B), sorted(o.items()),
                                     depth, seed), lambda: dict(
                    depth=depth, seed=seed, delta=str(d)[:1200]))
                info['delta'] = etree.tostring(n1, pretty_print=True).decode()
                if not m.expect(key(n0) == key(n1), 'content of the delta '
                                'changed', '', **info):
                    continue
                wide |= compare(m, W, n0, n1, depth, 0, W.S.root, info)
                orders.add(full(n1))
                m.ev('depth %d' % depth)
                # reproducible
                rng2 = ConfigDelta(ca, cb, random_depth=depth,
                                   random_seed=seed, **o)
                m.expect(full(rng2.nc) == full(n1) == full(d.nc) and
                         str(rng2) == str(d), 'not reproducible', '', **info)
                if k == 0 and index % 10 == 0:
                    jobs.append(dict(
                        folder=W.dev.mon_folder,
                        mods=[(x.ns, x.name) for x in W.S.mods],
                        a=ta, b=tb, options=dict(
                            o, random_depth=depth, random_seed=seed)))
                    seen.append((shape(n1), info))
                if not user_ordered(W.S, n1, W.S.root):
                    try:
                        r = srv.edit(normalise(A), etree.fromstring(
                            etree.tostring(n1)))
                    except (EditError, RefError) as e:
                        m.bad('server rejects a randomised delta', e, **info)
                    else:
                        m.expect(canon(r) == canon(B),
                                 'randomised delta does not reach the target',
                                 '', **info)
                        m.ev('server')
            if wide:
                m.ev('wide')
                m.expect(len(orders) > 1, 'order does not depend on the seed',
                         '', src=ca, dst=cb, depth=depth)
        bad = rng.choice([dict(random_depth=-1), dict(random_depth='1'),
                          dict(random_depth=1.5),
                          dict(random_depth=1, random_seed='x'),
                          dict(random_depth=0, random_seed=1.5)])
        try:
            ConfigDelta(ca, cb, **bad)
            m.bad('argument accepted', bad)
        except ValueError:
            m.ev('bad argument')
    if jobs:
        out = fresh.run(jobs, rng.randint(1, 9999))
        if not m.expect(isinstance(out, list), 'fails in a new process', out):
            return
        for t, (f, info) in zip(out, seen):
            m.expect(shape(etree.fromstring(t)) == f,
                     'another delta in a new process', t, **info)
            m.ev('new process')


def user_ordered(S, n, s):
    """Does the delta have entries whose order matters?"""
    for x in n:
        c = S.lookup(s, x.tag)
        if c is None or c.user or user_ordered(S, x, c):
            return True
    return False


def compare(m, W, n0, n1, depth, cur, s, info):
    """True if so many siblings are reordered that seeds must matter."""
    wide = False
    a, b = seq(n0), seq(n1)
    if cur != depth:
        m.expect(a == b, 'order changed at another level', n0.tag, **info)
        m.ev('kept level')
        for x, y in zip(n0, n1):
            c = W.S.lookup(s, x.tag)
            if c is not None and cur < depth:
                wide |= compare(m, W, x, y, depth, cur + 1, c, info)
            else:
                m.expect(full(x) == full(y), 'order changed at another level',
                         x.tag, **info)
        return wide
    nk = 0
    if s.kind == 'list':
        keys = {k.tag for k in s.key_nodes()}
        while nk < len(n0) and n0[nk].tag in keys:
            nk += 1
        m.expect(a[:nk] == b[:nk], 'keys are not first', n0.tag, **info)
        m.ev('keys first')
    if a != b:
        m.ev('reordered')
    # below the level nothing changes
    left = [full(x) for x in n0]
    for y in n1:
        f = full(y)
        if not m.expect(f in left, 'order changed at another level', y.tag,
                        **info):
            break
        left.remove(f)
    return len(set(a[nk:])) >= 6
