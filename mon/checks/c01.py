"""C01: src + (dst - src) == dst, and back, for every preference."""
from lxml import etree
from ncdiff import Config, ConfigDelta

from .. import work
from ..refmodel import canon, count, RefError

BATCHES = dict(quick=320, thorough=12000)
RULE = ('random pairs of configs (schema: fixed rich schema, random schemas, '
        'OpenConfig models of the repository; XML spelled with random '
        'prefixes, order, whitespace) x random delta preferences, plus '
        'chains of 2-6 configs; non-trivial: the two configs differ; '
        'distinct by source, target and preferences')
REQUIRED = {'pair:differ': 300, 'forward': 1000, 'backward': 1000,
            'chain': 50, 'pair:same': 10}
ASSUME = ['leaf-list defaults have no commas, no top-level choices, no '
          'default statements in typedefs']


def setup(tier):
    work.rich()
    work.real()


def same(m, W, got, want, want_canon, what, **data):
    """got must equal want, judged by the library and by the reference."""
    try:
        c = canon(W.P.config(got.ele))
    except RefError as e:
        m.bad(what + ': malformed result', e, result=got, **data)
        return
    if c != want_canon:
        m.bad(what + ': wrong result', '', result=got, wanted=want, **data)
    elif not (got == want) or (got != want) or not (want == got):
        m.bad(what + ': == disagrees', '', result=got, wanted=want, **data)


def batch(m, rng, index, tier):
    W = work.world(rng, 'a%d' % index, p_real=.1)
    m.ev('world:' + W.kind)
    for j in range(5):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        ca, cb = [Config(W.dev, g.render(t)) for t in (A, B)]
        ka, kb = canon(A), canon(B)
        if count(A) > 100:
            m.ev('large tree')
        m.ev('pair:differ' if ka != kb else 'pair:same')
        for o in work.options(rng, 5):
            m.where = work.name(o)
            data = dict(options=o, src=ca, dst=cb)
            m.case(ka != kb, (ka, kb, sorted(o.items())),
                   lambda: dict(src=str(ca)[:1500], dst=str(cb)[:1500],
                                options=o,
                                delta=str(ConfigDelta(ca, cb, **o))[:1500]))
            try:
                d = ConfigDelta(ca, cb, **o) if o else cb - ca
                data['delta'] = d
                same(m, W, ca + d, cb, kb, 'src + delta', **data)
                m.ev('forward')
                # the edit-config content itself, as a document
                doc = etree.fromstring(etree.tostring(d.nc))
                same(m, W, ca + doc, cb, kb, 'src + document', **data)
                same(m, W, cb - d, ca, ka, 'dst - delta', **data)
                same(m, W, cb + (-d), ca, ka, 'dst + -delta', **data)
                m.ev('backward')
                rev = ConfigDelta(cb, ca, **o)
                same(m, W, cb + rev, ca, ka, 'dst + reversed', **data)
                m.expect(len(d.nc) > 0 or ka == kb,
                         'empty delta of different configs', '', **data)
            except Exception as e:
                from ..runner import in_repo, short_tb
                if not in_repo(e):
                    raise
                m.bad('unexpected %s' % type(e).__name__, e,
                      traceback=short_tb(e), **data)
    # chains: a history of deltas applied one after another
    g = work.gen(rng, W)
    trees = [g.tree()]
    for _ in range(rng.randint(2, 6)):
        trees.append(g.mutate(trees[-1]))
    cs = [Config(W.dev, g.render(t)) for t in trees]
    os_ = [rng.choice(work.options(rng, 4)) for _ in cs]
    ds = [ConfigDelta(x, y, **o) for x, y, o in zip(cs, cs[1:], os_)]
    cur = cs[0]
    for d, c, t in zip(ds, cs[1:], trees[1:]):
        cur = cur + d
        same(m, W, cur, c, canon(t), 'chain forward', delta=d)
        m.ev('chain')
    for d, c, t in zip(reversed(ds), reversed(cs[:-1]),
                       reversed(trees[:-1])):
        cur = cur - d
        same(m, W, cur, c, canon(t), 'chain backward', delta=-d)
    m.case(True, ('chain', tuple(canon(t) for t in trees)))
