"""C07: comparisons agree with semantic containment and equality."""
from ncdiff import Config

from .. import work
from ..refmodel import canon, count, normalise, le

BATCHES = dict(quick=320, thorough=12000)
RULE = ('families of 6 configs (a tree, subsets, supersets, mutations, '
        'reorderings of it), each spelled with random prefixes, sibling '
        'order and whitespace, all ordered pairs and triples compared; '
        'non-trivial: distinct pairs; distinct by the two trees')
REQUIRED = {'le:True': 300, 'le:False': 300, 'eq:True': 100, 'lt:True': 100,
            'user order differs': 20, 'transitive': 100, 'bool:False': 10}


def setup(tier):
    work.rich()
    work.real()


def prune(g, kids, p):
    out = []
    for k in kids:
        if not k.s.is_key and g.rng.random() < p:
            continue
        n = type(k)(k.s, k.val, prune(g, k.kids, p))
        if n.s.kind == 'container' and not n.s.presence and not n.kids:
            continue
        out.append(n)
    return out


def batch(m, rng, index, tier):
    W = work.world(rng, 'g%d' % index, p_real=.1)
    m.ev('world:' + W.kind)
    for j in range(3):
        g = work.gen(rng, W)
        A = g.tree()
        if count(A) > 100:
            m.ev('large tree')
        fam = [A, prune(g, A, .1), prune(g, A, .4), g.mutate(A),
               g.shuffle_system(A), [] if rng.random() < .3 else
               g.mutate(A, 1)]
        cs = [Config(W.dev, g.render(t, pretty=None)) for t in fam]
        ns = [normalise(t) for t in fam]
        ks = [canon(t) for t in fam]
        n = len(fam)
        L = [[None] * n for _ in fam]
        for x in range(n):
            for y in range(n):
                a, b = cs[x], cs[y]
                wl = le(ns[x], ns[y])
                wg = le(ns[y], ns[x])
                we = ks[x] == ks[y]
                m.case(ks[x] != ks[y], (ks[x], ks[y]),
                       lambda: dict(a=str(a)[:1200], b=str(b)[:1200],
                                    expected_le=wl, expected_eq=we))
                got = dict(le=a <= b, lt=a < b, ge=a >= b, gt=a > b,
                           eq=a == b, ne=a != b)
                want = dict(le=wl, lt=wl and not we, ge=wg,
                            gt=wg and not we, eq=we, ne=not we)
                L[x][y] = got['le']
                for k in want:
                    m.ev('%s:%s' % (k, want[k]))
                    m.expect(got[k] is want[k] or got[k] == want[k],
                             'operator ' + k, 'got %s, expected %s'
                             % (got[k], want[k]), a=a, b=b)
                if wl and wg and not we:
                    m.bad('reference', 'le both ways but not equal', a=a,
                          b=b)
                if not we and frozen(ns[x]) == frozen(ns[y]):
                    m.ev('user order differs')
            m.ev('bool:%s' % bool(ks[x]))
            m.expect(bool(cs[x]) == bool(ks[x]), 'bool', '', a=cs[x])
            m.expect(cs[x] <= cs[x] and cs[x] == cs[x], 'reflexive', '',
                     a=cs[x])
        for x in range(n):
            for y in range(n):
                for z in range(n):
                    if L[x][y] and L[y][z]:
                        m.ev('transitive')
                        m.expect(L[x][z], 'transitive', '', a=cs[x],
                                 b=cs[y], c=cs[z])
    for other in ('x', 1, None):
        for f in (lambda: cs[0] <= other, lambda: cs[0] > other,
                  lambda: cs[0] == other):
            try:
                r = f()
            except TypeError:
                continue
            m.bad('comparison with another type', '%r: %r' % (other, r))


def frozen(kids):
    return frozenset((k.s.tag, k.val, frozen(k.kids)) for k in kids)
