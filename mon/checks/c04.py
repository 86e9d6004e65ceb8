"""C04: a minimum delta mentions only what differs."""
from lxml import etree
from ncdiff import Config, ConfigDelta

from .. import work
from ..refmodel import canon, normalise, parse_value, OP, D, count

BATCHES = dict(quick=640, thorough=8000)
RULE = ('random pairs of configs; every element of the edit-config content is '
        'looked up in source and target; non-trivial: delta not empty; '
        'distinct by source, target and preferences')
REQUIRED = {'leaf': 500, 'leaf-list': 200, 'container': 300, 'list': 200,
            'deleted': 200, 'unchanged nodes not mentioned': 2000,
            'equal': 50}


def setup(tier):
    work.rich()
    work.real()


def batch(m, rng, index, tier):
    W = work.world(rng, 'd%d' % index, p_real=.1)
    m.ev('world:' + W.kind)
    for j in range(8):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        if rng.random() < .15:
            B = g.shuffle_system(A)
        ca, cb = [Config(W.dev, g.render(t)) for t in (A, B)]
        ka, kb = canon(A), canon(B)
        for o in (dict(), dict(preferred_create=rng.choice(
                ['create', 'replace']), preferred_delete=rng.choice(
                ['delete', 'remove']))):
            m.where = work.name(o)
            d = ConfigDelta(ca, cb, **o)
            nc = etree.fromstring(etree.tostring(d.nc))
            m.case(len(nc), (ka, kb, sorted(o.items())),
                   lambda: dict(src=str(ca)[:1200], dst=str(cb)[:1200],
                                delta=str(d)[:1200]))
            data = dict(options=o, src=ca, dst=cb, delta=d)
            nA, nB = normalise(A), normalise(B)
            if ka == kb:
                m.ev('equal')
                for e in nc:
                    s = W.S.lookup(W.S.root, e.tag)
                    m.expect(s.user, 'delta of equal configs', e.tag, **data)
            look(m, W, nc, nA, nB, data)
            m.ev('unchanged nodes not mentioned',
                 max(0, count(nA) + count(nB) - 2 * len(list(nc.iter()))))


def look(m, W, nc, A, B, data):
    def walk(ele, ka, kb, s):
        """Returns whether anything differs below ele."""
        ha = {k.key(): k for k in ka}
        hb = {k.key(): k for k in kb}
        found = False
        for e in ele:
            c = W.S.lookup(s, e.tag)
            if s.kind == 'list' and c.is_key:
                continue
            m.ev(c.kind)
            x = D(c)
            if c.kind in ('leaf', 'leaf-list'):
                x.val = parse_value(c, e.text, e.nsmap, W.P.names)
            elif c.kind == 'list':
                x.kids = [D(k, parse_value(k, e.find(k.tag).text,
                                           e.find(k.tag).nsmap, W.P.names))
                          for k in c.key_nodes()]
            a, b = ha.get(x.key()), hb.get(x.key())
            op = e.get(OP)
            if op in ('delete', 'remove'):
                m.ev('deleted')
                m.expect(a is not None and b is None, 'needless deletion',
                         e.tag, **data)
                found = True
                continue
            if c.kind == 'container' and not c.presence and op is None:
                # has no existence of its own
                a, b = a or D(c), b or D(c)
            if not m.expect(b is not None, 'not in the target', e.tag,
                            **data):
                continue
            if a is None:
                if c.kind in ('leaf', 'leaf-list'):
                    m.expect(b.val == x.val, 'wrong value', e.tag, **data)
                else:
                    # a new subtree: complete, nothing else
                    got = W.P.children(strip(e), c)
                    m.expect(canon(got) == canon(b.kids), 'new subtree',
                             e.tag, **data)
                found = True
            elif c.kind == 'leaf':
                m.expect(a.val != x.val and b.val == x.val,
                         'unchanged leaf', e.tag, **data)
                found = True
            elif c.kind == 'leaf-list':
                m.expect(c.user, 'unchanged leaf-list value', e.tag, **data)
                found = True
            else:
                f = walk(e, a.kids, b.kids, c)
                if not f and not c.user:
                    m.bad('unchanged %s' % c.kind, e.tag, **data)
                found = True
        return found

    def strip(e):
        e = etree.fromstring(etree.tostring(e))
        for x in e.iter():
            for k in list(x.attrib):
                del x.attrib[k]
        return e
    walk(nc, A, B, W.S.root)
