"""C10: extract_config gives the configuration part of a reply."""
from ncclient.operations.rpc import RPCReply
from ncdiff import Config

from .. import work
from ..refmodel import canon, normalise, D, RefError
from .c09 import flat, first, nodes

BATCHES = dict(quick=640, thorough=10000)
RULE = ('random operational data trees (configuration and state, keyless '
        'state lists, state containers with configuration-like names, '
        'configuration below and beside state) sent as replies to get, and '
        'their configuration part as replies to get-config, spelled '
        'differently; non-trivial: the reply has both state and '
        'configuration; distinct by reply')
REQUIRED = {'state removed': 1000, 'config kept': 2000, 'both': 500,
            'equal': 500, 'container emptied': 30, 'keyless': 20,
            'state list': 50, 'state leaf-list': 50}
ASSUME = []


def setup(tier):
    work.rich()
    work.real()


def config_part(kids):
    out = []
    for k in kids:
        if k.s.config:
            out.append(D(k.s, k.val, config_part(k.kids)))
    return out


def reply(text):
    r = RPCReply(text)
    r.parse()
    return r


def batch(m, rng, index, tier):
    W = work.world(rng, 'k%d' % index, dict(status=True, ro=True, keyless=True),
                   p_rich=.1, p_real=.12)
    m.ev('world:' + W.kind)
    for j in range(12):
        g = work.gen(rng, W, ro=True, p_default=.2)
        kids = g.tree(density=None if W.kind == 'real' else
                      rng.choice([.3, .5, .8]))
        dep = rng.random() < .3
        part = config_part(kids)
        want = normalise(part, status=True, deprecated=dep)
        n, c = len(nodes(kids)), len(nodes(part))
        for k in nodes(kids):
            if not k.s.config:
                m.ev('state ' + k.s.kind)
                if k.s.kind == 'list' and not k.s.keys:
                    m.ev('keyless')
            elif k.s.kind == 'container' and not k.s.presence and \
                    k.kids and not config_part(k.kids):
                m.ev('container emptied')
        m.ev('state removed', n - c)
        m.ev('config kept', len(nodes(want)))
        text = g.render(kids, root='data')
        m.case(n > c > 0, (text, dep), lambda: dict(reply=text[:1200],
                                                    remove_deprecated=dep))
        if n > c > 0:
            m.ev('both')
        r = reply(text)
        a = W.dev.extract_config(r, remove_deprecated=dep) if dep else \
            W.dev.extract_config(r)
        m.expect(r.xml == text, 'reply modified', '', reply=text)
        look(m, W, a, want, text)
        b = W.dev.extract_config(reply(g.render(
            g.shuffle_system(part), root='data')), remove_deprecated=dep)
        m.ev('equal')
        m.expect(a == b and b == a and a <= b and b <= a,
                 'get and get-config differ', '', reply=text, a=a, b=b)
        again = Config(W.dev, a.xml, remove_deprecated=dep)
        look(m, W, again, want, text)
        # it can be used to compute differences
        e = Config(W.dev)
        m.expect(e + (a - e) == a, 'difference of an extracted config', '',
                 a=a)
        # and extracting twice from a reply gives the same
        look(m, W, W.dev.extract_config(r, remove_deprecated=dep), want,
             text)


def look(m, W, c, want, text):
    try:
        got = W.P.config(c.ele)
    except RefError as e:
        m.bad('malformed', e, reply=text, config=c)
        return
    left = [k for k in nodes(got) if not k.s.config]
    m.expect(not left, 'state is left', left[:3], reply=text, config=c)
    m.expect(flat(got) == flat(want), 'data differ',
             lambda: first(flat(want), flat(got)), reply=text, config=c)
