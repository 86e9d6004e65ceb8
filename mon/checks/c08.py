"""C08: filter keeps exactly the selected nodes and what locates them."""
from lxml import etree
from ncdiff import Config

from .. import work
from ..refmodel import NC, RefError

BATCHES = dict(quick=1200, thorough=8000)
RULE = ('random configs x random xpath expressions (paths with and without '
        'predicates, //, wildcards, unions, axes, no match, attribute / text '
        '/ scalar results, own namespace maps); expected result computed on '
        'an independently parsed copy; non-trivial: a proper, non-empty part '
        'is selected; distinct by config and expression')
REQUIRED = {'part': 500, 'nothing': 30, 'everything': 20, 'scalar': 30,
            'keys kept': 200, 'text result': 20}


def setup(tier):
    work.rich()
    work.real()


def lit(v):
    v = v or ''
    if '"' not in v:
        return '"%s"' % v
    if "'" not in v:
        return "'%s'" % v
    return 'concat(%s)' % ', \'"\', '.join('"%s"' % x for x in v.split('"'))


def expressions(rng, ele, pfx):
    nodes = [e for e in ele.iter() if e is not ele]

    def step(e, pred):
        s = '%s:%s' % (pfx[etree.QName(e).namespace],
                       etree.QName(e).localname)
        if pred and len(e):
            leaves = [c for c in e if not len(c)]
            if leaves:
                c = rng.choice(leaves)
                s += '[%s=%s]' % (step(c, False), lit(c.text))
        elif pred and e.text:
            s += '[.=%s]' % lit(e.text)
        return s

    def path(e, pred=0):
        up = [a for a in e.iterancestors()][:-1]
        return '/nc:config/' + '/'.join(
            step(x, rng.random() < pred) for x in reversed([e] + up))
    out = []
    for _ in range(7):
        k = rng.randint(0, 11)
        e = rng.choice(nodes) if nodes else None
        if e is None:
            out.append('//*')
            continue
        if k == 0:
            out.append(path(e))
        elif k == 1:
            out.append(path(e, 1))
        elif k == 2:
            out.append('//' + step(e, False))
        elif k == 3:
            out.append('//' + step(e, True))
        elif k == 4:
            out.append('%s | %s' % (path(e, .5), path(rng.choice(nodes),
                                                      .7)))
        elif k == 5:
            out.append('//%s/..' % step(e, True))
        elif k == 6:
            out.append(rng.choice(['//*[text()=%s]' % lit(e.text),
                                   '//*[not(*)]', '//*[count(*)>2]']))
        elif k == 7:
            out.append(path(e) + '/*[%d]' % rng.randint(1, 2))
        elif k == 8:
            out.append(rng.choice(['//%s/text()' % step(e, False),
                                   '//@*', 'count(//*)', 'string(//*)',
                                   'boolean(//*)']))
        elif k == 9:
            out.append(rng.choice(['//*[. = "no such value at all"]',
                                   '/nc:config/*[100]']))
        elif k == 10:
            out.append('./' + step([a for a in [e] + list(
                e.iterancestors())][-2], False))
        else:
            out.append(rng.choice(['//*', '/nc:config', '/nc:config/*', '.']))
    return out


def expected(W, copy, hits):
    """Data trees [(tag, text, kids)] of the part to be kept."""
    hits = set(hits)
    anc = set()
    for h in hits:
        anc.update(h.iterancestors())

    def keep(e, s):
        out = []
        keys = 0
        for c in e:
            cs = W.S.lookup(s, c.tag)
            if c in hits:
                out.append(full(c))
            elif c in anc:
                out.append((c.tag, (c.text or '').strip(),
                            keep(c, cs)))
            elif s.kind == 'list' and cs.is_key:
                out.append(full(c))
        return out
    if copy in hits:
        return [full(c) for c in copy]
    return keep(copy, W.S.root)


def full(c):
    return (c.tag, (c.text or '') if not len(c) else '',
            [full(x) for x in c])


def size(t):
    return sum(1 + size(x[2]) for x in t)


def batch(m, rng, index, tier):
    W = work.world(rng, 'h%d' % index, p_real=.1)
    m.ev('world:' + W.kind)
    pfx = {ns: p for _, p, ns in W.dev.namespaces}
    for j in range(4):
        g = work.gen(rng, W)
        c = Config(W.dev, g.render(g.tree()))
        copy = etree.fromstring(etree.tostring(c.ele))
        before = etree.tostring(c.ele)
        total = size([full(x) for x in copy])
        for expr in expressions(rng, copy, pfx):
            if rng.random() < .3 or 'nc:' in expr:
                # 'nc' is not a prefix of a loaded model: own map
                nsm = {p: u for u, p in pfx.items()}
                nsm['nc'] = NC
                kw = dict(namespaces=nsm)
            else:
                nsm = {p: u for u, p in pfx.items()}
                kw = {}
            res = copy.xpath(expr, namespaces=nsm)
            if not isinstance(res, list):
                m.ev('scalar')
                want = [full(x) for x in copy]
            else:
                hits = [x for x in res if etree.iselement(x)]
                if res and not hits:
                    m.ev('text result')
                want = expected(W, copy, hits)
            r = c.filter(expr, **kw)
            got = [full(x) for x in r.ele]
            n = size(want)
            m.ev('nothing' if n == 0 else
                 'everything' if n == total else 'part')
            m.case(0 < n < total, (before, expr),
                   lambda: dict(config=str(c)[:1500], xpath=expr,
                                result=str(r)[:1500]))
            if isinstance(res, list) and any(
                    W.kind and x[2] for x in want):
                m.ev('keys kept')
            m.expect(got == want and r.ele.tag == copy.tag, 'wrong part',
                     expr, config=c, result=r)
            m.expect(r <= c, 'not a subset', expr, config=c, result=r)
            m.expect(type(r) is type(c) and r.device is c.device,
                     'kind of result', expr)
            # filtering again changes nothing
            if isinstance(res, list) and not ('[' in expr or '*' in expr):
                m.expect(r.filter(expr, **kw) == r, 'not idempotent', expr,
                         config=c, result=r)
            m.expect(etree.tostring(c.ele) == before, 'config modified',
                     expr)
