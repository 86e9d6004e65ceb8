"""C03: operations in a delta are the ones the caller prefers."""
from lxml import etree
from ncdiff import Config, ConfigDelta

from .. import work
from ..refmodel import canon, normalise, parse_value, OP, D

BATCHES = dict(quick=960, thorough=8000)
RULE = ('random pairs of configs x delta preferences; every element of the '
        'edit-config content is classified (new, changed, removed) against '
        'the source and its operation compared with the preference; '
        'non-trivial: delta not empty; distinct by source, target, '
        'preferences')
REQUIRED = {'op:delete': 200, 'op:remove': 100, 'op:create': 100,
            'op:replace': 200, 'new:create': 50, 'new:merge': 100,
            'new:replace': 50, 'changed:merge': 50, 'changed:replace': 20,
            'level:0': 50, 'level:1': 50, 'marked': 200, 'marked by xpath': 200,
            'not marked': 200, 'leaf-list stays': 400,
            'replaced with its parent': 200}


def setup(tier):
    work.rich()


def batch(m, rng, index, tier):
    W = work.world(rng, 'c%d' % index)
    m.ev('world:' + W.kind)
    for j in range(6):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        ca, cb = [Config(W.dev, g.render(t)) for t in (A, B)]
        ka, kb = canon(A), canon(B)
        for o in work.options(rng, 8):
            m.where = work.name(o)
            d = ConfigDelta(ca, cb, **o)
            nc = etree.fromstring(etree.tostring(d.nc))
            m.case(len(nc), (ka, kb, sorted(o.items())),
                   lambda: dict(options=o, delta=str(d)[:1500]))
            look(m, W, nc, normalise(A), normalise(B), o,
                 dict(options=o, src=ca, dst=cb, delta=d))
        marks(m, rng, ca, cb, o, dict(src=ca, dst=cb))


def marks(m, rng, ca, cb, o, data):
    """minimum-replace is the minimum with marks at the nodes asked for."""
    o = {k: v for k, v in o.items() if k.startswith('preferred')}
    d0 = ConfigDelta(ca, cb, **o)
    n0 = d0.nc
    nodes = [e for e in n0.iter() if e is not n0]
    if not nodes:
        return
    by_path = rng.random() < .5
    if by_path:
        e = rng.choice(nodes)
        ns = d0.ns
        pre = {u: p for p, u in ns.items()}
        steps = [x for x in reversed(list(e.iterancestors())[:-1])] + [e]
        path = ''.join('/%s:%s' % (pre[etree.QName(x).namespace],
                                   etree.QName(x).localname) for x in steps)
        path = rng.choice(['/nc:config' + path, '.' + path,
                           '//%s' % path.rsplit('/', 1)[1]])
        hit = {id(x) for x in n0.xpath(path, namespaces=ns)}
        d1 = ConfigDelta(ca, cb, diff_type='minimum-replace',
                         replace_xpath=path, **o)
        what = path
    else:
        depth = rng.randint(0, 4)
        hit = {id(x) for x in nodes
               if len(list(x.iterancestors())) - 1 == depth}
        d1 = ConfigDelta(ca, cb, diff_type='minimum-replace',
                         replace_depth=depth, **o)
        what = 'depth %d' % depth
    n1 = d1.nc
    l0, l1 = list(n0.iter()), list(n1.iter())
    if not m.expect(len(l0) == len(l1), 'marks change the delta', what,
                    marked=d1, **data):
        return
    for x, y in zip(l0, l1):
        at = dict(y.attrib)
        mark = at.pop('operation', None)
        m.expect(x.tag == y.tag and x.text == y.text and len(x) == len(y) and
                 at == dict(x.attrib), 'marks change the delta', what,
                 marked=d1, **data)
        m.expect(mark == ('replace' if id(x) in hit else None),
                 'wrong nodes are marked', '%s: %s has mark %s' % (
                     what, x.tag, mark), marked=d1, **data)
        m.ev('not marked' if mark is None else
             'marked by xpath' if by_path else 'marked')


def values(kids):
    out = {}
    for k in kids:
        if k.s.kind == 'leaf-list':
            out.setdefault(k.s, []).append(k.val)
    return out


def look(m, W, nc, A, B, o, data):
    pc = o.get('preferred_create', 'merge')
    pr = o.get('preferred_replace', 'merge')
    pd = o.get('preferred_delete', 'delete')
    rep = o.get('diff_type') == 'replace'
    allowed = {pd}
    if rep:
        allowed |= {'replace'}
    else:
        allowed |= {pc, pr}
    for e in nc.iter():
        op = e.get(OP)
        if op is None:
            continue
        lvl = len(list(e.iterancestors())) - 1
        m.ev('op:' + op)
        if op not in allowed:
            m.bad('operation %s' % op, e.tag, **data)
        if rep and op == 'replace':
            m.ev('level:%d' % lvl)
            if lvl > o['replace_depth']:
                m.bad('replace too deep', '%s at level %d' % (e.tag, lvl),
                      **data)
    if rep:
        return

    def walk(ele, kids, goal, s):
        have = {k.key(): k for k in kids}
        want_ = {k.key(): k for k in goal}
        for e in ele:
            c = W.S.lookup(s, e.tag)
            if c is None or (s.kind == 'list' and c.is_key):
                continue
            op = e.get(OP)
            x = D(c)
            if c.kind in ('leaf', 'leaf-list'):
                x.val = parse_value(c, e.text, e.nsmap, W.P.names)
            elif c.kind == 'list':
                x.kids = [D(k, parse_value(k, e.find(k.tag).text,
                                           e.find(k.tag).nsmap, W.P.names))
                          for k in c.key_nodes()]
            old = have.get(x.key())
            if op in ('delete', 'remove'):
                continue
            if old is None:
                if c.kind == 'container' and not c.presence:
                    # has no existence of its own
                    if op is None:
                        walk(e, [], [], c)
                    else:
                        m.expect(op == pc, 'new container', e.tag, **data)
                    continue
                m.ev('new:' + (op or 'merge'))
                want = None if pc == 'merge' else pc
                if op == want:
                    continue
                # a leaf whose default is in use exists already
                if pc == 'create' and op is None and (
                        c.default is not None or c.case_of()):
                    m.ev('new:default in use')
                    continue
                m.bad('new node', '%s has operation %s' % (e.tag, op),
                      **data)
            elif c.kind == 'leaf':
                if x.val == old.val:
                    continue
                m.ev('changed:' + (op or 'merge'))
                m.expect(op == (None if pr == 'merge' else pr),
                         'changed leaf', '%s has operation %s' % (e.tag, op),
                         **data)
            elif op is None:
                new = want_.get(x.key())
                if pr == 'replace' and new is not None:
                    # a leaf-list is replaced together with its parent
                    va, vb = values(old.kids), values(new.kids)
                    for y in set(va) & set(vb):
                        same = va[y] == vb[y] if y.user else \
                            set(va[y]) == set(vb[y])
                        m.ev('leaf-list stays')
                        m.expect(same, 'leaf-list', '%s should be replaced'
                                 % e.tag, **data)
                walk(e, old.kids, new.kids if new else [], c)
            else:
                m.ev('replaced with its parent')
                m.expect(op == pr, 'changed node', '%s has operation %s'
                         % (e.tag, op), **data)
    walk(nc, A, B, W.S.root)
