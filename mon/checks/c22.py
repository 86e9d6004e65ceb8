"""C22: values that refer to identities or nodes keep their meaning."""
from collections import Counter

from lxml import etree
from ncclient.operations import RPCReply
from ncdiff import Config, ConfigDelta

from .. import work
from ..refmodel import (EditError, Parser, RefError, Server, canon, le,
                        normalise, quote, render_value, value_urls)

BATCHES = dict(quick=480, thorough=16000)
RULE = ('random schemas in which most leaves, leaf-lists and keys are '
        'identityrefs or instance-identifiers; each tree is written in '
        'several ways (declarations at any level, default namespace, prefixes '
        'of other modules, one prefix bound again and again, module names), '
        'made into configs, combined by all operators, filtered, serialised '
        'and resolved again by an independent parser that accepts declared '
        'prefixes only; non-trivial: the tree has references to two or more '
        'namespaces; distinct by tree and spelling')
REQUIRED = {'equal spelling': 500, 'twisted': 200, 'twisted, same text': 20,
            'sum': 300, 'delta applied': 300, 'filtered': 200,
            'reference key': 50, 'extracted': 200, 'module names': 100,
            'rebound prefix': 50, 'insert by reference': 20,
            'replaced by reference': 20}


def setup(tier):
    work.rich()


def refs(kids, out=None, path=()):
    out = Counter() if out is None else out
    for k in kids:
        p = path + ((k.s.mod.ns, k.s.name),)
        if isinstance(k.val, tuple):
            out[(p, k.val)] += 1
        refs(k.kids, out, p)
    return out


def leaves(kids):
    for k in kids:
        if isinstance(k.val, tuple):
            yield k
        yield from leaves(k.kids)


def twist(rng, W, kids):
    """The tree with another namespace in one of the references."""
    out = [k.copy() for k in kids]
    all_ = list(leaves(out))
    if not all_:
        return None
    k = rng.choice(all_)
    v = k.val
    if v[0] == 'id':
        urls = [m.ns for m in W.S.mods if m.ns != v[1]]
        k.val = ('id', rng.choice(urls), v[2])
    else:
        steps = list(v[1])
        i = rng.choice([i for i, x in enumerate(steps) if x[0] in '/['])
        urls = [m.ns for m in W.S.mods if m.ns != steps[i][1]]
        steps[i] = (steps[i][0], rng.choice(urls)) + steps[i][2:]
        k.val = ('iid', tuple(steps))
    return out


def texts(ele):
    return [(e.tag, e.text) for e in ele.iter() if isinstance(e.tag, str)]


def unique(kids):
    """No duplicates, which a change of a key or a value can make."""
    for k in kids:
        if not unique(k.kids):
            return False
    seen = [(k.s.tag, k.key()) for k in kids if k.s.kind == 'list' and
            k.s.keys] + [(k.s.tag, k.val) for k in kids
                         if k.s.kind == 'leaf-list']
    return len(seen) == len(set(seen))


def rebound(ele):
    seen = {}
    for e in ele.iter():
        if isinstance(e.tag, str):
            for p, u in e.nsmap.items():
                if p is not None and seen.setdefault(p, u) != u:
                    return True
    return False


def look(m, P, what, x, want, **data):
    """The references in element x are the wanted ones, also when it is
    written and read again."""
    x = etree.fromstring(etree.tostring(x))
    try:
        got = refs(P.config(x))
    except RefError as e:
        m.bad('unresolved reference in ' + what, e, result=x, **data)
        return False
    m.ev('references resolved', sum(got.values()))
    return m.expect(got == want, 'reference changed in ' + what,
                    'lost %s, new %s' % (list((want - got).items())[:3],
                                         list((got - want).items())[:3]),
                    result=x, **data)


def names(rng, W, kids, g):
    """Written with module names instead of prefixes in values."""
    nm = {x.ns: x.name for x in W.S.mods}
    short = rng.random() < .5

    def value(v):
        if v[:1] == ('iid',) and short:     # RFC 7951 6.11
            out, last = [], None
            for x in v[1]:
                if x[0] in '/[' and x[1] == last:
                    out.append({'/': '/%s' % x[2]}.get(x[0]) or
                               '[%s=%s]' % (x[2], quote(x[3])))
                else:
                    out.append(render_value(('iid', (x,)), nm))
                if x[0] == '/':
                    last = x[1]
            return ''.join(out)
        return render_value(v, nm)

    def node(k):
        e = etree.Element('{%s}%s' % (k.s.mod.ns, k.s.name),
                          nsmap={None: k.s.mod.ns})
        if k.s.kind in ('leaf', 'leaf-list'):
            e.text = value(k.val) or None
        for c in k.kids:
            e.append(node(c))
        return e
    root = etree.Element('{urn:ietf:params:xml:ns:netconf:base:1.0}config',
                         nsmap=dict(nc='urn:ietf:params:xml:ns:netconf:'
                                    'base:1.0'))
    for k in kids:
        root.append(node(k))
    return root


def batch(m, rng, index, tier):
    W = work.world(rng, 'v%d' % index, dict(refs=True, defaults=False),
                   p_rich=.15)
    m.ev('world:' + W.kind)
    strict = Parser(W.S)
    loose = Parser(W.S)
    loose.names = {x.name: x.ns for x in W.S.mods}
    srv = Server(W.S)
    for j in range(4):
        g = work.gen(rng, W, density=rng.choice([.2, .35, .6]))
        A = g.tree()
        A2 = normalise(A)
        want = refs(A2)
        urls = {u for k in leaves(A2) for u in value_urls(k.val)}
        ta, tb = [g.render(A) for _ in 'ab']
        m.case(len(urls) > 1, (ta, tb), lambda: dict(a=ta[:1500],
                                                     b=tb[:1500]))
        if any(isinstance(k.val, tuple) and k.s.is_key for k in leaves(A2)):
            m.ev('reference key')
        a, b = Config(W.dev, ta), Config(W.dev, tb)
        data = dict(a=ta, b=tb)
        look(m, strict, 'a config', a.ele, want, **data)
        look(m, strict, 'text of a config', etree.fromstring(str(a)), want,
             **data)
        m.ev('equal spelling')
        if rebound(a.ele):
            m.ev('rebound prefix')
        m.expect(a == b and b == a and a <= b and b <= a and not a != b,
                 'spelling matters', '', **data)
        for o in ({}, rng.choice(work.options(rng))):
            d = ConfigDelta(a, b, **o)
            r = srv.edit(A2, etree.fromstring(etree.tostring(d.nc)))
            m.expect(canon(r) == canon(A2), 'delta of two spellings', '',
                     delta=d, **data)
        # a result stands on its own
        s = a + b
        look(m, strict, 'sum', s.ele, want, **data)
        look(m, strict, 'sum with nothing', (Config(W.dev) + b).ele, want,
             **data)
        # references that only look the same
        B = twist(rng, W, A)
        if B is not None:
            m.ev('twisted')
            st = rng.choice(['own', 'own', 'swap', 'shadow', None])
            o, t = [Config(W.dev, g.render(x, style=st)) for x in (A, B)]
            if texts(t.ele) == texts(o.ele):
                m.ev('twisted, same text')
            if unique(B):
                both(m, rng, W, srv, strict, 'twisted', A2, normalise(B), o, t)
        # other data
        C = g.mutate(A, rng.choice([1, 3, 8]))
        t = Config(W.dev, g.render(C))
        both(m, rng, W, srv, strict, 'changed', A2, normalise(C), a, t)
        # a part
        refnodes = [e for e in a.ele.iter() if isinstance(e.tag, str) and
                    not len(e) and e is not a.ele and ':' in (e.text or '')]
        if refnodes:
            e = rng.choice(refnodes)
            f = a.filter('//*[local-name()="%s"]' % etree.QName(e).localname)
            m.ev('filtered')
            try:
                got = refs(strict.config(etree.fromstring(
                    etree.tostring(f.ele))))
            except RefError as x:
                m.bad('unresolved reference in filtered config', x, **data)
            else:
                name = etree.QName(e).localname
                need = Counter({k: n for k, n in want.items()
                                if k[0][-1][1] == name})
                m.expect(not got - want and not need - got,
                         'reference changed in filtered config', '',
                         result=f, **data)
        # replies
        rep = RPCReply(g.render(A, root='data'))
        rep.parse()
        x = W.dev.extract_config(rep)
        m.ev('extracted')
        look(m, strict, 'extracted config', x.ele, want, **data)
        m.expect(x == a, 'extracted config differs', '', **data)
        # module names, as some devices have them
        n = Config(W.dev, names(rng, W, A, g))
        m.ev('module names')
        m.expect(n == a and a == n and n <= b and b <= n,
                 'module names matter', '', n=n, **data)
        for p, q in ((a, n), (n, a)):
            look(m, loose, 'sum with module names', (p + q).ele, want, **data)
            d = ConfigDelta(p, t)
            srv2 = Server(W.S)
            srv2.p.names = loose.names
            try:
                r = srv2.edit(A2, etree.fromstring(etree.tostring(d.nc)))
                m.expect(canon(r) == canon(C), 'delta with module names', '',
                         delta=d, **data)
            except (EditError, RefError) as x:
                m.bad('delta with module names', x, delta=d, **data)
            m.expect(p + d == t, 'round trip with module names', '',
                     delta=d, **data)


def both(m, rng, W, srv, strict, what, A, B, a, b):
    data = dict(a=a, b=b)
    ka, kb = canon(A), canon(B)
    m.expect((a == b) == (ka == kb), what + ': equality', '', **data)
    m.expect((a <= b) == le(A, B), what + ': containment', '', **data)
    m.expect((b <= a) == le(B, A), what + ': containment', '', **data)
    # sums, by the reference server
    S = srv.edit(A, etree.fromstring(etree.tostring(b.ele)))
    s = a + b
    m.ev('sum')
    look(m, strict, 'sum', s.ele, refs(normalise(S)), **data)
    for o in work.options(rng, 3):
        d = ConfigDelta(a, b, **o)
        data['options'] = o
        wire = etree.fromstring(etree.tostring(d.nc))
        for e in wire.iter():
            for x in e.attrib:
                if x in ('{urn:ietf:params:xml:ns:yang:1}value',
                         '{urn:ietf:params:xml:ns:yang:1}key') and \
                        ':' in e.get(x):
                    m.ev('insert by reference')
                    if 'diff_type' in o:
                        m.ev('replaced by reference')
        try:
            r = srv.edit(A, wire)
        except (EditError, RefError) as x:
            m.bad(what + ': delta not accepted', x, delta=d, **data)
            continue
        m.ev('delta applied')
        m.expect(canon(r) == kb, what + ': delta leads elsewhere', '',
                 delta=d, **data)
        t = a + d
        if m.expect(t == b, what + ': round trip', '', delta=d, **data):
            look(m, strict, 'config plus delta', t.ele, refs(B), **data)
        u = b + -d
        if m.expect(u == a, what + ': way back', '', delta=d, **data):
            look(m, strict, 'config minus delta', u.ele, refs(A), **data)
