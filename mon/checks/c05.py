"""C05: Config + edit-config content behaves as an RFC server would."""
from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.errors import ConfigDeltaError

from .. import work
from ..wire import NC
from ..gen import edit_ops
from ..refmodel import canon, normalise, EditError, RefError, Server

BATCHES = dict(quick=420, thorough=12000)
RULE = ('random config + random edit-config content: nested merge, create, '
        'replace, delete, remove operations, insert/key/value attributes, '
        'case switches, plus deliberately conflicting ones; compared with an '
        'independent RFC 6241 / RFC 7950 server; non-trivial: the edit has '
        'operations or changes the config; distinct by config and edit')
REQUIRED = {'same': 2000, 'sum': 1000, 'rejected:data-missing': 30,
            'rejected:data-exists': 30, 'rejected:missing-instance': 30,
            'rejected:missing-attribute': 5, 'srv:case-switch': 50,
            'srv:insert:before': 30, 'srv:insert:after': 30,
            'srv:insert:first': 30, 'srv:insert:last': 30,
            'srv:replace:container:hit': 30, 'srv:replace:list:hit': 30,
            'srv:merge:leaf:hit': 100, 'delta=edit': 300,
            'other:accepted': 2000, 'other:rejected': 100,
            'delta=text': 300, 'delta=element': 300, 'delta=edit element': 300, 'srv:remove:leaf:miss': 10}
ASSUME = ['an entry is not inserted before or after itself',
          'default operation is merge']


def setup(tier):
    work.rich()
    work.real()


def look(m, W, c, want, what, data):
    try:
        k = canon(W.P.config(c.ele))
    except RefError as e:
        m.bad(what + ': malformed', e, result=c, **data)
        return
    m.expect(k == want, 'wrong ' + what, '', result=c, **data)


def empties(kids):
    return [k for k in kids if k.s.kind == 'container' and not k.s.presence
            and not k.kids or empties(k.kids)]


def batch(m, rng, index, tier):
    W = work.world(rng, 'e%d' % index, p_real=.08)
    m.ev('world:' + W.kind)
    srv = Server(W.S)
    for j in range(14):
        g = work.gen(rng, W)
        A = normalise(g.tree())
        T = g.mutate(A) if rng.random() < .8 else g.tree()
        E, ops = edit_ops(g, A, T, p=rng.choice([.05, .2, .5]),
                          p_bad=rng.choice([0, .05, .2]))
        ca = Config(W.dev, g.render(A))
        xe = g.render(E, ops=ops)
        ee = etree.fromstring(xe)
        before = etree.tostring(ca.ele)
        data = dict(config=ca, edit=xe)
        try:
            want, err = canon(srv.edit(A, ee)), None
        except EditError as e:
            want, err = None, e.args[0]
        m.case(bool(ops) or want != canon(A),
               (canon(A), etree.tostring(ee, method='c14n')),
               lambda: dict(config=str(ca)[:1500], edit=xe[:1500],
                            expected=err or 'accepted'))
        try:
            got = ca + ee
        except ConfigDeltaError as e:
            if err is None:
                m.bad('rejected', e, **data)
            else:
                m.ev('rejected:' + err)
            m.expect(etree.tostring(ca.ele) == before,
                     'config changed by a rejected edit', '', **data)
            continue
        except Exception as e:
            from ..runner import in_repo, short_tb
            if not in_repo(e):
                raise
            m.bad('unexpected %s' % type(e).__name__, e,
                  traceback=short_tb(e), **data)
            continue
        if err is not None:
            m.bad('accepted, expected %s' % err, '', result=got, **data)
            continue
        try:
            k = canon(W.P.config(got.ele))
        except RefError as e:
            m.bad('malformed result', e, result=got, **data)
            continue
        if m.expect(k == want, 'wrong result', '', result=got, **data):
            m.ev('same')
        m.expect(bool(got) == bool(want), 'truth value of the result',
                 bool(got), result=got, **data)
        m.expect(not empties(W.P.config(got.ele)), 'empty container remains',
                 '', result=got, **data)
        # the same edit as an argument of a delta
        how = rng.choice(['text', 'element', 'edit', 'edit element'])
        x = xe if not how.startswith('edit') else \
            '<edit-config xmlns="%s"><target><running/></target>%s' \
            '</edit-config>' % (NC, xe)
        d = ConfigDelta(ca, delta=etree.fromstring(x)
                        if how.endswith('element') else x,
                        **rng.choice(work.options(rng, 3)))
        m.ev('delta=' + how)
        look(m, W, d.config_dst, want, 'target of a delta', data)
        look(m, W, ca + d, want, 'config + delta', data)
        look(m, W, d + ca, want, 'delta + config', data)
        look(m, W, ca + (+d), want, 'config + (+delta)', data)
        look(m, W, d.config_src, canon(A), 'source of a delta', data)
        m.expect(bool(d) == (want != canon(A)), 'truth value of a delta',
                 bool(d), **data)
        # a delta is a list of operations, for other configs as well
        X = normalise(g.mutate(A) if rng.random() < .6 else T)
        cx = Config(W.dev, g.render(X))
        try:
            wx = canon(srv.edit(X, d.nc))
        except EditError:
            wx = None
        for what, f in (('other config + delta', lambda: cx + d),
                        ('delta + other config', lambda: d + cx)):
            more = dict(data, other=cx, delta=d)
            try:
                r = f()
            except ConfigDeltaError as e:
                m.ev('other:rejected')
                m.expect(wx is None, what + ' rejected', e, **more)
            else:
                m.ev('other:accepted')
                if m.expect(wx is not None, what + ' accepted', '', **more):
                    look(m, W, r, wx, what, more)
        e = ConfigDelta(ca)
        m.expect(not e, 'delta without a target', '', delta=e)
        look(m, W, ca + e, canon(A), 'config + empty delta', data)
        # sum of two configs: the second one is merged into the first one
        B = g.tree() if rng.random() < .5 else g.mutate(A)
        cb = Config(W.dev, g.render(B))
        want = canon(srv.edit(A, cb.ele))
        s = ca + cb
        m.case(canon(A) != want, ('sum', canon(A), canon(B)))
        m.expect(canon(W.P.config(s.ele)) == want, 'wrong sum of configs', '',
                 first=ca, second=cb, result=s)
        m.ev('sum')
    for k, v in srv.stats.items():
        m.ev('srv:' + k, v)
