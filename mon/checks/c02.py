"""C02: the edit-config content of a delta takes an RFC conforming server from
the source to the target without an error."""
from lxml import etree
from ncdiff import Config, ConfigDelta

from .. import work
from ..refmodel import (canon, count, normalise, EditError, RefError, Server)

BATCHES = dict(quick=800, thorough=12000)
RULE = ('random pairs of configs x random delta preferences; the delta is '
        'serialised, parsed again and executed by an independent RFC 6241 / '
        'RFC 7950 server model holding the source; non-trivial: source and '
        'target differ; distinct by source, target and preferences')
REQUIRED = {'applied': 2000, 'srv:delete:leaf:hit': 100,
            'srv:create:leaf:miss': 50, 'srv:insert:after': 100,
            'srv:case-switch': 20, 'srv:replace:container:hit': 20,
            'srv:delete:list:hit': 50, 'srv:remove:leaf:hit': 20}
ASSUME = ['the server holds the source without explicitly set default values '
          '(RFC 6243 trim mode)',
          'the server removes nodes of other cases when a case is entered '
          '(RFC 7950 7.9)',
          'unqualified attributes are ignored by the server']


def setup(tier):
    work.rich()
    work.real()


def batch(m, rng, index, tier):
    W = work.world(rng, 'b%d' % index, p_real=.1)
    m.ev('world:' + W.kind)
    srv = Server(W.S)
    for j in range(6):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        ca, cb = [Config(W.dev, g.render(t)) for t in (A, B)]
        ka, kb = canon(A), canon(B)
        if count(A) > 100:
            m.ev('large tree')
        opts = work.options(rng, 7)
        opts.append(dict(diff_type='minimum-replace',
                         replace_depth=rng.randint(0, 3)))
        for o in opts:
            m.where = work.name(o)
            data = dict(options=o, src=ca, dst=cb)
            m.case(ka != kb, (ka, kb, sorted(o.items())),
                   lambda: dict(src=str(ca)[:1500], options=o,
                                delta=str(ConfigDelta(ca, cb, **o))[:1500]))
            try:
                d = ConfigDelta(ca, cb, **o)
                wire = etree.tostring(d.nc)
            except Exception as e:
                from ..runner import in_repo, short_tb
                if not in_repo(e):
                    raise
                m.bad('no delta: %s' % type(e).__name__, e,
                      traceback=short_tb(e), **data)
                continue
            data['delta'] = d
            doc = etree.fromstring(wire)
            if not m.expect(doc.tag == '{urn:ietf:params:xml:ns:netconf:'
                            'base:1.0}config' and not doc.attrib,
                            'root of the delta', doc.tag, **data):
                continue
            try:
                r = srv.edit(normalise(A), doc)
            except EditError as e:
                m.bad('server error %s' % e.args[0], e, **data)
                continue
            except RefError as e:
                m.bad('malformed delta', e, **data)
                continue
            m.ev('applied')
            try:
                k = canon(r)
            except RefError as e:
                m.bad('invalid datastore', e, **data)
                continue
            m.expect(k == kb, 'wrong datastore', '', **data)
            # 'remove' never fails, so does a second execution
            if o.get('preferred_delete') == 'remove' and \
                    o.get('preferred_create') != 'create':
                try:
                    r2 = srv.edit(r, doc)
                    m.ev('applied-twice')
                    m.expect(canon(r2) == kb, 'not idempotent', '', **data)
                except (EditError, RefError) as e:
                    m.bad('server error at second execution', e, **data)
    for k, v in srv.stats.items():
        m.ev('srv:' + k, v)
