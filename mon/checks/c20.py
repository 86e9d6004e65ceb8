"""C20: requests reach the device as the caller meant them."""
import re

from lxml import etree
from ncclient.operations import MissingCapabilityError
from ncclient.capabilities import Capabilities
from ncdiff import Config, ConfigDelta
from ncdiff.errors import ModelMissing

from .. import device, work
from ..refmodel import canon, normalise, Server, EditError, RefError
from ..wire import WireSession, NC

BATCHES = dict(quick=960, thorough=12000)
RULE = ('random configs and deltas sent by edit-config (as an element, text, '
        'Config or delta; with comments, default namespaces, prefixes in '
        'values; with and without target and options; three kinds of '
        'servers), and get / get-config / other requests with models, filters '
        'and sources; every message is parsed by the server side; key: the '
        'content of the message')
REQUIRED = {'edit:element': 150, 'edit:text': 150, 'edit:Config': 150,
            'edit:delta': 150, 'edit:keyword': 150, 'comments': 100,
            'executed': 300, 'default target': 300, 'options': 300,
            'candidate': 100, 'no datastore': 50, 'get:models': 300,
            'get_config:models': 300, 'state roots': 100, 'no roots': 20,
            'missing': 50, 'filter': 150, 'source': 100, 'by name': 100,
            'unknown operation': 50, 'other': 400, 'positional': 30,
            'positional format': 30,
            'url': 200, 'lacking capability': 100}
ASSUME = ['modules have no choice at the top level']

Q = '{%s}' % NC
CAND = 'urn:ietf:params:netconf:capability:candidate:1.0'
WRITE = 'urn:ietf:params:netconf:capability:writable-running:1.0'
URL = 'urn:ietf:params:netconf:capability:url:1.0?scheme=http,ftp,sftp'
MORE = ['urn:ietf:params:netconf:capability:%s:1.0' % x for x in
        ('startup', 'validate', 'rollback-on-error', 'xpath')]
BASE = 'urn:ietf:params:netconf:base:1.0'


class Session(WireSession):
    @property
    def server_capabilities(self):
        return Capabilities(self._caps)
    _server_capabilities = server_capabilities


class Link:
    """A device on the other side of a session."""

    def __init__(self, W):
        self.W = W
        self.body = '<ok/>'
        mods = [(x.ns, x.name) for x in W.S.mods]
        self.mods = [device.cap(*x) for x in mods]
        self.ses = Session([BASE, WRITE] + self.mods, self.serve)
        loaded = list(W.dev.models_loaded)
        self.dev = device.make_device(
            work.real_folder() if W.kind == 'real' else W.dev.mon_folder,
            mods, load=loaded, session=self.ses)

    def serve(self, op):
        if etree.QName(op).localname in ('get', 'get-config'):
            return '<data/>'
        return self.body

    def caps(self, *ds):
        self.ses._caps[:] = [BASE] + list(ds) + MORE + self.mods


_links = {}


def link(W):
    if W.kind == 'random':
        return Link(W)
    if W.kind not in _links:
        _links[W.kind] = Link(W)
    return _links[W.kind]


def setup(tier):
    work.rich()
    work.real()


def info(e):
    """What a message says, apart from declarations of namespaces."""
    kids = [c for c in e if isinstance(c.tag, str)]
    text = None if kids else e.xpath('string()')
    if not kids:
        # values may use prefixes
        text = re.sub(r'([A-Za-z_][\w.-]*):(?=[A-Za-z_])', lambda x: '{%s}' %
                      e.nsmap[x.group(1)] if x.group(1) in e.nsmap else
                      x.group(0), text)
    return (e.tag, text, tuple(sorted(e.attrib.items())),
            tuple(info(c) for c in kids))


def request(m, L, f, n=1, **data):
    """The operations that f sends."""
    before = len(L.ses.sent)
    f()
    sent = L.ses.sent[before:]
    if not m.expect(len(sent) == n, 'wrong number of messages', len(sent),
                    **data):
        return None
    root = etree.fromstring(sent[0].encode())
    if not m.expect(root.tag == Q + 'rpc' and root.get('message-id') and
                    len(root) == 1, 'not an rpc', sent[0][:300], **data):
        return None
    return root[0]


def refused(m, L, f, errors, what, **data):
    before = len(L.ses.sent)
    try:
        f()
    except errors:
        m.expect(len(L.ses.sent) == before, 'sent though refused', what,
                 **data)
        return True
    m.bad('not refused', what, **data)
    return False


def noise(rng, e):
    """Comments and processing instructions at random places."""
    for x in list(e.iter(etree.Element)):
        if rng.random() < .15 and len(x):
            x.insert(rng.randint(0, len(x)), rng.choice([
                etree.Comment(' <x> '), etree.ProcessingInstruction('pi', 'a')]))
        elif rng.random() < .05 and not len(x) and x.text and x is not e:
            t = x.text
            i = rng.randint(0, len(t))
            x.text = t[:i]
            c = etree.Comment('inside')
            c.tail = t[i:]
            x.append(c)
    return e


def edit(m, rng, W, L):
    g = work.gen(rng, W)
    A, B = work.pair(rng, g)
    ca, cb = [Config(L.dev, g.render(t)) for t in (A, B)]
    o = rng.choice(work.options(rng, 6))
    d = ConfigDelta(ca, cb, **o)
    how = rng.choice(['element', 'text', 'Config', 'delta', 'raw', 'keyword'])
    kw = {}
    if how in ('element', 'keyword'):
        want = d.nc
        arg = d.nc
    elif how == 'text':
        want = d.nc
        arg = etree.tostring(want, pretty_print=rng.random() < .3).decode()
    elif how == 'raw':
        # as written by the user
        arg = g.render(B)
        want = etree.fromstring(arg.encode())
        if want.tag != Q + 'config':
            return
    elif how == 'Config':
        want, arg = cb.ele, cb
    else:
        want, arg = d.nc, d
    if how in ('element', 'text', 'raw', 'keyword') and rng.random() < .4:
        x = etree.fromstring(arg) if isinstance(arg, str) else arg
        plain = info(x)
        noise(rng, x)
        assert info(x) == plain
        m.ev('comments')
        arg = etree.tostring(x).decode() if isinstance(arg, str) else x
    snap = arg if isinstance(arg, str) else etree.tostring(
        getattr(arg, 'ele', getattr(arg, 'nc', arg)))
    for k, vs in (('default_operation', ['merge', 'none', 'replace']),
                  ('test_option', ['test-then-set', 'set']),
                  ('error_option', ['stop-on-error', 'continue-on-error',
                                    'rollback-on-error'])):
        if rng.random() < .3:
            kw[k] = rng.choice(vs)
    if kw:
        m.ev('options')
    opts = dict(kw)
    ds = rng.choice([(WRITE,), (WRITE,), (CAND,), (WRITE, CAND), ()])
    L.caps(*ds)
    if rng.random() < .5:
        target = kw['target'] = rng.choice(['running', 'candidate', 'startup'])
    else:
        m.ev('default target')
        target = 'running' if ds == (WRITE,) else 'candidate'
    if how == 'keyword' or how in ('text', 'raw') and rng.random() < .5:
        call = lambda: L.dev.edit_config(config=arg, **kw)      # noqa: E731
    else:
        call = lambda: L.dev.edit_config(arg, **kw)             # noqa: E731
        if 'target' in kw and rng.random() < .2:
            pos = [arg, 'xml', kw['target']]
            kw.pop('target')
            call = lambda: L.dev.edit_config(*pos, **kw)        # noqa: E731
            m.ev('positional')
        elif 'target' not in kw and rng.random() < .3:
            call = lambda: L.dev.edit_config(arg, 'xml', **kw)  # noqa: E731
            m.ev('positional format')
    if how in ('Config', 'delta') and 'target' in kw and rng.random() < .3:
        call = lambda: L.dev.edit_config(config=arg, **kw)      # noqa: E731
    m.ev('edit:' + how)
    data = dict(how=how, arguments=kw, caps=ds, config=snap)
    if not ds:
        m.ev('no datastore')
    if target == 'candidate':
        m.ev('candidate')
    op = request(m, L, call, **data)
    if op is None:
        return
    m.case(len(want) > 0, (canon(A), canon(B), how, sorted(kw.items()), ds),
           lambda: dict(message=L.ses.sent[-1][:1500]))
    data['message'] = L.ses.sent[-1]
    parts = {}
    for x in op:
        m.expect(x.tag not in parts, 'said twice', x.tag, **data)
        parts[x.tag] = x
    exp = {Q + 'target', Q + 'config'} | {
        Q + k.replace('_', '-') for k in opts}
    m.expect(op.tag == Q + 'edit-config' and set(parts) == exp,
             'wrong parts of edit-config', '%s instead of %s' % (
                 sorted(parts), sorted(exp)), **data)
    order = [x for x in ORDER if x in parts]
    m.expect([x.tag for x in op] == order, 'wrong order of parts',
             '%s instead of %s' % ([x.tag for x in op], order), **data)
    if not set(parts) >= {Q + 'target', Q + 'config'}:
        return
    m.expect([x.tag for x in parts[Q + 'target']] == [Q + target],
             'wrong target', etree.tostring(parts[Q + 'target']), **data)
    for k, v in opts.items():
        t = parts.get(Q + k.replace('_', '-'))
        m.expect(t is not None and t.text == v, 'wrong option', k, **data)
    got = parts[Q + 'config']
    m.expect(info(got) == info(want), 'config changed on its way', '', **data)
    m.expect((arg if isinstance(arg, str) else etree.tostring(
        getattr(arg, 'ele', getattr(arg, 'nc', arg)))) == snap,
        'argument modified', '', **data)
    # what the server makes of it
    doc = etree.fromstring(etree.tostring(got))
    srv = Server(W.S)
    try:
        if how in ('raw', 'Config'):
            r = srv.edit([], doc)
        elif o.get('diff_type') == 'minimum-replace':
            return
        else:
            r = srv.edit(normalise(A), doc)
        m.expect(canon(r) == canon(B), 'server holds another config', '',
                 **data)
        m.ev('executed')
    except (EditError, RefError) as e:
        m.bad('server rejects the config', e, **data)


# (parameters have to come in the order of their definition, RFC 7950 7.14.4)
ORDER = [Q + x for x in ('target', 'default-operation', 'test-option',
                         'error-option', 'config', 'url')]


def by_url(m, rng, L):
    """Content that the device gets from elsewhere; lacking capabilities."""
    url = '%s://%s/%s' % (rng.choice(['http', 'ftp', 'sftp']),
                          rng.choice(['h', 'u:p@192.0.2.1', '[2001:db8::1]']),
                          rng.choice(['a.xml', 'x?y=1&z=%3C', '']))
    kw = {}
    if rng.random() < .5:
        kw['default_operation'] = rng.choice(['merge', 'none', 'replace'])
    ds = rng.choice([(WRITE,), (CAND,), (WRITE, CAND)])
    target = 'running' if ds == (WRITE,) else 'candidate'
    if rng.random() < .5:
        target = kw['target'] = rng.choice(['running', 'candidate'])
    L.caps(*ds, URL)
    data = dict(arguments=kw, url=url, caps=ds)
    how = rng.random()
    if how < .6:
        m.ev('url')
        if rng.random() < .5:
            call = lambda: L.dev.edit_config(url, format='url', **kw)  # noqa
        else:
            call = lambda: L.dev.edit_config(config=url,        # noqa: E731
                                             format='url', **kw)
        op = request(m, L, call, **data)
        if op is None:
            return
        data['message'] = L.ses.sent[-1]
        want = [(Q + 'target', None), (Q + target, None)]
        if 'default_operation' in kw:
            want.append((Q + 'default-operation', kw['default_operation']))
        want.append((Q + 'url', url))
        got = [(x.tag, x.text) for x in op.iter() if x is not op]
        m.expect(op.tag == Q + 'edit-config' and got == want,
                 'wrong request', '%s instead of %s' % (got, want), **data)
        m.case(True, (url, sorted(kw.items()), ds))
        return
    m.ev('lacking capability')
    arg = '<config xmlns="%s"/>' % NC
    L.ses._caps[:] = [BASE] + list(ds) + L.mods
    if how < .7:
        arg, kw['format'] = url, 'url'
    elif how < .85:
        kw['test_option'] = rng.choice(['set', 'test-then-set'])
    else:
        kw['error_option'] = 'rollback-on-error'
    refused(m, L, lambda: L.dev.edit_config(arg, **kw),
            MissingCapabilityError, kw, **data)


def retrieve(m, rng, W, L):
    L.caps(WRITE)
    S = W.S
    loaded = list(L.dev.models_loaded)
    which = rng.sample(loaded, rng.randint(1, len(loaded)))
    if rng.random() < .15:
        which.append(rng.choice(['nothing', 'x']))
    rng.shuffle(which)
    arg = rng.choice([list, tuple, set])(which)
    if len(which) == 1 and rng.random() < .7:
        arg = which[0]
    cfg = rng.random() < .5
    tops = [c for c in S.root.data_children() if c.mod.name in which]
    roots = [c for c in tops if c.config or not cfg]
    name = 'get_config' if cfg else 'get'
    kw = {}
    source = 'running'
    call = getattr(L.dev, name)
    if rng.random() < .3:
        m.ev('by name')
        call = lambda *a, **k: L.dev.execute(name, *a, **k)     # noqa: E731
    args = ()
    if cfg and rng.random() < .5:
        source = rng.choice(['running', 'startup'])
        m.ev('source')
        if rng.random() < .5:
            args = (source,)
        else:
            kw['source'] = source
    mode = rng.choice(['models', 'models', 'filter', 'none'])
    flt = None
    data = dict(models=arg, operation=name, kw=kw)
    if mode == 'models':
        kw['models'] = arg
        if set(which) - set(loaded):
            m.ev('missing')
            refused(m, L, lambda: call(*args, **kw), ModelMissing, which)
            return
        if not roots:
            m.ev('no roots')
            refused(m, L, lambda: call(*args, **kw), ValueError, which)
            return
        m.ev(name + ':models')
        if any(not c.config for c in roots):
            m.ev('state roots')
    elif mode == 'filter':
        m.ev('filter')
        top = rng.choice(S.root.data_children())
        x = etree.Element('{%s}%s' % (top.mod.ns, top.name), nsmap={
            rng.choice([None, 'q']): top.mod.ns})
        kids = top.data_children() if top.kind in ('container', 'list') else []
        for k in rng.sample(kids, min(len(kids), 2)):
            y = etree.SubElement(x, '{%s}%s' % (k.mod.ns, k.name))
            if k.kind == 'leaf' and rng.random() < .5:
                y.text = 'a b'
        flt = info(x)
        f = etree.Element(Q + 'filter', type='subtree')
        f.append(x)
        kw['filter'] = rng.choice([
            f, etree.tostring(f).decode(),
            ('subtree', etree.tostring(x).decode())])
    op = request(m, L, lambda: call(*args, **kw), **data)
    if op is None:
        return
    data['message'] = L.ses.sent[-1]
    m.case(mode != 'none', (sorted(which), name, mode, source, flt),
           lambda: dict(message=L.ses.sent[-1][:800]))
    m.expect(op.tag == Q + name.replace('_', '-'), 'wrong operation', op.tag,
             **data)
    parts = {x.tag: x for x in op}
    exp = ([Q + 'source'] if cfg else []) + (
        [Q + 'filter'] if mode != 'none' else [])
    if not m.expect(sorted(x.tag for x in op) == sorted(exp),
                    'wrong parts', [x.tag for x in op], **data):
        return
    if cfg:
        m.expect([x.tag for x in parts[Q + 'source']] == [Q + source],
                 'wrong source', '', **data)
    if mode == 'none':
        return
    f = parts[Q + 'filter']
    m.expect(f.get('type') == 'subtree', 'wrong type of filter', '', **data)
    if mode == 'models':
        got = sorted(x.tag for x in f)
        want = sorted('{%s}%s' % (c.mod.ns, c.name) for c in roots)
        m.expect(got == want, 'wrong roots', '%s instead of %s' % (got, want),
                 **data)
        m.expect(all(len(x) == 0 and not (x.text or '').strip() and
                     not x.attrib for x in f), 'roots are not empty', '',
                 **data)
    else:
        m.expect([info(x) for x in f] == [flt], 'filter changed on its way',
                 '', **data)


def other(m, rng, W, L):
    L.caps(WRITE, CAND)
    d = L.dev

    def rpc():
        mod = rng.choice(W.S.mods)
        e = etree.Element('{%s}do' % mod.ns, nsmap={
            rng.choice([None, 'a', 'nc1']): mod.ns})
        x = etree.SubElement(e, '{%s}x' % mod.ns, nsmap={'v': 'urn:v'})
        x.text = 'v:one'
        y = etree.SubElement(e, '{urn:other}y', a='1')
        etree.SubElement(y, '{urn:other}z').text = rng.choice([None, '  a '])
        if rng.random() < .3:
            noise(rng, e)
        return e
    e = rpc()
    ds = rng.choice(['running', 'candidate', 'startup'])
    for f, want in rng.sample([
            (lambda: d.lock(ds), (Q + 'lock', [Q + 'target', Q + ds])),
            (lambda: d.unlock(target=ds), (Q + 'unlock', [Q + 'target',
                                                          Q + ds])),
            (lambda: d.commit(), (Q + 'commit', [])),
            (lambda: d.discard_changes(), (Q + 'discard-changes', [])),
            (lambda: d.copy_config(source='running', target='startup'),
             (Q + 'copy-config', [Q + 'target', Q + 'startup', Q + 'source',
                                  Q + 'running'])),
            (lambda: d.delete_config('startup'),
             (Q + 'delete-config', [Q + 'target', Q + 'startup'])),
            (lambda: d.validate('candidate'),
             (Q + 'validate', [Q + 'source', Q + 'candidate'])),
            (lambda: d.dispatch(e), e)], 3):
        op = request(m, L, f)
        if op is None:
            continue
        m.ev('other')
        if isinstance(want, tuple):
            got = (op.tag, [x.tag for x in op.iter() if x is not op])
            m.expect(got == want, 'wrong request', '%s instead of %s' % (
                got, want), message=L.ses.sent[-1])
        else:
            m.expect(info(op) == info(want), 'request changed on its way', '',
                     message=L.ses.sent[-1], sent=want)
        m.case(True, (info(op),))
    if rng.random() < .5:
        m.ev('unknown operation')
        refused(m, L, lambda: d.execute(rng.choice(['', 'gets', 'Get',
                                                    'edit-config'])),
                ValueError, 'unknown operation')


def batch(m, rng, index, tier):
    W = work.world(rng, 'w%d' % index, dict(ro=True), p_rich=.4, p_real=.05)
    L = link(W)
    for j in range(8):
        edit(m, rng, W, L)
        retrieve(m, rng, W, L)
        by_url(m, rng, L)
        if j % 2:
            other(m, rng, W, L)
