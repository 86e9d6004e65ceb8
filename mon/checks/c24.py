"""C24: wrong arguments and wrong states are refused and change nothing."""
import os
from copy import deepcopy

from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.composer import Tag
from ncdiff.errors import ConfigError, ModelMissing
from ncdiff.manager import ModelDevice
from ncdiff.netconf import NetconfCalculator, NetconfParser

from .. import device, env, work

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
BATCHES = dict(quick=400, thorough=8000)
RULE = ('wrong operands, options, tags, names, files, operations, duplicated '
        'entries and states, given to configs, deltas, calculators and '
        'devices of random schemas; the error, and what the operands and the '
        'device are like afterwards, are observed; key: case and documents')
REQUIRED = {'operand': 3000, 'comparison': 3000, 'option': 3000,
            'duplicate list': 300, 'duplicate leaf-list': 100,
            'duplicate comparison': 1000, 'tag': 2000, 'load': 1000,
            'operation': 400, 'not scanned': 300, 'lookup': 500,
            'submodule': 20, 'value': 500, 'delta operand': 1000, 'states kept': 1500}

NOT_CONFIG = [5, 'text', None, [], {}, 1.5, ('a',), object(), b'<a/>', True]


def setup(tier):
    work.rich()
    work.real()


class Watch:
    """What must be the same before and after."""

    def __init__(self, m, dev, configs=(), deltas=()):
        self.m, self.dev = m, dev
        self.configs, self.deltas = configs, deltas
        self.was = self.look()

    def look(self):
        d = self.dev
        return ([etree.tostring(c.ele) for c in self.configs],
                [etree.tostring(x.nc) for x in self.deltas],
                {k: id(v) for k, v in d.models.items()},
                [len(list(v.tree.iter())) for v in d.models.values()],
                list(d.namespaces), list(d.models_loadable),
                list(d.models_loaded), dict(d.roots))

    def check(self, what):
        now = self.look()
        for a, b in zip(self.was, now):
            self.m.expect(a == b, 'state changed', what, before=a, after=b)
        self.m.ev('states kept')


def refused(m, kind, what, errors, f, **data):
    m.ev(kind)
    try:
        x = f()
    except errors:
        return True
    except Exception as e:
        m.bad('%s: other error' % kind, '%s: %s: %s' % (
            what, type(e).__name__, e), **data)
    else:
        m.bad('%s: accepted' % kind, '%s: %.200r' % (what, x), **data)


def batch(m, rng, index, tier):
    if index % 10 == 0:
        submodule(m, rng)
    W = work.world(rng, 'w%d' % index, p_rich=.15, p_real=.05)
    for j in range(4):
        g = work.gen(rng, W)
        A, B = work.pair(rng, g)
        ta, tb = g.render(A), g.render(B)
        ca, cb = Config(W.dev, ta), Config(W.dev, tb)
        d = ConfigDelta(ca, cb)
        plain = str(d)
        m.case(True, (ta, tb), lambda: dict(a=ta[:400], b=tb[:400]))
        m.where = 'job %d' % j
        w = Watch(m, W.dev, [ca, cb], [d])
        for f in (operands, options, duplicates, values, tags, loads, operations,
                  lookups):
            f(m, rng, W, ca, cb, d)
            w.check(f.__name__)
        fresh(m, rng, W, str(ca) if len(ca.ele) else '')
        m.expect(str(ConfigDelta(ca, cb)) == plain,
                 'delta differs after refusals', '', running1=ta, running2=tb)


def operands(m, rng, W, ca, cb, d):
    for x in rng.sample(NOT_CONFIG, 4):
        w = repr(x)
        refused(m, 'operand', 'config + %s' % w, TypeError, lambda: ca + x)
        refused(m, 'operand', 'config - %s' % w, TypeError, lambda: ca - x)
        if not isinstance(x, (str, list, tuple)):
            refused(m, 'operand', '%s + config' % w, TypeError,
                    lambda: x + ca)
        refused(m, 'delta operand', 'delta + %s' % w, TypeError,
                lambda: d + x)
        refused(m, 'delta operand', 'delta - %s' % w, TypeError,
                lambda: d - x)
        refused(m, 'operand', 'ConfigDelta(%s)' % w, TypeError,
                lambda: ConfigDelta(x, cb))
        if x is not None:
            refused(m, 'operand', 'ConfigDelta(c, %s)' % w, TypeError,
                    lambda: ConfigDelta(ca, x))
            if not isinstance(x, str):
                refused(m, 'operand', 'delta=%s' % w, TypeError,
                        lambda: ConfigDelta(ca, delta=x))
    refused(m, 'delta operand', 'delta + delta', TypeError, lambda: d + d)
    refused(m, 'delta operand', 'delta - delta', TypeError, lambda: d - d)
    refused(m, 'delta operand', 'delta - config', TypeError, lambda: d - ca)
    refused(m, 'operand', 'delta of text', etree.XMLSyntaxError,
            lambda: ConfigDelta(ca, delta='<a>'))
    ops = [('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b),
           ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b),
           ('==', lambda a, b: a == b), ('!=', lambda a, b: a != b)]
    for n, op in ops:
        x = rng.choice(NOT_CONFIG[:-1])
        refused(m, 'comparison', 'config %s %r' % (n, x), TypeError,
                lambda: op(ca, x))
        refused(m, 'comparison', 'config %s delta' % n, TypeError,
                lambda: op(ca, d))
        y = rng.choice([x, ca, d])
        refused(m, 'comparison', 'delta %s %s' % (n, type(y)), TypeError,
                lambda: op(d, y))


def options(m, rng, W, ca, cb, d):
    for o, good in (('preferred_create', ('merge', 'create', 'replace')),
                    ('preferred_replace', ('merge', 'replace')),
                    ('preferred_delete', ('delete', 'remove'))):
        bad = [x for x in ('merge', 'create', 'replace', 'delete', 'remove',
                           'none', '', None, 'Merge', 'merge ', 1)
               if x not in good]
        for x in rng.sample(bad, 3):
            refused(m, 'option', '%s=%r' % (o, x), ValueError,
                    lambda: ConfigDelta(ca, cb, **{o: x}))
            refused(m, 'option', 'calculator %s=%r' % (o, x), ValueError,
                    lambda: NetconfCalculator(W.dev, ca.ele, cb.ele,
                                              **{o: x}))
        for x in good:
            ConfigDelta(ca, cb, **{o: x})
    for x in (-1, '1', 1.5, []):
        refused(m, 'option', 'random_depth=%r' % (x,), ValueError,
                lambda: ConfigDelta(ca, cb, random_depth=x))
    for x in ('1', 1.5, [], b'1'):
        refused(m, 'option', 'random_seed=%r' % (x,), ValueError,
                lambda: ConfigDelta(ca, cb, random_depth=1, random_seed=x))
    for x in rng.sample([5, None, 'x', []], 2):
        refused(m, 'option', 'element %s' % type(x), TypeError,
                lambda: NetconfParser.retrieve_config(x))


def duplicates(m, rng, W, ca, cb, d):
    """The same entry twice: there is no way to tell which is meant."""
    spots = []

    def walk(e, parent):
        for c in e:
            s = W.S.lookup(parent, c.tag)
            if s.kind in ('list', 'leaf-list'):
                spots.append((c, s))
            if s.kind in ('list', 'container'):
                walk(c, s)
    whole = deepcopy(ca.ele)
    walk(whole, W.S.root)
    spots = [x for x in spots if x[1].config]
    if not spots:
        return
    e, s = rng.choice(spots)
    dup = deepcopy(e)
    if s.kind == 'list':
        for c in list(dup):
            if c.tag not in [k.tag for k in s.key_nodes()] and \
                    rng.random() < .5:
                dup.remove(c)
    sibs = [x for x in e.getparent() if x.tag == e.tag]
    at = rng.choice(sibs)
    if rng.random() < .5:
        at.addnext(dup)
    else:
        at.addprevious(dup)
    text = etree.tostring(whole, encoding='unicode')
    c = Config(W.dev, text)
    n = 'duplicate ' + s.kind
    m.ev(n)
    before = etree.tostring(c.ele)
    for what, f in (('c - dup', lambda: str(ca - c)),
                    ('dup - c', lambda: str(c - ca)),
                    ('c == dup', lambda: c == ca),
                    ('c != dup', lambda: c != ca),
                    ('c <= dup', lambda: ca <= c),
                    ('dup <= c', lambda: c <= ca),
                    ('dup + c', lambda: c + ca)):
        refused(m, 'duplicate comparison', '%s, %s' % (n, what), ConfigError,
                f, document=text, other=ca)
    m.expect(etree.tostring(c.ele) == before, 'duplicates changed', '')


def values(m, rng, W, ca, cb, d):
    """Identities and instance-identifiers that cannot be understood."""
    root = deepcopy(ca.ele)
    spots = []

    def walk(e, parent):
        for c in e:
            s = W.S.lookup(parent, c.tag)
            if s.kind in ('leaf', 'leaf-list') and c.text and \
                    s.typ and s.typ[0] in ('identityref',
                                           'instance-identifier'):
                spots.append((c, s))
            elif s.kind in ('list', 'container'):
                walk(c, s)
    walk(root, W.S.root)
    if not spots:
        return
    e, s = rng.choice(spots)
    if s.typ[0] == 'identityref':
        bad = ['no-such:x']
    else:
        p = [x for x, u in e.nsmap.items()
             if x and u in [n[2] for n in W.dev.namespaces]]
        if not p:
            return
        p = rng.choice(p)
        bad = [x.replace('p:', p + ':') for x in (
            "/p:a[p:k='x'", "/p:a[p:k='x]", '/p:a[p:k="x]', '/p:a[p:k=x]',
            "/p:a/p:b[p:k='x'][p:j=]", '/no-such:a', '/a/b', '/p:a[.=5]',
            "/p:a[no-such:k='x']", "/a[k='x']")]
    e.text = rng.choice(bad)
    text = etree.tostring(root, encoding='unicode')
    for what, f in (('==', lambda c: c == ca), ('<=', lambda c: c <= ca),
                    ('delta', lambda c: str(c - ca)),
                    ('+', lambda c: c + ca)):
        if what == '+' and s.kind == 'leaf' and not s.is_key:
            continue
        refused(m, 'value', '%s of %s' % (what, e.text), ConfigError,
                lambda: f(Config(W.dev, text)), document=text, other=ca)


def tags(m, rng, W, ca, cb, d):
    dev = W.dev
    name, prefix, url = rng.choice([n for n in dev.namespaces if n[1]])
    forms = [Tag.XPATH, Tag.LXML_XPATH, Tag.LXML_ETREE, Tag.JSON_NAME,
             Tag.JSON_PREFIX, Tag.YTOOL]
    for src in forms:
        brace = src is Tag.LXML_ETREE
        dst = rng.choice(forms)
        x = ('{urn:no-such}a' if brace else 'no-such:a')
        default = (name, prefix, url)[src[0]]
        refused(m, 'tag', 'unknown in %s' % x, ValueError,
                lambda: dev.convert_tag(default, x, src=src, dst=dst))
        if src[1] == Tag.NO_OMIT:
            refused(m, 'tag', 'no namespace', ValueError,
                    lambda: dev.convert_tag(default, 'a', src=src, dst=dst))
    # the namespace of NETCONF has a prefix, but it is not one of a model
    if not any(n[2] == NC for n in dev.namespaces):
        for src, x in ((Tag.LXML_ETREE, '{%s}config' % NC),
                       (Tag.LXML_XPATH, 'nc:config')):
            refused(m, 'tag', 'no name of a model', ValueError,
                    lambda: dev.convert_tag('', x, src=src,
                                            dst=Tag.JSON_NAME))
    for i, x in enumerate(('no-such', 'nosuch', 'urn:no-such')):
        refused(m, 'tag', 'unknown namespace', ValueError,
                lambda: dev.convert_ns(x, src=i, dst=(i + 1) % 3))


def loads(m, rng, W, ca, cb, d):
    dev = W.dev
    folder = env.newdir('bad')
    files = {'x.yang': 'module x { }', 'x.txt': 'x', 'x': '<x/>',
             'xml': '<x/>'}
    for f, t in files.items():
        p = os.path.join(folder, f)
        with open(p, 'w') as h:
            h.write(t)
        refused(m, 'load', f, ValueError, lambda: dev.load_model(p))
    p = os.path.join(folder, 'bad.xml')
    with open(p, 'w') as h:
        h.write('<%s' % rng.choice(dev.models_loaded))
    refused(m, 'load', 'bad.xml', etree.XMLSyntaxError,
            lambda: dev.load_model(p))
    n = rng.choice(dev.models_loaded)
    for x in ('no-such-model', n + 'x', n[:-1], n.upper(), '',
              os.path.join(folder, 'missing.xml')):
        if x not in dev.models_loadable:
            refused(m, 'load', x, ValueError, lambda: dev.load_model(x))


def operations(m, rng, W, ca, cb, d):
    """The session of these devices cannot send anything."""
    dev = W.dev
    for x in ('no-such', 'GET', '', 'get-config'):
        refused(m, 'operation', x, ValueError, lambda: dev.execute(x))
    n = rng.choice(dev.models_loaded)
    order = list(dev.models)
    model = dev.models.pop(n)
    try:
        some = rng.sample(dev.models_loaded,
                          rng.randint(0, min(2, len(dev.models_loaded))))
        for x in (n, [n], some + [n], [n] + some):
            for op in ('get', 'get_config'):
                refused(m, 'operation', '%s of a model that is not loaded'
                        % op, ModelMissing,
                        lambda: dev.execute(op, models=x))
                refused(m, 'operation', '%s of an unknown model' % op,
                        ModelMissing, lambda: getattr(dev, op)(
                            models='no-such'))
    finally:
        # the order of models is that in which they were loaded
        rest = dict(dev.models)
        dev.models.clear()
        for k in order:
            dev.models[k] = model if k == n else rest[k]


def lookups(m, rng, W, ca, cb, d):
    dev = W.dev
    eles = [e for e in ca.ele.iter() if e is not ca.ele]
    if not eles:
        return
    e = rng.choice(eles)
    want = dev.get_schema_node(e)
    # a copy: the operands must not change
    root = deepcopy(ca.ele)
    e2 = [x for x in root.iter() if x is not root][eles.index(e)]
    ns = rng.choice([etree.QName(e).namespace, 'urn:no-such'])
    bad = etree.SubElement(e2, '{%s}no-such' % ns)
    for _ in range(2):
        refused(m, 'lookup', 'unknown child', ConfigError,
                lambda: dev.get_schema_node(bad), node=bad.tag)
    top = etree.SubElement(root, '{urn:no-such}top')
    refused(m, 'lookup', 'unknown root', (ConfigError, ModelMissing),
            lambda: dev.get_schema_node(top))
    top = etree.SubElement(root, '{%s}no-such-root' %
                           etree.QName(root[0]).namespace)
    refused(m, 'lookup', 'unknown root of a model', (
        ConfigError, ModelMissing), lambda: dev.get_schema_node(top))
    m.expect(dev.get_schema_node(e) is want, 'lookup differs', e.tag)


def fresh(m, rng, W, text):
    """A device whose models were not scanned."""
    old = W.dev
    caps = list(old._session.server_capabilities)
    dev = ModelDevice(device.FakeSession(caps), device.DefaultDeviceHandler())
    n = rng.choice(old.models_loaded)
    refused(m, 'not scanned', 'namespaces', ValueError,
            lambda: dev.namespaces)
    refused(m, 'not scanned', 'load_model', ValueError,
            lambda: dev.load_model(n))
    refused(m, 'not scanned', 'convert_ns', ValueError,
            lambda: dev.convert_ns(n, src=Tag.NAME, dst=Tag.PREFIX))
    if text:
        refused(m, 'not scanned', 'Config', (ValueError, ModelMissing,
                                             ConfigError),
                lambda: Config(dev, text), text=text)
    m.expect(dev.models == {} and dev.models_loaded == [] and
             dev.roots == {} and dev.models_loadable == old.models_loadable,
             'device that was not scanned', str(dev.models))


SUB = {
    'ms': '''module ms { yang-version 1.1; namespace "urn:ms"; prefix ms;
  include ms-sub; container c { leaf a { type string; } } }''',
    'ms-sub': '''submodule ms-sub { yang-version 1.1;
  belongs-to ms { prefix ms; } container d { leaf b { type string; } } }'''}


def submodule(m, rng):
    folder = device.write_yang(SUB)
    load = ['ms'] if rng.random() < .5 else []
    dev = device.make_device(folder, [('urn:ms', 'ms'),
                                      ('urn:ms', 'ms-sub')], load=load)
    have = dict(dev.models)
    refused(m, 'submodule', 'load_model', ValueError,
            lambda: dev.load_model('ms-sub'))
    m.expect(dev.models == have, 'submodule changed models', '')
    dev.load_model('ms')
    m.expect(sorted(dev.roots) == ['{urn:ms}c', '{urn:ms}d'],
             'model with submodule', str(dev.roots))
