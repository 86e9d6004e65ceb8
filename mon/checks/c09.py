"""C09: making a config keeps exactly its data and rejects what is invalid."""
import copy

from lxml import etree
from ncclient.operations.rpc import RPCReply
from ncdiff import Config
from ncdiff.errors import ConfigError, ModelError, ModelMissing

from .. import device, schema, work
from ..refmodel import canon, normalise, NC, OP, INS, VAL, KEY, RefError

BATCHES = dict(quick=640, thorough=10000)
RULE = ('random data (with defaults, empty containers, deprecated and '
        'obsolete nodes, comments) x wrapper (config, data, rpc-reply, '
        'edit-config, rpc) x input type (text, element, RPC reply), and '
        'invalid variants of it (unknown, misplaced or foreign nodes, '
        'missing keys, operation attributes, wrong types); the result is '
        'compared node by node with an independently parsed and normalised '
        'tree; non-trivial: the config holds data; distinct by document, '
        'or by document and invalid mutation')
REQUIRED = {'kept': 2000, 'dropped': 500, 'str': 300, 'element': 300,
            'reply': 300, 'wrap:nc:config': 100, 'wrap:data': 100,
            'wrap:dataonly': 100, 'wrap:edit': 100, 'wrap:rpc': 100,
            'deprecated removed': 30, 'obsolete removed': 30,
            'rejected:unknown child': 100, 'rejected:missing key': 50,
            'rejected:attribute': 100, 'rejected:unknown root': 50,
            'rejected:unknown model': 50, 'rejected:misplaced': 50,
            'rejected:child of leaf': 50, 'rejected:no namespace': 50,
            'validated late': 200, 'rejected:unloaded model': 100, 'rejected late': 300,
            'roots': 1000, 'empty entry': 50}
ASSUME = ['leaf-list defaults of the workload have no commas (see the known '
          'finding)']


def setup(tier):
    work.rich()
    work.real()


def flat(kids):
    return [(k.s.tag, k.val, flat(k.kids)) for k in kids]


def doc(g, kids, wrap):
    if wrap == 'rpc':
        x = g.render(kids, root='edit')
        return '<rpc xmlns="%s" message-id="3">%s</rpc>' % (NC, x)
    return g.render(kids, root=wrap)


def empty_entry(m, rng, W, text):
    """Adds list entries without content, which are not data."""
    root = parse_root(text)
    spots = [(root, W.S.root)] * 3 + _eles(root, W, ('container', 'list'))
    for _ in range(3):
        e, s = rng.choice(spots)
        ls = [c for c in s.data_children() if c.kind == 'list']
        if ls:
            x = etree.Element(rng.choice(ls).tag)
            e.insert(rng.randrange(len(e) + 1), x)
            m.ev('empty entry')
    return etree.tostring(root.getroottree(), encoding='unicode')


def parse_root(text):
    e = etree.XML(text)
    for path in ('/n:config', '/n:data', '/n:rpc-reply/n:data',
                 '/n:edit-config/n:config', '/n:rpc/n:edit-config/n:config'):
        r = e.xpath(path, namespaces={'n': NC})
        if r:
            return r[0]


def batch(m, rng, index, tier):
    if index == 0:
        comma_probe(m)
        odd_inputs(m)
    W = work.world(rng, 'j%d' % index, dict(status=True, ro=True),
                   p_rich=.15, p_real=.08)
    m.ev('world:' + W.kind)
    for j in range(10):
        g = work.gen(rng, W, p_default=.25, p_empty_np=.2)
        g.ro = rng.random() < .3
        kids = g.tree()
        if rng.random() < .1:
            kids = []
        wrap = rng.choice(['nc:config', 'data', 'dataonly', 'edit', 'rpc'])
        text = doc(g, kids, wrap)
        dep = rng.random() < .4
        src = W.P.config(parse_root(text))
        want = normalise(src, status=True, deprecated=dep)
        if rng.random() < .3:
            text = empty_entry(m, rng, W, text)
        m.case(bool(want), (text, dep), lambda: dict(
            document=text[:1200], remove_deprecated=dep))
        how = rng.choice(['str', 'element', 'reply'])
        m.ev(how)
        m.ev('wrap:' + wrap)
        keep = None
        if how == 'str':
            x = text
        elif how == 'element':
            x = etree.XML(text)
            keep = etree.tostring(x)
        else:
            x = RPCReply(text)
            x.parse()
            keep = text
        m.where = '%s %s' % (how, wrap)
        c = Config(W.dev, x, remove_deprecated=dep)
        if how == 'element':
            m.expect(etree.tostring(x) == keep, 'input modified', '',
                     document=text)
        elif how == 'reply':
            m.expect(x.xml == keep, 'input modified', '', document=text)
        check(m, W, c, want, dep, text)
        a, b = len(nodes(src)), len(nodes(want))
        m.ev('kept', b)
        m.ev('dropped', a - b)
        for s in nodes(src):
            if s.s.status == 'obsolete':
                m.ev('obsolete removed')
            if s.s.status == 'deprecated' and dep:
                m.ev('deprecated removed')
        if rng.random() < .3:
            y = RPCReply(text) if how == 'reply' else \
                etree.XML(text) if how == 'element' else text
            if how == 'reply':
                y.parse()
            late = Config(W.dev, y, validate=False, remove_deprecated=dep)
            late.validate_config()
            check(m, W, late, want, dep, text, 'validated late: ')
            m.ev('validated late')
        if rng.random() < .2 and want:
            unloaded(m, rng, W, str(c))
        # making a config of a config changes nothing
        for form in (str(c), c.xml, c.ele, etree.fromstring(c.xml)):
            again = Config(W.dev, form, remove_deprecated=dep)
            check(m, W, again, want, dep, text, 'again: ')
        d = Config(W.dev, c)
        check(m, W, d, want, dep, text, 'config of config: ')
        # validation and trimming again change nothing
        c.validate_config()
        c.trim_defaults()
        check(m, W, c, want, dep, text, 'validated twice: ')
        for bad in rng.sample(sorted(BAD), 4):
            invalid(m, rng, W, g, kids, bad)


def nodes(kids):
    out = []
    for k in kids:
        out.append(k)
        out += nodes(k.kids)
    return out


def check(m, W, c, want, dep, text, what=''):
    try:
        got = W.P.config(c.ele)
    except RefError as e:
        m.bad(what + 'malformed', e, document=text, config=c)
        return
    m.expect(c.ele.tag == '{%s}config' % NC, 'root of a config', c.ele.tag)
    m.expect(flat(got) == flat(want), what + 'data differ',
             lambda: first(flat(want), flat(got)), document=text, config=c,
             remove_deprecated=dep)
    roots = {k.s.tag: W.dev.roots.get(k.s.tag) for k in want}
    m.ev('roots')
    # the model of a root is the module that defines it
    exp = {k.s.tag: k.s.mod.name for k in want}
    m.expect(c.roots == exp, what + 'roots', '%s, expected %s'
             % (c.roots, exp), document=text)
    m.expect(c.models == sorted(set(exp.values())), what + 'models',
             '%s' % c.models, document=text)
    m.expect(bool(c) == bool(want), what + 'truth value', bool(c),
             document=text)
    if roots:
        used = {n.s.mod.ns for n in nodes(want)}
        m.expect(used <= set(c.ns.values()), what + 'ns',
                 '%s not in %s' % (used, c.ns), document=text)
        for p, u in c.ns.items():
            for mod in W.S.mods:
                if mod.ns == u:
                    m.expect(p == mod.prefix, what + 'prefix of ns',
                             '%s: %s' % (p, u))


def first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if x[:2] == y[:2]:
                return '%s/%s' % (x[0], first(x[2], y[2]))
            return 'expected %s, got %s' % (x[:2], y[:2])
    return 'expected %s, got %s' % (a[len(b):], b[len(a):])


# ------------------------------------------------------------ invalid input

def _eles(root, W, kinds, pred=lambda e, s: True):
    out = []

    def walk(e, s):
        for c in e.iterchildren('*'):
            cs = W.S.lookup(s, c.tag)
            if cs.kind in kinds and pred(c, cs):
                out.append((c, cs))
            if cs.kind in ('container', 'list'):
                walk(c, cs)
    walk(root, W.S.root)
    return out


def bad_child(rng, W, root):
    t = _eles(root, W, ('container', 'list'))
    if t:
        e, s = rng.choice(t)
        name = rng.choice(['nope', 'config1', s.name + 'x'])
        tag = '{%s}%s' % (s.mod.ns, name)
        if W.S.lookup(s, tag) is None:
            etree.SubElement(e, tag).text = 'v'
            return True


def bad_root(rng, W, root):
    mod = rng.choice(W.S.mods)
    tag = '{%s}nope' % mod.ns
    if W.S.lookup(W.S.root, tag) is None:
        etree.SubElement(root, tag)
        return True


def bad_model(rng, W, root):
    etree.SubElement(root, '{urn:not:known}%s' % rng.choice(['a', 'data']))
    return True


def bad_place(rng, W, root):
    """A known node at a place where it is not defined."""
    t = _eles(root, W, ('container', 'list'))
    u = _eles(root, W, ('container', 'list', 'leaf', 'leaf-list'))
    rng.shuffle(u)
    for e, s in u:
        for p, ps in rng.sample(t, min(4, len(t))):
            if W.S.lookup(ps, s.tag) is None:
                n = copy.deepcopy(e)
                n.tail = None
                p.append(n)
                return True


def bad_leaf_child(rng, W, root):
    t = _eles(root, W, ('leaf', 'leaf-list'))
    if t:
        e, s = rng.choice(t)
        etree.SubElement(e, rng.choice([s.tag, '{%s}x' % s.mod.ns]))
        return True


def bad_ns(rng, W, root):
    t = _eles(root, W, ('container', 'list', 'leaf'))
    if t:
        e, s = rng.choice(t)
        p = e.getparent()
        n = etree.SubElement(p, s.name)
        n.text = e.text if s.kind == 'leaf' else None
        return True


def bad_foreign(rng, W, root):
    """A node of a module in the namespace of another one."""
    t = _eles(root, W, ('container', 'list', 'leaf'))
    if t and len(W.S.mods) > 1:
        e, s = rng.choice(t)
        mod = rng.choice([x for x in W.S.mods if x is not s.mod])
        ps = s.data_parent()
        tag = '{%s}%s' % (mod.ns, s.name)
        if W.S.lookup(ps, tag) is None:
            etree.SubElement(e.getparent(), tag).text = 'v'
            return True


def bad_key(rng, W, root):
    t = _eles(root, W, ('list',), lambda e, s: s.keys and len(e) >
              len(s.keys))
    t = [(e, s) for e, s in t if sum(
        1 for c in e.iterchildren('*')
        if not W.S.lookup(s, c.tag).is_key and
        solid(W, c, W.S.lookup(s, c.tag)))]
    if t:
        e, s = rng.choice(t)
        k = rng.choice(s.key_nodes())
        e.remove(e.find(k.tag))
        return True


def solid(W, c, s):
    """The node survives normalisation."""
    if s.kind == 'leaf':
        return s.default is None and not s.status
    if s.kind == 'leaf-list':
        return s.default is None and not s.status
    if s.kind == 'container' and s.presence:
        return not s.status
    return False


def bad_attr(rng, W, root):
    t = _eles(root, W, ('container', 'list', 'leaf', 'leaf-list'),
              lambda e, s: survives(W, e, root))
    if t:
        e, s = rng.choice(t)
        at, v = rng.choice([(OP, 'merge'), (OP, 'delete'), (OP, 'replace'),
                            (OP, 'create'), (OP, 'remove'), (INS, 'first'),
                            (INS, 'after'), (VAL, 'x'), (KEY, '[a="b"]')])
        e.set(at, v)
        return True


def survives(W, e, root):
    """e has a descendant (or is a node) that normalisation keeps."""
    s = W.S.root
    path = []
    x = e
    while x is not root:
        path.insert(0, x)
        x = x.getparent()
    for x in path:
        s = W.S.lookup(s, x.tag)
    if s.is_key:
        return True
    if s.kind == 'list':
        return bool(s.keys)
    if s.kind in ('leaf', 'leaf-list') or s.kind == 'container' and \
            s.presence:
        return solid(W, e, s)
    return any(survives(W, c, root) for c in e.iterchildren('*'))


BAD = {'unknown child': bad_child, 'unknown root': bad_root,
       'unknown model': bad_model, 'misplaced': bad_place,
       'child of leaf': bad_leaf_child, 'no namespace': bad_ns,
       'foreign': bad_foreign, 'missing key': bad_key,
       'attribute': bad_attr}
ERRORS = (ConfigError, ModelError, ModelMissing)


def invalid(m, rng, W, g, kids, bad):
    wrap = rng.choice(['nc:config', 'data', 'edit'])
    text = doc(g, kids, wrap)
    root = parse_root(text)
    if not BAD[bad](rng, W, root):
        return
    e = root.getroottree().getroot()
    text = etree.tostring(e, encoding='unicode')
    m.case(True, (bad, text), lambda: dict(invalid=bad, document=text[:1200]))
    # lxml does not serialise an absent namespace below a default one
    x = e if bad == 'no namespace' else rng.choice([text, e])
    try:
        c = Config(W.dev, x)
    except ERRORS:
        m.ev('rejected:' + bad)
    except Exception as err:
        m.bad('%s: unexpected error' % bad, '%s: %s' % (
            type(err).__name__, err), document=text)
    else:
        m.bad('%s: accepted' % bad, '', document=text, config=c)
    if bad == 'no namespace':
        return
    try:
        c = Config(W.dev, text, validate=False)
        c.validate_config()
    except ERRORS:
        m.ev('rejected late')
    else:
        m.bad('%s: accepted late' % bad, '', document=text, config=c)


def unloaded(m, rng, W, text):
    """Data of a model the device has, which is not loaded."""
    root = parse_root(text)
    tags = [e.tag for e in root if isinstance(e.tag, str)]
    if not tags:
        return
    name = W.dev.roots[rng.choice(tags)]
    model = W.dev.models.pop(name)
    try:
        Config(W.dev, text)
    except ModelMissing as err:
        m.ev('rejected:unloaded model')
        m.expect("load_model('%s')" % name in str(err), 'unloaded model: '
                 'message', str(err), model=name, document=text)
    except Exception as err:
        m.bad('unloaded model: other error', '%s: %s' % (
            type(err).__name__, err), model=name, document=text)
    else:
        m.bad('unloaded model: accepted', '', model=name, document=text)
    finally:
        W.dev.models[name] = model
    c = Config(W.dev, text)
    m.expect(name in c.models, 'loaded again', str(c.models), model=name)


def odd_inputs(m):
    W = work.rich()
    for x in (1, 1.5, [], {}, b'<a/>', object(), ('a',), True):
        try:
            Config(W.dev, x)
        except TypeError:
            m.ev('rejected:type')
        else:
            m.bad('wrong type accepted', type(x).__name__)
    for x in ('', 'junk', '<a>', '<nc:config/>'):
        try:
            Config(W.dev, x)
        except etree.XMLSyntaxError:
            m.ev('rejected:syntax')
        else:
            m.bad('malformed text accepted', x)
    c = Config(W.dev)
    m.expect(len(c.ele) == 0 and not c and c.models == [] and
             c.roots == {}, 'empty config', str(c))


COMMA = '''module lc {
  yang-version 1.1;
  namespace "urn:lc"; prefix lc;
  container c {
    leaf-list ll { type string; default "a,b"; default "c"; }
    leaf x { type string; }
  }
}'''


def comma_probe(m):
    """Known finding: leaf-list defaults that contain commas."""
    folder = device.write_yang({'lc': COMMA})
    d = device.make_device(folder, [('urn:lc', 'lc')])
    t = '<nc:config xmlns:nc="%s"><c xmlns="urn:lc">%s</c></nc:config>'
    c = Config(d, t % (NC, '<ll>a,b</ll><ll>c</ll><x>1</x>'))
    if c != Config(d, t % (NC, '<x>1</x>')):
        m.bad('leaf-list default with comma', 'default values "a,b" and "c" '
              'of a leaf-list are not trimmed', config=c)
    c = Config(d, t % (NC, '<ll>a</ll><ll>b</ll><ll>c</ll><x>1</x>'))
    if c == Config(d, t % (NC, '<x>1</x>')):
        m.bad('leaf-list values trimmed by mistake', 'values "a", "b" and '
              '"c" are trimmed though defaults are "a,b" and "c"', config=c)
