"""C11: paths and schema nodes of config nodes."""
import re

from lxml import etree
from ncdiff import Config
from ncdiff.composer import Tag

from .c12 import EXTRA, MORE
from .. import device, schema, work
from ..refmodel import NC

BATCHES = dict(quick=640, thorough=8000)
RULE = ('every element of random configs (values with quotes, brackets, '
        'slashes; multi-key lists; augmented and same-named nodes) and every '
        'node of the compiled schemas; paths are evaluated by lxml or by an '
        'independent evaluator and must select exactly the node; '
        'non-trivial: the path has a predicate or crosses modules; distinct '
        'by schema and path')
REQUIRED = {'path': 5000, 'inherit path': 5000, 'predicate': 1000,
            'quote in predicate': 50, 'cross module': 150,
            'schema node': 5000, 'statement': 1000, 'other paths': 200, 'not instance': 1000,
            'tag': 1000, 'defaults in use': 100, 'reload': 50,
            'default case': 5}
ASSUME = ['prefixes of modules are unique on the device']

# predicates of XPath 1.0 compare text, not what prefixes stand for
STYLES = ['device', 'default', 'prefix', 'root', 'mixed']


def setup(tier):
    work.rich()
    work.real()


STEP = re.compile(r'''/([^/\[]+)((?:\[(?:"[^"]*"|'[^']*'|[^\]"'])*\])*)''')
PRED = re.compile(r'''\[([^=]+)=((?:"[^"]*"|'[^']*'|[^\]"'])*)\]''')
LIT = re.compile(r'''"([^"]*)"|'([^']*)\'''')


def literal(t):
    t = t.strip()
    if t.startswith('concat('):
        return ''.join(a or b for a, b in LIT.findall(t[7:-1]))
    mo = LIT.fullmatch(t)
    if not mo:
        raise ValueError('literal %r' % t)
    return mo.group(1) or mo.group(2) or ''


def evaluate(root, path, names):
    """Elements selected by a path whose prefixes are inherited from the
    parent step; names: prefix (or module name) -> namespace."""
    pos, cur, ns = 0, [root], None
    while pos < len(path):
        mo = STEP.match(path, pos)
        if not mo:
            raise ValueError('%r at %d' % (path, pos))
        pos = mo.end()
        step = mo.group(1)
        if ':' in step:
            p, step = step.split(':', 1)
            ns = names[p]
        nxt = [c for e in cur for c in e.iterchildren('{%s}%s' % (ns, step))]
        rest = mo.group(2)
        at = 0
        while at < len(rest):
            q = PRED.match(rest, at)
            if not q:
                raise ValueError('predicate %r' % rest)
            at = q.end()
            k, v = q.group(1), literal(q.group(2))
            if k in ('text()', '.'):
                nxt = [e for e in nxt if (e.text or '') == v]
            else:
                if ':' in k:
                    p, k = k.split(':', 1)
                    tag = '{%s}%s' % (names[p], k)
                else:
                    tag = '{%s}%s' % (ns, k)
                nxt = [e for e in nxt
                       if any((x.text or '') == v for x in e.findall(tag))]
        cur = nxt
    return cur


def walk(ele, s, W):
    for c in ele:
        cs = W.S.lookup(s, c.tag)
        yield c, cs
        yield from walk(c, cs, W)


def full_path(s):
    return [n for n in s.path()]


def spath(nodes, how):
    """Expected schema path."""
    out, ns = '', None
    for n in nodes:
        tag = etree.QName(n)
        out += '/' + how(tag.namespace, ns) + tag.localname
        ns = tag.namespace
    return out


def batch(m, rng, index, tier):
    W = work.world(rng, 'l%d' % index, dict(styles=True, ro=True), p_rich=.2,
                   p_real=.06)
    m.ev('world:' + W.kind)
    pf = {x.prefix: x.ns for x in W.S.mods}
    nm = {x.name: x.ns for x in W.S.mods}
    px = {x.ns: x.prefix for x in W.S.mods}
    sn = {x.ns: x.name for x in W.S.mods}
    for j in range(3):
        g = work.gen(rng, W, ro=rng.random() < .3, style=rng.choice(STYLES))
        c = Config(W.dev, g.render(g.tree()))
        data(m, rng, W, c, pf, nm)
    if W.kind != 'real' or index % 4 == 0:
        schemas(m, rng, W, px, sn)
    tags(m, rng, W)
    if W.kind == 'random':
        reload(m, rng, W)


def data(m, rng, W, c, pf, nm):
    dev = W.dev
    allns = dict(pf, nc=NC)
    for e, s in walk(c.ele, W.S.root, W):
        m.where = e.tag
        lx = dev.get_xpath(e, type=Tag.LXML_XPATH)
        pred, cross = '[' in lx, len({n.mod.ns for n in s.path()}) > 1
        m.case(pred or cross, (W.S.mods[-1].name, lx), lambda: dict(path=lx))
        m.ev('path')
        if pred:
            m.ev('predicate')
        if "'" in lx:
            m.ev('quote in predicate')
        if cross:
            m.ev('cross module')
        got = c.ele.xpath('/nc:config' + lx, namespaces=allns)
        m.expect(len(got) == 1 and got[0] is e, 'path does not select the '
                 'node', lx, config=c)
        got = c.xpath('.' + lx)
        m.expect(len(got) == 1 and got[0] is e, 'config.xpath', lx, config=c)
        # without an instance: all siblings
        ni = dev.get_xpath(e, type=Tag.LXML_XPATH, instance=False)
        got = c.ele.xpath('/nc:config' + ni, namespaces=allns)
        m.ev('not instance')
        m.expect(set(got) == set(e.getparent().findall(e.tag)),
                 'path without an instance', ni, config=c)
        for typ, names in ((Tag.XPATH, pf), (Tag.JSON_NAME, nm),
                           (Tag.JSON_PREFIX, pf)):
            p = dev.get_xpath(e, type=typ)
            m.ev('inherit path')
            try:
                got = evaluate(c.ele, p, names)
            except (ValueError, KeyError) as err:
                m.bad('path cannot be evaluated', '%s: %s' % (p, err),
                      config=c)
                continue
            m.expect(len(got) == 1 and got[0] is e,
                     'path does not select the node', p, config=c)
            # prefixes only where the module changes
            bare = re.sub(r'\[[^/]*?\]', '', p) if '/' not in ''.join(
                q.group(2) for q in STEP.finditer(p)) else None
            if bare is not None:
                steps = STEP.findall(p)
                chain = s_chain(s)
                want = [i == 0 or chain[i].mod is not chain[i - 1].mod
                        for i in range(len(chain))]
                have = [':' in st[0] for st in steps]
                m.expect(want == have, 'prefixes of a path', p)
        p = dev.get_xpath(e)
        m.expect(p == dev.get_xpath(e, type=Tag.XPATH), 'default notation', p)
        # schema node
        n = dev.get_schema_node(e)
        m.ev('schema node')
        m.expect(n is not None and c.get_schema_node(e) is n and
                 n.tag == e.tag and
                 n.get('type') == s.kind, 'schema node', e.tag, config=c)
        chain = [x.tag for x in s_chain(s)]
        have = [a.tag for a in reversed([n] + list(n.iterancestors()))
                if a.get('type') in ('container', 'list', 'leaf',
                                     'leaf-list')]
        m.expect(chain == have, 'place of a schema node',
                 '%s, expected %s' % (have, chain))
        root = s_chain(s)[0]
        m.expect(dev.get_model_name(e) == root.mod.name and
                 c.get_model_name(e) == root.mod.name, 'model name', e.tag)
        m.expect(n.getroottree().getroot() is
                 dev.models[root.mod.name].tree, 'stale schema node', e.tag)


def s_chain(s):
    out = []
    while s is not None and s.kind != 'root':
        out.insert(0, s)
        s = s.data_parent()
    return out


def schemas(m, rng, W, px, sn):
    dev = W.dev
    roots = {}
    for t in W.S.root.children:
        roots.setdefault(t.mod.name, []).append(t)
    stmts = 0
    for name, tops in roots.items():
        if name not in dev.models:
            continue
        tree = dev.models[name].tree
        for e in tree.iter(etree.Element):
            if e is tree or e.get('type') is None or \
                    e.get('access') not in ('read-write', 'read-only'):
                continue
            line = [e] + list(e.iterancestors())
            line = line[::-1][1:]
            if any(x.get('type') in ('rpc', 'notification') for x in line):
                continue
            for typ, how in (
                    (Tag.LXML_XPATH, lambda a, b: px[a] + ':'),
                    (Tag.XPATH, lambda a, b: '' if a == b else px[a] + ':'),
                    (Tag.JSON_NAME,
                     lambda a, b: '' if a == b else sn[a] + ':'),
                    (Tag.JSON_PREFIX,
                     lambda a, b: '' if a == b else px[a] + ':')):
                want = spath(line, how)
                got = dev.get_xpath(e, type=typ)
                m.expect(got == want, 'path of a schema node',
                         '%s, expected %s' % (got, want))
            m.ev('schema path')
            m.expect(dev.get_model_name(e) == name, 'model of a schema node',
                     e.tag)
            if W.kind != 'real' or stmts < 200:
                # the compiler's context is that of the last compile
                stmts += 1
        for t in tops:
            defaults(m, W, t, tree)
    statements(m, rng, W, roots)


def statements(m, rng, W, roots):
    """get_statement finds the statement of any node of a module that has
    just been compiled."""
    if W.kind != 'random':
        return
    texts = schema.emit_schema(W.S)
    name = rng.choice(sorted(roots))
    if rng.random() < .5:
        # rpcs, actions, notifications, and nodes that groupings share
        texts[name] = texts[name].rstrip()[:-1] + (EXTRA + MORE) % dict(
            t='s') + '}\n'
        m.ev('statements of operations')
    folder = device.write_yang(texts)
    d = device.make_device(folder, [(x.ns, x.name) for x in W.S.mods],
                           load=[name])
    tree = d.models[name].tree
    for e in tree.iter(etree.Element):
        if e is tree or e.get('type') is None:
            continue
        st = d.get_statement(e)
        m.ev('statement')
        if rng.random() < .2:
            other_paths(m, d, name, tree, e, st)
        m.expect(st is not None and st.keyword == e.get('type') and
                 st.arg == etree.QName(e).localname and
                 st.i_module.i_modulename ==
                 W.S.by_ns[etree.QName(e).namespace].name, 'statement',
                 lambda: '%s: %s' % (d.get_xpath(e), st))
        if st is not None:
            up, a = st.parent, e.getparent()
            while a is not tree:
                if up.keyword == a.get('type') and \
                        up.arg == etree.QName(a).localname:
                    a = a.getparent()
                if up.keyword in ('module', 'submodule', 'augment',
                                  'grouping'):
                    break
                up = up.parent
            m.expect(a is tree or up.keyword in ('augment', 'grouping',
                                                 'submodule'),
                     'statement of another node', d.get_xpath(e))


def other_paths(m, d, name, tree, e, st):
    """Statements by other spellings of their path, and by wrong ones."""
    ctx = d.compiler.context
    path = d.get_xpath(e, type=Tag.LXML_XPATH, instance=False)
    m.expect(ctx.get_statement(name, path) is st, 'statement by path', path)
    line = [e]
    while line[0].getparent() is not tree:
        line.insert(0, line[0].getparent())
    ns = [etree.QName(x).namespace for x in line]
    main = d.models[name].url
    # names of the module itself need no prefix
    short = '/' + '/'.join(
        etree.QName(x).localname if n == main else y
        for x, n, y in zip(line, ns, path[1:].split('/')))
    m.expect(ctx.get_statement(name, short) is st,
             'statement by path without prefixes', short)
    wrong = [path[1:], '/' + path, '', '/no-such' + path, path + '-nosuch',
             'x' + path]
    if e.get('type') in ('container', 'list'):
        wrong.append(path + '/no-such')
    for bad in wrong:
        m.expect(ctx.get_statement(name, bad) is None,
                 'statement by wrong path', bad)
    mod = ctx.get_statement(name)
    m.expect(mod is not None and mod.keyword == 'module' and
             mod.arg == name, 'statement of module', str(mod))
    m.expect(ctx.get_statement('no-such') is None and
             ctx.get_statement('no-such', path) is None,
             'statement of unknown module')
    m.ev('other paths')


def in_use(s):
    """Schema nodes whose default is in use below s (RFC 7950 7.6.1)."""
    out = []
    for c in s.children:
        if c.kind in ('leaf', 'leaf-list') and c.default is not None:
            out.append(c)
        elif c.kind == 'choice' and c.default is not None:
            for x in c.children:
                if x.name == c.default:
                    case = x
                    if x.kind != 'case':        # short-hand
                        case = schema.SNode('case', x.name, x.mod)
                        case.children = [x]
                    out.append(case)
                    out += in_use(case)
        elif c.kind == 'container' and not c.presence:
            out += in_use(c)
    return out


def defaults(m, W, t, tree):
    for s in t.walk():
        if s.kind not in ('container', 'list'):
            continue
        e = tree
        for n in s.path():
            e = step(e, n)
            if e is None:
                break
        if e is None:
            continue
        want = in_use(s)
        got = W.dev.default_in_use(e)
        m.ev('defaults in use')
        if any(x.kind == 'case' for x in want):
            m.ev('default case')
        m.expect(sorted(x.tag for x in got) == sorted(x.tag for x in want),
                 'defaults in use', lambda: '%s: %s, expected %s' % (
                     W.dev.get_xpath(e), [x.tag for x in got],
                     [x.tag for x in want]))


def step(e, n):
    for c in e.iterchildren(n.tag):
        if c.get('type') == n.kind:
            return c
    # implicit case of a short-hand node
    for c in e.iterchildren(n.tag):
        if c.get('type') == 'case' and n.kind != 'case':
            return step(c, n)


KINDS = [Tag.NAME, Tag.PREFIX, Tag.NAMESPACE]
FORMS = {'LXML_ETREE': Tag.LXML_ETREE, 'LXML_XPATH': Tag.LXML_XPATH,
         'XPATH': Tag.XPATH, 'JSON_NAME': Tag.JSON_NAME,
         'JSON_PREFIX': Tag.JSON_PREFIX, 'YTOOL': Tag.YTOOL}


def tags(m, rng, W):
    dev = W.dev
    for _ in range(12):
        mod = rng.choice(W.S.mods)
        other = rng.choice(W.S.mods)
        three = (mod.name, mod.prefix, mod.ns)
        for a in KINDS:
            for b in KINDS:
                m.expect(dev.convert_ns(three[a], src=a, dst=b) == three[b],
                         'convert_ns', '%s %s %s' % (three, a, b))
        name = rng.choice(['x', 'a-b', 'c.d', '_e'])
        for sf in FORMS.values():
            for df in FORMS.values():
                src = sf[2][1].format(three[sf[0]], name)
                for same in (True, False, None):
                    dflt = mod if same else other
                    dv = '' if same is None else (
                        dflt.name, dflt.prefix, dflt.ns)[sf[0]]
                    ns, out = dev.convert_tag(dv, src, src=sf, dst=df)
                    m.ev('tag')
                    inherit = df[1] != Tag.NO_OMIT and dv and dflt is mod
                    want = name if inherit else df[2][1].format(
                        three[df[0]], name)
                    m.expect((ns, out) == (three[sf[0]], want),
                             'convert_tag', '%s from %s: %s, expected %s' % (
                                 src, dv, (ns, out), want))
                if sf[1] != Tag.NO_OMIT:
                    dv = (other.name, other.prefix, other.ns)[sf[0]]
                    ns, out = dev.convert_tag(dv, name, src=sf, dst=df)
                    want = name if df[1] != Tag.NO_OMIT else \
                        df[2][1].format((other.name, other.prefix,
                                         other.ns)[df[0]], name)
                    m.expect((ns, out) == (dv, want), 'convert_tag',
                             'inherited %s: %s, expected %s' % (
                                 name, (ns, out), want))


def reload(m, rng, W):
    """Loading a model again does not leave answers about the old one."""
    dev = W.dev
    g = work.gen(rng, W, style=rng.choice(STYLES))
    c = Config(dev, g.render(g.tree()))
    for e, s in walk(c.ele, W.S.root, W):
        dev.get_schema_node(e)
    names = sorted(dev.models)
    rng.shuffle(names)
    for name in names[:2]:
        dev.load_model(name)
        m.ev('reload')
    for e, s in walk(c.ele, W.S.root, W):
        n = dev.get_schema_node(e)
        root = s_chain(s)[0]
        m.expect(n.getroottree().getroot() is
                 dev.models[root.mod.name].tree,
                 'stale schema node after reload', e.tag)
        m.expect(n.tag == e.tag and n.get('type') == s.kind, 'schema node '
                 'after reload', e.tag)
