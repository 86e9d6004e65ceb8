"""C13: ModelDiff reports exactly the differences of two models."""
import copy
import re

from lxml import etree
from ncdiff.model import ModelCompiler, ModelDiff

from .. import device, schema
from ..schema import SNode
from .c12 import c14n, EXTRA

BATCHES = dict(quick=1600, thorough=20000)
RULE = ('pairs of versions of random modules: nodes of all kinds added, '
        'removed, moved, renamed, changed in type, default, access, status, '
        'order, presence, inside of containers, lists, choices, cases, rpcs '
        'and notifications; the reported tree and its added / deleted / '
        'modified views are compared with an independent comparison of the '
        'two compiled trees; non-trivial: the versions differ; distinct by '
        'pair')
REQUIRED = {'added': 500, 'deleted': 500, 'modified': 200, 'inner': 50,
            'same': 30, 'view added': 100, 'view deleted': 100,
            'view modified': 100, 'lines': 2000, 'in rpc': 20,
            'compare': 100}
ASSUME = ['changed attributes of containers, lists, choices and cases are '
          'shown by an unmarked line (documented format has no mark for '
          'them)']


def batch(m, rng, index, tier):
    S1 = schema.random_schema(rng, 'n%d' % index, dict(
        styles=False, ro=True, status=True, size=rng.choice([12, 26])))
    S2 = copy.deepcopy(S1)
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])
    for _ in range(n):
        mutate(rng, S2)
    t1, t2 = schema.emit_schema(S1), schema.emit_schema(S2)
    name = S1.mods[1].name
    if rng.random() < .6:
        for t in (t1, t2):
            x = EXTRA % dict(t='z')
            if rng.random() < .5:
                x = x.replace('leaf i1 { type string; mandatory true; }',
                              rng.choice(['', 'leaf i1 { type uint8; }',
                                          'container i1 { }',
                                          'leaf i1 { type string; mandatory '
                                          'true; } leaf i7 { type empty; }']))
            if rng.random() < .3:
                x = x.replace('leaf n1 { type string; }', rng.choice([
                    '', 'leaf n1 { type uint8; }']))
            t[name] = t[name].rstrip()[:-1] + x + '}\n'
    c1 = ModelCompiler(device.write_yang(t1))
    c2 = ModelCompiler(device.write_yang(t2))
    for mod in (name, S1.mods[2].name):
        m.where = mod
        a, b = c1.compile(mod), c2.compile(mod)
        pair(m, rng, a, b, t1, t2, S1)
    other = c1.compile(S1.mods[2].name)
    try:
        ModelDiff(a if a.name == name else c1.compile(name), other)
        m.bad('models of different modules', 'accepted')
    except ValueError:
        pass


def pair(m, rng, a, b, t1, t2, S):
    ka, kb = c14n(a.tree), c14n(b.tree)
    m.case(norm(a.tree) != norm(b.tree), (ka, kb), lambda: dict(
        before=t1[a.name][:1200], after=t2[a.name][:1200]))
    one(m, rng, a, b, t1, t2, S)
    one(m, rng, b, a, t2, t1, S)
    for x in (a, b):
        d = ModelDiff(x, x)
        m.expect(not d and d.added is None and d.deleted is None and
                 d.modified is None, 'model differs from itself', str(d))
    m.expect(c14n(a.tree) == ka and c14n(b.tree) == kb, 'models modified',
             '')


def one(m, rng, a, b, t1, t2, S):
    d = ModelDiff(a, b)
    want = marks(a.tree, b.tree)
    got = {}

    def walk(e, path):
        for c in e:
            p = path + (c.tag,)
            if p in got:
                m.bad('reported twice', p)
            got[p] = c.get('diff') or ''
            walk(c, p)
    walk(d.tree, ())
    kw = dict(before=t1[a.name], after=t2[a.name], diff=d)
    m.expect(bool(d) == bool(want), 'truth value', '%s, expected %s' % (
        bool(d), bool(want)), **kw)
    m.expect(bool(want) == (norm(a.tree) != norm(b.tree)), 'reference', '')
    if not want:
        m.ev('same')
    for p in sorted(set(got) | set(want)):
        w, g = want.get(p), got.get(p)
        m.expect(w == g, 'reported as %s, expected %s' % (
            'not different' if g is None else g or 'unmarked',
            'not different' if w is None else w or 'unmarked'),
            '/'.join(p), **kw)
    for p, w in want.items():
        m.ev(w or 'inner')
        if any(x.endswith('}input') for x in p):
            m.ev('in rpc')
    lines(m, str(d), want, a, b, S, kw)
    for view in ('added', 'deleted', 'modified'):
        s = getattr(d, view)
        keep = {p for p, w in want.items() if w == view}
        m.expect((s is None) == (not keep), 'view of %s nodes' % view,
                 'nothing' if s is None else s, **kw)
        if s is not None:
            m.ev('view ' + view)
            up = {p[:i] for p in keep for i in range(1, len(p) + 1)}
            lines(m, s, {p: want[p] for p in up}, a, b, S, kw)
    m.expect(str(d) == str(ModelDiff(a, b)) , 'views change the diff', '')
    # details of one node
    px = {u: p for mod in (a, b) for p, u in mod.prefixes.items()}
    for p in rng.sample(sorted(want), min(2, len(want))):
        x = '/' + a.name + ''.join('/%s:%s' % (
            px[etree.QName(t).namespace], etree.QName(t).localname)
            for t in p)
        s = d.compare(x)
        m.ev('compare')
        part = re.split(r'-+ XPATH -+\n|-+ MODEL 1 -+\n|-+ MODEL 2 -+\n|'
                        r'\n-{49}\n', s)
        for tree, text in ((a.tree, part[2].strip()), (b.tree, part[3])):
            e = find(tree, p)
            if e is None:
                m.expect(text.strip() == 'None', 'comparison of a node', s)
                continue
            for k, v in e.attrib.items():
                m.expect("  %s = '%s'" % (k, v) in text,
                         'comparison of a node', '%s: %s' % (k, s))


def find(tree, p):
    for t in p:
        tree = tree.find(t)
        if tree is None:
            return None
    return tree


def norm(e):
    return (e.tag, frozenset(e.attrib.items()),
            frozenset(norm(c) for c in e))


def marks(n1, n2, path=()):
    out = {}
    one = {c.tag: c for c in n1}
    two = {c.tag: c for c in n2}

    def whole(c, p, w):
        out[p] = w
        for x in c:
            whole(x, p + (x.tag,), w)
    for t in set(one) | set(two):
        p = path + (t,)
        if t not in one:
            whole(two[t], p, 'added')
        elif t not in two:
            whole(one[t], p, 'deleted')
        elif norm(one[t]) == norm(two[t]):
            continue
        elif two[t].get('type') in ('leaf', 'leaf-list'):
            out[p] = 'modified'
        else:
            out[p] = ''
            out.update(marks(one[t], two[t], p))
    return out


LINE = re.compile(r'^( [ |]*)\+--(.*)$')


def lines(m, text, want, a, b, S, kw):
    """Every reported node is printed once, below its parent, with its
    mark."""
    px = {u: p for mod in (a, b) for p, u in mod.prefixes.items()}
    seen = {}
    stack = []
    ls = text.split('\n')
    m.expect(ls[0] == 'module: ' + a.name, 'first line', ls[0])
    for line in ls[1:]:
        mo = LINE.match(line)
        if not mo:
            m.expect(line in ('', '  rpcs:', '  notifications:'), 'line',
                     line)
            continue
        depth = (len(mo.group(1)) - 1) // 3 - 1
        x = mo.group(2)
        mark = ''
        for k in ('added', 'deleted', 'modified'):
            if x.endswith('  ' + k):
                mark, x = k, x[:-len(k)].rstrip()
        x = re.sub(r' \[[^\]]*\]$', '', x).strip()
        if x.startswith(':('):
            x = x[1:]
        else:
            x = x.split(' ', 1)[1]
        x = x.rstrip('?*').strip('()')
        if not x.count(':'):
            x = a.prefix + ':' + x
        stack[depth:] = [x]
        p = tuple(stack)
        if p in seen:
            m.bad('printed twice', p, **kw)
        seen[p] = mark
        m.ev('lines')
    exp = {tuple('%s:%s' % (px[etree.QName(t).namespace],
                            etree.QName(t).localname) for t in p): w
           for p, w in want.items()}
    m.expect(seen == exp, 'printed', lambda: 'differs at %s' % sorted(
        set(seen.items()) ^ set(exp.items()))[:3], text=text, **kw)


# ------------------------------------------------------------- new versions

def mutate(rng, S):
    mods = S.mods[1:]
    targets = {id(t) for x in S.mods for t, _ in x.augments}

    def free(n):
        return not any(id(x) in targets for x in n.walk())
    allnodes = [n for t in S.root.children for n in t.walk()]
    if not allnodes:
        return
    for _ in range(20):
        n = rng.choice(allnodes)
        op = rng.choice(['remove', 'add', 'add', 'change', 'change', 'swap'])
        if op == 'remove':
            if n.is_key or not free(n) or n.parent.kind == 'choice' and (
                    n.parent.default or len(n.parent.children) < 2):
                continue
            if n.parent.kind == 'case' and len(n.parent.children) < 2:
                continue
            drop(S, n)
            return
        if op == 'add':
            if n.kind not in ('container', 'list', 'case') or \
                    n.mod not in mods:
                continue
            new(rng, n)
            return
        if op == 'swap':
            if n.kind != 'leaf' or n.is_key or n.parent.kind == 'choice':
                continue
            n.kind = 'container'
            n.default, n.mandatory, n.typ = None, False, None
            x = SNode('leaf', 'sw', n.mod, typ=('string',))
            x.config = n.config
            n.add(x)
            return
        if change(rng, n):
            return


def drop(S, n):
    n.parent.children.remove(n)
    for x in S.mods:
        if n in x.tops:
            x.tops.remove(n)
        for _, ns in x.augments:
            if n in ns:
                ns.remove(n)
        x.augments = [y for y in x.augments if y[1]]


def new(rng, n):
    name = 'new-%d' % rng.randrange(10 ** 6)
    kind = rng.choice(['leaf', 'leaf', 'leaf-list', 'container', 'list',
                       'choice', 'presence'])
    if n.kind == 'case' and kind == 'choice':
        kind = 'leaf'

    def leaf(name):
        x = SNode('leaf', name, n.mod, typ=('string',))
        x.config = n.config
        return x
    if kind == 'leaf':
        x = leaf(name)
    elif kind == 'leaf-list':
        x = SNode('leaf-list', name, n.mod, typ=('uint16',))
    elif kind == 'presence':
        x = SNode('container', name, n.mod, presence=True)
    elif kind == 'container':
        x = SNode('container', name, n.mod, children=[leaf('a'), leaf('b')])
    elif kind == 'list':
        x = SNode('list', name, n.mod, keys=['k'],
                  children=[leaf('k'), leaf('v')])
        x.children[0].is_key = True
    else:
        x = SNode('choice', name, n.mod, children=[
            SNode('case', 'c1', n.mod, children=[leaf(name + '-a')]),
            leaf(name + '-b')])
    x.config = n.config
    for c in x.walk():
        c.config = n.config
    n.children.insert(rng.randrange(len(n.children) + 1), x)
    x.parent = n


def change(rng, n):
    if n.kind in ('leaf', 'leaf-list'):
        w = rng.choice(['type', 'default', 'status', 'user', 'mandatory'])
        if w == 'type' and n.default is None:
            n.typ = rng.choice([('string',), ('uint16',), ('int8',),
                                ('enumeration', ['p', 'q'])])
            return True
        if w == 'default' and n.kind == 'leaf' and not n.is_key and \
                not n.mandatory and n.typ[0] == 'string':
            n.default = rng.choice([None, 'nd', 'x'])
            return True
        if w == 'status' and not n.is_key:
            n.status = rng.choice([None, 'deprecated', 'obsolete'])
            return True
        if w == 'user' and n.kind == 'leaf-list' and n.config:
            n.user = not n.user
            return True
        if w == 'mandatory' and n.kind == 'leaf' and n.default is None \
                and not n.is_key and n.parent.kind in ('container',):
            n.mandatory = not n.mandatory
            return True
        return False
    if n.kind == 'container' and n.config:
        n.presence = not n.presence
        return True
    if n.kind == 'list' and n.config:
        n.user = not n.user
        return True
    return False
