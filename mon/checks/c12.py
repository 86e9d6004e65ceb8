"""C12: compiled models say what the YANG modules say."""
import os
import re

from lxml import etree
from ncdiff.model import ModelCompiler

from .. import device, env, fresh as process, schema, work

BATCHES = dict(quick=480, thorough=6000)
RULE = ('random schemas (three modules plus a submodule, groupings, augments '
        'across modules, nested choices with and without cases, rpcs, '
        'notifications, all node kinds and types) and the OpenConfig models '
        'of the repository; every node and attribute of the compiled models '
        'is compared with the generator\'s own schema or with pyang\'s, '
        'compiled in several orders, in several processes\' worth of '
        'histories, and read back from the cache; non-trivial / distinct: '
        'schema')
REQUIRED = {'node': 5000, 'leaf': 2000, 'list': 500, 'leaf-list': 300,
            'choice': 200, 'case': 300, 'augmented': 200, 'from cache': 200,
            'other order': 200, 'rpc': 100, 'notification': 100,
            'printed': 3000, 'dependencies': 300, 'submodule': 30,
            'idref values': 200, 'real': 1, 'types': 100, 'YANG 1.1': 50,
            'deviations': 20,
            'foreign types': 10, 'other process': 300}
ASSUME = []


def setup(tier):
    work.real()


EXTRA = '''
  rpc op-%(t)s {
    input { leaf i1 { type string; mandatory true; } container ic { leaf i2 { type uint8; default "3"; } } }
    output { leaf o1 { type boolean; } }
  }
  notification note-%(t)s { leaf n1 { type string; } list nl { key "k"; leaf k { type string; } } }
  container extra-%(t)s {
    leaf u { type union { type enumeration { enum a; enum b; } type boolean; type string; } }
    leaf r { type leafref { path "../u"; } }
    leaf td { type my-%(t)s; }
    anyxml ax;
    anydata ad;
    choice pick { mandatory true; case one { leaf c1 { type string; } } leaf c2 { type empty; } }
    leaf-list users { type string; ordered-by user; default "z"; default "a"; }
    leaf desc { type string; status obsolete; }
  }
  typedef my-%(t)s { type enumeration { enum x; enum y-z; } }
'''


MORE = '''
  identity x1-%(t)s; identity x2-%(t)s;
  identity y1-%(t)s { base x1-%(t)s; base x2-%(t)s; }
  identity y2-%(t)s { base x2-%(t)s; }
  grouping g-%(t)s {
    leaf g1 { type string; default "x"; }
    container gc { leaf g2 { type string; mandatory true; } leaf g4 { type int8; } action ga { input { leaf gi { type string; } } output { leaf go { type string; } } } }
    list gl { key "k"; leaf k { type string; } leaf-list g3 { type string; } }
  }
  container more-%(t)s {
    leaf r1 { type identityref { base x1-%(t)s; } }
    leaf r2 { type identityref { base x2-%(t)s; } }
    leaf-list dl { type string; default "a"; default "b"; }
    action reset { input { leaf i { type string; mandatory true; } container ic { leaf j { type int8; } } } output { leaf o { type boolean; } } }
    notification n { leaf nn { type string; } container nc { leaf x { type string; } } }
    uses g-%(t)s { refine g1 { default "y"; } refine gc { presence "p"; } refine gc/g4 { default 3; } augment "gc" { leaf au { type string; } } }
    container st { config false; list nk { leaf a { type string; } } uses g-%(t)s { refine gc/g2 { mandatory false; } } }
    list l { key "k k2"; leaf k { type string; } leaf k2 { type string; } action la { input { leaf li { type string; } } output { leaf lo { type string; } } } }
    choice ch { default b; container a1 { leaf a2 { type string; } } leaf b { type string; } choice in { leaf z { type string; } } }
  }
'''


def more11(ns, t):
    """Expected nodes of MORE."""
    def n(name, typ, attrs, *kids):
        return ('{%s}%s' % (ns, name), typ, attrs, list(kids))
    rw, ro, w = ({'access': x} for x in ('read-write', 'read-only', 'write'))

    def a(base, **kw):
        return dict(base, **{k.replace('_', '-', 1) if k != 'is_key' else k:
                             v for k, v in kw.items()})

    def s(name, base=rw, **kw):
        return n(name, 'leaf', a(base, datatype='string', **kw))

    def grouping(base, **kw):
        key = a(base, mandatory='true', is_key='true')
        return [s('g1', base, default=kw.get('g1', 'x')),
                n('gc', 'container', a(base, **kw.get('gc', {})),
                  s('g2', base, **kw.get('g2', {})),
                  n('g4', 'leaf', a(base, datatype='int8',
                                    **kw.get('g4', {}))),
                  n('ga', 'action', w,
                    n('input', 'input', w, s('gi', w)),
                    n('output', 'output', ro, s('go', ro))),
                  *kw.get('au', [])),
                n('gl', 'list', a(base, key='k'),
                  n('k', 'leaf', dict(key, datatype='string')),
                  n('g3', 'leaf-list', a(base, datatype='string')))]
    ident = 'identityref:x%%d-%s' % t
    k = dict(mandatory='true', is_key='true')
    return n(
        'more-' + t, 'container', rw,
        n('r1', 'leaf', a(rw, datatype=ident % 1,
                          values=ANY('y1-' + t))),
        n('r2', 'leaf', a(rw, datatype=ident % 2,
                          values=ANY('y1-' + t, 'y2-' + t))),
        n('dl', 'leaf-list', a(rw, datatype='string', default='a,b')),
        n('reset', 'action', w,
          n('input', 'input', w, s('i', w, mandatory='true'),
            n('ic', 'container', w,
              n('j', 'leaf', a(w, datatype='int8')))),
          n('output', 'output', ro,
            n('o', 'leaf', a(ro, datatype='boolean', values='true|false')))),
        n('n', 'notification', ro, s('nn', ro),
          n('nc', 'container', ro, s('x', ro))),
        *grouping(rw, g1='y', gc=dict(presence='true'),
                  g2=dict(mandatory='true'), g4=dict(default='3'),
                  au=[s('au')]),
        n('st', 'container', ro,
          n('nk', 'list', ro, s('a', ro)), *grouping(ro)),
        n('l', 'list', a(rw, key='k k2'), s('k', **k), s('k2', **k),
          n('la', 'action', w, n('input', 'input', w, s('li', w)),
            n('output', 'output', ro, s('lo', ro)))),
        n('ch', 'choice', a(rw, default='b'),
          n('a1', 'case', rw, n('a1', 'container', rw, s('a2'))),
          n('b', 'case', rw, s('b')),
          n('in', 'case', rw, n('in', 'choice', rw,
                                n('z', 'case', rw, s('z'))))))


def deviated(rng, x, main, t):
    """A module with deviations of MORE; changes the expectation x."""
    p = rng.choice(['q', main.prefix, 'dv'])
    base = '/%s:more-%s' % (p, t)
    out = []

    def find(*path):
        up, e = None, x
        for n in path:
            up, e = e, [c for c in e[3]
                        if etree.QName(c[0]).localname == n][0]
        return up, e

    def drop(*path):
        up, e = find(*path)
        up[3].remove(e)
        return 'deviate not-supported;'

    def put(path, text, **kw):
        find(*path)[1][2].update({k.replace('_', '-'): v
                                  for k, v in kw.items()})
        return text
    for path, f in rng.sample([
            (['r1'], lambda *p: drop(*p)),
            (['reset'], lambda *p: drop(*p)),
            (['n', 'nc'], lambda *p: drop(*p)),
            (['gl'], lambda *p: drop(*p)),
            (['st', 'gl', 'g3'], lambda *p: drop(*p)),
            (['l', 'la'], lambda *p: drop(*p)),
            (['ch', 'a1', 'a1', 'a2'], lambda *p: drop(*p)),
            (['st', 'g1'], lambda *p: put(
                p, 'deviate replace { default "new"; }', default='new')),
            (['st', 'gc', 'g4'], lambda *p: put(
                p, 'deviate add { default 5; }', default='5')),
            (['gc', 'g2'], lambda *p: put(
                p, 'deviate replace { type boolean; }', datatype='boolean',
                values='true|false')),
            (['gc', 'au'], lambda *p: put(
                p, 'deviate add { mandatory true; }', mandatory='true')),
            ], k=rng.randint(1, 6)):
        # (schema node identifiers name cases, too)
        out.append(' deviation %s/%s { %s }' % (
            base, '/'.join(p + ':' + n for n in path), f(*path)))
    name = 'dv-' + t
    return (name, 'dv', 'urn:dv:' + t), (
        'module %s {\n yang-version 1.1;\n namespace "urn:dv:%s";\n'
        ' prefix dv;\n import %s { prefix %s; }\n%s\n}\n' % (
            name, t, main.name, p if p != 'dv' else 'dv2',
            '\n'.join(out).replace('dv:', 'dv2:')))


class ANY:
    """Names of identities, in any order, with prefixes."""

    def __init__(self, *names):
        self.names = sorted(names)

    def __eq__(self, v):
        return sorted(x.split(':')[-1] for x in (v or '').split('|')) == \
            self.names

    def __repr__(self):
        return 'identities %s' % self.names


def extra(ns, t):
    """Expected nodes of EXTRA: (tag, type, attributes, children)."""
    def n(name, typ, attrs, *kids):
        return ('{%s}%s' % (ns, name), typ, attrs, list(kids))
    rw, ro, w = ({'access': x} for x in ('read-write', 'read-only', 'write'))

    def a(base, **kw):
        return dict(base, **{k.replace('_', '-'): v for k, v in kw.items()})
    my = 'x|y-z'
    e = n('extra-' + t, 'container', rw,
          n('u', 'leaf', a(rw, datatype='union', values='a|b|true|false',
                           unionmembertypes='enumeration|boolean|string')),
          n('r', 'leaf', a(rw, datatype='-> ../u')),
          n('td', 'leaf', a(rw, datatype='my-' + t, values=my)),
          n('ax', 'anyxml', rw), n('ad', 'anydata', rw),
          n('pick', 'choice', a(rw, mandatory='true', values='one|c2'),
            n('one', 'case', rw,
              n('c1', 'leaf', a(rw, datatype='string'))),
            n('c2', 'case', rw, n('c2', 'leaf', a(rw, datatype='empty')))),
          n('users', 'leaf-list', a(rw, datatype='string', default='z,a',
                                    ordered_by='user')),
          n('desc', 'leaf', a(rw, datatype='string', status='obsolete')))
    r = n('op-' + t, 'rpc', w,
          n('input', 'input', w,
            n('i1', 'leaf', a(w, datatype='string', mandatory='true')),
            n('ic', 'container', w,
              n('i2', 'leaf', a(w, datatype='uint8', default='3')))),
          n('output', 'output', ro,
            n('o1', 'leaf', a(ro, datatype='boolean', values='true|false'))))
    k = n('k', 'leaf', a(ro, datatype='string', mandatory='true'))
    k[2]['is_key'] = 'true'
    o = n('note-' + t, 'notification', ro,
          n('n1', 'leaf', a(ro, datatype='string')),
          n('nl', 'list', a(ro, key='k'), k))
    return [e], [r], [o]


class Types:
    """Random types: typedefs of typedefs, unions in unions, leafrefs."""

    BASE = ['string', 'empty', 'int8', 'uint64', 'binary', 'boolean']

    def __init__(self, rng, main, other, t):
        self.rng, self.main, self.other, self.t = rng, main, other, t
        self.defs, self.top, self.inner, self.foreign = [], [], [], []
        self.n = 0
        for i in range(rng.randint(1, 4)):
            self.typedef(i)

    def typedef(self, i):
        where = self.rng.choice(
            ['top', 'top', 'inner'] + ['foreign'] * bool(self.other))
        name = 'td%d-%s' % (i, self.t)
        text, values = self.term(2, where)[:2]
        getattr(self, where).append('typedef %s { %s }' % (name, text))
        self.defs.append((where, name, values))

    def term(self, depth, where):
        """(text, values, argument, members of a union)"""
        rng = self.rng
        k = rng.choice(['base', 'base', 'enum', 'enum', 'def', 'def', 'def',
                        'bits'] + ['union'] * 2 * (depth > 0))
        if k == 'enum':
            self.n += 1
            v = ['e%d-%d' % (self.n, j) for j in range(rng.randint(1, 3))]
            return ('type enumeration { %s }' % ' '.join(
                'enum %s;' % x for x in v), v, 'enumeration', None)
        if k == 'bits':
            return 'type bits { bit b1; bit b2; }', [], 'bits', None
        if k == 'union':
            ms = [self.term(depth - 1, where)
                  for _ in range(rng.randint(2, 4))]
            return ('type union { %s }' % ' '.join(x[0] for x in ms),
                    [y for x in ms for y in x[1]], 'union',
                    [x[2] for x in ms])
        if k == 'def':
            # (typedefs that are seen from there)
            ds = [d for d in self.defs if d[0] == where or
                  where != 'foreign' and d[0] != 'inner' or
                  where == 'inner']
            if ds:
                w, name, v = rng.choice(ds)
                arg = name
                if w == 'foreign' and where != 'foreign':
                    arg = self.main.pfx(self.other) + ':' + name
                elif w == 'top' and rng.random() < .3:
                    arg = self.main.prefix + ':' + name
                return 'type %s;' % arg, v, arg, None
        x = rng.choice(self.BASE)
        return ('type %s;' % x, ['true', 'false'] if x == 'boolean' else [],
                x, None)

    def build(self):
        rng, t, ns = self.rng, self.t, self.main.ns
        rw = {'access': 'read-write'}
        text, kids = [], []
        names = []
        for i in range(rng.randint(2, 6)):
            name = 'y%d' % i
            kind = rng.choice(['leaf', 'leaf', 'leaf-list'])
            if names and rng.random() < .25:
                path, shown = self.path(rng.choice(names))
                term = 'type leafref { path "%s"; }' % path
                at = dict(rw, datatype='-> ' + shown)
            else:
                term, v, arg, ms = self.term(2, 'inner')
                at = dict(rw, datatype=arg)
                if v:
                    at['values'] = '|'.join(v)
                if ms:
                    at['unionmembertypes'] = '|'.join(ms)
            text.append('%s %s { %s }' % (kind, name, term))
            names.append(name)
            kids.append(('{%s}%s' % (ns, name), kind, at, []))
        return ('%s\n container types-%s { %s\n %s\n }\n' % (
            '\n '.join(self.top), t, '\n  '.join(self.inner),
            '\n  '.join(text)),
            ('{%s}types-%s' % (ns, t), 'container', rw, kids),
            '\n '.join(self.foreign))

    def path(self, name):
        """A path as written, and as shortened."""
        p = self.main.prefix
        return self.rng.choice([
            ('../' + name, '../' + name),
            ('../%s:%s' % (p, name), '../' + name),
            ('/%s:types-%s/%s:%s' % (p, self.t, p, name),
             '/types-%s/%s' % (self.t, name)),
            ('/types-%s/%s' % (self.t, name),
             '/types-%s/%s' % (self.t, name))])


def batch(m, rng, index, tier):
    if index % 60 == 7:
        real(m, rng)
        return
    S = schema.random_schema(rng, 'm%d' % index, dict(
        styles=True, ro=True, status=True, iff=True, keyless=True,
        size=rng.choice([10, 26, 40])))
    texts = schema.emit_schema(S)
    main = S.mods[1]
    t = 'e%d' % index
    more = rng.random() < .6
    if more:
        x = texts[main.name].rstrip()
        assert x.endswith('}')
        texts[main.name] = x[:-1] + EXTRA % dict(t=t) + '}\n'
    dv = None
    eleven = rng.random() < .4
    if eleven:
        texts[main.name] = texts[main.name].rstrip()[:-1] + \
            MORE % dict(t=t) + '}\n'
        e11 = more11(main.ns, t)
        if rng.random() < .5:
            dv, texts['dv-' + t] = deviated(rng, e11, main, t)
            m.ev('deviations')
    others = [x for x in main.imports if x.name in texts]
    types = None
    if rng.random() < .8:
        o = rng.choice(others) if others else None
        text, types, foreign = Types(rng, main, o, t).build()
        texts[main.name] = texts[main.name].rstrip()[:-1] + text + '}\n'
        if foreign:
            texts[o.name] = texts[o.name].rstrip()[:-1] + foreign + '}\n'
            m.ev('foreign types')
        m.ev('types')
    names = [x.name for x in S.mods]
    m.case(True, tuple(sorted(texts.items())),
           lambda: dict(yang=texts[main.name][:1500]))
    if main.submodules:
        m.ev('submodule')
    mods = [(x.ns, x.name) for x in S.mods]
    dev = device.make_device(device.write_yang(texts), mods)
    # as written by the generator
    for mod in S.mods:
        model = dev.models[mod.name]
        want = [expected(S, n) for n in S.root.children if n.mod is mod]
        rpcs, notes = [], []
        if types and mod is main:
            want.append(types)
        if eleven and mod is main:
            want.append(e11)
            m.ev('YANG 1.1')
        if more and mod is main:
            e, rpcs, notes = extra(main.ns, t)
            want += e
            m.ev('rpc')
            m.ev('notification')
        m.where = mod.name
        m.expect(model.name == mod.name and model.prefix == mod.prefix and
                 model.url == mod.ns, 'name, prefix or url', mod.name)
        for x in S.mods:
            if x is mod or x in mod.imports:
                m.expect(model.prefixes.get(x.prefix) == x.ns,
                         'prefixes of a model', '%s: %s' % (
                             x.prefix, model.prefixes))
        compare(m, S, want + rpcs + notes, list(model.tree), texts)
        kinds = [c.get('type') for c in model.tree]
        m.expect(kinds == sorted(kinds, key=lambda k: (
            'rpc', 'notification').index(k) + 1 if k in (
                'rpc', 'notification') else 0), 'order of roots', kinds)
        m.expect(model.roots == [c.tag for c in model.tree], 'roots',
                 model.roots)
        printed(m, S, model)
    # what the device knows
    m.expect(sorted(dev.namespaces) == sorted(
        [(x.name, x.prefix, x.ns) for x in S.mods] + [dv] * bool(dv)),
        'namespaces', dev.namespaces)
    m.expect(dev.models_loaded == sorted(names), 'models loaded',
             dev.models_loaded)
    m.expect(dev.models_loadable == sorted(names), 'models loadable',
             dev.models_loadable)
    want = {c.tag: x for x in names for c in dev.models[x].tree}
    m.expect(dev.roots == want, 'roots of the device', '')
    ref = {x: c14n(dev.models[x].tree) for x in names}
    # from the cache, in another order, one at a time
    dev2 = device.make_device(dev.compiler.dir_yang, mods,
                              load=rng.sample(names, 3))
    for x in names:
        m.ev('from cache')
        m.expect(c14n(dev2.models[x].tree) == ref[x] and
                 dev2.models[x].prefixes == dev.models[x].prefixes and
                 dev2.models[x].url == dev.models[x].url,
                 'cached model differs', x)
        m.expect(str(dev2.models[x]) == str(dev.models[x]),
                 'cached model is printed differently', x)
    m.expect(sorted(dev2.namespaces) == sorted(dev.namespaces),
             'namespaces from the cache', dev2.namespaces)
    fresh = ModelCompiler(device.write_yang(texts))
    order = [x for x in names if rng.random() < .8] or names[:1]
    rng.shuffle(order)
    for x in order:
        m.ev('other order')
        got = fresh.compile(x)
        m.expect(c14n(got.tree) == ref[x], 'model depends on the history',
                 '%s compiled in order %s' % (x, order))
    # a compiled model can be saved and loaded from its file
    path = os.path.join(dev.compiler.dir_yang, main.name + '.xml')
    if os.path.isfile(path):
        one = device.make_device(device.write_yang(texts), mods, load=[path])
        m.ev('from file')
        m.expect(c14n(one.models[main.name].tree) == ref[main.name],
                 'model loaded from a file differs', path)
    deps(m, S, fresh, main, dv)
    if index % 4 == 1:
        elsewhere(m, rng, index, texts, names)


def family(rng, tag):
    """Modules that derive identities of one module and augment it."""
    names = ['%s-%s' % (rng.choice('abcdefghkmpqrstvwz') * rng.randint(1, 3),
                        i) for i in range(rng.randint(2, 6))]
    base = 'base-' + tag
    out = {base: 'module %s { namespace "urn:%s"; prefix b; identity i; '
           'container c { leaf l { type identityref { base i; } } choice h '
           '{ leaf h0 { type string; } } } }' % (base, base)}
    for i, x in enumerate(names):
        out[x] = (
            'module %s { namespace "urn:%s:%s"; prefix p%d; import %s '
            '{ prefix b; } identity d-%d { base b:i; } augment "/b:c" { leaf '
            'x%d { type identityref { base b:i; } } } augment "/b:c/b:h" { '
            'leaf h%d { type string; } } }') % (
                x, tag, x, i, base, i, i, i + 1)
    return out


def elsewhere(m, rng, index, texts, names):
    """Another process compiles the same models."""
    sets = [(texts, names)]
    for k in range(4):
        f = family(rng, '%d-%d' % (index, k))
        sets.append((f, list(f)))
    jobs, want = [], []
    for x, n in sets:
        n = list(n)
        rng.shuffle(n)
        comp = ModelCompiler(device.write_yang(x))
        want.append([process.plain(comp.compile(y).tree) for y in n])
        rng.shuffle(n)
        jobs.append(dict(folder=device.write_yang(x), compile=n))
        want[-1] = [next(t for t in want[-1] if t[0] == y) for y in n]
    got = process.run(jobs, rng.randint(1, 9999))
    if not m.expect(isinstance(got, list), 'another process fails', got):
        return
    for job, a, b in zip(jobs, want, got):
        m.ev('other process', len(a))
        m.expect(a == b, 'model depends on the process', '%s' % [
            n for n, x, y in zip(job['compile'], a, b) if x != y],
            expected=a, got=b)


def deps(m, S, comp, main, dv):
    for mod in S.mods:
        imp, dep = comp.get_dependencies(mod.name)
        m.ev('dependencies')
        want = {x.name for x in mod.imports}
        m.expect(imp == want, 'imports', '%s: %s, expected %s' % (
            mod.name, imp, want))
        want = {x.name for x in S.mods if mod in x.imports}
        for x in S.mods:
            for sub, _ in x.submodules:
                if mod in x.imports:
                    want.add(sub)
        if dv and mod is main:
            want.add(dv[0])
        m.expect(dep == want, 'dependents', '%s: %s, expected %s' % (
            mod.name, dep, want))


def c14n(tree):
    def f(e):
        return (e.tag, sorted(e.attrib.items()), [f(c) for c in e])
    return f(tree)


def expected(S, n):
    """(tag, type, attributes, children) of a schema node."""
    at = {'access': 'read-write' if n.config else 'read-only'}
    if n.status:
        at['status'] = n.status
    if n.default is not None:
        at['default'] = n.default if isinstance(n.default, str) else \
            IDS(S, n) if n.typ[0] == 'identityref' else ','.join(n.default)
    if n.iff:
        at['if-feature'] = n.iff
    if n.kind == 'list':
        if n.keys:
            at['key'] = ' '.join(n.keys)
    if n.kind in ('list', 'leaf-list') and n.user:
        at['ordered-by'] = 'user'
    if n.kind == 'container' and n.presence:
        at['presence'] = 'true'
    if n.mandatory or n.is_key:
        at['mandatory'] = 'true'
    if n.is_key:
        at['is_key'] = 'true'
    if n.kind in ('leaf', 'leaf-list'):
        t = n.typ[0]
        at['datatype'] = t
        if t == 'boolean':
            at['values'] = 'true|false'
        elif t == 'enumeration':
            at['values'] = '|'.join(n.typ[1])
        elif t == 'identityref':
            b, name = n.typ[1]
            at['datatype'] = ONEOF(
                'identityref:' + (name if b is x else x.pfx(b) + ':' + name)
                for x in (n.mod, n.mod.sub, b) if x)
            at['values'] = IDREF(S, n)
    kids = []
    for c in n.children:
        x = expected(S, c)
        if n.kind == 'choice' and c.kind != 'case':
            # implicit case
            x = (c.tag, 'case', {'access': at['access']}, [x])
        kids.append(x)
    if n.kind == 'choice' and n.children:
        at['values'] = CASES('|'.join(c.name for c in n.children))
    return (n.tag, n.kind, at, kids)


class IDS:
    """Default identities."""

    def __init__(self, S, n):
        self.px = {x.prefix: x.ns for x in S.mods}
        self.own = n.mod.ns
        self.d = n.default if isinstance(n.default, list) else [n.default]

    def __eq__(self, v):
        v = [x.rpartition(':') for x in (v or '').split(',')]
        return [('id', self.px.get(p) if p else self.own, x)
                for p, _, x in v] == self.d

    def __repr__(self):
        return 'default identities %s' % self.d


class IDREF:
    """Identities that are (directly or indirectly) derived from the base."""

    def __init__(self, S, n):
        b = n.typ[1]
        self.all = {'%s:%s' % (x.prefix, y) for x, y in S.derived(*b)}
        self.some = {'%s:%s' % (x.prefix, y) for x in S.mods
                     for y, base in x.identities if base == b}

    def __eq__(self, v):
        v = (v or '').split('|')
        return len(v) == len(set(v)) and self.some <= set(v) <= self.all

    def __repr__(self):
        return 'identities %s' % self.some


class ONEOF(tuple):
    def __eq__(self, v):
        return v in list(self)

    def __hash__(self):
        return 0


class CASES(str):
    """Names of cases; those added by augments may or may not be listed."""

    def __eq__(self, v):
        return True

    def __hash__(self):
        return 0


def compare(m, S, want, got, texts, path=''):
    a = sorted(x[0] + ' ' + x[1] for x in want)
    b = sorted('%s %s' % (c.tag, c.get('type')) for c in got)
    if a != b:
        m.bad('nodes differ', '%s: missing %s, extra %s' % (
            path, [x for x in a if x not in b], [x for x in b if x not in a]),
            yang='\n'.join(texts.values()))
        return
    by = {(c.tag, c.get('type')): c for c in got}
    for tag, typ, at, kids in want:
        c = by[tag, typ]
        m.ev('node')
        m.ev(typ)
        p = '%s/%s' % (path, etree.QName(tag).localname)
        have = {k: v for k, v in c.attrib.items() if k != 'type'}
        at = dict(at)
        if isinstance(at.get('values'), CASES):
            at.pop('values')
            have.pop('values', None)
        if isinstance(at.get('values'), IDREF):
            m.ev('idref values')
        if typ == 'choice':
            have.pop('values', None)
            at.pop('values', None)
        if typ == 'case':
            for d in (have, at):
                d.pop('status', None)
        ks = sorted(set(have) | set(at))
        diff = [(k, at.get(k), have.get(k)) for k in ks
                if not at.get(k) == have.get(k)]
        m.expect(not diff, 'attributes differ', lambda: '%s: %s' % (
            p, ', '.join('%s: expected %s, got %s' % d for d in diff)),
            yang='\n'.join(texts.values()))
        # document order of nodes that are not augmented
        ns = etree.QName(tag).namespace
        o1 = [k[0] for k in kids if etree.QName(k[0]).namespace == ns]
        o2 = [k.tag for k in c if etree.QName(k).namespace == ns]
        m.expect(o1 == o2, 'order of nodes', '%s: %s, expected %s' % (
            p, o2, o1))
        m.ev('augmented', sum(1 for k in kids
                              if etree.QName(k[0]).namespace != ns))
        compare(m, S, kids, list(c), texts, p)


LINE = re.compile(r'^( [ |]*)\+--(.*)$')


def printed(m, S, model):
    """str() of a model shows every node at its depth."""
    want = []
    px = {x.ns: x.prefix for x in S.mods}

    def walk(e, depth):
        q = etree.QName(e)
        name = q.localname if q.namespace == model.url else \
            '%s:%s' % (px[q.namespace], q.localname)
        want.append((depth, flags(e), name, shape(e)))
        for c in e:
            walk(c, depth + 1)
    for kind in (None, 'rpc', 'notification'):
        for c in model.tree:
            k = c.get('type')
            if (k if k in ('rpc', 'notification') else None) == kind:
                walk(c, 0)
    lines = str(model).split('\n')
    m.expect(lines[0] == 'module: ' + model.name, 'first line of a printed '
             'model', lines[0])
    got = []
    for line in lines[1:]:
        mo = LINE.match(line)
        if not mo:
            m.expect(line in ('', '  rpcs:', '  notifications:'),
                     'line of a printed model', line)
            continue
        x = mo.group(2)
        if x.startswith(':('):
            fl, rest = '', x
        else:
            fl, rest = x.split(' ', 1)
        got.append(((len(mo.group(1)) - 1) // 3 - 1, fl, rest))
    m.expect(len(got) == len(want), 'number of printed nodes',
             '%d, expected %d' % (len(got), len(want)))
    for (d, f, name, sh), (gd, gf, rest) in zip(want, got):
        m.ev('printed')
        ok = d == gd and f == gf and (rest == sh.format(name) or
                                      rest.startswith(sh.format(name) + ' '))
        if not m.expect(ok, 'printed node', 'depth %d flags %r %r, expected '
                        '%d %r %r' % (gd, gf, rest, d, f, sh.format(name))):
            return


def flags(e):
    t = e.get('type')
    if t in ('rpc', 'action'):
        return '-x'
    if t == 'notification':
        return '-n'
    if t == 'case':
        return ''
    return {'write': '-w', 'read-write': 'rw', 'read-only': 'ro'}[
        e.get('access')]


def shape(e):
    t = e.get('type')
    man = e.get('mandatory') == 'true'
    if t == 'choice':
        return '({})' if man else '({})?'
    if t == 'case':
        return ':({})'
    if t in ('leaf', 'anyxml', 'anydata'):
        return '{}' if man else '{}?'
    if t == 'list':
        return '{}* [%s]' % e.get('key') if e.get('key') else '{}*'
    if t == 'leaf-list':
        return '{}*'
    return '{}'


def real(m, rng):
    """OpenConfig models against the schema pyang gives."""
    W = work.real()
    m.ev('real')
    m.case(True, 'openconfig', 'OpenConfig models')
    for name in work.REAL:
        tree = W.dev.models[name].tree
        want = [n for n in W.S.root.children if n.mod.name == name]
        real_compare(m, want, [c for c in tree if c.get('type') not in (
            'rpc', 'notification')], name)


def real_compare(m, want, got, path):
    def effective(e):
        out = []
        for c in e:
            if c.get('type') in ('choice', 'case'):
                out += effective(c)
            else:
                out.append(c)
        return out
    a = {n.tag: n for n in want}
    b = {c.tag: c for c in got if c.get('type') not in ('anyxml', 'anydata')}
    m.expect(set(a) == set(b), 'nodes differ', '%s: %s' % (
        path, set(a) ^ set(b)))
    for tag in set(a) & set(b):
        n, c = a[tag], b[tag]
        m.ev('real node')
        p = path + '/' + n.name
        m.expect(n.kind == c.get('type'), 'type', p)
        m.expect(n.config == (c.get('access') == 'read-write'), 'access', p)
        m.expect((n.user and 'user' or None) == c.get('ordered-by'),
                 'ordered-by', p)
        m.expect(n.presence == (c.get('presence') == 'true'), 'presence', p)
        m.expect(' '.join(n.keys) == ' '.join(
            k.split(':')[-1] for k in (c.get('key') or '').split()), 'key',
            p)
        m.expect(n.is_key == (c.get('is_key') == 'true'), 'is_key', p)
        if n.kind in ('container', 'list'):
            real_compare(m, n.data_children(), effective(c), p)
