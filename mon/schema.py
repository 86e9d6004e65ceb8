"""Independent YANG schema AST, YANG emitter, random schema generator and a
pyang based importer for the repository's own models.

Nothing here uses ncdiff; it is the oracle side of the checks.
"""
import re
import zlib


class Mod:
    def __init__(self, name, prefix, ns, imports=()):
        self.name = name
        self.prefix = prefix
        self.ns = ns
        self.imports = list(imports)      # Mod objects
        self.identities = []              # (name, base or None); base=(Mod,name)
        self.tops = []                    # SNode
        self.augments = []                # (target SNode, [SNode])
        self.features = []
        self.rpcs = []                    # SNode kind rpc/notification
        self.submodules = []              # [(name, [SNode tops])]
        self.typedefs = []                # (name, typ)
        self.revision = '2020-01-01'
        self.local = {}                   # prefixes of imports, by Mod
        self.sub = None                   # Mod: names as seen by submodules
        self.sub_ids = ()                 # identities in the submodule

    def pfx(self, tgt):
        """Prefix of module tgt in the text of this module."""
        return self.prefix if tgt is self else self.local.get(tgt, tgt.prefix)

    def __repr__(self):
        return 'Mod(%s)' % self.name


class SNode:
    def __init__(self, kind, name, mod, **kw):
        self.kind = kind
        self.name = name
        self.mod = mod
        self.children = []
        self.parent = None
        self.typ = kw.pop('typ', None)
        self.default = kw.pop('default', None)     # str | list
        self.keys = kw.pop('keys', [])             # local names
        self.user = kw.pop('user', False)
        self.presence = kw.pop('presence', False)
        self.config = kw.pop('config', True)       # effective
        self.status = kw.pop('status', None)
        self.mandatory = kw.pop('mandatory', False)
        self.is_key = False
        self.style = kw.pop('style', None)
        self.iff = kw.pop('iff', None)
        for c in kw.pop('children', []):
            self.add(c)
        assert not kw, kw

    def add(self, c):
        c.parent = self
        self.children.append(c)
        return c

    @property
    def tag(self):
        return '{%s}%s' % (self.mod.ns, self.name)

    def data_children(self):
        """Children as they appear in the data tree (choice/case removed)."""
        out = []
        for c in self.children:
            if c.kind in ('choice', 'case'):
                out.extend(c.data_children())
            else:
                out.append(c)
        return out

    def data_parent(self):
        p = self.parent
        while p is not None and p.kind in ('choice', 'case'):
            p = p.parent
        return p

    def key_nodes(self):
        by = {c.name: c for c in self.data_children() if c.mod is self.mod}
        return [by[k] for k in self.keys]

    def find(self, name, mod=None):
        for c in self.data_children():
            if c.name == name and (mod is None or c.mod is mod):
                return c
        raise KeyError(name)

    def path(self):
        out = []
        n = self
        while n is not None and n.kind != 'root':
            out.append(n)
            n = n.parent
        return out[::-1]

    def case_of(self):
        """[(choice, case-ish node)] enclosing this data node up to its data
        parent, outermost first.  The case-ish node is the direct child of the
        choice (explicit case or short-hand node)."""
        out = []
        n = self
        p = n.parent
        while p is not None and p.kind in ('choice', 'case'):
            if p.kind == 'choice':
                out.append((p, n))
            n = p
            p = n.parent
        return out[::-1]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def __repr__(self):
        return 'S(%s %s:%s)' % (self.kind, self.mod.prefix if self.mod else '',
                                self.name)


class Schema:
    """A set of modules with a virtual root."""

    def __init__(self, mods):
        self.mods = mods
        self.root = SNode('root', 'config', None)
        for m in mods:
            for t in m.tops:
                self.root.children.append(t)
                t.parent = self.root
        for m in mods:
            for tgt, nodes in m.augments:
                for n in nodes:
                    if n not in tgt.children:
                        tgt.add(n)
        for n in self.root.walk():
            if n.kind == 'list':
                for k in n.key_nodes():
                    k.is_key = True
        self.by_ns = {m.ns: m for m in mods}
        self._lut = {}

    def lookup(self, parent, tag):
        d = self._lut.get(id(parent))
        if d is None:
            d = {c.tag: c for c in parent.data_children()}
            self._lut[id(parent)] = d
        return d.get(tag)

    def data_nodes(self):
        return [n for n in self.root.walk()
                if n.kind in ('container', 'list', 'leaf', 'leaf-list')]

    def derived(self, mod, name):
        """All identities (mod, name) transitively derived from the base."""
        out, todo = [], [(mod, name)]
        while todo:
            b = todo.pop()
            for m in self.mods:
                for n, base in m.identities:
                    if base == b and (m, n) not in out:
                        out.append((m, n))
                        todo.append((m, n))
        return out


# --------------------------------------------------------------------------
# emitter

def _q(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def _ident(mod, tgt, name):
    return name if tgt is mod else mod.pfx(tgt) + ':' + name


def _default(mod, n, d):
    """Text of a default value, as written in module mod."""
    if not isinstance(d, tuple):
        return d
    tgt = [x for x in mod.imports + [mod] if x.ns == d[1]][0]
    if (tgt is mod or tgt.sub is mod) and len(d[2]) % 2:
        return d[2]
    return mod.pfx(tgt) + ':' + d[2]


def _emit_type(mod, typ, ind):
    b = typ[0]
    if b == 'enumeration':
        return ['%stype enumeration {' % ind] + \
            ['%s  enum %s;' % (ind, e) for e in typ[1]] + ['%s}' % ind]
    if b == 'identityref':
        return ['%stype identityref { base %s; }'
                % (ind, _ident(mod, typ[1][0], typ[1][1]))]
    if b == 'leafref':
        return ['%stype leafref { path %s; }' % (ind, _q(typ[1]))]
    if b == 'union':
        out = ['%stype union {' % ind]
        for t in typ[1]:
            out += _emit_type(mod, t, ind + '  ')
        return out + ['%s}' % ind]
    if b == 'bits':
        return ['%stype bits {' % ind] + \
            ['%s  bit %s;' % (ind, e) for e in typ[1]] + ['%s}' % ind]
    if b == 'decimal64':
        return ['%stype decimal64 { fraction-digits 2; }' % ind]
    if b == 'typedef':
        return ['%stype %s;' % (ind, typ[1])]
    return ['%stype %s;' % (ind, b)]


def emit_node(mod, n, ind, pconfig=True, skip_aug=True):
    out = ['%s%s %s {' % (ind, n.kind, n.name)]
    i2 = ind + '  '
    if n.iff:
        out.append('%sif-feature %s;' % (i2, n.iff))
    if n.kind == 'list' and n.keys:
        # white space of any kind between names
        sep = ([' '] * 6 + ['  ', '\t', '\n' + i2 + '     '])[
            zlib.crc32(''.join([n.name] + n.keys).encode()) % 9]
        out.append('%skey %s;' % (i2, _q(sep.join(n.keys))))
    if n.kind in ('list', 'leaf-list') and n.user:
        out.append('%sordered-by user;' % i2)
    if n.presence:
        out.append('%spresence "yes";' % i2)
    if n.kind in ('leaf', 'leaf-list'):
        out += _emit_type(mod, n.typ, i2)
    if n.mandatory:
        out.append('%smandatory true;' % i2)
    if n.default is not None:
        for d in (n.default if isinstance(n.default, list) else [n.default]):
            out.append('%sdefault %s;' % (i2, _q(_default(mod, n, d))))
    if not n.config and pconfig and n.kind != 'case':
        out.append('%sconfig false;' % i2)
    if n.status:
        out.append('%sstatus %s;' % (i2, n.status))
    for c in n.children:
        if c.mod is n.mod or not skip_aug:
            out += emit_node(mod, c, i2, n.config)
    out.append('%s}' % ind)
    return out


def _path_of(mod, n):
    out = []
    for p in n.path():
        seg = '/%s:%s' % (mod.pfx(p.mod), p.name)
        if p.parent.kind == 'choice' and p.kind != 'case':
            out.append(seg)             # implicit case of a short-hand node
        out.append(seg)
    return ''.join(out)


def _emit_ids(m, ids):
    out = []
    for name, base in ids:
        if base is None:
            out.append('  identity %s;' % name)
        else:
            out.append('  identity %s { base %s; }'
                       % (name, _ident(m, base[0], base[1])))
    return out


def _grouping(t):
    return 'g-%s-%s' % (t.mod.name, t.name)


def foreign(m, tops):
    """Mark some tops as written by groupings of the first import."""
    src = m.imports[0]
    for t in tops:
        if t.style is None and not any(
                c.mod is t.mod and (c.iff or c.kind in ('leaf', 'leaf-list') and
                c.typ[0] == 'identityref' and c.default is not None and
                any(d[1] != src.ns for d in (
                    c.default if isinstance(c.default, list)
                    else [c.default])))
                for c in t.walk()):
            t.style = 'foreign'


def emit_module(m, lent=()):
    """YANG text of the module; returns {filename: text}."""
    L = ['module %s {' % m.name, '  yang-version 1.1;',
         '  namespace %s;' % _q(m.ns), '  prefix %s;' % m.prefix]
    for i in m.imports:
        L.append('  import %s { prefix %s; }' % (i.name, m.pfx(i)))
    for sn, _ in m.submodules:
        L.append('  include %s;' % sn)
    L.append('  organization "o";')
    L.append('  contact "c";')
    L.append('  description "d";')
    L.append('  revision %s { description "r"; }' % m.revision)
    for f in m.features:
        L.append('  feature %s;' % f)
    L += _emit_ids(m, [x for x in m.identities if x[0] not in m.sub_ids])
    for name, typ in m.typedefs:
        L.append('  typedef %s {' % name)
        L += _emit_type(m, typ, '    ')
        L.append('  }')
    subs = {id(t) for _, ts in m.submodules for t in ts}
    g = 0
    for t in m.tops:
        if id(t) in subs:
            continue
        if t.style == 'foreign':
            L.append('  uses %s:%s;' % (m.pfx(m.imports[0]), _grouping(t)))
        elif t.style == 'grouping':
            g += 1
            L.append('  grouping grp%d {' % g)
            L += emit_node(m, t, '    ')
            L.append('  }')
            L.append('  uses grp%d;' % g)
        else:
            L += emit_node(m, t, '  ')
    for tgt, nodes in m.augments:
        L.append('  augment %s {' % _q(_path_of(m, tgt)))
        for n in nodes:
            L += emit_node(m, n, '    ', tgt.config)
        L.append('  }')
    for r in m.rpcs:
        L += emit_node(m, r, '  ')
    for t in lent:
        L.append('  grouping %s {' % _grouping(t))
        L += emit_node(m, t, '    ')
        L.append('  }')
    L.append('}')
    out = {m.name: '\n'.join(L) + '\n'}
    for sn, ts in m.submodules:
        v = m.sub or m
        S = ['submodule %s {' % sn, '  yang-version 1.1;',
             '  belongs-to %s { prefix %s; }' % (m.name, v.pfx(m))]
        for i in m.imports:
            S.append('  import %s { prefix %s; }' % (i.name, v.pfx(i)))
        S += ['  organization "o";', '  contact "c";', '  description "d";',
              '  revision %s { description "r"; }' % m.revision]
        S += _emit_ids(v, [x for x in m.identities if x[0] in m.sub_ids])
        for t in ts:
            S += emit_node(v, t, '  ')
        S.append('}')
        out[sn] = '\n'.join(S) + '\n'
    return out


def emit_schema(schema):
    out = {}
    for m in schema.mods:
        out.update(emit_module(m, [
            t for x in schema.mods for t in x.tops
            if t.style == 'foreign' and x.imports[0] is m]))
    return out


# --------------------------------------------------------------------------
# handwritten rich schema

def rich_schema():
    mi = Mod('vmon-id', 'vid', 'urn:vmon:id')
    mi.identities = [('animal', None), ('cat', (mi, 'animal')),
                     ('dog', (mi, 'animal')), ('tabby', (mi, 'cat'))]
    mb = Mod('vmon-base', 'vb', 'urn:vmon:base', [mi])
    mb.identities = [('horse', (mi, 'animal'))]
    mx = Mod('vmon-ext', 'vx', 'urn:vmon:ext', [mi, mb])
    mx.identities = [('lizard', (mi, 'animal')), ('cat', (mi, 'animal'))]

    def leaf(m, name, typ='string', **kw):
        if isinstance(typ, str):
            typ = (typ,)
        return SNode('leaf', name, m, typ=typ, **kw)

    def ll(m, name, typ='string', **kw):
        if isinstance(typ, str):
            typ = (typ,)
        return SNode('leaf-list', name, m, typ=typ, **kw)

    def cont(m, name, *ch, **kw):
        return SNode('container', name, m, children=ch, **kw)

    def lst(m, name, keys, *ch, **kw):
        return SNode('list', name, m, keys=keys.split(), children=ch, **kw)

    def choice(m, name, *ch, **kw):
        return SNode('choice', name, m, children=ch, **kw)

    def case(m, name, *ch):
        return SNode('case', name, m, children=ch)

    animal = ('identityref', (mi, 'animal'))
    sysc = cont(
        mb, 'system',
        leaf(mb, 'hostname'),
        leaf(mb, 'mtu', 'uint16', default='1500'),
        leaf(mb, 'debug', 'boolean', default='false'),
        leaf(mb, 'mark', 'empty'),
        leaf(mb, 'pet', animal),
        ll(mb, 'pets', animal),
        ll(mb, 'walk', animal, user=True),
        leaf(mb, 'ptr', 'instance-identifier'),
        ll(mb, 'ptrs', 'instance-identifier'),
        ll(mb, 'dns', user=True),
        ll(mb, 'tags'),
        ll(mb, 'ciphers', user=True, default=['aes', 'des', 'rc4']),
        ll(mb, 'groups', default=['g1', 'g2']),
        cont(mb, 'clock',
             leaf(mb, 'zone', default='UTC'),
             leaf(mb, 'offset', 'int32'),
             cont(mb, 'inner', leaf(mb, 'a'), leaf(mb, 'b', default='x'),
                  cont(mb, 'inner', leaf(mb, 'a')))),
        cont(mb, 'telnet', leaf(mb, 'port', 'uint16', default='23'),
             leaf(mb, 'acl'), presence=True),
    )
    ifs = cont(
        mb, 'interfaces',
        lst(mb, 'interface', 'name',
            leaf(mb, 'name'),
            leaf(mb, 'descr'),
            leaf(mb, 'enabled', 'boolean', default='true'),
            lst(mb, 'unit', 'id vlan',
                leaf(mb, 'id', 'uint32'), leaf(mb, 'note'),
                leaf(mb, 'vlan', 'uint16'),
                cont(mb, 'ip', ll(mb, 'addr'), leaf(mb, 'ttl', 'uint8',
                                                    default='64'))),
            lst(mb, 'rule', 'seq', leaf(mb, 'seq'), leaf(mb, 'action'),
                lst(mb, 'match', 'kind val', leaf(mb, 'kind'),
                    leaf(mb, 'val'), leaf(mb, 'not', 'boolean'), user=True),
                user=True),
            choice(mb, 'mode',
                   case(mb, 'l2', leaf(mb, 'vlan-id', 'uint16'),
                        ll(mb, 'trunk')),
                   case(mb, 'l3', leaf(mb, 'vrf'),
                        cont(mb, 'addr', leaf(mb, 'ip'), leaf(mb, 'mask'))),
                   leaf(mb, 'shut', 'empty'))),
    )
    acl = lst(mb, 'acl', 'name', leaf(mb, 'name'),
              leaf(mb, 'kind', ('enumeration', ['std', 'ext']),
                   default='std'),
              lst(mb, 'ace', 'first second', leaf(mb, 'second'),
                  leaf(mb, 'first'), leaf(mb, 'log', 'boolean'),
                  cont(mb, 'opt', leaf(mb, 'x'), ll(mb, 'y', user=True)),
                  user=True))
    lone = leaf(mb, 'lone')
    nums = ll(mb, 'nums', 'int32')
    seqs = ll(mb, 'seqs', user=True)
    ch = cont(mb, 'pick',
              choice(mb, 'how',
                     case(mb, 'alpha', leaf(mb, 'a1'), leaf(mb, 'a2'),
                          lst(mb, 'al', 'k', leaf(mb, 'k'), leaf(mb, 'v'))),
                     case(mb, 'beta', cont(mb, 'bc', leaf(mb, 'b1'),
                                           leaf(mb, 'b2', default='bb'))),
                     case(mb, 'gamma',
                          choice(mb, 'deep', case(mb, 'd1', leaf(mb, 'g1')),
                                 case(mb, 'd2', leaf(mb, 'g2'),
                                      leaf(mb, 'g3')))),
                     default='beta'),
              leaf(mb, 'other'))
    mb.tops = [sysc, ifs, acl, lone, nums, seqs, ch]
    itf = ifs.children[0]
    mx.augments = [
        (itf, [leaf(mx, 'descr'),
               cont(mx, 'stats-cfg', leaf(mx, 'rate', 'uint32',
                                          default='10'),
                    leaf(mx, 'pet', animal))]),
        (sysc, [cont(mx, 'clock', leaf(mx, 'ntp'),
                     lst(mx, 'peer', 'addr', leaf(mx, 'addr'),
                         leaf(mx, 'prefer', 'boolean', default='false')))]),
    ]
    mx.tops = [cont(mx, 'extra', leaf(mx, 'lone'),
                    lst(mx, 'who', 'pet', leaf(mx, 'pet', animal),
                        leaf(mx, 'age', 'uint8')),
                    ll(mx, 'kinds', animal, user=True)),
               cont(mx, 'system', leaf(mx, 'hostname'), leaf(mx, 'level',
                                                             default='1'))]
    return Schema([mi, mb, mx])


# --------------------------------------------------------------------------
# random schemas

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta',
         'name', 'id', 'value', 'config', 'state', 'a', 'b', 'key', 'address',
         'operation', 'index', 'x-1', 'y.z', '_u', 'type', 'list', 'data',
         'rpc', 'insert', 'filter']


def random_schema(rng, tag, opts=None):
    """Random two/three module schema.  opts: dict of feature switches."""
    o = dict(defaults=True, choices=True, idref=True, instid=True,
             ro=False, status=False, presence=True, augment=True,
             user=True, styles=False, size=26, iff=False, keyless=False,
             refs=False)
    o.update(opts or {})
    pi, pb, px = 'ri', 'rm', 'rx'
    if rng.random() < .15:
        pi, pb, px = rng.sample(['ns0', 'ns1', 'ns12', 'a', 'config', '_p',
                                 'R.m', 'x-1', 'module', 'key', 'nsx'], 3)
    mi = Mod('r%s-id' % tag, pi, 'urn:r:%s:id' % tag)
    mi.identities = [('base0', None), ('i1', (mi, 'base0')),
                     ('i2', (mi, 'base0')), ('i3', (mi, 'i1'))]
    mb = Mod('r%s-main' % tag, pb, 'urn:r:%s:main' % tag, [mi])
    mb.identities = [('j1', (mi, 'base0'))]
    # sometimes its name extends that of another module
    mx = Mod('r%s%s-aug' % (tag, '-main' * (zlib.crc32(tag.encode()) % 3 == 0)),
             px, 'http://r.example/%s/aug' % tag, [mi, mb])
    if rng.random() < .25:      # imported with prefixes of their own
        mb.local = {mi: rng.choice(['q', px])}
        mx.local = dict(zip([mi, mb], rng.choice([
            (pb, pi), ('u', 'v'), (pb, 'w'), ('ns3', 'ns4')])))
    mx.identities = [('k1', (mi, 'base0')), ('i1', (mi, 'base0'))]
    budget = [o['size']]
    if o['iff']:
        mb.features = ['feat1']
        mx.features = ['feat2']

    def rtype(key=False):
        ts = ['string', 'string', 'uint16', 'boolean', 'enum']
        if o['idref']:
            ts.append('idref')
        if not key:
            ts.append('empty')
            if o['instid']:
                ts.append('iid')
        if o['refs']:       # mostly references
            ts = ['string', 'idref', 'idref'] + ([] if key else ['iid', 'iid'])
        t = rng.choice(ts)
        if t == 'enum':
            return ('enumeration', ['e1', 'e2', 'e-3'])
        if t == 'idref':
            return ('identityref', (mi, 'base0'))
        if t == 'iid':
            return ('instance-identifier',)
        return (t,)

    def dval(t, m):
        if t[0] == 'identityref':
            d = rng.choice([(mi, 'i1'), (mi, 'i2'), (mi, 'i3'), (mb, 'j1'),
                            (mx, 'k1'), (mx, 'i1')])
            while d[0] not in m.imports + [m]:
                d = (mi, rng.choice(['i1', 'i3']))
            return ('id', d[0].ns, d[1])
        return {'string': rng.choice(['dflt', 'x y', '0', '']), 'uint16': '7',
                'boolean': 'false', 'enumeration': 'e2'}.get(t[0])

    def names(n):
        return rng.sample(NAMES, n)

    def misc(n, ro):
        n.config = not ro
        if o['status'] and rng.random() < .2:
            n.status = rng.choice(['deprecated', 'obsolete'])
        return n

    def mkleaf(m, name, ro):
        t = rtype()
        d = None
        if o['defaults'] and rng.random() < .4:
            d = dval(t, m)
        n = SNode('leaf', name, m, typ=t, default=d)
        if o['styles'] and d is None and rng.random() < .2:
            n.mandatory = True
        return misc(n, ro)

    def mkll(m, name, ro):
        t = rtype()
        if t[0] in ('empty', 'boolean'):
            t = ('string',)
        d = None
        if o['defaults'] and rng.random() < .3 and t[0] == 'string':
            d = rng.choice([['d1'], ['d1', 'd2'], ['d2', 'd1', 'd3']])
        if o['defaults'] and rng.random() < .3 and t[0] == 'identityref':
            d = [dval(t, m)]
            for _ in range(rng.choice([0, 1, 2])):
                x = dval(t, m)
                if x not in d:
                    d.append(x)
        return misc(SNode('leaf-list', name, m, typ=t, default=d,
                          user=o['user'] and rng.random() < .5 and not ro),
                    ro)

    def kids(m, parent, depth, ro, n=None, taken=(), in_case=False,
             keys_done=0):
        n = n or rng.randint(1, 4)
        pool = [x for x in NAMES if x not in taken]
        for name in rng.sample(pool, min(n, len(pool))):
            if budget[0] <= 0 and parent.children:
                return
            budget[0] -= 1
            parent.add(mk(m, name, depth, ro, taken, in_case))

    def mk(m, name, depth, ro, taken=(), in_case=False):
        if o['ro'] and not ro and rng.random() < .2:
            ro = True
        r = rng.random()
        if depth >= 4 or r < .34:
            return mkleaf(m, name, ro)
        if r < .5:
            return mkll(m, name, ro)
        if r < .7:
            c = misc(SNode('container', name, m,
                           presence=o['presence'] and rng.random() < .25
                           and not ro), ro)
            kids(m, c, depth + 1, ro)
            return c
        if r < .9 or not o['choices'] or in_case:
            nk = rng.choice([1, 1, 2, 3])
            if ro and o['keyless'] and rng.random() < .5:
                nk = 0
            ks = names(nk)
            order = ks[:]
            rng.shuffle(order)
            l = misc(SNode('list', name, m, keys=ks,
                           user=o['user'] and rng.random() < .45 and not ro),
                     ro)
            for k in order:
                kn = SNode('leaf', k, m, typ=rtype(key=True))
                if o['defaults'] and kn.typ[0] == 'string' and \
                        rng.random() < .15:
                    kn.default = 'a'        # ignored, RFC 7950 7.8.2
                kn.config = not ro
                l.add(kn)
            kids(m, l, depth + 1, ro, taken=ks)
            if rng.random() < .4:
                rng.shuffle(l.children)
            return l
        # choice: its descendants share the namespace of siblings
        ch = misc(SNode('choice', 'ch-' + name, m), ro)
        ch.status = None
        pref = [name + s for s in ('-p', '-q', '-r')]
        for i in range(rng.randint(2, 3)):
            if rng.random() < .3:
                c = mk(m, pref[i] + '0', depth + 1, ro, in_case=True)
                ch.add(c)
            else:
                cs = SNode('case', 'cs-%d' % i, m)
                cs.config = not ro
                for j in range(rng.randint(1, 2)):
                    cs.add(mk(m, pref[i] + str(j), depth + 1, ro,
                              in_case=True))
                ch.add(cs)
        if rng.random() < .4 and not ro:
            ch.default = rng.choice(ch.children).name
        return ch

    for name in names(rng.randint(2, 5)):
        mb.tops.append(mk(mb, name, 0, False, in_case=True))
    xn = names(rng.randint(1, 2))
    for name in xn:
        mx.tops.append(mk(mx, name, 0, False, in_case=True))
    if o['augment']:
        cands = [n for t in mb.tops for n in t.walk()
                 if n.kind in ('container', 'list')
                 and n.status is None]
        for tgt in rng.sample(cands, min(len(cands), rng.randint(0, 2))):
            budget[0] = max(budget[0], 4)
            ns = []
            same = [c.name for c in tgt.children if c.kind != 'choice']
            some = names(rng.randint(1, 2))
            if same and rng.random() < .5:
                # as a key or another child of the target
                x = rng.choice((tgt.keys or same)
                               if rng.random() < .6 else same)
                some = [x] + [y for y in some if y != x][1:]
            for name in some:
                n = mk(mx, name, 2, not tgt.config, in_case=True)
                strip_mandatory(n)
                ns.append(n)
            mx.augments.append((tgt, ns))
    if rng.random() < .3:
        foreign(mb, [t for t in mb.tops if rng.random() < .6])
    if o['styles']:
        for t in mb.tops:
            if rng.random() < .4:
                t.style = 'grouping'
        subs = [t for t in mb.tops if t.style is None and rng.random() < .4]
        if subs:
            mb.submodules = [(mb.name + '-sub', subs)]
            if rng.random() < .6:
                # submodules have prefixes and identities of their own
                mb.sub = Mod(mb.name, mb.prefix, mb.ns, mb.imports + [mb])
                mb.sub.local = {mi: 'sx', mb: rng.choice(['sy', pb])}
                mb.sub_ids = ('j1', 'j2')
                mb.identities.append(('j2', (mb, 'j1')))
    for m in (mb, mx):
        for t in m.tops:
            strip_choice_defaults(t)
    if o['iff']:
        for m in (mb, mx):
            for t in m.tops:
                for n in t.walk():
                    if n.mod is m and n.kind in ('container', 'leaf') and \
                            not is_key_leaf(n) and rng.random() < .15:
                        n.iff = m.features[0]
    return Schema([mi, mb, mx])


def is_key_leaf(n):
    return n.parent is not None and n.parent.kind == 'list' and \
        n.name in n.parent.keys


def strip_mandatory(n):
    for x in n.walk():
        x.mandatory = False


def strip_choice_defaults(top):
    """A default case must not contain mandatory nodes, directly."""
    for n in top.walk():
        if n.kind == 'choice' and n.default is not None:
            for x in n.walk():
                x.mandatory = False


# --------------------------------------------------------------------------
# importing real models with pyang directly

def pyang_schema(folder, names, extra=()):
    """Schema of the modules `names` (plus everything that augments them and is
    found in `deps`), built with pyang directly."""
    from pyang.context import Context
    from pyang.repository import FileRepository
    repo = FileRepository(path=folder, use_env=False, no_path_recurse=True)
    ctx = Context(repo)
    for n in list(names) + list(extra):
        ctx.add_module(n, open_module(folder, n))
    ctx.validate()
    mods = {}

    def named(st, arg):
        # (Mod, name) of a possibly prefixed name used in statement st
        pfx, _, n = arg.rpartition(':')
        m = st.i_orig_module
        if not pfx or pfx == m.i_prefix:
            return mod_of(m), n
        return mod_of(ctx.get_module(m.i_prefixes[pfx][0])), n

    def mod_of(st):
        m = st if st.keyword in ('module', 'submodule') else st.i_module
        name = m.i_modulename
        if name not in mods:
            mm = m
            if m.keyword == 'submodule':
                mm = ctx.get_module(name)
            mods[name] = Mod(name, mm.i_prefix,
                             mm.search_one('namespace').arg)
        return mods[name]

    def conv(st):
        n = SNode(st.keyword, st.arg, mod_of(st))
        n.config = bool(getattr(st, 'i_config', True))
        s = st.search_one('status')
        if s is not None and s.arg != 'current':
            n.status = s.arg
        d = [x.arg for x in st.search('default')]
        if d:
            t = st.search_one('type')
            if t is not None and t.arg == 'identityref':
                d = [('id', x.ns, y) for x, y in (
                    named(z, z.arg) for z in st.search('default'))]
            n.default = d if st.keyword == 'leaf-list' else d[0]
        if st.keyword == 'list':
            k = st.search_one('key')
            n.keys = k.arg.split() if k is not None else []
            n.keys = [x.split(':')[-1] for x in n.keys]
        if st.keyword in ('list', 'leaf-list'):
            o = st.search_one('ordered-by')
            n.user = o is not None and o.arg == 'user'
        if st.keyword == 'container':
            n.presence = st.search_one('presence') is not None
        if st.keyword in ('leaf', 'leaf-list'):
            t = st.search_one('type')
            n.typ = (t.arg,)
            if t.arg == 'identityref':
                n.typ = ('identityref', named(t, t.search_one('base').arg))
            elif t.arg == 'enumeration':
                n.typ = ('enumeration', [e.arg for e in t.search('enum')])
            elif t.arg not in ('string', 'boolean', 'uint8', 'uint16',
                               'uint32', 'int32', 'empty',
                               'instance-identifier'):
                n.typ = ('other', t.arg)
        for c in getattr(st, 'i_children', []):
            if c.keyword in ('container', 'list', 'leaf', 'leaf-list',
                             'choice', 'case'):
                n.add(conv(c))
        return n

    for name in names:
        st = ctx.get_module(name)
        mods.setdefault(name, Mod(name, st.i_prefix,
                                  st.search_one('namespace').arg))
    for name in names:
        st = ctx.get_module(name)
        for c in st.i_children:
            if c.keyword in ('container', 'list', 'leaf', 'leaf-list',
                             'choice'):
                mods[name].tops.append(conv(c))
    for st in ctx.modules.values():
        if st.keyword != 'module' or not st.i_identities:
            continue
        mod = mod_of(st)
        for i in st.i_identities.values():
            b = i.search_one('base')
            mod.identities.append((i.arg, None if b is None
                                   else named(i, b.arg)))
    return Schema(list(mods.values()))


def open_module(folder, name):
    import glob
    fs = sorted(glob.glob('%s/%s.yang' % (folder, name)) +
                glob.glob('%s/%s@*.yang' % (folder, name)))
    with open(fs[-1], encoding='utf-8') as f:
        return f.read()
