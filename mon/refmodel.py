"""Independent reference model of NETCONF/YANG configuration data.

Data trees, semantic equality (modulo defaults, empty non-presence containers,
namespace prefixes and system order), containment, and an RFC 6241 / RFC 7950
edit-config engine.  Does not use ncdiff.
"""
import re
from copy import deepcopy

from lxml import etree

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YANG = 'urn:ietf:params:xml:ns:yang:1'
OP = '{%s}operation' % NC
INS = '{%s}insert' % YANG
VAL = '{%s}value' % YANG
KEY = '{%s}key' % YANG


class RefError(Exception):
    """The document is not valid against the schema."""


class EditError(Exception):
    """An rpc-error a NETCONF server would return (tag in args[0])."""


class D:
    __slots__ = ('s', 'val', 'kids')

    def __init__(self, s, val=None, kids=None):
        self.s = s
        self.val = val
        self.kids = kids if kids is not None else []

    def copy(self):
        return D(self.s, self.val, [k.copy() for k in self.kids])

    def key(self):
        """Identity among siblings."""
        s = self.s
        if s.kind == 'leaf-list':
            return (s.tag, self.val)
        if s.kind == 'list':
            kv = []
            for k in s.key_nodes():
                v = [c.val for c in self.kids if c.s is k]
                if len(v) != 1:
                    raise RefError('key %s of %s' % (k.name, s.tag))
                kv.append(v[0])
            return (s.tag, tuple(kv))
        return (s.tag, None)

    def __repr__(self):
        if self.s.kind in ('leaf', 'leaf-list'):
            return '%s=%r' % (self.s.name, self.val)
        return '%s%r' % (self.s.name, self.kids)


# ------------------------------------------------------------------ values

_NAME = r'[A-Za-z_][A-Za-z0-9_.-]*'
_TOK = re.compile(r'/(?:(%s):)?(%s)|\[\s*(?:(\.)|(?:(%s):)?(%s))\s*=\s*'
                  r'("[^"]*"|\'[^\']*\')\s*\]|\[\s*([1-9][0-9]*)\s*\]'
                  % (_NAME, _NAME, _NAME, _NAME))


def parse_value(s, text, nsmap, names):
    """Canonical value of a leaf of schema s.  names: {module name: ns}."""
    if text is None:
        text = ''
    t = s.typ[0] if s.typ else None

    def ns_of(p):
        if p in nsmap:
            return nsmap[p]
        if p in names:
            return names[p]
        raise RefError('prefix %r in %r' % (p, text))
    if t == 'identityref' and text:
        if ':' in text:
            p, n = text.split(':', 1)
            return ('id', ns_of(p), n)
        if None not in nsmap:
            raise RefError('no default namespace for %r' % text)
        return ('id', nsmap[None], text)
    if t == 'instance-identifier' and text:
        pos, out, cur = 0, [], None
        while pos < len(text):
            m = _TOK.match(text, pos)
            if not m:
                raise RefError('instance-identifier %r at %d' % (text, pos))
            pos = m.end()
            if m.group(2):
                if m.group(1):
                    cur = ns_of(m.group(1))
                if cur is None:
                    raise RefError('unqualified instance-identifier')
                out.append(('/', cur, m.group(2)))
            elif m.group(7):
                out.append(('#', m.group(7)))
            elif m.group(3):
                out.append(('.', m.group(6)[1:-1]))
            else:
                ns = ns_of(m.group(4)) if m.group(4) else cur
                out.append(('[', ns, m.group(5), m.group(6)[1:-1]))
        return ('iid', tuple(out))
    return text


def value_urls(v):
    if isinstance(v, tuple) and v[0] == 'id':
        return [v[1]]
    if isinstance(v, tuple) and v[0] == 'iid':
        return sorted({x[1] for x in v[1] if x[0] in '/['})
    return []


def quote(v):
    if "'" in v:
        return '"%s"' % v
    return "'%s'" % v


# spaces that RFC 7950 section 14 allows
SPACED = ['[ %s:%s=%s]', '[%s:%s =%s]', '[%s:%s= %s]', '[%s:%s=%s ]',
          '[\t%s:%s  = %s ]']


def render_value(v, pfx, rng=None):
    """Text of a canonical value, pfx: ns -> prefix (None: default ns)."""
    if isinstance(v, tuple) and v[0] == 'id':
        p = pfx[v[1]]
        return v[2] if p is None else '%s:%s' % (p, v[2])
    if isinstance(v, tuple) and v[0] == 'iid':
        out = []
        for x in v[1]:
            if x[0] == '/':
                out.append('/%s:%s' % (pfx[x[1]], x[2]))
            elif x[0] == '.':
                out.append('[.=%s]' % quote(x[1]))
            elif x[0] == '#':
                out.append('[%s]' % x[1])
            else:
                q = quote(x[3])
                if rng is not None and q[0] == "'" and '"' not in q and \
                        rng.random() < .3:
                    q = '"%s"' % x[3]
                form = '[%s:%s=%s]'
                if rng is not None and rng.random() < .08:
                    form = rng.choice(SPACED)
                out.append(form % (pfx[x[1]], x[2], q))
        return ''.join(out)
    return v


# ------------------------------------------------------------------ parsing

class Parser:
    def __init__(self, schema):
        self.schema = schema
        self.names = {}     # names that stand for prefixes not declared

    def children(self, ele, s, attrs=False, strict=True):
        out = []
        for c in ele:
            if not isinstance(c.tag, str):
                continue
            cs = self.schema.lookup(s, c.tag)
            if cs is None:
                raise RefError('unknown node %s under %s' % (c.tag, s.name))
            if not attrs and c.attrib:
                raise RefError('attributes on %s: %s' % (c.tag,
                                                         dict(c.attrib)))
            d = D(cs)
            if cs.kind in ('leaf', 'leaf-list'):
                if c.find('*') is not None:
                    raise RefError('children in leaf %s' % c.tag)
                d.val = parse_value(cs, c.xpath('string()'), c.nsmap,
                                    self.names)
            else:
                if c.text and c.text.strip():
                    raise RefError('text in %s' % c.tag)
                d.kids = self.children(c, cs, attrs, strict)
            if c.tail and c.tail.strip():
                raise RefError('tail text after %s' % c.tag)
            out.append(d)
        if strict:
            seen = set()
            for d in out:
                if d.s.kind in ('leaf-list', 'list') and not d.s.config:
                    continue
                k = d.key()
                if k in seen:
                    raise RefError('duplicate %s' % (k,))
                seen.add(k)
        return out

    def config(self, ele, **kw):
        """Data trees under a <config>/<data> element (or Config.ele)."""
        return self.children(ele, self.schema.root, **kw)


# ------------------------------------------------------- semantic comparison

def is_default(s, vals):
    if s.default is None:
        return False
    if s.kind == 'leaf':
        return vals == [s.default]
    if s.user:
        return vals == s.default
    return set(vals) == set(s.default)


def canon(kids, defaults=True):
    """Hashable canonical form.  defaults=True: values equal to the default
    are the same as absent ones; empty NP containers are always absent."""
    by = {}
    for k in kids:
        by.setdefault(k.s.tag, []).append(k)
    out = []
    for tag, ds in by.items():
        s = ds[0].s
        if s.kind in ('leaf', 'leaf-list'):
            vals = [d.val for d in ds]
            if defaults and not s.is_key and is_default(s, vals):
                continue
            if s.kind == 'leaf':
                if len(vals) != 1:
                    raise RefError('%d instances of leaf %s'
                                   % (len(vals), tag))
                out.append((tag, vals[0]))
            elif s.user:
                out.append((tag, tuple(vals)))
            else:
                out.append((tag, frozenset(vals)))
        elif s.kind == 'container':
            if len(ds) != 1:
                raise RefError('%d instances of container %s'
                               % (len(ds), tag))
            c = canon(ds[0].kids, defaults)
            if not c and not s.presence:
                continue
            out.append((tag, c))
        else:
            es = [(d.key()[1], canon(d.kids, defaults)) for d in ds]
            if s.user:
                out.append((tag, tuple(es)))
            else:
                out.append((tag, frozenset(es)))
    return frozenset(out)


def le(a, b):
    """Every node of a is in b (user ordered entries in the same relative
    order).  a, b: lists of D already normalised with normalise()."""
    ib = {}
    for i, d in enumerate(b):
        ib[d.key()] = (i, d)
    last = {}
    for d in a:
        k = d.key()
        if k not in ib:
            return False
        i, e = ib[k]
        if d.s.kind in ('list', 'leaf-list') and d.s.user:
            if i < last.get(d.s.tag, -1):
                return False
            last[d.s.tag] = i
        if d.s.kind in ('leaf', 'leaf-list'):
            if d.val != e.val:
                return False
        elif not le(d.kids, e.kids):
            return False
    return True


def normalise(kids, status=False, deprecated=False):
    """Copy without defaults and empty NP containers (and optionally without
    obsolete / deprecated nodes)."""
    by = {}
    for k in kids:
        by.setdefault(k.s.tag, []).append(k)
    drop = set()
    for tag, ds in by.items():
        s = ds[0].s
        if s.kind in ('leaf', 'leaf-list') and not s.is_key and \
                is_default(s, [d.val for d in ds]):
            drop.add(tag)
        if status and (s.status == 'obsolete' or
                       deprecated and s.status == 'deprecated'):
            drop.add(tag)
    out = []
    for k in kids:
        if k.s.tag in drop:
            continue
        n = D(k.s, k.val, normalise(k.kids, status, deprecated))
        if n.s.kind == 'container' and not n.kids and not n.s.presence:
            continue
        if n.s.kind == 'list' and not n.kids:
            continue
        out.append(n)
    return out


def count(kids):
    return sum(1 + count(k.kids) for k in kids)


# ------------------------------------------------------------------ editing

def other_cases(s, kids):
    """Data siblings that belong to other cases of the choices enclosing s."""
    mine = {id(ch): id(cs) for ch, cs in s.case_of()}
    out = []
    for k in kids:
        for ch, cs in k.s.case_of():
            if id(ch) in mine and mine[id(ch)] != id(cs):
                out.append(k)
                break
    return out


_PRED = re.compile(r'\[\s*(?:(%s):)?(%s)\s*=\s*("[^"]*"|\'[^\']*\')\s*\]'
                   % (_NAME, _NAME))


class Server:
    """Applies edit-config documents to a data tree, as a NETCONF server."""

    def __init__(self, schema, choice_auto=True):
        self.schema = schema
        self.p = Parser(schema)
        self.choice_auto = choice_auto
        self.stats = {}

    def edit(self, kids, ele, default='merge', plain_operation=False):
        out = [k.copy() for k in kids]
        self.plain = plain_operation
        ele = deepcopy(ele)
        etree.strip_tags(ele, etree.Comment, etree.ProcessingInstruction)
        self._apply(out, ele, self.schema.root, default)
        return out

    def _hit(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def _op(self, e, inherited):
        op = e.get(OP)
        if op is None and self.plain:
            op = e.get('operation')
        if op is None:
            return inherited
        if op not in ('merge', 'create', 'replace', 'delete', 'remove'):
            raise EditError('bad-attribute', op)
        return op

    def _find(self, kids, key):
        for i, k in enumerate(kids):
            if k.key() == key:
                return i
        return None

    def _shell(self, e, s):
        """D for element e without non-key content."""
        d = D(s)
        if s.kind in ('leaf', 'leaf-list'):
            d.val = parse_value(s, e.text, e.nsmap, self.p.names)
        elif s.kind == 'list':
            for k in s.key_nodes():
                ks = [c for c in e if c.tag == k.tag]
                if len(ks) != 1:
                    raise EditError('missing-element', k.tag)
                if ks[0].get(OP) in ('delete', 'remove'):
                    raise EditError('bad-attribute', 'operation on key')
                d.kids.append(D(k, parse_value(k, ks[0].text, ks[0].nsmap,
                                               self.p.names)))
        return d

    def _place(self, kids, d, e, idx):
        """Insert or move d according to insert attributes; idx: current
        position of the old instance or None."""
        s = d.s
        ins = e.get(INS)
        if s.kind not in ('list', 'leaf-list') or not s.user:
            if ins is not None:
                raise EditError('bad-attribute', 'insert')
            if idx is None:
                kids.append(d)
            else:
                kids[idx] = d
            return
        if ins is None:
            if idx is None:
                self._hit('insert:default')
                kids.append(d)
            else:
                kids[idx] = d
            return
        self._hit('insert:' + ins)
        if idx is not None:
            del kids[idx]
        same = [i for i, k in enumerate(kids) if k.s is s]
        if ins == 'first':
            kids.insert(same[0] if same else len(kids), d)
        elif ins == 'last':
            kids.insert(same[-1] + 1 if same else len(kids), d)
        elif ins in ('before', 'after'):
            if s.kind == 'leaf-list':
                if e.get(VAL) is None:
                    raise EditError('missing-attribute', 'value')
                ref = (s.tag, parse_value(s, e.get(VAL), e.nsmap,
                                          self.p.names))
            else:
                if e.get(KEY) is None:
                    raise EditError('missing-attribute', 'key')
                ref = (s.tag, self._keyref(s, e))
            j = self._find(kids, ref)
            if j is None:
                raise EditError('missing-instance', ref)
            kids.insert(j if ins == 'before' else j + 1, d)
        else:
            raise EditError('bad-attribute', ins)

    def _keyref(self, s, e):
        text = e.get(KEY)
        pos, vals = 0, {}
        while pos < len(text):
            m = _PRED.match(text, pos)
            if not m:
                raise EditError('bad-attribute', 'key %r' % text)
            pos = m.end()
            if m.group(1) is not None:
                ns = e.nsmap.get(m.group(1)) or self.p.names.get(m.group(1))
                if ns != s.mod.ns:
                    raise EditError('bad-attribute', 'key prefix %r' % text)
            vals[m.group(2)] = m.group(3)[1:-1]
        if sorted(vals) != sorted(s.keys):
            raise EditError('bad-attribute', 'key %r' % text)
        return tuple(parse_value(k, vals[k.name], e.nsmap, self.p.names)
                     for k in s.key_nodes())

    def _apply(self, kids, ele, parent, inherited):
        for e in ele:
            if not isinstance(e.tag, str):
                continue
            s = self.schema.lookup(parent, e.tag)
            if s is None:
                raise EditError('unknown-element', e.tag)
            if parent.kind == 'list' and s.is_key:
                if e.get(OP) in ('delete', 'remove'):
                    raise EditError('bad-attribute', 'operation on key')
                continue
            op = self._op(e, inherited)
            shell = self._shell(e, s)
            idx = self._find(kids, shell.key())
            exists = idx is not None
            if exists and s.kind == 'container' and not s.presence and \
                    not canon(kids[idx].kids, defaults=False):
                exists = False          # an NP container has no existence
            self._hit('%s:%s:%s' % (op, s.kind,
                                    'hit' if exists else 'miss'))
            if op in ('delete', 'remove'):
                if not exists:
                    if op == 'delete':
                        raise EditError('data-missing', e.tag)
                if idx is not None:
                    del kids[idx]
                continue
            if op == 'create' and exists:
                raise EditError('data-exists', e.tag)
            if self.choice_auto and s.case_of():
                for k in other_cases(s, kids):
                    self._hit('case-switch')
                    kids.remove(k)
                idx = self._find(kids, shell.key())
            if op == 'replace' or idx is None:
                d = shell
            else:
                d = kids[idx]
                if s.kind in ('leaf', 'leaf-list'):
                    d.val = shell.val
            self._place(kids, d, e, idx)
            if s.kind in ('container', 'list'):
                self._apply(d.kids, e, s, op)
