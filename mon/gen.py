"""Generators of configuration data, mutations, XML renderings and edits."""
from lxml import etree
from xml.sax.saxutils import escape, quoteattr

from .refmodel import (D, NC, YANG, canon, other_cases, quote, render_value,
                       value_urls)

PLAIN = ['a', 'b', 'c', 'one', 'two', '10', 'Eth1/0', 'x y', 'ünï', 'a&b',
         '<t>', 'p:q', 'a/b', 'a,b', 'A', '1.1.1.1', '*', '..', '{u}x',
         'true', 'false', '(x)', 'x|y', '#1', 'dflt', '0']
QUOTED = ["O'Brien", 'say "hi"', '[k]', ']', "x='1'", ' lead', 'trail ',
          '[a=b]', '\u00a0', ' ', 'it\'s "it"']


class Gen:
    def __init__(self, schema, rng, quotes=True, brackets=True, empty=True,
                 p_default=.12, p_empty_np=.08, density=.55, ro=False,
                 status=True, style=None, many=0):
        self.many = many            # entries of long lists
        self.schema = schema
        self.style = style
        self.rng = rng
        self.pool = PLAIN + (QUOTED if quotes else [])
        self.empty = empty
        self.quotes = quotes
        self.p_default = p_default
        self.p_empty_np = p_empty_np
        self.density = density
        self.ro = ro
        self.status = status
        self.key_pool = None
        self._targets = None

    # ---- values
    def value(self, s, key=False):
        r = self.rng
        t = s.typ[0]
        if t == 'boolean':
            return r.choice(['true', 'false'])
        if t in ('uint16', 'uint32', 'int32', 'uint8', 'int8'):
            if self.many and r.random() < .8:
                return str(r.randrange(100))
            return str(r.choice([0, 1, 2, 3, 7, 23, 64, 100]))
        if t == 'enumeration':
            return r.choice(s.typ[1])
        if t == 'empty':
            return ''
        if t == 'identityref':
            ids = self.schema.derived(*s.typ[1]) or [s.typ[1]]
            m, n = r.choice(ids)
            return ('id', m.ns, n)
        if t == 'instance-identifier':
            return self.iid()
        if t == 'string':
            if self.empty and r.random() < .04:
                return ''
            if self.many and r.random() < .8:
                return 'v%d' % r.randrange(self.many * 3)
            pool = self.key_pool or self.pool
            if key or s.kind == 'leaf-list':
                pool = pool[:8] if r.random() < .7 else pool
            if key:         # predicates cannot express both quotes
                pool = [v for v in pool if not ("'" in v and '"' in v)]
            return r.choice(pool)
        return r.choice(['1', '2', 'abc'])

    def iid(self):
        r = self.rng
        if self._targets is None:
            self._targets = list(self.schema.data_nodes())
        n = r.choice(self._targets)
        steps = []
        for p in n.path():
            if p.kind in ('choice', 'case'):
                continue
            steps.append(('/', p.mod.ns, p.name))
            if p.kind == 'leaf-list' and r.random() < .9:
                steps.append(('.', r.choice(['a', '10', 'x y', 'a:b'] + (
                    ["it's", 'q"t', ']', '[1]'] if self.quotes else []))))
            elif p.kind == 'list' and r.random() < .1:
                steps.append(('#', r.choice(['1', '2', '17'])))
            elif p.kind == 'list' and not (p is n and r.random() < .2):
                for k in p.key_nodes():
                    v = r.choice(['a', 'b', '10', 'Eth1/0', 'x y', 'a:b',
                                  'a.b'] +
                                 (["it's", 'q"t', "''", '', ']', "a']/b"]
                                  if self.quotes else []))
                    steps.append(('[', k.mod.ns, k.name, v))
        return ('iid', tuple(steps))

    # ---- trees
    def kids_of(self, s, density=None, skip=()):
        r = self.rng
        dens = self.density if density is None else density
        out = []
        chosen = {}
        for c in s.data_children():
            if c in skip:
                continue
            if not self.ro and not c.config:
                continue
            if not self.status and c.status:
                continue
            ok = True
            for ch, cs in c.case_of():
                if ch not in chosen:
                    opts = ch.children
                    chosen[ch] = r.choice(opts)
                if chosen[ch] is not cs:
                    ok = False
                    break
            if not ok or r.random() > dens:
                continue
            out.extend(self.instances(c))
        return out

    def instances(self, c):
        r = self.rng
        if c.kind == 'leaf':
            if c.default is not None and r.random() < self.p_default:
                return [D(c, c.default)]
            if (c.typ[0] == 'string' and isinstance(c.default, str) and
                    r.random() < self.p_default / 2):
                return [D(c, r.choice([c.default + 'x', c.default + ' ',
                                       ' ' + c.default, c.default.upper() +
                                       '.', 'x' + c.default,
                                       c.default[:-1] or 'y']))]
            return [D(c, self.value(c))]
        if c.kind == 'leaf-list':
            if c.default and r.random() < self.p_default:
                d = list(c.default)
                if not c.user:
                    r.shuffle(d)
                return [D(c, v) for v in d]
            if c.default and r.random() < self.p_default:
                # almost the default values
                d = [v for v in c.default if r.random() < .6]
                r.shuffle(d)
                if r.random() < .4:
                    v = self.value(c)
                    if v not in d:
                        d.insert(r.randint(0, len(d)), v)
                return [D(c, v) for v in d]
            seen, out = set(), []
            for _ in range(self.number()):
                v = self.value(c)
                if v not in seen:
                    seen.add(v)
                    out.append(D(c, v))
            return out
        if c.kind == 'container':
            if r.random() < self.p_empty_np:
                return [D(c)]
            kids = self.kids_of(c)
            if not kids and not c.presence and r.random() > .3:
                kids = self.kids_of(c)
            return [D(c, None, kids)] if kids or c.presence else []
        if c.kind == 'list':
            seen, out = set(), []
            for _ in range(self.number(2)):
                e = self.entry(c)
                if not c.keys or e.key() not in seen:
                    seen.add(e.key())
                    out.append(e)
            for e in self.twins(c, out):
                if e.key() not in seen:
                    seen.add(e.key())
                    out.insert(r.randint(0, len(out)), e)
            return out
        raise AssertionError(c.kind)

    def number(self, x=1):
        r = self.rng
        if self.many and r.random() < .15:
            return r.randint(5, self.many)
        return r.choice([1, 1, x, 2, 3, 4])

    def entry(self, c):
        ks = c.key_nodes()
        kids = [D(k, self.value(k, key=True)) for k in ks]
        kids += self.kids_of(c, skip=ks)
        return D(c, None, kids)

    def twins(self, c, entries):
        """Entries whose keys are easily mistaken for those of another."""
        r = self.rng
        ks = [i for i, k in enumerate(c.key_nodes()) if k.typ[0] == 'string']
        if len(ks) < 2 or r.random() > .12:
            return
        i, j = sorted(r.sample(ks, 2))
        e = r.choice(entries)
        a, b = [D(k, e.kids[n].val) for n, k in enumerate(c.key_nodes())], \
               [D(k, e.kids[n].val) for n, k in enumerate(c.key_nodes())]
        if r.random() < .3:
            a[i].val, a[j].val = e.kids[j].val, e.kids[i].val
            yield D(c, None, a + self.kids_of(c, skip=c.key_nodes()))
            return
        x, y, z = [r.choice(['a', 'b', '1', '11', 'x']) for _ in 'xyz']
        sep = r.choice(['', ',', ' ', '|', '/', ':', '-', '.', '_', ';', '#',
                        '::', ', ', '=', '+', '&', '%', '@', '~'])
        a[i].val, a[j].val = x + sep + y, z
        b[i].val, b[j].val = x, y + sep + z
        for k in (a, b):
            yield D(c, None, k + self.kids_of(c, skip=c.key_nodes()))

    def tree(self, density=None):
        return self.kids_of(self.schema.root, density)

    # ---- mutation
    def mutate(self, kids, n=None):
        out = [k.copy() for k in kids]
        for _ in range(n or self.rng.choice(
                [1, 1, 2, 3, 5, 8] + ([20, 60] if self.many else []))):
            self._mutate_once(out)
        return out

    def _spots(self, kids, s, acc):
        acc.append((kids, s))
        for k in kids:
            if k.s.kind in ('container', 'list'):
                self._spots(k.kids, k.s, acc)
        return acc

    def _mutate_once(self, root):
        r = self.rng
        kids, s = r.choice(self._spots(root, self.schema.root, []))
        keys = s.key_nodes() if s.kind == 'list' else []
        nonkey = [k for k in kids if k.s not in keys]
        what = r.random()
        if what < .3 and nonkey:
            kids.remove(r.choice(nonkey))
            # leaving an empty list entry is fine: keys stay
            return
        if what < .5 and nonkey:
            k = r.choice(nonkey)
            if k.s.kind == 'leaf':
                k.val = self.value(k.s)
                return
            same = [x for x in kids if x.s is k.s]
            if k.s.kind in ('list', 'leaf-list') and len(same) > 1:
                pos = [kids.index(x) for x in same]
                r.shuffle(same)
                for p, x in zip(pos, same):
                    kids[p] = x
                return
        # add something
        cands = [c for c in s.data_children() if c not in keys and
                 (self.ro or c.config) and (self.status or not c.status)]
        if not cands:
            return
        c = r.choice(cands)
        for o in other_cases(c, kids):
            kids.remove(o)
        if c.kind in ('leaf', 'container'):
            old = [k for k in kids if k.s is c]
            for o in old:
                kids.remove(o)
            kids.extend(self.instances(c))
            return
        have = {k.key() for k in kids}
        for e in self.instances(c):
            if e.key() not in have:
                have.add(e.key())
                pos = [i for i, k in enumerate(kids) if k.s is c]
                if pos and r.random() < .6:
                    kids.insert(r.choice(pos), e)
                else:
                    kids.append(e)

    def shuffle_system(self, kids):
        """Semantically neutral reordering: siblings of different schema nodes
        and system ordered entries are permuted, keys stay first."""
        r = self.rng
        groups = {}
        for k in kids:
            groups.setdefault(id(k.s), []).append(k)
        gs = list(groups.values())
        r.shuffle(gs)
        out = []
        for g in gs:
            g = [D(k.s, k.val, self.shuffle_system(k.kids)) for k in g]
            if g[0].s.kind in ('list', 'leaf-list') and not g[0].s.user:
                r.shuffle(g)
            out.append(g)
        flat = [x for g in out for x in g]
        if r.random() < .5:                      # interleave groups
            idx = {id(x): i for i, x in enumerate(flat)}
            tags = [x.s for x in flat]
            r.shuffle(tags)
            its = {id(g[0].s): iter(g) for g in out}
            flat = [next(its[id(t)]) for t in tags]
        keys = [x for x in flat if x.s.is_key]
        return keys + [x for x in flat if not x.s.is_key]

    # ---- rendering
    def render(self, kids, root='nc:config', pretty=None, ops=None,
               style=None):
        return Renderer(self.schema, self.rng, pretty, ops,
                        style or self.style).doc(kids, root)


def edit_ops(g, A, T, p=.25, p_bad=.06):
    """Random operations for an edit-config whose content is the tree T, to be
    executed on A.  Returns (T', ops): ops of Renderer, T' a copy of T."""
    r = g.rng
    ops = {}

    def ref_attr(s, x):
        if s.kind == 'leaf-list':
            return 'yang:value', lambda pf: render_value(
                x.val, _Pf(pf))
        ks = s.key_nodes()
        vals = dict(zip([k.name for k in ks], x.key()[1]))

        form = r.choice(['[%s:%s=%s]'] * 4 + [
            '[ %s:%s = %s ]', '[%s:%s =%s]', '[%s:%s= %s ]',
            '[\t%s:%s  =  %s]'])
        parts = list(ks)
        if r.random() < .3:
            r.shuffle(parts)
        swap = r.random() < .4
        bad = r.random() < p_bad / 2 and r.choice(
            ['part', 'name', 'prefix', 'junk', 'value'])
        if bad == 'part':
            parts = parts[1:]

        def text(pf):
            out = []
            for k in parts:
                v = quote(render_value(vals[k.name], _Pf(pf)))
                if swap and '"' not in v:
                    v = '"%s"' % v[1:-1]
                name = k.name + 'x' * (bad == 'name')
                p = 'yang' if bad == 'prefix' else pf(k.mod.ns)
                out.append(form % (p, name, v[:-1] if bad == 'value' else v))
            return ''.join(out) + ']' * (bad == 'junk')
        return 'yang:key', text

    def walk(kids, old, inherited):
        out = []
        have = {k.key(): k for k in old}
        placed = [k for k in old]
        for k in kids:
            o = have.get(k.key())
            n = D(k.s, k.val)
            at = {}
            op = None
            if k.s.is_key:
                out.append(n)
                continue
            np = k.s.kind == 'container' and not k.s.presence
            if r.random() < p:
                if r.random() < p_bad:
                    op = r.choice(['create', 'delete', 'merge', 'replace',
                                   'remove', 'none', 'Delete', ''])
                elif o is None:
                    op = r.choice(['create', 'merge', 'replace', 'remove'])
                else:
                    op = r.choice(['delete', 'merge', 'replace', 'remove'])
                if np and op == 'delete' and not (o and o.kids):
                    op = 'remove'
                if np and op == 'create' and not r.random() < p_bad:
                    op = 'merge'
            if op:
                at['nc:operation'] = op
            eff = op or inherited
            if eff in ('delete', 'remove') and op:
                if k.s.kind == 'list':
                    n.kids = [D(x.s, x.val) for x in k.kids if x.s.is_key]
                elif k.s.kind == 'leaf' and r.random() < .5:
                    n.val = k.val
            else:
                if k.s.user and k.s.kind in ('list', 'leaf-list') and \
                        r.random() < .6:
                    ins = r.choice(['first', 'last', 'before', 'after',
                                    'after'])
                    cand = [x for x in placed if x.s is k.s and
                            x.key() != k.key()]
                    if ins in ('first', 'last'):
                        at['yang:insert'] = ins
                    elif cand and r.random() > p_bad:
                        at['yang:insert'] = ins
                        a, v = ref_attr(k.s, r.choice(cand))
                        at[a] = v
                    elif r.random() < p_bad:
                        at['yang:insert'] = ins
                        if r.random() < .5:
                            for x in g.instances(k.s)[:1]:
                                if x.key() == k.key():
                                    break
                                a, v = ref_attr(k.s, x)
                                at[a] = v
                if k.s.kind in ('container', 'list'):
                    n.kids = walk(k.kids, o.kids if o else [], eff)
                if o is None:
                    placed.append(k)
            if at:
                ops[id(n)] = at
            out.append(n)
        return out
    T2 = walk(T, A, 'merge')
    return T2, ops


class _Pf:
    """ns -> prefix mapping for render_value backed by a function."""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, ns):
        return self.f(ns)


class Renderer:
    """XML text with randomised (semantically neutral) namespace style."""

    def __init__(self, schema, rng, pretty=None, ops=None, style=None):
        self.schema = schema
        self.rng = rng
        self.pretty = rng.random() < .5 if pretty is None else pretty
        self.style = style or rng.choice(['device', 'default', 'prefix',
                                          'root', 'mixed', 'swap',
                                          'shadow', 'own'])
        self.ops = ops or {}
        # comments, processing instructions, CDATA sections, references
        self.junk = rng.choice([.05, .2, .5]) if rng.random() < .15 else 0
        self.mod = {m.ns: m for m in schema.mods}
        self.alt = {m.ns: rng.choice([m.prefix, m.prefix, m.name,
                                      'q%d' % i])
                    for i, m in enumerate(schema.mods)}
        if self.style == 'swap':        # prefixes of other modules
            ps = [rng.choice([m.prefix, m.name]) for m in schema.mods]
            rng.shuffle(ps)
            self.alt = {m.ns: p for m, p in zip(schema.mods, ps)}
        if self.style == 'shadow':      # one prefix, bound again and again
            ps = ['s', 's', 's', 't', rng.choice(schema.mods).prefix]
            self.alt = {m.ns: rng.choice(ps) for m in schema.mods}
        if self.style == 'device':      # how ConfD based devices answer
            self.alt = {m.ns: m.prefix for m in schema.mods}

    def doc(self, kids, root='nc:config'):
        decl = {'nc': NC, 'yang': YANG}
        if self.style == 'root':
            for ns, p in self.alt.items():
                decl[p] = ns
        body = ''.join(self.node(k, dict(decl), 1) for k in kids)
        body += self.noise()
        nl = '\n' if self.pretty else ''
        at = ''.join(' xmlns:%s=%s' % (p, quoteattr(u))
                     for p, u in decl.items())
        if root == 'nc:config':
            return '<nc:config%s>%s%s</nc:config>' % (at, nl, body)
        if root == 'data':
            return ('<rpc-reply xmlns="%s" message-id="7"%s><data>%s%s</data>'
                    '</rpc-reply>' % (NC, at, nl, body))
        if root == 'dataonly':
            return '<nc:data%s>%s%s</nc:data>' % (at, nl, body)
        if root == 'edit':
            return ('<nc:edit-config%s><nc:target><nc:running/></nc:target>'
                    '<nc:config>%s%s</nc:config></nc:edit-config>'
                    % (at, nl, body))
        raise AssertionError(root)

    def node(self, k, scope, depth):
        r = self.rng
        ns = k.s.mod.ns
        new = {}
        inscope = dict(scope)

        def declare(p, u):
            if inscope.get(p) != u:
                inscope[p] = u
                new[p] = u
        style = self.style
        if style == 'mixed':
            style = r.choice(['default', 'prefix'])
        p = None
        if style in ('default', 'device', 'own'):
            declare(None, ns)
        else:
            p = self.alt[ns]
            declare(p, ns)
        name = k.s.name if p is None else '%s:%s' % (p, k.s.name)
        text = ''
        if k.s.kind in ('leaf', 'leaf-list'):
            pf = {}
            for u in value_urls(k.val):
                have = [q for q, v in inscope.items() if v == u]
                if k.val[0] == 'iid':
                    have = [q for q in have if q is not None]
                if style == 'own':      # the value declares its own prefixes
                    pf[u] = 'w%d' % len(pf)
                    declare(pf[u], u)
                elif style == 'device':
                    declare(self.alt[u], u)
                    pf[u] = self.alt[u]
                elif have and r.random() < .7:
                    pf[u] = r.choice(have)
                else:
                    q = self.alt[u]
                    if (r.random() < .2 and q not in inscope or
                            q == p and u != ns):
                        q = 'z' + q
                    while q in pf.values():
                        q = 'y' + q
                    declare(q, u)
                    pf[u] = q
            text = self.text(render_value(k.val, pf, r))
        def prefix_of(u):
            for q, v in inscope.items():
                if v == u and q is not None:
                    return q
            q = self.alt[u]
            while q in inscope and inscope[q] != u:
                q = 'x' + q
            declare(q, u)
            return q
        at2 = ''
        for a, v in self.ops.get(id(k), {}).items():
            at2 += ' %s=%s' % (a, quoteattr(v(prefix_of) if callable(v)
                                            else v))
        at = ''.join(' xmlns%s=%s' % ('' if q is None else ':' + q,
                                      quoteattr(u)) for q, u in new.items())
        at += at2
        ind = '  ' * depth if self.pretty else ''
        nl = '\n' if self.pretty else ''
        if k.s.kind in ('leaf', 'leaf-list'):
            ind += self.noise()
            if text == '':
                return '%s<%s%s/>%s' % (ind, name, at, nl)
            return '%s<%s%s>%s</%s>%s' % (ind, name, at, text, name, nl)
        if not k.kids:
            return '%s<%s%s/>%s' % (ind, name, at, nl)
        return '%s<%s%s>%s%s%s%s</%s>%s' % (
            ind + self.noise(), name, at, nl,
            ''.join(self.node(c, inscope, depth + 1) for c in k.kids),
            self.noise(), ind, name, nl)

    def noise(self):
        if self.junk and self.rng.random() < self.junk:
            return self.rng.choice(['<!-- note -->', '<!---->', '<?pi x?>',
                                    '<!-- <a/> -->\n'])
        return ''

    def text(self, v):
        t = escape(v)
        if not self.junk or self.rng.random() >= self.junk:
            return t
        x = self.rng.randrange(3)
        if x == 0 and ']]>' not in v:
            return '<![CDATA[%s]]>' % v if v else t
        if x == 1:
            return ''.join('&#%d;' % ord(c) for c in v)
        i = self.rng.randrange(len(v) + 1)
        # libxml2 drops blank text next to a comment (remove_blank_text)
        if any(x and not x.strip() for x in (v[:i], v[i:])):
            return t
        return escape(v[:i]) + '<!--c-->' + escape(v[i:])
