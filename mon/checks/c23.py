"""C23: a device works with the models that were loaded last."""
import copy
import os
import shutil

from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.errors import ConfigError, ModelMissing
from ncdiff.model import ModelCompiler

from .. import device, env, schema, work
from ..refmodel import Parser, RefError, canon, normalise
from .c12 import c14n
from .c13 import mutate

BATCHES = dict(quick=900, thorough=12000)
RULE = ('histories of a device: scans of folders with different versions of '
        'the same modules, loading and loading again of models by name or '
        'from files, attempts that fail, lookups and configs of data of any '
        'version in between; after each step the inventory, schema lookups '
        'and acceptance of data are compared with what the last loaded '
        'versions define; non-trivial: data was looked up before another '
        'version was loaded; distinct by history')
REQUIRED = {'scan': 300, 'load': 300, 'load file': 200, 'load refused': 200,
            'known node': 3000, 'unknown node': 300, 'accepted': 300,
            'rejected': 50, 'version replaced': 200, 'not loaded': 50,
            'kind or attributes changed': 50, 'seen before': 300}


def setup(tier):
    env.newdir('c23')


def versions(rng, tag):
    S = schema.random_schema(rng, tag, dict(ro=False, size=rng.choice([10,
                                                                      22])))
    out = [S]
    for _ in range(rng.choice([1, 1, 2])):
        X = copy.deepcopy(rng.choice(out))
        X._lut = {}
        for _ in range(rng.choice([1, 2, 4, 8])):
            mutate(rng, X)
            again(X)
        out.append(X)
    return out


def again(S):
    """Marks and tables of a schema that was changed."""
    S._lut = {}
    for n in S.root.walk():
        if n.kind == 'list':
            for k in n.key_nodes():
                k.is_key = True
    S.by_ns = {m.ns: m for m in S.mods}


def want(T):
    return canon(normalise(T, status=True))


class History:
    def __init__(self, m, rng, tag):
        self.m, self.rng = m, rng
        self.V = versions(rng, tag)
        texts = [schema.emit_schema(S) for S in self.V]
        self.folders = [device.write_yang(t) for t in texts]
        self.names = [x.name for x in self.V[0].mods]
        self.trees = []         # trees[v][name], by separate compilers
        self.files = env.newdir('models')
        for v, t in enumerate(texts):
            c = ModelCompiler(device.write_yang(t))
            self.trees.append({n: c.compile(n).tree for n in self.names})
            for n in self.names:
                shutil.copy(os.path.join(c.dir_yang, n + '.xml'),
                            self.file(v, n))
        self.dev = device.make_device(
            self.folders[0], [(x.ns, x.name) for x in self.V[0].mods], [])
        self.at = 0             # version of the scanned folder
        self.loaded = {}        # name: version
        self.log = []
        self.used = False
        self.data = []
        self.replaced = False

    def file(self, v, n):
        return os.path.join(self.files, '%s-%d.xml' % (n, v))

    # ---- steps
    def scan(self):
        self.at = self.rng.randrange(len(self.V))
        self.dev.scan_models(folder=self.folders[self.at], download='ignore')
        self.log.append('scan %d' % self.at)
        self.m.ev('scan')

    def set(self, n, v, got):
        m = self.m
        if n in self.loaded and self.loaded[n] != v:
            m.ev('version replaced')
            self.replaced = self.replaced or self.used
        self.loaded[n] = v
        m.expect(got is self.dev.models.get(n) and got.name == n,
                 'returned model', '', history=self.log)

    def load(self):
        n = self.rng.choice(self.names)
        self.log.append('load %s' % n)
        self.set(n, self.at, self.dev.load_model(n))
        self.m.ev('load')

    def load_file(self):
        n, v = self.rng.choice(self.names), self.rng.randrange(len(self.V))
        self.log.append('load file %s %d' % (n, v))
        self.set(n, v, self.dev.load_model(self.file(v, n)))
        self.m.ev('load file')

    def refused(self):
        """An attempt to load what is no model changes nothing."""
        r, m = self.rng, self.m
        k = r.choice(['name', 'prefix', 'ext', 'torn', 'nofile', 'empty'])
        n = r.choice(self.names)
        p = os.path.join(self.files, 'bad.xml')
        if k == 'name':
            arg = n + r.choice(['x', '.yang', '@2020-01-01', ' '])
        elif k == 'prefix':
            arg = n[:-1]
        elif k == 'ext':
            arg = os.path.join(self.folders[self.at], n + '.yang')
        elif k == 'nofile':
            arg = self.file(99, n)
        elif k == 'empty':
            arg = p
            open(p, 'w').close()
        else:
            arg = p
            with open(self.file(0, n), 'rb') as f:
                x = f.read()
            with open(p, 'wb') as f:
                f.write(x[:r.randrange(len(x.rstrip()) - 1)])
        before = dict(self.dev.models)
        self.log.append('refused %s' % k)
        try:
            self.dev.load_model(arg)
        except (ValueError, etree.XMLSyntaxError):
            m.ev('load refused')
        else:
            m.bad('loaded what is no model', arg, history=self.log)
        m.expect(self.dev.models == before, 'failed load changed the models',
                 arg, history=self.log)

    # ---- observation
    def inventory(self):
        m, d = self.m, self.dev
        m.expect(d.models_loaded == sorted(self.loaded), 'models_loaded',
                 d.models_loaded, history=self.log)
        roots = {}
        for n, v in self.loaded.items():
            for t in self.V[v].root.data_children():
                if t.mod.name == n:
                    roots[t.tag] = n
            m.expect(c14n(d.models[n].tree) == c14n(self.trees[v][n]),
                     'model is not the one loaded last', n, history=self.log)
        m.expect(d.roots == roots, 'roots', d.roots, history=self.log)
        m.expect({x[2]: x[0] for x in d.namespaces} ==
                 {x.ns: x.name for x in self.V[self.at].mods}, 'namespaces',
                 d.namespaces, history=self.log)

    def where(self, e):
        """Schema node of e in the versions that are loaded, or None."""
        up = [e] + [x for x in e.iterancestors()][:-1]
        up.reverse()
        ns = etree.QName(up[0]).namespace
        n = [x.name for x in self.V[0].mods if x.ns == ns][0]
        if n not in self.loaded:
            return None, 'not loaded'
        S = self.V[self.loaded[n]]
        s = S.root
        for x in up:
            s = S.lookup(s, x.tag)
            if s is None:
                return None, n
        return s, n

    def lookups(self):
        m, rng = self.m, self.rng
        if self.data and rng.random() < .5:
            # what was looked up before, perhaps with other models
            v, g, T, text = rng.choice(self.data)
            S = self.V[v]
            m.ev('seen before')
        else:
            v = rng.randrange(len(self.V))
            S = self.V[v]
            W = work.World(S, self.dev, 'random')
            g = work.gen(rng, W, many=0)
            T = g.tree()
            text = g.render(T)
            self.data.append((v, g, T, text))
        self.log.append('data of %d' % v)
        ele = etree.fromstring(text, etree.XMLParser(
            remove_blank_text=True, remove_comments=True, remove_pis=True))
        known = True
        for e in ele.iter():
            if e is ele:
                continue
            s, n = self.where(e)
            try:
                got = self.dev.get_schema_node(e)
            except Exception as x:
                if s is not None:
                    from ..runner import in_repo
                    if not in_repo(x):
                        raise
                    m.bad('known node is not found', repr(x), tag=e.tag,
                          history=self.log)
                else:
                    m.ev('not loaded' if n == 'not loaded'
                         else 'unknown node')
                known = known and s is not None
                continue
            if s is None:
                known = False
                m.bad('unknown node is found', e.tag, history=self.log)
                continue
            m.ev('known node')
            self.used = True
            o = S.root
            for x in [*reversed([*e.iterancestors()][:-1]), e]:
                o = S.lookup(o, x.tag)
            if any(getattr(o, x) != getattr(s, x) for x in (
                    'kind', 'default', 'user', 'presence', 'keys')):
                m.ev('kind or attributes changed')
            m.expect(got.getroottree().getroot() is
                     self.dev.models[n].tree, 'node of an older model', e.tag,
                     history=self.log)
            m.expect(got.tag == e.tag and got.get('type') == s.kind,
                     'wrong node', e.tag, history=self.log)
        # data of a loaded version
        vs = set(self.loaded.values())
        if len(vs) == 1 and len(self.loaded) == len(self.names):
            now = self.V[vs.pop()]
            if now is S:
                c = Config(self.dev, text)
                m.ev('accepted')
                try:
                    k = canon(Parser(S).config(c.ele))
                except RefError as x:
                    m.bad('config of new data', x, history=self.log, c=c)
                    return
                m.expect(k == want(T), 'config of new data', '',
                         history=self.log, c=c)
                B = g.mutate(T)
                b = Config(self.dev, g.render(B))
                d = ConfigDelta(c, b)
                m.expect(c + d == b, 'round trip of new data', '', c=c, b=b,
                         history=self.log)
                m.expect((c == b) == (want(T) == want(B)),
                         'comparison of new data', '', c=c, b=b,
                         history=self.log)
            elif not known:
                try:
                    Config(self.dev, text)
                    m.bad('data of an older version is accepted', '',
                          text=text, history=self.log)
                except (ConfigError, ModelMissing):
                    m.ev('rejected')


def batch(m, rng, index, tier):
    for j in range(2):
        h = History(m, rng, 'y%d%s' % (index, 'ab'[j]))
        n = rng.choice([6, 10, 18])
        m.where = 'history'
        for i in range(n):
            x = rng.random()
            if x < .12:
                h.scan()
            elif x < .34:
                h.load()
            elif x < .5:
                h.load_file()
            elif x < .6:
                h.refused()
            elif x < .7:        # all of a version
                v = rng.randrange(len(h.V))
                for k in rng.sample(h.names, len(h.names)):
                    h.log.append('load file %s %d' % (k, v))
                    h.set(k, v, h.dev.load_model(h.file(v, k)))
                h.lookups()
                h.lookups()
            else:
                h.lookups()
            h.inventory()
        m.case(h.replaced, (tuple(h.log), index), lambda: dict(
            history=h.log))
