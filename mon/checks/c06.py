"""C06: operators do not modify their operands and results share nothing."""
from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.errors import ConfigDeltaError

from .. import work
from ..gen import edit_ops
from ..refmodel import normalise

BATCHES = dict(quick=800, thorough=8000)
RULE = ('random histories of 12-25 operations (+, -, negation, comparisons, '
        'filter, xpath, str, delta content, extraction, failing edits) over '
        'a pool of configs and deltas; after every operation the serialised '
        'form of every live object is compared with the one recorded when it '
        'was made, and results are vandalised to reveal sharing; non-trivial '
        '/ distinct: operation history')
REQUIRED = {'op:add': 200, 'op:sub': 200, 'op:cmp': 200, 'op:filter': 100,
            'op:neg': 50, 'op:nc': 200, 'op:edit': 100, 'op:edit-failed': 5,
            'op:element': 50, 'vandal': 300, 'snapshots': 10000}


def setup(tier):
    work.rich()


def ser(e):
    return etree.tostring(e)


def batch(m, rng, index, tier):
    W = work.world(rng, 'f%d' % index)
    dev = W.dev
    models = {n: ser(x.tree) for n, x in dev.models.items()}
    for _ in range(3):
        history(m, rng, W)
    for n, x in dev.models.items():
        m.expect(ser(x.tree) == models[n], 'schema tree modified', n)


def history(m, rng, W):
    dev = W.dev
    live = []                # (label, element getter, snapshot)
    pool, deltas, hist = [], [], []

    def track(label, get):
        live.append([label, get, ser(get())])

    def check(op):
        for label, get, snap in live:
            m.ev('snapshots')
            now = ser(get())
            if now != snap:
                m.bad('%s modified by %s' % (label.split('#')[0], op), label,
                      before=snap.decode(), after=now.decode(),
                      history=hist)

    def newconfig(c, label):
        pool.append(c)
        track('%s#%d' % (label, len(live)), lambda: c.ele)
        return c

    def newdelta(d, label):
        deltas.append(d)
        track('content of %s#%d' % (label, len(live)), lambda: d.nc)
        return d

    def vandal(ele):
        """Destroys a result that nobody else should see."""
        m.ev('vandal')
        for e in list(ele.iter()):
            if isinstance(e.tag, str):
                e.text = 'VANDAL'
                e.set('vandal', '1')
        for e in list(ele):
            ele.remove(e)
    g = work.gen(rng, W)
    A = g.tree()
    trees = [A, g.mutate(A), g.mutate(A), g.tree()]
    for t in trees:
        newconfig(Config(dev, g.render(t)), 'config')
    for step in range(rng.randint(12, 25)):
        op = rng.choice(['add', 'sub', 'cmp', 'filter', 'neg', 'nc', 'edit',
                         'element', 'str', 'xpath', 'sum', 'extract', 'sub'])
        hist.append(op)
        c, d = rng.choice(pool), rng.choice(pool)
        m.ev('op:' + op)
        if op == 'sub':
            o = rng.choice(work.options(rng, 4))
            x = ConfigDelta(c, d, **o) if rng.random() < .6 else d - c
            newdelta(x, 'delta')
        elif op == 'add' and deltas:
            x = rng.choice(deltas)
            r = rng.choice([lambda: x.config_src + x,
                            lambda: x.config_dst - x])()
            if rng.random() < .5:
                vandal(r.ele)
            else:
                newconfig(r, 'sum')
        elif op == 'sum':
            r = c + d
            if rng.random() < .5:
                vandal(r.ele)
            else:
                newconfig(r, 'sum')
        elif op == 'cmp':
            c == d, c != d, c <= d, c < d, c >= d, c > d, bool(c)
        elif op == 'filter':
            n = list(d.ele.iter())[-1] if len(d.ele) else None
            expr = '//*' if n is None or rng.random() < .2 else \
                '//*[local-name()="%s"]' % etree.QName(n).localname
            r = c.filter(expr)
            if rng.random() < .5:
                vandal(r.ele)
            else:
                newconfig(r, 'filtered')
        elif op == 'neg' and deltas:
            newdelta(-rng.choice(deltas), 'negated delta')
        elif op == 'nc' and deltas:
            x = rng.choice(deltas)
            vandal(x.nc)
        elif op == 'edit':
            T = g.mutate(trees[0])
            E, ops = edit_ops(g, normalise(trees[0]), T, p_bad=.15)
            ee = etree.fromstring(g.render(E, ops=ops))
            track('edit-config#%d' % len(live), lambda ee=ee: ee)
            try:
                r = pool[0] + ee
                if rng.random() < .5:
                    vandal(r.ele)
                else:
                    newconfig(r, 'edited')
            except ConfigDeltaError:
                m.ev('op:edit-failed')
        elif op == 'element':
            ee = etree.fromstring(g.render(g.tree()))
            track('element#%d' % len(live), lambda ee=ee: ee)
            r = Config(dev, ee)
            if rng.random() < .5:
                vandal(r.ele)
            else:
                newconfig(r, 'config')
        elif op == 'str':
            str(c), c.xml, repr(c), c.ns, c.models, c.roots
            if deltas:
                x = rng.choice(deltas)
                str(x), x.ns, x.models, x.roots, repr(x)
        elif op == 'xpath':
            c.xpath('//*')
        elif op == 'extract':
            ee = etree.fromstring(g.render(g.tree()))
            track('reply#%d' % len(live), lambda ee=ee: ee)
            r = dev.extract_config(ee)
            if rng.random() < .5:
                vandal(r.ele)
        check(op)
    m.case(True, tuple(hist) + tuple(x[2] for x in live),
           lambda: dict(history=hist, objects=[x[0] for x in live]))
